----------------------------- MODULE MCDiamond -----------------------------
(* Labelling the surroundings of diamond cores, atom by atom in the order of the list, as a
   transition system over every arrangement of first and second neighbors: the outcome is
   what the definition says, whatever was labelled before. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANT Atoms
VARIABLES n1, n2, label, pc, stage, core
vars == <<n1, n2, label, pc, stage, core>>
A == 1..Atoms
Lists == {S \in SUBSET A : S # {}}
Cores == {5, 8}

Init == /\ n1 \in [A -> Lists] /\ n2 \in [A -> Lists]
        /\ \A i \in A : i \notin n1[i] /\ i \notin n2[i]
        /\ core \in [A -> {0, 5, 8}] /\ label = core /\ pc = 1 /\ stage = 1

(* the first neighbor in the list that is a core decides *)
First(S) == LET C == {x \in S : label[x] \in Cores} IN
            IF C = {} THEN 0 ELSE label[CHOOSE x \in C : \A y \in C : x <= y]
Step == /\ stage \in {1, 2}
        /\ LET f == First(IF stage = 1 THEN n1[pc] ELSE n2[pc])
               free == IF stage = 1 THEN label[pc] \notin Cores ELSE label[pc] \notin Cores \cup {6, 9}
           IN label' = IF free /\ f # 0 THEN [label EXCEPT ![pc] = f + stage] ELSE label
        /\ pc' = IF pc = Atoms THEN 1 ELSE pc + 1
        /\ stage' = IF pc = Atoms THEN stage + 1 ELSE stage
        /\ UNCHANGED <<n1, n2, core>>
Spec == Init /\ [][Step]_vars

Allowed(i) == LET a == {core[x] : x \in n1[i]} \cap Cores
                  b == {core[x] : x \in n2[i]} \cap Cores
              IN IF core[i] \in Cores THEN {core[i]}
                 ELSE IF a # {} THEN {y + 1 : y \in a}
                 ELSE IF b # {} THEN {y + 2 : y \in b} ELSE {0}
Correct == stage = 3 => \A i \in A : label[i] \in Allowed(i)
CoresStay == \A i \in A : (core[i] \in Cores) = (label[i] \in Cores)
=============================================================================
