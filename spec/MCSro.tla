------------------------------- MODULE MCSro -------------------------------
(* Short range order of every assignment of two types to a few atoms, with every list of
   neighbors and distances of one of them. *)
EXTENDS Environment
CONSTANTS N, MaxNb
VARIABLES types, nb      \* neighbors of atom 1: records of atom and distance
vars == <<types, nb>>
Init == types \in [1..N -> {1, 2}] /\ types[1] = 1 /\ (\E i \in 1..N : types[i] = 2) /\ nb = <<>>
Next == /\ Len(nb) < MaxNb /\ UNCHANGED types
        /\ \E j \in 2..N, d \in {16, 24, 40} : nb' = Append(nb, [j |-> j, d |-> d])
Spec == Init /\ [][Next]_vars

Num(t) == Cardinality({i \in 1..N : types[i] = t})
K(t, S) == Cardinality({k \in S : types[nb[k].j] = t})
n == Len(nb)
All == DOMAIN nb
(* one minus a nonnegative number *)
AtMostOne == n > 0 => \A t \in {1, 2} : Cowley(K(t, All), n, Num(t), N) <= 1000000
(* as many as by chance *)
ZeroByChance == n > 0 => \A t \in {1, 2} : (K(t, All) * N = n * Num(t)) => Cowley(K(t, All), n, Num(t), N) = 0
Full == n > 0 => /\ (K(2, All) = 0 => Cowley(0, n, Num(2), N) = 1000000)
                 /\ (K(1, All) = n => Close(CowleySame(n, n, Num(1), N), 1000000, 1))
(* the two parameters weighted with the concentrations cancel *)
SumRule == n > 0 => Close(Num(1) * Cowley(K(1, All), n, Num(1), N) + Num(2) * Cowley(K(2, All), n, Num(2), N), 0, 2*N)
(* for two types the parameter with the delta is minus that of the other pair, up to the ratio of concentrations *)
DeltaRule == n > 0 => Close(CowleySame(K(1, All), n, Num(1), N), Cowley(K(2, All), n, Num(2), N), 3)
D == [k \in DOMAIN nb |-> nb[k].d]
Shells == n > 0 => LET s == ShellSplit(D) IN
   /\ \E k \in All : s[k]
   /\ \A a, b \in All : s[a] /\ ~s[b] => D[a] < D[b]
   /\ (\A k \in All : s[k]) = (Cardinality(Range1(D)) = 1)
Fractions == \A a \in 0..30, b \in 1..30 :
   LET x == Millionths(a, b) IN (x * b <= a * 1000000) /\ (a * 1000000 < (x + 1) * b)
=============================================================================
