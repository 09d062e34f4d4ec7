------------------------------ MODULE MCCluster ------------------------------
(* The clustering of the implementation, depth first from every unlabelled member, as a
   transition system; on every graph and every set of members it ends with exactly the
   connected components.  Two graph edges may stand for bonds to images of an atom: only the
   atom of the cell carries a label. *)
EXTENDS Cluster
CONSTANT Nodes
VARIABLES adj, M, label, stack, next, phase, size, flag
vars == <<adj, M, label, stack, next, phase, size, flag>>
Nd == 1..Nodes
Pairs == {p \in Nd \X Nd : p[1] < p[2]}

Init == /\ \E E \in SUBSET Pairs : adj = [i \in Nd |-> {j \in Nd : <<i,j>> \in E \/ <<j,i>> \in E}]
        /\ M \in SUBSET Nd
        /\ label = [i \in Nd |-> -1] /\ stack = <<>> /\ next = 1 /\ phase = "scan" /\ size = 0
        /\ flag = [i \in Nd |-> 0]

Unlabelled == {i \in M : label[i] = -1}
Begin == /\ phase = "scan" /\ stack = <<>> /\ Unlabelled # {}
         /\ LET i == CHOOSE x \in Unlabelled : \A y \in Unlabelled : x <= y
            IN label' = [label EXCEPT ![i] = next] /\ stack' = <<i>>
         /\ next' = next + 1 /\ UNCHANGED <<adj, M, phase, size, flag>>
Visit == /\ stack # <<>>
         /\ \E j \in adj[stack[Len(stack)]] \cap Unlabelled :
              label' = [label EXCEPT ![j] = label[stack[1]]] /\ stack' = Append(stack, j)
         /\ UNCHANGED <<adj, M, next, phase, size, flag>>
Return == /\ stack # <<>> /\ adj[stack[Len(stack)]] \cap Unlabelled = {}
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED <<adj, M, label, next, phase, size, flag>>
Count(k) == Cardinality({i \in M : label[i] = k})
Tally == /\ phase = "scan" /\ stack = <<>> /\ Unlabelled = {}
         /\ phase' = "done"
         /\ size' = IF M = {} THEN 0 ELSE MaxSeq([k \in 1..(next-1) |-> Count(k)])
         /\ flag' = IF M = {} THEN flag
                    ELSE LET k == CHOOSE k \in 1..(next-1) : Count(k) = size' /\ \A x \in 1..(k-1) : Count(x) < size'
                         IN [i \in Nd |-> IF label[i] = k THEN 1 ELSE 0]
         /\ UNCHANGED <<adj, M, label, stack, next>>
Next == Begin \/ Visit \/ Return \/ Tally
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == phase = "done"
Correct == Done => /\ LabelsOK(adj, M, label) /\ size = LargestSize(adj, M) /\ FlagsOK(adj, M, flag, size)
(* clusters being found never run into those found before *)
NeverMerge == \A i \in M : \A j \in adj[i] \cap M : label[i] # -1 /\ label[j] # -1 => label[i] = label[j]
Terminates == <>Done
=============================================================================
