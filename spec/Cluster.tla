------------------------------ MODULE Cluster ------------------------------
(* Clusters: connected components of the members of a graph.
   adj is a sequence of sets of nodes; M a set of nodes. *)
EXTENDS Num

RECURSIVE Grow(_, _, _, _)
Grow(adj, M, seen, front) ==
  IF front = {} THEN seen
  ELSE LET next == TLCEval((UNION {adj[i] : i \in front} \cap M) \ seen)
       IN Grow(adj, M, seen \cup next, next)
Component(adj, M, i) == Grow(adj, M, {i}, {i})

Symmetric(adj) == \A i \in DOMAIN adj : \A j \in adj[i] : i \in adj[j]

(* label is a sequence of integers *)
Classes(label, M) == {{j \in M : label[j] = label[i]} : i \in M}
LabelsOK(adj, M, label) ==
  /\ \A i \in DOMAIN label : i \notin M => label[i] = -1
  /\ \A i \in M : label[i] >= 1
  /\ \A i \in M : \A j \in adj[i] \cap M : label[i] = label[j]
  /\ \A K \in Classes(label, M) : Component(adj, M, CHOOSE i \in K : TRUE) = K

LargestSize(adj, M) ==
  LET RECURSIVE Go(_, _)
      Go(rest, best) == IF rest = {} THEN best
                        ELSE LET K == Component(adj, M, CHOOSE i \in rest : TRUE)
                             IN Go(rest \ K, Max2(best, Cardinality(K)))
  IN Go(M, 0)

(* exactly the members of one cluster of that size are flagged *)
FlagsOK(adj, M, flag, size) ==
  LET F == {i \in DOMAIN flag : flag[i] # 0}
  IN IF M = {} THEN F = {} /\ size = 0
     ELSE F # {} /\ F \subseteq M /\ Cardinality(F) = size /\ Component(adj, M, CHOOSE i \in F : TRUE) = F
=============================================================================
