-------------------------------- MODULE CNA --------------------------------
(* Common neighbor analysis.  V is a sequence of displacements from an atom to its neighbors,
   near(i, j) says whether neighbors i and j are bonded to each other. *)
EXTENDS Neighbors, FiniteSetsExt

(* signature of the bond to neighbor k: common neighbors, bonds among these, the largest and
   the smallest number of such bonds that one of them has *)
Sig(adj, k) ==
  LET C == adj[k]
      deg == [i \in C |-> Cardinality(adj[i] \cap C)]
      c == Cardinality(C)
  IN IF c = 0 THEN <<0, 0, 0, 8>>
     ELSE <<c, SumSeq([i \in 1..c |-> deg[SetToSeq(C)[i]]]) \div 2,
            MaxSeq([i \in 1..c |-> deg[SetToSeq(C)[i]]]), MinSeq([i \in 1..c |-> deg[SetToSeq(C)[i]]])>>

S421 == <<4, 2, 1, 1>>
S422 == <<4, 2, 2, 0>>
S555 == <<5, 5, 2, 2>>
S444 == <<4, 4, 2, 2>>
S666 == <<6, 6, 2, 2>>

Occurs(adj, s) == Cardinality({k \in DOMAIN adj : Sig(adj, k) = s})
Class12(adj) == LET f == Occurs(adj, S421) h == Occurs(adj, S422) i == Occurs(adj, S555)
                IN IF f = 12 THEN 1 ELSE IF f = 6 /\ h = 6 THEN 2 ELSE IF i = 12 THEN 4 ELSE 0
Class14(adj) == IF Occurs(adj, S444) = 6 /\ Occurs(adj, S666) = 8 THEN 3 ELSE 0

(* which neighbors are bonded: those no farther apart than the cutoff, in sixteenths *)
Adj(V, cut16) == TLCEval([i \in DOMAIN V |-> {j \in DOMAIN V : i # j /\ Len16(Sub(V[i], V[j])) <= cut16}])
Borderline(V, cut16) == \E i, j \in DOMAIN V : i < j /\ Abs(Len16(Sub(V[i], V[j])) - cut16) <= 3

(* ascending by length *)
Ascending(C) == LET s == SetToSeq(C) IN SortSeq(s, LAMBDA a, b : N2(a.v) < N2(b.v))

(* all ways of choosing the k nearest; {} if there are too many *)
KNearest(S, k) ==
  IF Len(S) = k \/ N2(S[k].v) < N2(S[k+1].v) THEN {SubSeq(S, 1, k)}
  ELSE LET d == N2(S[k].v)
           inner == SelectSeq(S, LAMBDA x : N2(x.v) < d)
           shell == {x \in Range1(S) : N2(x.v) = d}
           m == k - Len(inner)
       IN IF Cardinality(shell) > 6 THEN {}
          ELSE {inner \o SetToSeq(X) : X \in kSubset(m, shell)}
Vs(S) == [i \in DOMAIN S |-> S[i].v]

Mean16(S, lo, hi) == SumSeq([i \in 1..(hi-lo+1) |-> Len16(S[lo+i-1].v)])
(* cutoffs in sixteenths; lat is the lattice constant in grid units, 0 for the adaptive method *)
Cut12(S, lat) == IF lat > 0 THEN (854 * 16 * lat) \div 1000 ELSE (1207 * Mean16(S, 1, 12)) \div 12000
Cut14(S, lat) == IF lat > 0 THEN (1207 * 16 * lat) \div 1000
                 ELSE (1207 * ((((1155 * Mean16(S, 1, 8)) \div 1000) + Mean16(S, 9, 14)) \div 14)) \div 1000

(* labels that the definition allows for an atom with candidates S, ascending *)
Labels(S, lat) ==
  LET c12 == Cut12(S, lat) c14 == Cut14(S, lat)
      second == LET X == KNearest(S, 14)
                IN IF X = {} THEN {0, 3}
                   ELSE UNION {IF Borderline(Vs(s), c14) THEN {0, 3} ELSE {Class14(Adj(Vs(s), c14))} : s \in X}
      X == KNearest(S, 12)
  IN IF X = {} THEN 0..4
     ELSE LET first == UNION {IF Borderline(Vs(s), c12) THEN {0, 1, 2, 4} ELSE {Class12(Adj(Vs(s), c12))} : s \in X}
          IN (first \ {0}) \cup (IF 0 \in first THEN second ELSE {})
=============================================================================
