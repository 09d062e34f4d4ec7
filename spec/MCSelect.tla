------------------------------ MODULE MCSelect ------------------------------
(* Exhaustive: the ways of selecting neighbors from sorted candidates, on every ascending list
   of distances, with every assignment of two types. *)
EXTENDS Neighbors
CONSTANTS MaxLen, MaxD

VARIABLES ds, ts     \* distances and types of the candidates of an atom of type 1
vars == <<ds, ts>>
Init == ds = <<>> /\ ts = <<>>
Next == /\ Len(ds) < MaxLen
        /\ \E e \in (IF ds = <<>> THEN 1 ELSE ds[Len(ds)])..MaxD, t \in {1, 2} :
             ds' = Append(ds, e) /\ ts' = Append(ts, t)
Spec == Init /\ [][Next]_vars

(* each candidate in a direction of its own: equal distances are different atoms *)
C == {[v |-> <<ds[i], 0, 0>>, t |-> ts[i], k |-> i] : i \in DOMAIN ds}
L == [i \in DOMAIN ds |-> 16*ds[i]]
Adm(f) == {y \in C : Admit(f, 1, y.t)}

(* the two filters divide the neighbors between them *)
FiltersPartition == Adm(1) \cup Adm(2) = Adm(0) /\ Adm(1) \cap Adm(2) = {}

(* all ways of choosing k nearest agree on the distances *)
NearestUnique == \A k \in 0..Len(ds) :
   LET N == {S \in SUBSET C : Cardinality(S) = k /\ \A a \in S, b \in C \ S : a.v[1] <= b.v[1]}
   IN Cardinality({SortInts([i \in 1..k |-> SetToSeq(S)[i].v[1]]) : S \in N}) = 1

(* adaptive cutoffs: larger padding, larger cutoff; padding of one or more reaches beyond the nearest *)
A2 == [i \in DOMAIN ds |-> ds[i]*ds[i]]
AdaptiveMono == \A n \in 1..Len(ds) :
   /\ AdaptiveCut16(A2, n, 100) <= AdaptiveCut16(A2, n, 120)
   /\ n > 1 => AdaptiveCut16(A2, n-1, 100) <= AdaptiveCut16(A2, n, 100) + 1
   /\ AdaptiveCut16(A2, n, 120) > 16*ds[1]

(* SANN: the number of neighbors is the first at which the cutoff drops below the next distance;
   the known deviation of the implementation passes over rank 4 whenever it goes beyond 3 *)
Sum3(m) == SumSeq(SubSeq(L, 1, m))
SannDef == Len(ds) >= 3 =>
   LET M == SannIdeal(L)
   IN \A m \in M \ {0} : /\ m >= 3 /\ m < Len(L)
                         /\ Sum3(m) \div (m-2) <= L[m+1] + 2
                         /\ \A j \in 3..(m-1) : Sum3(j) \div (j-2) >= L[j+1] - 2
SannDevDiffers == Len(ds) >= 3 =>
   \A m \in SannDev(L) \ {0} : (m > 3) => 4 \notin DevRanks(m) /\ m + 1 \in DevRanks(m) /\ m + 1 <= Len(L)
=============================================================================
