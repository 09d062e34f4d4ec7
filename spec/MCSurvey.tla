------------------------------ MODULE MCSurvey ------------------------------
(* What is said of the environments of a type: it accounts for every atom, is determined by the atoms,
   and does not depend on their order or on atoms of other types.  Atoms come one after another. *)
EXTENDS Survey, TLC
CONSTANT MaxAtoms
VV == {<<0,4,4,0>>, <<0,6,0,8>>}
Vol == {1000, 1499, 2000, 2600}
D == {<<10,10,10,10,20>>, <<10,10,10,12,12>>, <<10,11,11,10,11>>}
VARIABLE A
Init == A = <<>>
Next == /\ Len(A) < MaxAtoms
        /\ \E t \in 1..2 : \E v \in Vol : \E w \in VV : \E d \in D : A' = Append(A, [t |-> t, vol |-> v, vv |-> w, d |-> d])
Spec == Init /\ [][Next]_A

Sorted(S) == CHOOSE s \in [1..Cardinality(S) -> S] : Ascending(s)
Lists(t) == LET v == Sorted(Volumes(A, t)) IN
            {<<v, w, [i \in DOMAIN v |-> CountOf(A, t, v[i])]>> : w \in {s \in [1..Cardinality(Vectors(A, t)) -> Vectors(A, t)] : Entries(s) = Vectors(A, t)}}
Total(s) == LET F[i \in 0..Len(s)] == IF i = 0 THEN 0 ELSE F[i-1] + s[i] IN F[Len(s)]
Good(t) == {x \in Lists(t) : Describes(A, t, x[1], x[2], x[3])}
Described == \A t \in 1..2 : /\ Good(t) # {}
                             /\ OneToOne(A, t) => Cardinality(Good(t)) = 1
                             /\ \A x \in Good(t) : Total(x[3]) = Cardinality(OfType(A, t))
Rev == [i \in DOMAIN A |-> A[Len(A) + 1 - i]]
OrderFree == \A t \in 1..2 : \A x \in Good(t) : Describes(Rev, t, x[1], x[2], x[3])
(* wider ranges find more of the neighbors, and four are counted only in a window of ranges *)
Windows == \A i \in DOMAIN A : \A p \in {50, 100, 250} : \A q \in {p, 250} :
             Cardinality({k \in DOMAIN A[i].d : Within(A[i].d[k], Least(A[i].d), p)}) <= Cardinality({k \in DOMAIN A[i].d : Within(A[i].d[k], Least(A[i].d), q)})
=============================================================================
