------------------------------- MODULE Survey -------------------------------
(* Lists made from the Voronoi cells of the atoms of a structure (pyscal.misc).
   An atom is [t: type, vol: volume in 1000ths of the last digit that counts, vv: its Voronoi vector,
   d: distances of its neighbors]. *)
EXTENDS Num, Sequences, FiniteSets

(* ---- distinct environments ---- *)
RoundUnit(v) == (v + 500) \div 1000
BetweenUnits(v) == \E e \in {-3, 3} : RoundUnit(v + e) # RoundUnit(v)      \* rounding decides
OfType(A, t) == {i \in DOMAIN A : A[i].t = t}
Volumes(A, t) == {RoundUnit(A[i].vol) : i \in OfType(A, t)}
Vectors(A, t) == {A[i].vv : i \in OfType(A, t)}
Pairs(A, t) == {<<RoundUnit(A[i].vol), A[i].vv>> : i \in OfType(A, t)}
CountOf(A, t, v) == Cardinality({i \in OfType(A, t) : RoundUnit(A[i].vol) = v})
(* volumes and vectors tell the same atoms apart *)
OneToOne(A, t) == /\ Cardinality(Pairs(A, t)) = Cardinality(Volumes(A, t))
                  /\ Cardinality(Pairs(A, t)) = Cardinality(Vectors(A, t))
Ascending(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
Entries(s) == {s[i] : i \in DOMAIN s}
(* the lists vols, vvs, counts describe the environments of the atoms of type t *)
Describes(A, t, vols, vvs, counts) ==
  /\ Ascending(vols) /\ Entries(vols) = Volumes(A, t)
  /\ counts = [i \in DOMAIN vols |-> CountOf(A, t, vols[i])]
  /\ Cardinality(Entries(vvs)) = Len(vvs) /\ Entries(vvs) = Vectors(A, t)
  /\ OneToOne(A, t) => \A i \in DOMAIN vols : <<vols[i], vvs[i]>> \in Pairs(A, t)

(* ---- atoms in tetrahedral places: four quadrangular faces, and four neighbors at about the
   smallest distance, p in 1000ths ---- *)
Least(d) == CHOOSE x \in {d[i] : i \in DOMAIN d} : \A i \in DOMAIN d : x <= d[i]
Within(x, m, p) == m * (1000 - p) <= 1000 * x /\ 1000 * x <= m * (1000 + p)
Tetrahedral(a, p) == a.vv[2] = 4 /\ a.d # <<>> /\ Cardinality({i \in DOMAIN a.d : Within(a.d[i], Least(a.d), p)}) = 4
VoidUnsure(a, p) == a.d # <<>> /\ LET m == Least(a.d) IN
  \E i \in DOMAIN a.d : Abs(1000 * a.d[i] - m * (1000 + p)) <= 4000 \/ Abs(1000 * a.d[i] - m * (1000 - p)) <= 4000
=============================================================================
