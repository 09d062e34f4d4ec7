------------------------------ MODULE TraceNbr ------------------------------
(* Recorded neighbor searches (C01 - C05) against Neighbors. *)
EXTENDS Neighbors, Conform

FailCut(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              E == TLCEval(Within(r, o.h, r.cut))
          IN Cl("WellFormed", WellFormed(o))
             \cup Cl("Missing", E \subseteq VecSet(o))
             \cup Cl("Extra", VecSet(o) \subseteq E)
             \cup Cl("Distance", DistOK(o))
             \cup Cl("Index", WellFormed(o) => IndexOK(r, o))
             \cup Cl("Weight", WeightsOne(o))
             \cup Cl("CutoffAttr", Close(o.cut, 10*r.cut + 5, 1))
        : i \in DOMAIN r.obs }

(* number: the search radius is known to lie between sqrt(lo) and sqrt(hi) *)
FailNum(r) ==
  LET N == Len(r.pos)
      Adm(h, thr) == {y \in Cands(r, h, thr) : Admit(r.filter, r.types[h], y.t)}
  IN IF r.err2 # ""
     THEN (* refusing is right only when some atom has too few candidates *)
          Cl("Error", r.err2 = "RuntimeError" /\ \E h \in 1..N : Cardinality(Adm(h, r.lo)) < r.nmax)
     ELSE Cl("ShouldFail", \A i \in DOMAIN r.obs : Cardinality(Adm(r.obs[i].h, r.hi)) >= r.nmax)
          \cup UNION { LET o == r.obs[i]
                           C == Adm(o.h, r.hi)
                       IN Cl("WellFormed", WellFormed(o))
                          \cup Cl("Nearest", WellFormed(o) => NearestOK(C, o, r.nmax))
                          \cup Cl("Distance", DistOK(o))
                          \cup Cl("Index", WellFormed(o) => IndexOK(r, o))
                          \cup Cl("Weight", WeightsOne(o))
                          \cup Cl("CutoffAttr", WellFormed(o) =>
                                  Close(o.cut, MaxSeq([k \in DOMAIN o.n |-> Len10(o.n[k].v)]), 12))
                     : i \in DOMAIN r.obs }

FailAdaptive(r) ==
  LET N == Len(r.pos)
      rad16 == 16 * ISqrt(r.lo)
      Cut(C) == AdaptiveCut16(SortedN2(C), r.nlimit, r.padding)
  IN IF r.err2 # ""
     THEN Cl("Error", /\ r.err2 = "RuntimeError"
                      /\ \E h \in 1..N : LET C == Cands(r, h, r.lo)
                                         IN \/ Cardinality(C) < r.nlimit
                                            \/ Cut(C) > rad16 - 20)
     ELSE UNION { LET o == r.obs[i]
                      C == Cands(r, o.h, r.hi)
                      enough == Cardinality(C) >= r.nlimit
                      cut == Cut(C)
                      A == {y \in C : Admit(r.filter, r.types[o.h], y.t)}
                      must == {y.v : y \in {x \in A : Len16(x.v) < cut - 5}}
                      may == {y.v : y \in {x \in A : Len16(x.v) <= cut + 5}}
                  IN IF ~enough THEN {"ShouldFail"}
                     ELSE Cl("WellFormed", WellFormed(o))
                          \cup Cl("Missing", must \subseteq VecSet(o))
                          \cup Cl("Extra", VecSet(o) \subseteq may)
                          \cup Cl("Distance", DistOK(o))
                          \cup Cl("Index", WellFormed(o) => IndexOK(r, o))
                          \cup Cl("Weight", WeightsOne(o))
                          \* an atom all of whose neighbors are filtered out has no use for a cutoff
                          \cup Cl("CutoffAttr", o.coord > 0 => Close(o.cut, (cut*10) \div 16, 5))
                : i \in DOMAIN r.obs }

(* the n2 values at the given ranks, as a bag *)
AtRanks(A, R) == LET s == SortInts(SetToSeq(R)) IN Bag([i \in 1..Len(s) |-> A[s[i]]])

FailSann(r) ==
  IF r.err2 # ""
  THEN Cl("Error", r.err2 = "RuntimeError" /\ r.mayfail)
  ELSE UNION { LET o == r.obs[i]
                   C == Cands(r, o.h, r.hi)
                   A == SortedN2(C)
                   L == [k \in 1..Len(A) |-> L16(A[k])]
                   obsbag == Bag([k \in DOMAIN o.n |-> N2(o.n[k].v)])
                   tied == Cardinality(Range1(A)) < Len(A)
                   (* with a type filter, ranks belong to definite atoms only without ties *)
                   V(R) == {y \in C : \E k \in R : A[k] = N2(y.v)}
                   Vecs2(R) == {y.v : y \in {x \in V(R) : Admit(r.filter, r.types[o.h], x.t)}}
                   Is(R) == IF r.filter = 0 THEN obsbag = AtRanks(A, R)
                            ELSE tied \/ VecSet(o) = Vecs2(R)
                   ideal == \E m \in SannIdeal(L) \ {0} : Is(IdealRanks(m))
                   dev == \E m \in SannDev(L) \ {0} : Is(DevRanks(m))
                   cutideal == \E m \in SannIdeal(L) \ {0} :
                                  Close(o.cut, (10*SumSeq(SubSeq(L, 1, m))) \div (16*(m-2)), 5)
                   cutdev == \E m \in SannDev(L) \ {0} :
                                  Close(o.cut, (10*SumSeq([k \in 1..m |-> IF k <= 3 THEN L[k] ELSE L[k+1]]))
                                               \div (16*(m-2)), 5)
               IN Cl("WellFormed", WellFormed(o))
                  \cup Cl("Candidates", VecSet(o) \subseteq {x.v : x \in C})
                  \cup (IF ideal THEN Cl("CutoffAttr", cutideal \/ (r.filter # 0 /\ cutdev))
                        ELSE IF dev THEN {"SannRank4"} \cup Cl("CutoffAttr", cutdev)
                        ELSE {"Sann"})
                  \cup Cl("Distance", DistOK(o))
                  \cup Cl("Index", WellFormed(o) => IndexOK(r, o))
                  \cup Cl("Weight", WeightsOne(o))
             : i \in DOMAIN r.obs }

(* a filtered search keeps exactly the admitted neighbors of the unfiltered one *)
FailSub(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET a == r.full[i] b == r.obs[i]
              K(x) == {<<x.n[k].v, x.n[k].d, x.n[k].w, x.n[k].i>> : k \in DOMAIN x.n}
              keep == {k \in DOMAIN a.n : Admit(r.filter, r.types[a.h], a.n[k].t)}
              want == Bag([k \in 1..Cardinality(keep) |->
                             LET s == SortInts(SetToSeq(keep)) e == a.n[s[k]]
                             IN <<e.v, e.d, e.w, e.i>>])
              got == Bag([k \in DOMAIN b.n |-> <<b.n[k].v, b.n[k].d, b.n[k].w, b.n[k].i>>])
          IN Cl("Lists", \A k \in 1..4 : b.len[k] = b.coord)
             \cup Cl("Filtered", want = got)
        : i \in DOMAIN r.obs }

(* distance queries: obs are distance (x10) and displacement from the second to the first *)
FailDist(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET e == r.pairs[i]
              d == Sub(e.a, e.b)
              w == Wrap(r.cell, d)
              tie == IsTie(r.cell, d)
              v == e.v
          IN Cl("Displacement", IsVec(v) /\ IsLatticeVec(r.cell, Sub(v, d)))
             \cup Cl("Nearest", (IsVec(v) /\ ~tie) => v = w)
             \cup Cl("Length", IsVec(v) => DistOK([n |-> <<[v |-> v, d |-> e.d]>>]))
             \cup Cl("Plain", e.dplain = e.d)
             \* exact: with halves, either side, the distance is the same for orthogonal cells
             \cup Cl("TieLength", (IsVec(v) /\ tie /\ IsOrtho(r.cell)) => N2(v) = N2(w))
             \cup Cl("Symmetric", tie \/ (e.dback = e.d /\ IsVec(e.vback) /\ e.vback = Scale(-1, v)))
             \* no image is shorter, when the distance is below half the smallest width
             \cup Cl("Shortest", (IsVec(v) /\ N2(v) <= r.halfw2) =>
                       \A s \in Shifts(r.cell, 1) : N2(Add(v, s)) >= N2(v))
        : i \in DOMAIN r.pairs }

FailNbr(r) == CASE r.kind = "cut" -> FailCut(r)
                [] r.kind = "num" -> FailNum(r)
                [] r.kind = "adap" -> FailAdaptive(r)
                [] r.kind = "sann" -> FailSann(r)
                [] r.kind = "sub" -> FailSub(r)
                [] r.kind = "dist" -> FailDist(r)
=============================================================================
