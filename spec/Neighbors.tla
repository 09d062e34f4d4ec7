----------------------------- MODULE Neighbors -----------------------------
(* Which atoms are neighbors of an atom, in the infinite periodic arrangement.

   A structure is a cell, positions and types.  Every operator speaks about displacement
   vectors, so it does not matter how the implementation numbers atoms and their images. *)
EXTENDS Cell

(* candidates of host h: records of displacement, squared length and type *)
Cands(r, h, thr) ==
  LET S == IF r.K = 0 THEN {<<0,0,0>>} ELSE Shifts(r.cell, r.K)
      W(j) == Wrap(r.cell, Sub(r.pos[j], r.pos[h]))
  IN TLCEval(UNION { {[v |-> Add(W(j), s), t |-> r.types[j], j |-> j] :
                        s \in {x \in S : LET m == N2(Add(W(j), x)) IN m > 0 /\ m <= thr}}
                     : j \in 1..Len(r.pos) })

Admit(filter, th, t) == CASE filter = 0 -> TRUE
                          [] filter = 1 -> t = th
                          [] filter = 2 -> t # th

(* cutoff method: all candidates closer than the cutoff (c + 1/2) that pass the filter *)
Within(r, h, c) == {x.v : x \in {y \in Cands(r, h, c*c + c) : Admit(r.filter, r.types[h], y.t)}}

(* ---- observations: o is what the user sees of the neighbors of host o.h ---- *)
Vecs(o) == [k \in DOMAIN o.n |-> o.n[k].v]
VecSet(o) == {o.n[k].v : k \in DOMAIN o.n}

(* the parallel lists have one entry for each neighbor, no neighbor is listed twice *)
WellFormed(o) == /\ \A k \in 1..4 : o.len[k] = o.coord
                 /\ Len(o.n) = o.coord
                 /\ Cardinality(VecSet(o)) = o.coord
                 /\ \A k \in DOMAIN o.n : IsVec(o.n[k].v) /\ IsVec(o.n[k].p)

(* the distance is the length of the displacement; ten times the length was recorded *)
DistOK(o) == \A k \in DOMAIN o.n :
               LET d == o.n[k].d n == N2(o.n[k].v)
               IN IF n > 16000000 THEN Close(d \div 10, ISqrt(n), 2)
                  ELSE Close(d, ISqrt(100*n), 1)

(* the index of a neighbor leads to an atom at that displacement (or an image of it) *)
IndexOK(r, o) ==
  \A k \in DOMAIN o.n :
     LET e == o.n[k]
         at == Add(r.pos[o.h], e.v)
     IN /\ IsLatticeVec(r.cell, Sub(e.p, at))
        /\ IF e.i <= Len(r.pos) THEN e.p = r.pos[e.i] /\ e.t = r.types[e.i]
           ELSE /\ Len(r.pos) < 200
                /\ \E j \in 1..Len(r.pos) : /\ r.types[j] = e.t
                                            /\ IsLatticeVec(r.cell, Sub(e.p, r.pos[j]))

WeightsOne(o) == \A k \in DOMAIN o.n : o.n[k].w = 1000

(* ten times the length of a displacement, for comparing with cutoffs *)
Len10(v) == LET n == N2(v) IN IF n > 16000000 THEN 10*ISqrt(n) ELSE ISqrt(100*n)

(* ---- the k nearest: all listed are at least as near as any not listed ---- *)
NearestOK(C, o, k) ==
  LET V == VecSet(o)
      A == {x.v : x \in C}
      far == MaxSeq([i \in DOMAIN o.n |-> N2(o.n[i].v)])
  IN /\ o.coord = k
     /\ V \subseteq A
     /\ \A v \in A \ V : N2(v) >= far

(* ---- adaptive and SANN: lengths are in sixteenths of a grid unit ---- *)
Len16(v) == LET n == N2(v) IN IF n < 8000000 THEN ISqrt(256*n) ELSE 16*ISqrt(n)

(* squared lengths of candidates, ascending, with multiplicity *)
SortedN2(C) == LET s == SetToSeq(C) IN SortInts([i \in 1..Len(s) |-> N2(s[i].v)])
L16(n2) == IF n2 < 8000000 THEN ISqrt(256*n2) ELSE 16*ISqrt(n2)

(* adaptive: padding times the mean distance of the nlimit nearest; padding in hundredths *)
AdaptiveCut16(A, nlimit, padding) ==
  LET s == SumSeq([i \in 1..nlimit |-> L16(A[i])])
  IN ((s \div nlimit) * padding + ((s % nlimit) * padding) \div nlimit) \div 100

(* SANN: the smallest m >= 3 with (r_1 + ... + r_m)/(m-2) < r_(m+1); a set, because the
   comparison is only known up to rounding; 0 stands for running out of candidates *)
RECURSIVE SannIt(_, _, _)
SannIt(L, m, sum) ==
  IF m + 1 > Len(L) THEN {0}
  ELSE LET cut == sum \div (m-2)
       IN (IF cut <= L[m+1] + 2 THEN {m} ELSE {})
          \cup (IF cut >= L[m+1] - 2 THEN SannIt(L, m+1, sum + L[m+1]) ELSE {})
SannIdeal(L) == IF Len(L) < 3 THEN {0} ELSE SannIt(L, 3, L[1]+L[2]+L[3])

(* what the implementation computes (a known deviation): rank 4 is passed over, in the list
   and in the sum, and the list goes one rank too far *)
RECURSIVE SannDevIt(_, _, _)
SannDevIt(L, m, sum) ==
  IF m + 1 > Len(L) THEN {0}
  ELSE LET cut == sum \div (m-2)
       IN (IF cut <= L[m+1] + 2 THEN {m} ELSE {})
          \cup (IF cut >= L[m+1] - 2
                THEN IF m + 2 > Len(L) THEN {0} ELSE SannDevIt(L, m+1, sum + L[m+2])
                ELSE {})
SannDev(L) == IF Len(L) < 3 THEN {0} ELSE SannDevIt(L, 3, L[1]+L[2]+L[3])

IdealRanks(m) == 1..m
DevRanks(m) == IF m = 3 THEN 1..3 ELSE (1..3) \cup (5..(m+1))
=============================================================================
