------------------------------ MODULE TraceBond ------------------------------
(* Recorded Steinhardt parameters, solids, disorder and clusters (C07 - C10, C16) against
   BondOrder and Cluster. *)
EXTENDS BondOrder, Cluster, Conform

TOL == 700        \* of squares, 20 bits

(* one q_l of one atom: o.l, o.q, o.re, o.im (m = -l .. l) *)
QOK(r, A, e) ==
  LET l == e.l
      b == Norm2(l, A, r.unitw)
      t == QTop(l, A, r.unitw)
  IN Cl("Value", e.q # BIG /\ e.q >= -2 /\ e.q <= ONE + TOL /\ Close(Mul(e.q, e.q), b, TOL))
     \cup Cl("ComponentsCount", Len(e.re) = 2*l + 1 /\ Len(e.im) = 2*l + 1)
     \cup (IF Len(e.re) # 2*l + 1 \/ \E m \in DOMAIN e.re : e.re[m] = BIG \/ e.im[m] = BIG THEN {"Components"}
           ELSE Cl("ComponentsNorm", Close(Mul(CNorm[l], SumSq(e.re, e.im)), Mul(e.q, e.q), TOL))
                \cup Cl("Conjugate", \A m \in 0..l :
                           LET s == IF m % 2 = 0 THEN 1 ELSE -1
                           IN /\ Close(e.re[l+1-m], s * e.re[l+1+m], 20)
                              /\ Close(e.im[l+1-m], -s * e.im[l+1+m], 20))
                \cup Cl("ComponentZero", Close(e.re[l+1], QZero(l, A, r.unitw), TOL) /\ Abs(e.im[l+1]) <= 4)
                \cup Cl("ComponentTop", Close(e.re[2*l+1], t[1], TOL) /\ Close(e.im[2*l+1], t[2], TOL)))

FailQ(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              A == Bonds(r, o.h)
          IN Cl("Linked", Linked(r, o.h))
             \cup (IF A = <<>> THEN {} ELSE UNION {QOK(r, A, o.qs[x]) : x \in DOMAIN o.qs})
             \cup Cl("Access", o.same)
        : i \in DOMAIN r.obs }
  \cup \* scalar products of the components reported for two atoms
  UNION { LET p == r.pairs[i]
              A == Bonds(r, p.h) C == Bonds(r, p.k)
              e == p.a f == p.b
              s == SumSeq([m \in DOMAIN e.re |-> Mul(e.re[m], f.re[m]) + Mul(e.im[m], f.im[m])])
          IN IF A = <<>> \/ C = <<>> \/ BIG \in Range1(e.re) \cup Range1(f.re) THEN {}
             ELSE Cl("PairProduct", Close(Mul(CNorm[e.l], s), Prod(e.l, A, C, r.unitw), TOL))
        : i \in DOMAIN r.pairs }

(* averaged: o.qs[x] has aq, are, aim; r.comp[x][j] has the components of atom j; atoms without
   neighbors that count have none to speak of *)
FailAvg(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              S == AdmSeq(r, o.h)
              n == Len(S) + 1
          IN Cl("Linked", Linked(r, o.h))
             \cup Cl("Access", o.same)
             \cup (IF S = <<>> THEN {} ELSE
                   UNION { LET e == o.qs[x]
                               c == r.comp[x]
                               mre == [m \in DOMAIN e.are |->
                                        (c[o.h].re[m] + SumSeq([k \in DOMAIN S |-> c[S[k].j].re[m]])) \div n]
                               mim == [m \in DOMAIN e.aim |->
                                        (c[o.h].im[m] + SumSeq([k \in DOMAIN S |-> c[S[k].j].im[m]])) \div n]
                           IN Cl("Components", BIG \notin Range1(c[o.h].re) /\ Len(e.are) = 2*e.l + 1)
                              \cup Cl("AvgComponents", /\ \A m \in DOMAIN e.are : Close(e.are[m], mre[m], 6)
                                                       /\ \A m \in DOMAIN e.aim : Close(e.aim[m], mim[m], 6))
                              \cup Cl("AvgValue", Close(Mul(e.aq, e.aq), Mul(CNorm[e.l], SumSq(mre, mim)), 60))
                              \cup (IF e.cond THEN LET A == Bonds(r, o.h) b == Norm2(e.l, A, r.unitw)
                                    IN Cl("Value", Close(Mul(e.q, e.q), b, TOL)) ELSE {})
                         : x \in DOMAIN o.qs })
        : i \in DOMAIN r.obs }

(* s_ij of host h with all of its neighbors, 15 bits *)
SijList(r, h, l) ==
  LET A == Bonds(r, h)
      bii == Norm2(l, A, r.unitw)
      js == {r.nb[h][k].j : k \in DOMAIN r.nb[h]}
      S == TLCEval([j \in js |-> LET C == Bonds(r, j) IN SijOf(Prod(l, A, C, r.unitw), bii, Norm2(l, C, r.unitw))])
  IN TLCEval([k \in DOMAIN r.nb[h] |-> S[r.nb[h][k].j]])
(* all norms large enough for the quotient to mean something *)
Solidish(r, h, l) == \A j \in {h} \cup {r.nb[h][k].j : k \in DOMAIN r.nb[h]} :
                        /\ r.nb[j] # <<>>
                        /\ Norm2(l, Bonds(r, j), r.unitw) > 36000

FailSolid(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              n == Len(r.nb[o.h])
              right == r.right
              lo == SolidLo(o.sij, r.thr, right, 2)
              hi == SolidHi(o.sij, r.thr, right, 2)
              mean == IF n = 0 THEN 0 ELSE SumSeq([k \in DOMAIN o.sij |-> o.sij[k] \div 10]) \div n
              avgyes == IF right THEN o.avg > r.avgthr + 2 ELSE o.avg < r.avgthr - 2
              avgno == IF right THEN o.avg < r.avgthr - 2 ELSE o.avg > r.avgthr + 2
              e(c) == Enough(c, n, r.bonds, r.isfrac)
          IN IF n = 0 THEN {} ELSE
             IF o.least < 1000 /\ BIG \in Range1(o.sij) THEN {} ELSE
             Cl("SijCount", Len(o.sij) = n)
             \cup Cl("SijNumbers", BIG \notin Range1(o.sij))
             \cup Cl("OnePair", Len(o.pair) = Len(o.sij) /\ (o.least < 1000 \/ \A k \in DOMAIN o.sij : Close(o.pair[k], o.sij[k], 1)))
             \cup Cl("Again", o.again = o.sij /\ o.bonds2 = o.bonds /\ o.avg2 = o.avg)
             \cup (IF ~o.deep THEN {}
                   ELSE Cl("Linked", Linked(r, o.h))
                        \cup (IF Len(o.sij) # n \/ ~Solidish(r, o.h, r.l) THEN {}
                              ELSE LET S == SijList(r, o.h, r.l)
                                   IN Cl("Sij", \A k \in 1..n : Close(((o.sij[k] \div 125) * 4096) \div 1000, S[k], 150))))
             \cup Cl("AvgSij", Close(o.avg \div 10, mean, 3))
             \cup Cl("BondCount", o.bonds >= lo /\ o.bonds <= hi)
             \cup Cl("Solid", IF o.solid = 1
                              THEN e(hi) /\ ~avgno
                              ELSE ~(e(lo) /\ avgyes))
             \cup Cl("SolidFlag", o.solid \in {0, 1})
        : i \in DOMAIN r.obs }

FailDis(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              n == Len(r.nb[o.h])
          IN Cl("Linked", Linked(r, o.h))
             \cup (IF n = 0 \/ ~Solidish(r, o.h, r.l) THEN {} ELSE
                   LET S == SijList(r, o.h, r.l)
                       d == 65536 - (2 * SumSeq(S)) \div n      \* 15 bits
                   IN Cl("Disorder", Close(o.dis, d, 300) /\ o.dis >= -2)
                      \cup (IF r.averaged
                            THEN Cl("AvgDisorder",
                                   Close(o.avg, (o.dis + SumSeq([k \in 1..n |-> r.dis[r.nb[o.h][k].j]])) \div (n+1), 3))
                            ELSE {}))
        : i \in DOMAIN r.obs }

(* r.adj: neighbors of each atom, as records of displacement and atom; lim: squared cutoff
   (in grid units, between two squares), 0 for none *)
FailClu(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET N == Len(r.pos)
      adj == TLCEval([i \in 1..N |-> {r.nb[i][k].j : k \in {x \in DOMAIN r.nb[i] : r.lim = 0 \/ N2(r.nb[i][x].v) <= r.lim}}])
      M == {i \in 1..N : r.member[i]}
  IN Cl("Linked", \A h \in 1..N : Linked(r, h))
     \cup (IF ~Symmetric(adj) THEN {"NeighborsNotMutual"} ELSE
           Cl("Labels", LabelsOK(adj, M, r.label))
           \cup Cl("Largest", r.size = LargestSize(adj, M))
           \cup Cl("Again", r.again = r.size)
           \cup Cl("Flags", FlagsOK(adj, M, r.flag, r.size))
           \cup Cl("Surface", r.solid = <<>> \/ \A i \in 1..N :
                     (r.surface[i] # 0) = (r.solid[i] = 0 \/ \E k \in DOMAIN r.nb[i] : r.solid[r.nb[i][k].j] = 0)))

(* cutoffs set from the mean neighbor distance *)
FailCutset(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i] n == Len(o.d)
          IN IF n = 0 THEN {} ELSE
             Cl("AtomCutoff", Close(o.cut, ((SumSeq(o.d) \div n) * r.factor) \div 100, 30))
        : i \in DOMAIN r.obs }

FailBond(r) == CASE r.kind = "q" -> FailQ(r)
                 [] r.kind = "avg" -> FailAvg(r)
                 [] r.kind = "solid" -> FailSolid(r)
                 [] r.kind = "dis" -> FailDis(r)
                 [] r.kind = "clu" -> FailClu(r)
                 [] r.kind = "cutset" -> FailCutset(r)
=============================================================================
