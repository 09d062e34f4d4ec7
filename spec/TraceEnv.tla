------------------------------ MODULE TraceEnv ------------------------------
(* Recorded local structure (C11 - C15) against CNA and Environment. *)
EXTENDS Environment, Conform

CountsOK(labels, counts) == \A k \in DOMAIN counts : counts[k] = Cardinality({i \in DOMAIN labels : labels[i] = k - 1})

FailCna(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  Cl("Counts", CountsOK(r.labels, r.counts) /\ Len(r.labels) = Len(r.pos) /\ Len(r.counts) = 5
               /\ \A i \in DOMAIN r.labels : r.labels[i] \in 0..4)
  \cup UNION { LET h == r.hosts[i]
                   S == Ascending(Cands(r, h, r.far))
               IN IF Len(S) < 15 THEN {"TooFew"}
                  ELSE Cl("Label", r.labels[h] \in Labels(S, r.lat))
             : i \in DOMAIN r.hosts }

(* the atoms nearest to the nearest of an atom, by way of definite choices; <<>> if there is a tie *)
Four(r, h) == LET S == Ascending(Cands(r, h, r.far))
              IN IF Len(S) < 5 \/ N2(S[4].v) = N2(S[5].v) THEN <<>> ELSE SubSeq(S, 1, 4)
FailDia(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  Cl("Counts", CountsOK(r.labels, r.counts) /\ Len(r.labels) = Len(r.pos) /\ Len(r.counts) = 11
               /\ \A i \in DOMAIN r.labels : r.labels[i] \in 0..10)
  \cup UNION { LET h == r.hosts[i]
                   F == TLCEval(Four(r, h))
                   G == TLCEval([k \in DOMAIN F |-> Four(r, F[k].j)])
               IN IF F = <<>> \/ \E k \in DOMAIN G : G[k] = <<>> THEN {}
                  ELSE LET all == {<<k, m>> : k \in 1..4, m \in 1..4}
                           D(p) == [v |-> Add(F[p[1]].v, G[p[1]][p[2]].v), j |-> G[p[1]][p[2]].j]
                           P == {p \in all : D(p).v # <<0,0,0>>}
                           T == {D(p) : p \in P}
                       IN IF Cardinality(P) # 12 \/ Cardinality(T) # 12 THEN {}
                          ELSE LET S == Ascending(T)
                                   cut == Cut12(S, 0)
                                   core == IF Borderline(Vs(S), cut) THEN {0, 1, 2, 4} ELSE {Class12(Adj(Vs(S), cut))}
                                   L == r.labels[h]
                                   n1 == {r.labels[F[k].j] : k \in 1..4}
                                   n2 == {r.labels[x.j] : x \in T}
                                   shell == IF n1 \cap {5, 8} # {} THEN {y+1 : y \in n1 \cap {5, 8}}
                                            ELSE IF n2 \cap {5, 8} # {} THEN {y+2 : y \in n2 \cap {5, 8}}
                                            ELSE core \cap {0, 4}
                               IN Cl("Label", \/ L = 5 /\ 1 \in core
                                              \/ L = 8 /\ 2 \in core
                                              \/ core \cap {0, 4} # {} /\ L \in shell)
                                  \cup (IF r.lists = <<>> THEN {}
                                        ELSE Cl("SecondNeighbors",
                                               LET o == r.lists[i] IN
                                               /\ Len(o) = 12
                                               /\ {o[k] : k \in DOMAIN o} = {x.v : x \in T}))
             : i \in DOMAIN r.hosts }

FailCsm(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  Cl("Values", r.same)
  \cup UNION { LET o == r.obs[i]
                   C == Cands(r, o.h, r.far)
                   V == Vecs(o)
               IN Cl("Neighbors", WellFormed(o) /\ NearestOK(C, o, r.nmax))
                  \cup (IF ~WellFormed(o) \/ o.coord # r.nmax THEN {} ELSE
                        LET e == Centro(V)
                        IN Cl("Centrosymmetry", o.csm # BIG /\ o.csm >= 0 /\ Abs(o.csm - e) <= 2 + e \div 100000))
             : i \in DOMAIN r.obs }

(* neighbors as listed: o.v; the four nearest must be definite *)
FailAng(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              S == SortSeq(o.v, LAMBDA a, b : N2(a) < N2(b))
          IN IF Len(S) < 4 \/ (Len(S) > 4 /\ N2(S[4]) = N2(S[5])) THEN {}
             ELSE Cl("Angular", Close(o.ang, Angular(SubSeq(S, 1, 4)), 60 + o.ang \div 10000))
        : i \in DOMAIN r.obs }

FailChi(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              cs == Cosines(o.v)
          IN (IF ChiOK(cs, o.chi, 40) THEN {}
              ELSE IF Len(o.chi) = 9 /\ ChiDropsOpposite(o.v, cs, o.chi, 40) THEN {"ChiAntiparallel"}
              ELSE {"Chi"})
             \cup (IF ~r.angles THEN {} ELSE
                   Cl("Cosines", LET x == SortInts(o.cos) y == SortInts(cs)
                                 IN Len(x) = Len(y) /\ \A k \in DOMAIN x : Close(x[k], y[k], 40)))
        : i \in DOMAIN r.obs }

(* r.ref, r.cmp: types; r.same: the formula with Kronecker delta *)
FailSro(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET N == Len(r.types)
      Num(t) == Cardinality({i \in 1..N : r.types[i] = t})
      refs == {i \in 1..N : r.types[i] = r.ref}
      E(k, n) == IF r.pm /\ r.ref = r.cmp /\ r.delta THEN CowleySame(k, n, Num(r.cmp), N)
                 ELSE Cowley(k, n, IF r.pm THEN Num(r.cmp) ELSE N - Num(r.ref), N)
      K(o, S) == Cardinality({k \in S : IF r.pm THEN r.types[o.j[k]] = r.cmp ELSE r.types[o.j[k]] # r.ref})
      D(o) == [k \in DOMAIN o.v |-> Len16(o.v[k])]
      linked == \A i \in DOMAIN r.obs : \A k \in DOMAIN r.obs[i].v :
                   LET o == r.obs[i] IN IsVec(o.v[k]) /\ IsLatticeVec(r.cell, Sub(Add(r.pos[o.h], o.v[k]), r.pos[o.j[k]]))
      unsure == \E i \in DOMAIN r.obs : ShellUnsure(D(r.obs[i]))
  IN IF ~linked THEN {"Linked"} ELSE
     Cl("Hosts", {r.obs[i].h : i \in DOMAIN r.obs} = refs)
     \cup UNION { LET o == r.obs[i]
                      in == TLCEval(ShellSplit(D(o)))
                      A == IF r.shells = 1 THEN DOMAIN o.v ELSE {k \in DOMAIN o.v : in[k]}
                      B == DOMAIN o.v \ A
                  IN IF o.v = <<>> THEN {} ELSE
                     Cl("Shells", Len(o.sro) = r.shells)
                     \cup (IF Len(o.sro) # r.shells \/ (r.shells = 2 /\ ShellUnsure(D(o))) THEN {} ELSE
                           (IF A = {} THEN {} ELSE Cl("First", Close(o.sro[1], E(K(o, A), Cardinality(A)), 3)))
                           \cup (IF B = {} THEN {} ELSE Cl("Second", Close(o.sro[2], E(K(o, B), Cardinality(B)), 3))))
                : i \in DOMAIN r.obs }
     \cup (IF r.avg = <<>> \/ \E i \in DOMAIN r.obs : r.obs[i].v = <<>> \/ BIG \in Range1(r.obs[i].sro) THEN {}
           ELSE Cl("Average", /\ Len(r.avg) = r.shells
                              /\ \A s \in 1..r.shells :
                                   Close(r.avg[s] \div 10, SumSeq([i \in DOMAIN r.obs |-> r.obs[i].sro[s] \div 10]) \div Len(r.obs), 3)))
     \cup Cl("Concentration", \A k \in DOMAIN r.conc : r.conc[k][2] = Num(r.conc[k][1]))
     \cup Cl("ConcentrationTypes", r.noconc \/ {r.conc[k][1] : k \in DOMAIN r.conc} = Range1(r.types))

FailEnv(r) == CASE r.kind = "cna" -> FailCna(r)
                [] r.kind = "dia" -> FailDia(r)
                [] r.kind = "csm" -> FailCsm(r)
                [] r.kind = "ang" -> FailAng(r)
                [] r.kind = "chi" -> FailChi(r)
                [] r.kind = "sro" -> FailSro(r)
=============================================================================
