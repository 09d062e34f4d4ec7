----------------------------- MODULE TraceField -----------------------------
(* Recorded Voronoi cells (C06), entropies (C17) and radial distributions (C18). *)
EXTENDS Voronoi, Entropy, Rdf, Conform

Vol(c) == IF IsOrtho(c) THEN FMul(F(c[1][1]), FMul(F(c[2][2]), F(c[3][3]))) ELSE F(Abs(Det(c)))

FailVoro(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET D == Abs(Det(r.cell))
      good == \A i \in DOMAIN r.obs : LET o == r.obs[i] IN
                /\ \A k \in DOMAIN o.n : IsVec(o.n[k].v) /\ o.n[k].j > 0
                /\ \A k \in DOMAIN o.faces : \A m \in DOMAIN o.faces[k] : o.faces[k][m] \in DOMAIN o.X
                /\ \A m \in DOMAIN o.X : IsVec(o.X[m])
                /\ Len(o.n) = Len(o.faces)
  IN IF ~good THEN {"Malformed"} ELSE
  Cl("Positive", \A i \in DOMAIN r.vols : r.vols[i] > 0 /\ r.vols[i] # BIG)
  \cup Cl("Partition", BIG \notin Range1(r.vols) /\ Abs(SumSeq([i \in DOMAIN r.vols |-> r.vols[i] \div 8]) - D \div 8) <= Len(r.pos) + D \div 1000000)
  \cup Cl("Mutual", r.generic =>
          LET S == UNION {{<<r.obs[i].h, r.obs[i].n[k].j, r.obs[i].n[k].v>> : k \in {m \in DOMAIN r.obs[i].n : r.obs[i].n[m].w > 20}} : i \in DOMAIN r.obs}
              T == UNION {{<<r.obs[i].h, r.obs[i].n[k].j, r.obs[i].n[k].v>> : k \in DOMAIN r.obs[i].n} : i \in DOMAIN r.obs}
          IN \A s \in S : <<s[2], s[1], Scale(-1, s[3])>> \in T)
  \cup UNION { LET o == r.obs[i]
                   V == [k \in DOMAIN o.n |-> o.n[k].v]
                   W == [k \in DOMAIN o.n |-> o.n[k].w]
               IN Cl("Linked", \A k \in DOMAIN o.n : IsLatticeVec(r.cell, Sub(Add(r.pos[o.h], V[k]), r.pos[o.n[k].j])))
                  \cup Cl("AverageVolume", LET s == r.vols[o.h] + SumSeq([k \in DOMAIN o.n |-> r.vols[o.n[k].j]])
                                           IN Close(o.avg, s \div (Len(o.n) + 1), 2 + o.avg \div 50000))
                  \cup Cl("WeightsSum", Abs(SumSeq(W) - 1000000) <= 2 + Len(W))
                  \cup Cl("Radius", FClose(FMul(PI4F, Cube(o.cut)), FMul(F(3000000), F(r.vols[o.h])), 150))
                  \cup (IF ~o.full THEN {} ELSE
                        Cl("OnFaces", OnFaces(o.X, o.faces, V))
                        \cup Cl("NoneCloser", NoneCloser(o.X, {c.v : c \in Cands(r, o.h, o.far)}))
                        \cup Cl("Closed", Closed(o.faces) /\ Euler(o.X, o.faces))
                        \cup Cl("Volume", FClose(F(r.vols[o.h]), Volume(o.X, o.faces, V), 100))
                        \cup Cl("FaceVertices", o.fv = [k \in DOMAIN o.faces |-> Len(o.faces[k])])
                        \cup Cl("VertexPositions", Len(o.XP) = Len(o.X)
                               /\ \A m \in DOMAIN o.X : \A c \in 1..3 : Close(o.XP[m][c], 64*r.pos[o.h][c] + o.X[m][c], 1))
                        \cup LET A == [k \in DOMAIN o.faces |-> TLCEval(FPow(Area512(o.X, o.faces[k]), r.exp))]
                                 S == TLCEval(FSum(A))
                             IN Cl("Weights", \A k \in DOMAIN A : Close(W[k], ((FTo20(FDiv(A[k], S)) \div 16) * 15625) \div 1024, 3000 + W[k] \div 50))
                        \cup (IF o.edges = <<>> THEN {} ELSE
                              LET E(f, m) == ISqrt(N2(Sub(o.X[f[m]], o.X[f[IF m = 1 THEN Len(f) ELSE m-1]])))
                                  AA == [k \in DOMAIN o.faces |-> TLCEval(Area512(o.X, o.faces[k]))]
                                  SS == TLCEval(FSum(AA))
                                  a == TLCEval([k \in DOMAIN AA |-> ((FTo20(FDiv(AA[k], SS)) \div 16) * 15625) \div 1024])
                              IN Cl("EdgeLengths", /\ Len(o.edges) = Len(o.faces)
                                                   /\ \A k \in DOMAIN o.faces : /\ Len(o.edges[k]) = Len(o.faces[k])
                                                         /\ \A m \in DOMAIN o.faces[k] : Close(o.edges[k][m], E(o.faces[k], m), 3))
                                 \cup Cl("Perimeters", \A k \in DOMAIN o.edges : Close(o.per[k], SumSeq(o.edges[k]), 4 + Len(o.edges[k])))
                                 \cup Cl("VoroVector", VoroUnsure(o.edges, a, r.ecut, 1000*r.acut)
                                                       \/ o.vv = VoroVector(o.edges, a, r.ecut, 1000*r.acut))))
             : i \in DOMAIN r.obs }

(* one atom's own integral; its averages follow from the values of its neighbors *)
FailEnt(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  UNION { LET o == r.obs[i]
              D == TLCEval([k \in DOMAIN o.n |-> Len20(o.n[k].v)])
              V == IF r.local THEN FDiv(FMul(PI4F, FMul(FDiv(F(o.cut), F(65536)), FMul(FDiv(F(o.cut), F(65536)), FDiv(F(o.cut), F(65536))))), F(3 * Len(D)))
                   ELSE FDiv(FDiv(Vol(r.cell), F(262144)), F(Len(r.pos)))
              f == TLCEval([j \in 1..(r.steps+1) |-> Integrand(D, r.r0 + (j-1)*r.h, r.sigma, V)])
              e == FNorm(o.ment[1], o.ment[2])
              \* rounding of the integrand, which counts where g is close to one all along
              T == MinusS(FMul(F(2 * r.steps), F(r.h)), V, FALSE)
              is(I, two) == LET x == MinusS(I, V, two)
                            IN FClose(e, x, 400) \/ (~FLess(FAdd(x, T), e) /\ ~FLess(FAdd(e, T), x))
              ent(j) == r.ent[j]
              M == {o.n[k].j : k \in DOMAIN o.n}
          IN (IF ~o.full \/ Len(D) = 0 THEN {} ELSE
              IF o.ment[1] >= 0 /\ is(Trapezoid(f, r.steps, r.h), TRUE) THEN {}
              ELSE IF o.ment[1] >= 0 /\ is(TrapezoidDev(f, r.steps, r.h), FALSE) THEN {"EntropyPrefactor"}
              ELSE {"Entropy"})
             \cup Cl("Finite", r.ent[o.h] # BIG)
             \cup (IF BIG \in {r.ent[j] : j \in M \cup {o.h}} THEN {}
                   ELSE IF r.avg = 1
                   THEN Cl("Average", Close(o.avg, (ent(o.h) + SumSeq([k \in DOMAIN o.n |-> ent(o.n[k].j)])) \div (Len(D) + 1), 3))
                   ELSE IF r.avg = 2
                   THEN LET w == TLCEval([k \in DOMAIN D |-> FTo20(Switch(D[k] \div 64, r.ra, r.N, r.M)) \div 64])
                            tot == 16384 + SumSeq(w)
                            \* weighted mean of differences to the smallest value
                            low == MinSeq(<<ent(o.h)>> \o [k \in DOMAIN o.n |-> ent(o.n[k].j)])
                            num == FAdd(FMul(F(16384), F(ent(o.h) - low)),
                                        FSum([k \in DOMAIN o.n |-> FMul(F(w[k]), F(ent(o.n[k].j) - low))]))
                            q == FDiv(num, F(tot))
                        IN Cl("SwitchedAverage", o.avg # BIG /\ o.avg >= low - 3
                              /\ Close(o.avg - low, IF q[2] >= 0 THEN q[1] * Pow2(Min2(q[2], 16)) ELSE q[1] \div Pow2(Min2(-q[2], 30)), 30 + (o.avg - low) \div 300))
                   ELSE {})
        : i \in DOMAIN r.obs }

FailRdf(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET m3 == r.reps * r.reps * r.reps
      N == Len(r.pos) * m3
      vol == FMul(Vol(r.cell), F(m3))
      lo(k) == r.e0 + (k-1)*r.w
      H == TLCEval(IF r.reps = 1 THEN Hist(r.cell, r.pos, r.e0, r.w, r.bins)
                   ELSE LET h == TLCEval(HistSuper(r.cell, r.pos, r.reps, r.e0, r.w, r.bins)) IN [k \in 1..r.bins |-> (m3 * h[k]) \div 2])
  IN Cl("Bins", Len(r.g) = r.bins /\ Len(r.rr) = r.bins /\ \A k \in DOMAIN r.rr : Close(r.rr[k], 10*lo(k) + 5, 0))
     \cup Cl("Values", Len(r.g) = r.bins => \A k \in 1..r.bins :
                IF H[k] = 0 THEN r.g[k][1] = 0
                ELSE r.g[k][1] > 0 /\ FClose(FNorm(r.g[k][1], r.g[k][2]), Value(H[k], lo(k), lo(k) + r.w, N, vol), 1200))

(* every pair once; small systems are seen together with their images *)
FailPairs(r) ==
  IF r.err2 # "" THEN {"Raised"} ELSE
  LET E == Super(r.cell, r.reps)
      S == SuperShifts(r.cell, r.reps)
      n == Len(r.pos)
      P == TLCEval([k \in 1..(n * Len(S)) |-> Add(r.pos[((k-1) % n) + 1], S[((k-1) \div n) + 1])])
      X == SetToSeq({p \in (DOMAIN P) \X (DOMAIN P) : p[1] < p[2]})
      s == SortInts([k \in DOMAIN X |-> N2(Wrap(E, Sub(P[X[k][2]], P[X[k][1]])))])
  IN Cl("Pairs", s = SortInts(r.d2))

FailField(r) == CASE r.kind = "voro" -> FailVoro(r)
                  [] r.kind = "ent" -> FailEnt(r)
                  [] r.kind = "rdf" -> FailRdf(r)
                  [] r.kind = "pairs" -> FailPairs(r)
=============================================================================
