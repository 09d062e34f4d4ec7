---------------------------- MODULE Environment ----------------------------
(* Centrosymmetry, angles and short range order of the neighbors of an atom. *)
EXTENDS CNA

PairsOf(n) == {p \in (1..n) \X (1..n) : p[1] < p[2]}

(* centrosymmetry: sum of the n/2 smallest |r_i + r_j|^2, in squared grid units *)
Centro(V) ==
  LET P == SetToSeq(PairsOf(Len(V)))
      s == SortInts([i \in 1..Len(P) |-> N2(Add(V[P[i][1]], V[P[i][2]]))])
  IN SumSeq(SubSeq(s, 1, Len(V) \div 2))

(* angular parameter of four vectors: sum of (cos + 1/3)^2, 20 bits *)
Angular(V) ==
  LET U == TLCEval([i \in 1..4 |-> UnitVec(V[i])])
      P == SetToSeq(PairsOf(4))
      t(p) == UDot(U[p[1]], U[p[2]]) + 349525
  IN SumSeq([i \in 1..6 |-> Mul(t(P[i]), t(P[i]))])

(* chi: limits of the nine intervals, 20 bits *)
Edges == <<-1048576, -990904, -959447, -791675, -739246, -204472, 204472, 256901, 833618, 1048576>>
Cosines(V) == LET U == TLCEval([i \in DOMAIN V |-> UnitVec(V[i])])
                  P == SetToSeq(PairsOf(Len(V)))
              IN TLCEval([i \in 1..Len(P) |-> UDot(U[P[i][1]], U[P[i][2]])])
Below(cs, e) == Cardinality({i \in DOMAIN cs : cs[i] < e})
RECURSIVE Cumulative(_, _)
Cumulative(chi, k) == IF k = 0 THEN 0 ELSE Cumulative(chi, k-1) + chi[k]
(* up to each limit there are as many cosines as counted; tol for those at the limit *)
ChiOK(cs, chi, tol) ==
  /\ Len(chi) = 9
  /\ \A k \in 1..9 : chi[k] >= 0
  /\ Cumulative(chi, 9) = Len(cs)
  /\ \A k \in 1..8 : LET n == Cumulative(chi, k)
                     IN n >= Below(cs, Edges[k+1] - tol) /\ n <= Below(cs, Edges[k+1] + tol)
(* a deviation: opposite neighbors, whose cosine is -1 up to rounding, are left out at random *)
Opposite(V) == Cardinality({p \in PairsOf(Len(V)) : Cross(V[p[1]], V[p[2]]) = <<0,0,0>> /\ Dot(V[p[1]], V[p[2]]) < 0})
ChiDropsOpposite(V, cs, chi, tol) ==
  \E d \in 1..Opposite(V) : ChiOK(cs, [chi EXCEPT ![1] = @ + d], tol)

(* fractions in millionths, rounded down *)
Millionths(a, b) == (a \div b) * 1000000 + (((a % b) * 1000) \div b) * 1000
                    + ((((a % b) * 1000) % b) * 1000) \div b

(* Warren-Cowley parameter 1 - (k/n)/(M/N): k of n neighbors are of a type that M of N atoms have *)
Cowley(k, n, M, N) == 1000000 - Millionths(k * N, n * M)
(* with Kronecker delta, for the same type: (k/n - M/N)/(1 - M/N) *)
CowleySame(k, n, M, N) == Millionths(k * N - M * n, n * (N - M))

(* shells: neighbors not farther than the mean distance, and the others; D in sixteenths *)
ShellSplit(D) == [k \in DOMAIN D |-> D[k] * Len(D) <= SumSeq(D)]
ShellUnsure(D) == \E k \in DOMAIN D : Abs(D[k] * Len(D) - SumSeq(D)) <= 2 * Len(D)
=============================================================================
