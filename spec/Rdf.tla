-------------------------------- MODULE Rdf --------------------------------
(* The radial distribution: pairs of atoms by distance.  Limits of the bins lie half way
   between grid lengths: bin k is from e0 + (k-1) w to e0 + k w, plus one half. *)
EXTENDS Neighbors, Flt

PairRow(cell, pos, i) == [m \in 1..(Len(pos)-i) |-> N2(Wrap(cell, Sub(pos[i+m], pos[i])))]
(* from an atom to all atoms of m x m x m cells: every pair is seen from both ends, and all
   cells are alike.  S: the displacements of the cells *)
Super(cell, m) == [k \in 1..3 |-> Scale(m, cell[k])]
SuperShifts(cell, m) == SetToSeq({Comb(cell, <<a, b, c>>) : a \in 0..(m-1), b \in 0..(m-1), c \in 0..(m-1)})
SuperRow(E, S, pos, i, j) == [k \in DOMAIN S |-> N2(Wrap(E, Sub(Add(pos[j], S[k]), pos[i])))]

(* the bin of a squared distance; outside 1..bins if it is in none *)
BinOf(n2, e0, w) == LET f == ISqrt(n2)
                        u == IF n2 <= f*f + f THEN f ELSE f + 1
                    IN (u - e0 - 1 + 1000*w) \div w - 999
Count(h, row, e0, w) == FoldLeft(LAMBDA acc, x : LET k == BinOf(x, e0, w)
                                                 IN IF x > 0 /\ k \in DOMAIN acc THEN [acc EXCEPT ![k] = @ + 1] ELSE acc, h, row)
Empty(bins) == [k \in 1..bins |-> 0]
Hist(cell, pos, e0, w, bins) ==
  FoldLeft(LAMBDA acc, i : TLCEval(Count(acc, PairRow(cell, pos, i), e0, w)), Empty(bins), [i \in 1..(Len(pos)-1) |-> i])
HistSuper(cell, pos, m, e0, w, bins) ==
  LET E == Super(cell, m) S == TLCEval(SuperShifts(cell, m)) n == Len(pos)
  IN FoldLeft(LAMBDA acc, i : TLCEval(Count(acc, SuperRow(E, S, pos, ((i-1) \div n) + 1, ((i-1) % n) + 1), e0, w)), Empty(bins), [i \in 1..(n*n) |-> i])
Cube(a) == FMul(F(a), FMul(F(a), F(a)))
(* (hi+1/2)^3 - (lo+1/2)^3, exact: differences of cubes cancel *)
ShellCube(lo, hi) == LET a == 2*lo + 1 b == 2*hi + 1
                     IN FDiv(FMul(F(b - a), FAdd(FMul(F(b), F(b + a)), FMul(F(Abs(a)), F(Abs(a))))), F(8))
(* count / (4/3 pi shell) / (N(N-1)/2/V) *)
Value(count, lo, hi, N, vol) ==
  FDiv(FMul(FMul(F(count), vol), F(3)),
       FMul(FMul(PI4F, ShellCube(lo, hi)), F((N * (N-1)) \div 2)))
=============================================================================
