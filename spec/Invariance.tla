----------------------------- MODULE Invariance -----------------------------
(* Two descriptions of one periodic arrangement.  The second is told by a rotation R (of the grid
   onto itself), a cell M (whole combinations of the turned cell vectors of the first), and for
   every atom j: of which atom of the first it is a copy, and how many cells away. *)
EXTENDS Cell

Apply3(R, v) == <<Dot(R[1], v), Dot(R[2], v), Dot(R[3], v)>>
Id3 == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
IsTurn(R) == \A i \in 1..3 : \A k \in 1..3 : Dot(R[i], R[k]) = (IF i = k THEN 1 ELSE 0)
Turned(R, c) == <<Apply3(R, c[1]), Apply3(R, c[2]), Apply3(R, c[3])>>
NewCell(R, c, M) == [k \in 1..3 |-> Comb(Turned(R, c), M[k])]
(* which of the cells of the first arrangement, up to the period of the second *)
Residue(M, n) == LET D == Abs(Det(M)) f == Frac(M, n) IN <<f[1] % D, f[2] % D, f[3] % D>>

(* a: [cell, pos, types], b likewise, w: [R, M, shift, of, cells] *)
Copy(a, w, j) == Add(Add(Apply3(w.R, a.pos[w.of[j]]), w.shift), Comb(Turned(w.R, a.cell), w.cells[j]))
SameArrangement(a, b, w) ==
  /\ IsTurn(w.R) /\ Det(w.M) # 0
  /\ b.cell = NewCell(w.R, a.cell, w.M)
  /\ Len(b.pos) = Abs(Det(w.M)) * Len(a.pos)
  /\ \A j \in DOMAIN b.pos : b.pos[j] = Copy(a, w, j) /\ b.types[j] = a.types[w.of[j]]
  /\ Cardinality({<<w.of[j], Residue(w.M, w.cells[j])>> : j \in DOMAIN b.pos}) = Len(b.pos)

(* what surrounds an atom, up to a distance, with images up to K cells away *)
Surroundings(a, K, h, c2) ==
  LET S == Shifts(a.cell, K)
  IN {x \in UNION {LET d == TLCEval(Wrap(a.cell, Sub(a.pos[j], a.pos[h]))) IN {<<Add(d, s), a.types[j]>> : s \in S} : j \in DOMAIN a.pos} :
        (\A k \in 1..3 : Abs(x[1][k]) <= 25000) /\ N2(x[1]) > 0 /\ N2(x[1]) <= c2}
TurnedSet(R, S) == {<<Apply3(R, x[1]), x[2]>> : x \in S}
=============================================================================
