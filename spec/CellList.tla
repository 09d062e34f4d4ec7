------------------------------ MODULE CellList ------------------------------
(* The cell list search along one axis (axes are independent): a periodic box of length L is
   divided into nc cells no narrower than the cutoff; an atom is put into a cell after being
   brought back into the box; pairs are looked for in the same and in adjoining cells.
   Lengths are integers; the cutoff is c. *)
EXTENDS Cell

NCells(L, c) == L \div c
CellOf(L, nc, x) == LET w == x % L IN (w * nc) \div L
Adjoining(nc, i) == {(i + s + nc) % nc : s \in {-1, 0, 1}}

(* how many times the pair is met when walking over all adjoining cells of the first atom *)
Met(L, c, x, y) ==
  LET nc == NCells(L, c)
  IN Cardinality({s \in {-1, 0, 1} : (CellOf(L, nc, x) + s + nc) % nc = CellOf(L, nc, y)})

Dist(L, x, y) == Abs(Wrap(<<<<L,0,0>>,<<0,L,0>>,<<0,0,L>>>>, <<x - y, 0, 0>>)[1])

(* the search falls back on looking at all pairs when there are fewer than three cells *)
CellsPossible(L, c) == NCells(L, c) >= 3
Listed(L, c, x, y) == IF CellsPossible(L, c)
                      THEN IF Dist(L, x, y) < c THEN Met(L, c, x, y) ELSE 0
                      ELSE IF Dist(L, x, y) < c THEN 1 ELSE 0
=============================================================================
