----------------------------- MODULE Construct -----------------------------
(* Arrangements of atoms made from others: repeated, brought back into the cell, cut out. *)
EXTENDS Cell

(* an atom is <<position, type>>; A: sequence of atoms of a cell c *)
Copies(c, A, r) == {<<Add(a[1], Comb(c, <<i,j,k>>)), a[2]>> : a \in Range1(A), i \in -r[1]..r[1], j \in -r[2]..r[2], k \in -r[3]..r[3]}
Enlarged(c, r) == <<Scale(2*r[1]+1, c[1]), Scale(2*r[2]+1, c[2]), Scale(2*r[3]+1, c[3])>>

(* inside the cell: coordinates in [0, 1); faces to either side where they are not on the axes *)
Inside(c, p) ==
  IF IsOrtho(c) THEN \A k \in 1..3 : p[k] >= 0 /\ p[k] < c[k][k]
  ELSE LET D == Abs(Det(c)) s == Sgn(Det(c)) f == Frac(c, p) IN \A k \in 1..3 : s*f[k] >= 0 /\ s*f[k] <= D
OnFace(c, p) == LET D == Abs(Det(c)) f == Frac(c, p) IN \E k \in 1..3 : f[k] % D = 0

(* squared distance of the images of two points nearest to each other, cells not too skewed *)
Near2(c, p, q) == LET w == Wrap(c, Sub(p, q))
                      S == {N2(Add(w, Comb(c, <<i,j,k>>))) : i \in -1..1, j \in -1..1, k \in -1..1}
                  IN IF IsOrtho(c) THEN N2(w) ELSE CHOOSE x \in S : \A y \in S : x <= y

(* the cuboid between atom 1 and an equal atom along each axis: some choice of the equal atoms gives
   an edge e[k] with 1 its one end, and the atoms R (those of the repeated cell) within it *)
Along(R, a, k) == {Sub(b[1], a[1])[k] : b \in {x \in R : x[2] = a[2] /\ x # a /\ \A m \in 1..3 \ {k} : x[1][m] = a[1][m]}}
CornerChoices(R, a, e) == {<<x, y, z>> : x \in {d \in Along(R, a, 1) : Abs(d) = e[1]},
                                         y \in {d \in Along(R, a, 2) : Abs(d) = e[2]},
                                         z \in {d \in Along(R, a, 3) : Abs(d) = e[3]}}
Low(a, d) == <<a[1][1] + Min2(d[1], 0), a[1][2] + Min2(d[2], 0), a[1][3] + Min2(d[3], 0)>>
CutOut(R, low, e) == {<<Sub(x[1], low), x[2]>> : x \in {y \in R : \A k \in 1..3 : y[1][k] >= low[k] /\ y[1][k] < low[k] + e[k]}}
=============================================================================
