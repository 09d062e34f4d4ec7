------------------------------- MODULE Files -------------------------------
(* What files say about a system.

   A file is a sequence of lines, a line a sequence of words; where a word is a number it comes
   with its value, in units of a grid.  A LAMMPS dump frame is
     [head |-> names of the columns, bounds |-> three lines of two or three numbers,
      rows |-> one sequence of words per atom]      word = [s |-> text, n |-> number]
   and what it says is a box and a sequence of atoms. *)
EXTENDS Cell

Has(h, k) == \E c \in DOMAIN h : h[c] = k
ColOf(h, k) == CHOOSE c \in DOMAIN h : h[c] = k
Min0(S) == CHOOSE m \in S : \A x \in S : m <= x
Max0(S) == CHOOSE m \in S : \A x \in S : m >= x

Tilted(f) == Len(f.bounds[1]) = 3
(* the bounds of a tilted box are those of its shadow on the axes *)
XShadow(b) == {0, b[1][3], b[2][3], b[1][3] + b[2][3]}
YShadow(b) == {0, b[3][3]}
Lower(f) == LET b == f.bounds IN
  IF Tilted(f) THEN <<b[1][1] - Min0(XShadow(b)), b[2][1] - Min0(YShadow(b)), b[3][1]>> ELSE <<b[1][1], b[2][1], b[3][1]>>
Upper(f) == LET b == f.bounds IN
  IF Tilted(f) THEN <<b[1][2] - Max0(XShadow(b)), b[2][2] - Max0(YShadow(b)), b[3][2]>> ELSE <<b[1][2], b[2][2], b[3][2]>>
BoxOf(f) == LET l == Lower(f) u == Upper(f) b == f.bounds IN
  <<<<u[1]-l[1], 0, 0>>,
    <<IF Tilted(f) THEN b[1][3] ELSE 0, u[2]-l[2], 0>>,
    <<IF Tilted(f) THEN b[2][3] ELSE 0, IF Tilted(f) THEN b[3][3] ELSE 0, u[3]-l[3]>>>>

ScaledCoords(f) == ~Has(f.head, "x")
Num3(f, row, ks) == [i \in 1..3 |-> row[ColOf(f.head, ks[i])].n]
(* positions, in units of grid/U where 1 is U grid units: scaled coordinates are fractions of the
   cell; others are as they stand, relative to the origin where the box is tilted *)
PosOf(f, row, U) ==
  IF ScaledCoords(f) THEN Comb(BoxOf(f), Num3(f, row, <<"xs", "ys", "zs">>))
  ELSE LET p == Num3(f, row, <<"x", "y", "z">>) IN Scale(U, IF Tilted(f) THEN Sub(p, Lower(f)) ELSE p)
AtomsOf(f, keys, U) ==
  [i \in DOMAIN f.rows |-> LET w == f.rows[i] IN
     [p |-> PosOf(f, w, U), id |-> w[ColOf(f.head, "id")].n, t |-> w[ColOf(f.head, "type")].n,
      c |-> [k \in DOMAIN keys |-> w[ColOf(f.head, keys[k])].s]]]

(* ---- writing: what a dump of a system must say; numbers in millionths, ids and types plain ---- *)
W(n) == [s |-> "", n |-> n]
\* a box that a dump can hold
Writable(box) == box[1][2] = 0 /\ box[1][3] = 0 /\ box[2][3] = 0 /\ box[1][1] > 0 /\ box[2][2] > 0 /\ box[3][3] > 0
BoundsOf(box) ==
  LET xy == box[2][1] xz == box[3][1] yz == box[3][2] X == {0, xy, xz, xy+xz} Y == {0, yz} IN
  IF xy = 0 /\ xz = 0 /\ yz = 0 THEN <<<<0, box[1][1]>>, <<0, box[2][2]>>, <<0, box[3][3]>>>>
  ELSE <<<<Min0(X), box[1][1] + Max0(X), xy>>, <<Min0(Y), box[2][2] + Max0(Y), xz>>, <<0, box[3][3], yz>>>>
DumpOf(sys) == [head |-> <<"id", "type", "x", "y", "z">>, bounds |-> BoundsOf(sys.box),
                rows |-> [i \in DOMAIN sys.atoms |-> LET a == sys.atoms[i] IN <<W(a.id), W(a.t), W(a.p[1]), W(a.p[2]), W(a.p[3])>>]]

(* ---- other presentations of the same system: columns in another order, another origin, scaled ---- *)
Permute(f, pi) == [f EXCEPT !.head = [c \in DOMAIN pi |-> f.head[pi[c]]],
                            !.rows = [i \in DOMAIN f.rows |-> [c \in DOMAIN pi |-> f.rows[i][pi[c]]]]]
Shifted(f, o) == [f EXCEPT !.bounds = [k \in 1..3 |-> IF Len(f.bounds[k]) = 3 THEN <<f.bounds[k][1]+o[k], f.bounds[k][2]+o[k], f.bounds[k][3]>>
                                                       ELSE <<f.bounds[k][1]+o[k], f.bounds[k][2]+o[k]>>],
                           !.rows = [i \in DOMAIN f.rows |-> [c \in DOMAIN f.head |->
                               CASE f.head[c] = "x" -> W(f.rows[i][c].n + o[1]) [] f.head[c] = "y" -> W(f.rows[i][c].n + o[2])
                                 [] f.head[c] = "z" -> W(f.rows[i][c].n + o[3]) [] OTHER -> f.rows[i][c]]]]

(* ---- species: types are numbered by the names in alphabetical order; names come with their rank ---- *)
TypesOf(names, order) == [i \in DOMAIN names |-> LET U == {names[j] : j \in DOMAIN names}
                                                    R(x) == CHOOSE k \in DOMAIN order : order[k] = x
                                                IN Cardinality({u \in U : R(u) <= R(names[i])})]
(* ---- POSCAR: scale (64ths), three vectors, names, counts, coordinates: all in 64ths ---- *)
PosCell(f) == [k \in 1..3 |-> [m \in 1..3 |-> f.scale * f.vecs[k][m]]]      \* in 4096ths
RECURSIVE Names(_, _, _)
Names(names, counts, k) == IF k > Len(counts) THEN <<>> ELSE [i \in 1..counts[k] |-> names[k]] \o Names(names, counts, k+1)
\* direct coordinates: fractions of the cell (64ths of 64ths of 64ths), Cartesian ones are scaled as well
PosAtoms(f) == [i \in DOMAIN f.rows |-> IF f.direct THEN Comb(PosCell(f), f.rows[i]) ELSE Scale(f.scale, f.rows[i])]
=============================================================================
