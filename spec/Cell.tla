-------------------------------- MODULE Cell --------------------------------
(* Periodic cells on an integer grid.  A cell is its three vectors. *)
EXTENDS Num

IsOrtho(c) == /\ c[1][2] = 0 /\ c[1][3] = 0 /\ c[2][1] = 0
              /\ c[2][3] = 0 /\ c[3][1] = 0 /\ c[3][2] = 0

(* cell coordinates of a vector, times the determinant *)
Frac(c, v) == <<Dot(v, Cross(c[2], c[3])), Dot(v, Cross(c[3], c[1])), Dot(v, Cross(c[1], c[2]))>>

Comb(c, n) == Add(Scale(n[1], c[1]), Add(Scale(n[2], c[2]), Scale(n[3], c[3])))

IsLatticeVec(c, v) ==
  IF IsOrtho(c) THEN \A k \in 1..3 : v[k] % Abs(c[k][k]) = 0
  ELSE LET f == Frac(c, v) D == Abs(Det(c)) IN \A k \in 1..3 : f[k] % D = 0

(* nearest integer of a/b, b > 0; halves go up *)
RoundDiv(a, b) == (a + b \div 2) \div b

(* the image of a displacement whose cell coordinates lie in [-1/2, 1/2) *)
Wrap(c, d) ==
  IF IsOrtho(c)
  THEN [k \in 1..3 |-> d[k] - RoundDiv(d[k], Abs(c[k][k])) * Abs(c[k][k])]
  ELSE LET D == Det(c)
           f == Frac(c, d)
           n == [k \in 1..3 |-> IF D > 0 THEN RoundDiv(f[k], D) ELSE RoundDiv(-f[k], -D)]
       IN Sub(d, Comb(c, n))

(* a displacement has a cell coordinate of exactly one half: two images are equally good *)
IsTie(c, d) ==
  IF IsOrtho(c) THEN \E k \in 1..3 : (2*d[k]) % Abs(c[k][k]) = 0 /\ d[k] % Abs(c[k][k]) # 0
  ELSE LET D == Abs(Det(c)) f == Frac(c, d)
       IN \E k \in 1..3 : f[k] % D # 0 /\ (f[k] % D = D \div 2 \/ f[k] % D = D - (D \div 2))

(* all images of a displacement up to K cells away from the nearest *)
Shifts(c, K) == TLCEval({Comb(c, <<a, b, e>>) : a \in -K..K, b \in -K..K, e \in -K..K})

(* displacements from atom h to all atoms and their images, 0 excluded *)
ImagesOf(c, K, pos, h) ==
  IF K = 0 THEN {Wrap(c, Sub(pos[j], pos[h])) : j \in 1..Len(pos)} \ {<<0,0,0>>}
  ELSE LET S == Shifts(c, K)
       IN {Add(Wrap(c, Sub(pos[j], pos[h])), s) : j \in 1..Len(pos), s \in S} \ {<<0,0,0>>}
=============================================================================
