----------------------------- MODULE BondOrder -----------------------------
(* Steinhardt parameters and what is built on them.

   Spherical harmonics enter only through scalar products, and by the addition theorem
     4 pi/(2l+1) sum_m Y_lm(u) Y_lm(w)^* = P_l(u . w)
   so that all of these are weighted means of Legendre polynomials over pairs of bonds.
   Numbers are fixed point with 20 bits (ONE).

   r.nb[h] is the sequence of neighbors of atom h, as records of displacement v, weight w and
   the atom j (of the cell) that the neighbor is an image of; r.cond is a condition value per
   atom.  r.unitw: all weights are one. *)
EXTENDS Cell

Linked(r, h) == \A k \in DOMAIN r.nb[h] :
                   LET e == r.nb[h][k]
                   IN /\ IsVec(e.v) /\ e.j \in DOMAIN r.pos
                      /\ IsLatticeVec(r.cell, Sub(Add(r.pos[h], e.v), r.pos[e.j]))

(* the neighbors that count: those with the condition of the host *)
AdmSeq(r, h) == SelectSeq(r.nb[h], LAMBDA e : r.cond[e.j] = r.cond[h])

(* bonds of an atom as unit vectors with weights *)
Bonds(r, h) == LET A == AdmSeq(r, h)
                   \* weights that the user has set, in 64ths, count relative to their sum
                   t == SumSeq([k \in DOMAIN A |-> A[k].w])
                   W(w) == IF "userw" \in DOMAIN r THEN (w * ONE) \div t ELSE w
               IN TLCEval([k \in DOMAIN A |-> [u |-> UnitVec(A[k].v), w |-> W(A[k].w)]])

(* scalar product, times 4 pi/(2l+1), of the q_lm vectors of two atoms with bonds A and C *)
Prod(l, A, C, unitw) ==
  LET inner(i) == SumSeq([k \in DOMAIN C |->
                     LET p == Legendre(l, UDot(A[i].u, C[k].u))
                     IN IF unitw THEN p ELSE Mul(C[k].w, p)])
  IN IF unitw THEN SumSeq([i \in DOMAIN A |-> inner(i) \div Len(C)]) \div Len(A)
     ELSE SumSeq([i \in DOMAIN A |-> Mul(A[i].w, inner(i))])

Norm2(l, A, unitw) == Prod(l, A, A, unitw)

(* normalised product, 15 bits; the norms must not be near zero *)
SijOf(bik, bii, bkk) == LET root == ISqrt(1024 * Mul(bii, bkk)) IN (bik * 1024) \div Max2(root, 1)

(* component m = 0 and m = l of q_lm have simple forms:
   q_l0 = sqrt((2l+1)/4pi) <P_l(u_z)>,   q_ll = (-1)^l sqrt((2l+1)!/4pi)/(2^l l!) <(u_x + i u_y)^l> *)
CZero == <<0, 661424, 782607, 887393, 981050, 1066514, 1145620, 1219606, 1289353, 1355516, 1418597, 1478989>>
CTop  == <<0, 405038, 437491, 464029, 486678, 506550, 524329, 540466, 555277, 568989, 581777, 593774>>
RECURSIVE CPow(_, _, _)
CPow(x, y, n) == IF n = 0 THEN <<ONE, 0>>
                 ELSE LET p == CPow(x, y, n-1) IN <<Mul(p[1], x) - Mul(p[2], y), Mul(p[1], y) + Mul(p[2], x)>>
MeanOf(A, f(_), unitw) == IF unitw THEN SumSeq([i \in DOMAIN A |-> f(A[i])]) \div Len(A)
                          ELSE SumSeq([i \in DOMAIN A |-> Mul(A[i].w, f(A[i]))])
QZero(l, A, unitw) == LET f(b) == Legendre(l, b.u[3]) IN Mul(CZero[l], MeanOf(A, f, unitw))
QTop(l, A, unitw) ==
  LET re(b) == CPow(b.u[1], b.u[2], l)[1]
      im(b) == CPow(b.u[1], b.u[2], l)[2]
      s == IF l % 2 = 0 THEN 1 ELSE -1
  IN <<s * Mul(CTop[l], MeanOf(A, re, unitw)), s * Mul(CTop[l], MeanOf(A, im, unitw))>>

(* 4 pi/(2l+1) *)
CNorm == <<0, 2635359, 1882399, 1464088, 1197890, 1013600, 878453, 775106, 693516, 627466, 572904, 527072>>
SumSq(re, im) == SumSeq([m \in DOMAIN re |-> Mul(re[m], re[m]) + Mul(im[m], im[m])])

(* ---- solid bonds; s and thresholds in millionths, mg the rounding ---- *)
Above(s, t, right) == IF right THEN s > t ELSE s < t
(* the number of bonds beyond the threshold lies between these *)
SolidLo(s, t, right, mg) == Cardinality({k \in DOMAIN s : IF right THEN s[k] > t + mg ELSE s[k] < t - mg})
SolidHi(s, t, right, mg) == Cardinality({k \in DOMAIN s : IF right THEN s[k] > t - mg ELSE s[k] < t + mg})
(* enough bonds: more than an integer number, or than a fraction (in thousandths) of n *)
Enough(count, n, bonds, isfrac) == IF isfrac THEN count * 1000 > bonds * n ELSE count > bonds
=============================================================================
