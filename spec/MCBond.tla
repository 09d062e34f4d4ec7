------------------------------- MODULE MCBond -------------------------------
(* Sets of bonds along directions of a grid: what follows from the definition of q_l, and the
   rules for solid atoms. *)
EXTENDS BondOrder
CONSTANTS MaxBonds, MaxS, Ls

VARIABLES bonds, svals
vars == <<bonds, svals>>
Dirs == {<<1,0,0>>, <<0,1,0>>, <<0,0,-1>>, <<1,1,0>>, <<-1,0,1>>, <<1,1,1>>, <<-1,1,-1>>, <<2,1,0>>}
Init == bonds = <<>> /\ svals = <<>>
Bond == /\ Len(bonds) < MaxBonds /\ svals = <<>>
        /\ \E d \in Dirs : bonds' = Append(bonds, d) /\ UNCHANGED svals
Value == /\ Len(svals) < MaxS /\ bonds = <<>>
         /\ \E x \in -1..3 : svals' = Append(svals, x) /\ UNCHANGED bonds
Next == Bond \/ Value
Spec == Init /\ [][Next]_vars

U(bs) == [i \in DOMAIN bs |-> [u |-> UnitVec(bs[i]), w |-> 1]]
Rot(b) == <<b[2], b[3], b[1]>>
Turn(b) == <<-b[2], b[1], b[3]>>
Mir(b) == <<b[1], b[2], -b[3]>>
Inv(b) == <<-b[1], -b[2], -b[3]>>
M(bs, f(_)) == [i \in DOMAIN bs |-> f(bs[i])]
T == 800
B == U(bonds)
Some == bonds # <<>>

UnitLength == \A i \in DOMAIN bonds : Close(UDot(B[i].u, B[i].u), ONE, 8)
InRange == Some => \A l \in Ls : LET n == Norm2(l, B, TRUE) IN n >= -T /\ n <= ONE + T
OneBond == Len(bonds) = 1 => \A l \in Ls : Close(Norm2(l, B, TRUE), ONE, T)
Rotations == Some => \A l \in Ls : LET n == Norm2(l, B, TRUE)
   IN /\ Close(n, Norm2(l, U(M(bonds, Rot)), TRUE), T)
      /\ Close(n, Norm2(l, U(M(bonds, Turn)), TRUE), T)
      /\ Close(n, Norm2(l, U(M(bonds, Mir)), TRUE), T)
      /\ Close(n, Norm2(l, U(M(bonds, Inv)), TRUE), T)
OddVanish == Some => \A l \in {x \in Ls : x % 2 = 1} :
   Norm2(l, U(bonds \o M(bonds, Inv)), TRUE) <= T
OrderFree == Some => \A l \in Ls : Close(Norm2(l, B, TRUE), Norm2(l, U(Reverse(bonds)), TRUE), T)
WeightsAgree == Some => \A l \in Ls :
   LET n == Len(bonds) W == [i \in DOMAIN B |-> [u |-> B[i].u, w |-> ONE \div n]]
   IN Close(Norm2(l, B, TRUE), Norm2(l, W, FALSE), T)
(* Cauchy-Schwarz: |s_ij| is at most one *)
Bounded == Len(bonds) >= 2 => \A l \in Ls :
   LET A == U(SubSeq(bonds, 1, 1)) C == U(SubSeq(bonds, 2, Len(bonds)))
       cc == Norm2(l, C, TRUE)
   IN cc > 30000 => Abs(SijOf(Prod(l, A, C, TRUE), Norm2(l, A, TRUE), cc)) <= 32768 + 400
(* components with m = 0 and m = l never exceed the whole *)
Parts == Some => \A l \in Ls :
   LET z == QZero(l, B, TRUE) t == QTop(l, B, TRUE)
   IN Mul(CNorm[l], Mul(z, z) + 2*(Mul(t[1], t[1]) + Mul(t[2], t[2]))) <= Norm2(l, B, TRUE) + T

(* rules for solids *)
SLo(t, right) == SolidLo(svals, t, right, 0)
CountExact == \A t \in -1..3, right \in BOOLEAN :
   /\ SLo(t, right) = Cardinality({k \in DOMAIN svals : Above(svals[k], t, right)})
   /\ SolidHi(svals, t, right, 0) = SLo(t, right)
   /\ SLo(t, TRUE) + SLo(t, FALSE) + Cardinality({k \in DOMAIN svals : svals[k] = t}) = Len(svals)
ThresholdMonotone == \A t \in -1..2 : SLo(t, TRUE) >= SLo(t+1, TRUE) /\ SLo(t, FALSE) <= SLo(t+1, FALSE)
BondsMonotone == \A c \in 0..4 : \A b \in 0..3 : Enough(c, 4, b+1, FALSE) => Enough(c, 4, b, FALSE)
FractionIsCount == \A c \in 0..4 : \A b \in 0..4 : Enough(c, 4, b, FALSE) = Enough(c, 4, 250*b, TRUE)
=============================================================================
