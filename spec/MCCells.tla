------------------------------ MODULE MCCells ------------------------------
(* Exhaustive: every box length, cutoff and pair of positions, in and outside of the box;
   and every displacement of two small skewed cells. *)
EXTENDS CellList
CONSTANTS MaxL, MaxC

VARIABLES L, c, x, y, cell, d
vars == <<L, c, x, y, cell, d>>
None == -1000

SkewCells == { <<<<4,0,0>>,<<1,5,0>>,<<-2,1,4>>>>,     \* lower triangular
               <<<<4,1,1>>,<<1,5,-1>>,<<-1,1,4>>>>,    \* no zero components
               <<<<1,5,0>>,<<4,0,0>>,<<-2,1,4>>>> }    \* left handed

Init == L = None /\ c = None /\ x = None /\ y = None /\ cell = <<>> /\ d = <<>>

SetBox == /\ L = None /\ cell = <<>>
          /\ L' \in 2..MaxL
          /\ c' \in {k \in 1..MaxC : 2*k <= L'}
          /\ UNCHANGED <<x, y, cell, d>>
Put1 == L # None /\ x = None /\ x' \in (-(L \div 2))..(L + L \div 2) /\ UNCHANGED <<L, c, y, cell, d>>
Put2 == L # None /\ x # None /\ y = None /\ y' \in (-(L \div 2))..(L + L \div 2) /\ UNCHANGED <<L, c, x, cell, d>>
SetSkew == L = None /\ cell = <<>> /\ cell' \in SkewCells /\ UNCHANGED <<L, c, x, y, d>>
Displace == cell # <<>> /\ d = <<>> /\ d' \in (-5..5) \X (-5..5) \X (-5..5) /\ UNCHANGED <<L, c, x, y, cell>>

Next == SetBox \/ Put1 \/ Put2 \/ SetSkew \/ Displace
Spec == Init /\ [][Next]_vars

Placed == y # None
(* a pair is listed once when closer than the cutoff, else not at all *)
CellsExact == Placed => Listed(L, c, x, y) = IF Dist(L, x, y) < c THEN 1 ELSE 0
Symmetric == Placed => Listed(L, c, x, y) = Listed(L, c, y, x)
(* the wrapped distance is the least over all images *)
LeastImage == Placed => \A k \in -4..4 : Dist(L, x, y) <= Abs(x - y + k*L)
(* whole boxes added to a position change nothing *)
Invariant1 == Placed => Dist(L, x + L, y) = Dist(L, x, y)

HalfWidth2(cc) == \* square of half the smallest width, rounded down: widths are det/|a x b|
  LET D == Abs(Det(cc))
      n(k) == N2(Cross(cc[(k % 3) + 1], cc[((k + 1) % 3) + 1]))
      big == MaxSeq(<<n(1), n(2), n(3)>>)
  IN (D*D) \div (4*big)
(* cell coordinates of the image are within a half; it is a true image; any image shorter than
   half the smallest width is the one chosen *)
SkewOK == d # <<>> =>
  LET w == Wrap(cell, d) D == Abs(Det(cell)) f == Frac(cell, w)
  IN /\ \A k \in 1..3 : 2*Abs(f[k]) <= D
     /\ IsLatticeVec(cell, Sub(w, d))
     /\ \A s \in Shifts(cell, 2) : LET v == Add(w, s) IN N2(v) < HalfWidth2(cell) => v = w
=============================================================================
