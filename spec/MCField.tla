------------------------------ MODULE MCField ------------------------------
(* The arithmetic and geometry that fields are judged with, checked against their exact
   meaning: every number n (a state each) up to MAXN. *)
EXTENDS Voronoi, Entropy, Rdf
CONSTANT MAXN
VARIABLE n
Init == n = 1
Next == n < MAXN /\ n' = n + 1
Spec == Init /\ [][Next]_n

(* numbers: exact products, quotients and sums of small integers come back *)
Small == {1, 2, 3, 7, 64, 1000, 4095}
Exact(x) == IF x[1] = 0 THEN 0 ELSE IF x[2] >= 0 THEN x[1] * Pow2(x[2]) ELSE (x[1] + Pow2(-x[2]-1)) \div Pow2(-x[2])
FltOK == \A k \in Small : /\ n*k < 16384 => Exact(FMul(F(n), F(k))) = n*k
                          /\ FClose(FMul(F(n), F(k)), F(n*k), 8000)
                          /\ FClose(FAdd(F(n), F(k)), F(n+k), 8000)
                          /\ FClose(FMul(FDiv(F(n), F(k)), F(k)), F(n), 8000)
                          /\ FLess(F(n), F(k)) => n < k
                          /\ (n < k /\ k < 16384 /\ n < 16384) => FLess(F(n), F(k))
RootOK == FClose(FMul(FSqrt(F(n)), FSqrt(F(n))), F(n), 4000)
MulDivOK == \A k \in Small : \A c \in Small : n * k < 16777216 => MulDiv(n, k, c) = (n*k) \div c
LenOK == LET v == <<n % 300, n % 7, n \div 20>> l == Len20(v)
         IN N2(v) > 0 => FClose(FMul(F(l), F(l)), FMul(F(16384*16384), F(N2(v))), 3000)

(* logarithm and exponential are inverse, and products go to sums *)
X == 2048 + n * 97                           \* argument, 20 bits
LogOK == LET s == (X \div 1024) * 2 IN \A k \in {3, 5, 8} : Close(Ln(s * 512 * k) - Ln(s*512), Ln(k * ONE), 40)
ExpOK == LET l == Ln(X) IN l <= 0 => Close(ExpNeg(-l), X, 40)
SumOK == \A k \in {1, 50, 333} : Close(Mul(ExpNeg(n*1024), ExpNeg(k*1024)), ExpNeg((n+k)*1024), 40)

(* bins: a squared length is in bin k exactly if the length is between its limits *)
BinsOK == \A e0 \in {-1, 0, 3, 10} : \A w \in {1, 2, 5} :
             LET b == BinOf(n, e0, w) IN
             \A k \in {0, 1, 2, 3, b-1, b, b+1} :
                LET lo == e0 + (k-1)*w hi == lo + w      \* limits plus one half
                    in == (lo < 0 \/ n > lo*lo + lo) /\ (hi >= 0 /\ n <= hi*hi + hi)
                IN (k >= 1) => (in <=> (k = b))
(* shells add up to a ball *)
ShellOK == n > 1 => LET k == n \div 2 IN FClose(FAdd(ShellCube(0, k), ShellCube(k, n)), ShellCube(0, n), 4000)

(* a box a x b x c about an atom, as Voronoi cell of the lattice of such boxes: accepted, with
   volume and areas; not accepted with a face turned, a vertex moved or an atom too near *)
Dim == <<8 + (n % 5), 8 + ((n \div 5) % 7), 8 + ((n \div 35) % 4)>>
Vx == [k \in 1..8 |-> <<32 * Dim[1] * (IF (k-1) % 2 = 0 THEN -1 ELSE 1), 32 * Dim[2] * (IF ((k-1) \div 2) % 2 = 0 THEN -1 ELSE 1),
                       32 * Dim[3] * (IF (k-1) \div 4 = 0 THEN -1 ELSE 1)>>]
Fc == <<<<1,3,7,5>>, <<2,6,8,4>>, <<1,5,6,2>>, <<3,4,8,7>>, <<1,2,4,3>>, <<5,7,8,6>>>>
Nb == <<<<-Dim[1],0,0>>, <<Dim[1],0,0>>, <<0,-Dim[2],0>>, <<0,Dim[2],0>>, <<0,0,-Dim[3]>>, <<0,0,Dim[3]>>>>
Turned == [Fc EXCEPT ![3] = <<2,6,5,1>>]
Moved == [Vx EXCEPT ![1] = <<@[1] + 64, @[2], @[3]>>]
All == {v \in {<<a*Dim[1], b*Dim[2], c*Dim[3]>> : a \in -1..1, b \in -1..1, c \in -1..1} : v # <<0,0,0>>}
CellOK == /\ OnFaces(Vx, Fc, Nb) /\ NoneCloser(Vx, All) /\ Closed(Fc) /\ Euler(Vx, Fc)
          /\ FClose(Volume(Vx, Fc, Nb), F(Dim[1]*Dim[2]*Dim[3]), 500)
          /\ FClose(Area512(Vx, Fc[1]), F(512*Dim[2]*Dim[3]), 500)
          /\ ~Closed(Turned) /\ ~OnFaces(Moved, Fc, Nb)
          /\ ~NoneCloser(Vx, All \cup {<<Dim[1]-3, 0, 0>>})
          /\ ~Closed(Tail(Fc)) /\ ~Euler(Vx, Tail(Fc))
          /\ VoroVector([k \in 1..6 |-> <<10,10,10,10>>], [k \in 1..6 |-> 166667], 50, 10000) = <<0, 6, 0, 0>>
          /\ VoroVector([k \in 1..6 |-> <<10,1,10,10>>], [k \in 1..6 |-> 166667], 50, 10000) = <<6, 0, 0, 0>>
          /\ VoroVector([k \in 1..6 |-> <<10,10,10,10>>], [k \in 1..6 |-> 166667], 50, 170000) = <<0, 0, 0, 0>>

(* the entropy of a distribution that is one everywhere is zero; it is never positive *)
Inv == FltOK /\ RootOK /\ MulDivOK /\ LenOK /\ LogOK /\ ExpOK /\ SumOK /\ BinsOK /\ ShellOK /\ CellOK
=============================================================================
