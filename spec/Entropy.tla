------------------------------ MODULE Entropy ------------------------------
(* Pair entropy of an atom.  Lengths are fixed point numbers with 20 bits (unit: the length
   unit of the user, 64 grid units). *)
EXTENDS Flt

(* length of a grid vector *)
Len20(v) == LET n == N2(v) IN
  IF n > 131000 THEN ISqrt(n * 64) * 2048 ELSE
  LET m == n * 16384 L == ISqrt(m) IN L * 128 + ((m - L*L) * 64) \div L

(* sum over the neighbors of exp(-(r-d)^2/(2 s^2)); s in 64ths *)
Gauss(D, r, s) ==
  SumSeq([k \in DOMAIN D |->
     LET d == Abs(r - D[k])
         z == ((d \div 128) * 64) \div s          \* 13 bits
     IN IF z > 45000 THEN 0 ELSE ExpNeg((z * z) \div 128)])

(* g(r) as number: V is the volume per atom, as number; 4 pi sqrt(2 pi) = 31.49878 *)
G(D, r, s, V) ==
  LET a == Gauss(D, r, s)
  IN IF a = 0 THEN F(0)
     ELSE LET r10 == r \div 1024
              den == FMul(FDiv(F(3149878), F(100000)), FMul(FDiv(F(s), F(64)), FDiv(F(r10 * r10), F(ONE))))
          IN FDiv(FMul(FDiv(F(a), F(ONE)), V), den)
(* (g ln g - g + 1) r^2, 16 bits *)
Integrand(D, r, s, V) ==
  LET gf == TLCEval(G(D, r, s, V))
      r10 == r \div 1024
  IN IF FLess(F(8), gf)
     THEN LET l == Ln(gf[1] * 64) + (gf[2] + 14) * LN2      \* ln of a large g
          IN FTo20(FMul(FAdd(FMul(gf, FDiv(F(l - ONE), F(ONE))), F(1)), FDiv(F(r10 * r10), F(ONE)))) \div 16
     ELSE LET g == FTo20(gf)
              l == IF g = 0 THEN 0 ELSE Ln(g)
              x == IF g = 0 THEN ONE
                   ELSE (IF l >= 0 THEN 4 * MulDiv(g \div 4, l, ONE) ELSE -MulDiv(g, -l, ONE)) - g + ONE
          IN MulDiv(Max2(0, x) \div 4, (r10 * r10) \div 16, 16384) \div 16
             \* 18 bits times 16 bits over 2^14: 20 bits
Points(r0, h, n) == [j \in 1..(n+1) |-> r0 + (j-1)*h]

(* the trapezoidal rule; and the one that passes over the point before the last, a known
   deviation of the implementation *)
Trapezoid(f, n, h) == LET s == f[1] + f[n+1] + 2 * SumSeq([j \in 1..(n-1) |-> f[j+1]])
                      IN FDiv(FMul(F(s), F(h)), F(2))
TrapezoidDev(f, n, h) == LET s == f[1] + f[n+1] + 2 * SumSeq([j \in 1..(n-2) |-> f[j+1]])
                         IN FDiv(FMul(F(s), F(h)), F(2))
(* minus the entropy, as number, from the integral in 16 and 20 bits *)
MinusS(I, V, twopi) == LET x == FDiv(FDiv(I, F(65536)), FMul(F(ONE), V))
                       IN IF twopi THEN FMul(FDiv(F(628319), F(100000)), x) ELSE x
(* switching function (1-(r/a)^N)/(1-(r/a)^M); it is continuous, with the value N/M where r = a;
   close to it by the first two terms there *)
Switch(d, a, N, M) ==
  IF Abs(d - a) < a \div 64
  THEN LET t == ((d - a) * 32768) \div a
       IN FDiv(F(((32768 - (((M - N) * t) \div 2)) * N) \div M), F(32768))
  ELSE
  LET x == FDiv(F(d), F(a))
      p == FTo20(FPow(x, N)) q == FTo20(FPow(x, M))
  IN FDiv(F(Abs(ONE - p)), F(Abs(ONE - q)))
=============================================================================
