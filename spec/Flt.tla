-------------------------------- MODULE Flt --------------------------------
(* Nonnegative numbers <<m, e>> = m * 2^e with a mantissa of 15 bits, relative error 2^-15 an
   operation; products of three 32 bit integers with division; logarithms and exponentials. *)
EXTENDS Num

RECURSIVE FNorm(_, _)
FNorm(m, e) == IF m = 0 THEN <<0, 0>>
               ELSE IF m >= 32768*16 THEN FNorm((m + 8) \div 16, e+4)
               ELSE IF m >= 32768 THEN FNorm((m + 1) \div 2, e+1)
               ELSE IF m < 2048 THEN FNorm(m * 16, e-4)
               ELSE IF m < 16384 THEN FNorm(m * 2, e-1) ELSE <<m, e>>
F(n) == TLCEval(FNorm(n, 0))
FMul(a, b) == TLCEval(FNorm(a[1] * b[1], a[2] + b[2]))
FDiv(a, b) == TLCEval(IF a[1] = 0 THEN <<0, 0>> ELSE FNorm(((a[1] * 32768 + b[1] \div 2) \div b[1]) * 2, a[2] - b[2] - 16))
Pow2(k) == 2^k
FAdd(a, b) == TLCEval(
   IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
   ELSE IF a[2] >= b[2] THEN IF a[2] - b[2] > 15 THEN a ELSE FNorm(a[1] * Pow2(a[2] - b[2]) + b[1], b[2])
   ELSE IF b[2] - a[2] > 15 THEN b ELSE FNorm(b[1] * Pow2(b[2] - a[2]) + a[1], a[2]))
FSum(s) == FoldLeft(LAMBDA a, b : FAdd(a, b), <<0, 0>>, s)
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN F(1) ELSE FMul(a, FPow(a, n-1))

(* a and b agree to one part in `per` *)
FClose(a, b, per) ==
  IF a[1] = 0 \/ b[1] = 0 THEN a[1] = b[1]
  ELSE LET k == a[2] - b[2]
           x == IF k >= 0 THEN a[1] * Pow2(Min2(k, 14)) ELSE a[1]
           y == IF k >= 0 THEN b[1] ELSE b[1] * Pow2(Min2(-k, 14))
       IN Abs(k) <= 2 /\ Abs(x - y) <= 2 + Max2(x, y) \div per
FLess(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN a[1] < b[1] ELSE a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
(* the number as a multiple of 2^-20, if it is small enough *)
FTo20(a) == IF a[1] = 0 \/ a[2] + 20 < -16 THEN 0 ELSE IF a[2] + 20 >= 0 THEN a[1] * Pow2(a[2] + 20) ELSE a[1] \div Pow2(-(a[2] + 20))
PI4F == FDiv(F(12566371), F(1000000))

(* a * b / c for 0 <= a, c < 2^23 and any b >= 0 whose result fits *)
RECURSIVE MulDivIt(_, _, _, _, _)
MulDivIt(a, b, c, sh, acc) ==
  \* acc = <<quotient, remainder>> of a times the digits of b already used
  LET d == (b \div sh) % 128
      t == acc[2] * 128 + a * d
      r == <<acc[1] * 128 + t \div c, t % c>>
  IN IF sh = 1 THEN r[1] ELSE MulDivIt(a, b, c, sh \div 128, r)
MulDiv(a, b, c) == MulDivIt(a, b, c, IF b >= 268435456 THEN 268435456 ELSE IF b >= 2097152 THEN 2097152
                                     ELSE IF b >= 16384 THEN 16384 ELSE IF b >= 128 THEN 128 ELSE 1, <<0, 0>>)

LN2 == 726817
(* exp(-x), x >= 0, 20 bits *)
ExpNeg(x) ==
  IF x > 15 * ONE THEN 0 ELSE
  LET n == x \div LN2
      y == x % LN2
      t8(k, acc) == ONE - Mul(y, acc) \div k
      p == t8(1, t8(2, t8(3, t8(4, t8(5, t8(6, t8(7, ONE)))))))
  IN p \div Pow2(n)
(* natural logarithm of x > 0, both 20 bits *)
RECURSIVE LnIt(_, _)
LnIt(x, k) == IF x >= 2*ONE THEN LnIt(x \div 2, k+1)
              ELSE IF x < ONE THEN LnIt(x*2, k-1)
              ELSE LET t == MulDiv(x - ONE, ONE, x + ONE)
                       u == Mul(t, t)
                       s == ONE + Mul(u, ONE \div 3 + Mul(u, ONE \div 5 + Mul(u, ONE \div 7 + Mul(u, ONE \div 9 + Mul(u, ONE \div 11)))))
                   IN 2 * Mul(t, s) + k * LN2
Ln(x) == LnIt(x, 0)
=============================================================================
