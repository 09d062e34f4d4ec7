-------------------------------- MODULE Num --------------------------------
(* Exact integer arithmetic within TLC's 32 bits: roots, fixed point, sums. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, Functions

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x = 0 THEN 0 ELSE 1

BIG == 2147483647          \* the driver's mark of "not a number on the grid"

Close(a, b, tol) == a # BIG /\ b # BIG /\ Abs(a - b) <= tol

SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
MaxSeq(s) == FoldLeft(LAMBDA a, b : IF b > a THEN b ELSE a, s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b : IF b < a THEN b ELSE a, s[1], s)

(* all elements of a sequence satisfy P, indexwise *)
Range1(s) == {s[i] : i \in DOMAIN s}

Dot(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3]
N2(v) == Dot(v, v)
Sub(u, v) == <<u[1]-v[1], u[2]-v[2], u[3]-v[3]>>
Add(u, v) == <<u[1]+v[1], u[2]+v[2], u[3]+v[3]>>
Scale(k, v) == <<k*v[1], k*v[2], k*v[3]>>
Cross(a, b) == <<a[2]*b[3]-a[3]*b[2], a[3]*b[1]-a[1]*b[3], a[1]*b[2]-a[2]*b[1]>>
Det(c) == Dot(c[1], Cross(c[2], c[3]))
IsVec(v) == Len(v) = 3 /\ \A k \in 1..3 : v[k] # BIG

(* integer square root, floor *)
RECURSIVE ISqrtIt(_, _)
ISqrtIt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE ISqrtIt(n, y)
ISqrt(n) == IF n < 2 THEN n
            ELSE ISqrtIt(n, IF n > 1073741823 THEN 46340
                            ELSE IF n > 16777216 THEN 32768
                            ELSE IF n > 65536 THEN 4096
                            ELSE IF n > 256 THEN 256 ELSE 16)

(* fixed point with 20 fractional bits *)
ONE == 1048576
Mul(a, b) == ((a \div 1024) * b + ((a % 1024) * b) \div 1024) \div 1024

(* fixed point with 14 fractional bits *)
ONE14 == 16384
Mul14(a, b) == (a * b) \div 16384
To14(a) == (a + 32) \div 64

(* a unit vector (20 bits) along an integer vector with components below 4096 *)
UnitVec(w) ==
  LET v == IF N2(w) < 10000 THEN Scale(128, w) ELSE w
      n == ISqrt(N2(v))
      u0 == <<((v[1]*131072) \div n)*8, ((v[2]*131072) \div n)*8, ((v[3]*131072) \div n)*8>>
      Norm(u) == LET s == Mul(u[1],u[1]) + Mul(u[2],u[2]) + Mul(u[3],u[3])
                     f == (3*ONE - s) \div 2
                 IN <<Mul(u[1],f), Mul(u[2],f), Mul(u[3],f)>>
  IN TLCEval(Norm(TLCEval(Norm(TLCEval(u0)))))

UDot(u, w) == Mul(u[1],w[1]) + Mul(u[2],w[2]) + Mul(u[3],w[3])

(* Legendre polynomial of degree l at x, both with 20 bits *)
RECURSIVE LegIt(_, _, _, _, _)
LegIt(l, x, k, p, pm) ==
  IF k > l THEN p
  ELSE LegIt(l, x, k+1, ((2*k-1)*Mul(x, p) - (k-1)*pm) \div k, p)
Clip(x) == IF x > ONE THEN ONE ELSE IF x < -ONE THEN -ONE ELSE x
Legendre(l, x) == IF l = 0 THEN ONE ELSE LegIt(l, Clip(x), 2, Clip(x), ONE)

(* sort a sequence of integers *)
SortInts(s) == SortSeq(s, LAMBDA a, b : a < b)

(* the multiset of a sequence, as a function from values to how often they occur *)
Bag(s) == [x \in Range1(s) |-> Cardinality({i \in DOMAIN s : s[i] = x})]
SameBag(s, t) == Len(s) = Len(t) /\ Bag(s) = Bag(t)
=============================================================================
