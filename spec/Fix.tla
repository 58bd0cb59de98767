-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Fixed point arithmetic with twenty decimal places on the 32 bit         *)
(* integers of TLC.  A number is a tuple of six limbs, lowest first; the   *)
(* first five are 0..9999, the last one is the integral part (the floor).  *)
(***************************************************************************)
EXTENDS Integers, Sequences

B == 10000

\* carry from the lowest limb upwards
Norm(a, b, c, d, e, f) ==
  LET b1 == b + a \div B
      c1 == c + b1 \div B
      d1 == d + c1 \div B
      e1 == e + d1 \div B
  IN  <<a % B, b1 % B, c1 % B, d1 % B, e1 % B, f + e1 \div B>>

Whole(n)          == <<0, 0, 0, 0, 0, n>>
\* n + hi/10^4 + lo/10^8, all of them not negative
Dec(n, hi, lo)  == <<0, 0, 0, lo, hi, n>>
Zero == Whole(0)
One  == Whole(1)

Add(x, y) == Norm(x[1] + y[1], x[2] + y[2], x[3] + y[3], x[4] + y[4], x[5] + y[5], x[6] + y[6])
Sub(x, y) == Norm(x[1] - y[1], x[2] - y[2], x[3] - y[3], x[4] - y[4], x[5] - y[5], x[6] - y[6])
Neg(x)    == Sub(Zero, x)

Less(x, y)  == LET d == Sub(x, y) IN d[6] < 0
IsZero(x)   == x = Zero
Abs(x)      == IF x[6] < 0 THEN Neg(x) ELSE x
Near(x, y, ulps) == LET d == Abs(Sub(x, y)) IN d[6] = 0 /\ d[5] = 0 /\ d[4] = 0 /\ d[3] = 0 /\ (d[2] * B + d[1]) <= ulps

\* the product; what falls below the lowest limb is cut off
Mul(x, y) ==
  LET k == x[1] * y[5] + x[2] * y[4] + x[3] * y[3] + x[4] * y[2] + x[5] * y[1]
  IN  Norm(k \div B + x[1] * y[6] + x[2] * y[5] + x[3] * y[4] + x[4] * y[3] + x[5] * y[2] + x[6] * y[1],
           x[2] * y[6] + x[3] * y[5] + x[4] * y[4] + x[5] * y[3] + x[6] * y[2],
           x[3] * y[6] + x[4] * y[5] + x[5] * y[4] + x[6] * y[3],
           x[4] * y[6] + x[5] * y[5] + x[6] * y[4],
           x[5] * y[6] + x[6] * y[5],
           x[6] * y[6])

Sq(x) == Mul(x, x)

\* times and divided by a small positive integer
MulInt(x, k) == Norm(k * x[1], k * x[2], k * x[3], k * x[4], k * x[5], k * x[6])
DivInt(x, k) ==
  LET e == (x[6] % k) * B + x[5]
      d == (e % k) * B + x[4]
      c == (d % k) * B + x[3]
      b == (c % k) * B + x[2]
      a == (b % k) * B + x[1]
  IN  <<a \div k, b \div k, c \div k, d \div k, e \div k, x[6] \div k>>
Half(x) == DivInt(x, 2)

\* Newton's iterations; the starting values have at least one digit
RECURSIVE InvStep(_, _, _)
InvStep(x, r, n) == IF n = 0 THEN r ELSE InvStep(x, Mul(r, Sub(Whole(2), Mul(x, r))), n - 1)
\* 1/x for 0.01 <= x < 20000
InvPos(x) ==
  LET u == x[6] * B + x[5] + 1
      q == 100000000 \div u
  IN  InvStep(x, <<0, 0, 0, 0, q % B, q \div B>>, 7)
Inv(x) == IF x[6] < 0 THEN Neg(InvPos(Neg(x))) ELSE InvPos(x)
Div(x, y) == Mul(x, Inv(y))

\* 1/sqrt(x) for x near one
RECURSIVE RsqrtStep(_, _, _)
RsqrtStep(x, r, n) == IF n = 0 THEN r
                      ELSE RsqrtStep(x, Half(Mul(r, Sub(Whole(3), Mul(x, Sq(r))))), n - 1)
Rsqrt(x) == RsqrtStep(x, One, 8)

------------------------------------------------------- (* series *)
\* sum over t, t*u/(a*b), ... : terms of sine and cosine with alternating sign
RECURSIVE Alternating(_, _, _, _)
Alternating(t, u, k, sum) ==
  IF k > 26 THEN sum
  ELSE LET t1 == Neg(DivInt(Mul(t, u), k * (k + 1))) IN Alternating(t1, u, k + 2, Add(sum, t1))

\* of an angle in radians, at most 0.8
SinRad(x) == Alternating(x, Sq(x), 2, x)
CosRad(x) == Alternating(One, Sq(x), 1, One)

Degree == <<9577, 9432, 2519, 5329, 174, 0>>    \* pi/180

\* sine of r degrees, 0 <= r <= 90
SinQuarter(r) == IF r[6] < 45 THEN SinRad(Mul(r, Degree)) ELSE CosRad(Mul(Sub(Whole(90), r), Degree))
CosQuarter(r) == SinQuarter(Sub(Whole(90), r))

SinDeg(d) == LET q == d[6] \div 90
                 r == Sub(d, Whole(90 * q))
             IN  CASE q % 4 = 0 -> SinQuarter(r)
                   [] q % 4 = 1 -> CosQuarter(r)
                   [] q % 4 = 2 -> Neg(SinQuarter(r))
                   [] OTHER     -> Neg(CosQuarter(r))
CosDeg(d) == SinDeg(Add(d, Whole(90)))

\* exp for |x| <= 1
RECURSIVE ExpTerms(_, _, _, _)
ExpTerms(t, x, k, sum) ==
  IF k > 24 THEN sum ELSE LET t1 == DivInt(Mul(t, x), k) IN ExpTerms(t1, x, k + 1, Add(sum, t1))
ExpSmall(x) == ExpTerms(One, x, 1, One)

\* artanh(z) = z + z^3/3 + ... for |z| <= 0.4
RECURSIVE AtanhTerms(_, _, _, _)
AtanhTerms(p, u, k, sum) ==
  IF k > 51 \/ IsZero(p) THEN sum
  ELSE LET p1 == Mul(p, u) IN AtanhTerms(p1, u, k + 2, Add(sum, DivInt(p1, k)))
Atanh(z) == AtanhTerms(z, Sq(z), 3, z)

Ln10 == <<8402, 456, 2994, 8509, 3025, 2>>
Ln2  == <<942, 9453, 559, 4718, 6931, 0>>

\* natural logarithm of m in 0.5 .. 2.0
LnNear(m) == MulInt(Atanh(Div(Sub(m, One), Add(m, One))), 2)
\* of a positive number of normal size (0.0001 <= x < 100000000)
RECURSIVE Ln(_)
Ln(x) == CASE Less(x, <<0, 0, 0, 0, 7000, 0>>) -> Sub(Ln(MulInt(x, 2)), Ln2)
           [] Less(<<0, 0, 0, 0, 4000, 1>>, x) -> Add(Ln(Half(x)), Ln2)
           [] OTHER -> LnNear(x)
Lg(x) == Div(Ln(x), Ln10)

\* e^x for |x| < 9
RECURSIVE Exp(_)
Exp(x) == IF x[6] >= 1 \/ x[6] < -1 THEN Sq(Exp(Half(x))) ELSE ExpSmall(x)
=============================================================================
