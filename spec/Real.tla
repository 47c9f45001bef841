-------------------------------- MODULE Real --------------------------------
(***************************************************************************)
(* Fixed-point real arithmetic: the big integer v stands for v / 2^P.      *)
(* Every operation is exact or truncates below 2^-P, so a formula with a   *)
(* few thousand operations on numbers below 10^12 is good to ~10^-30: for  *)
(* judging IEEE doubles (relative error 1.1*10^-16) this is exact.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, BigInt, TLC

P == 176

RZero == BZero
ROne  == BPow2(P)
RHalf == BPow2(P - 1)
R(n)  == BShl(BFromInt(n), P)               \* integer n
RQ(n, d) == BDiv(BShl(BFromInt(n), P), BFromInt(d))   \* n/d, d > 0

RAdd(x, y) == BAdd(x, y)
RSub(x, y) == BSub(x, y)
RNeg(x) == BNeg(x)
RAbs(x) == BAbs(x)
RMul(x, y) == BShr(BMul(x, y), P)
RSqr(x) == BShr(BMul(x, x), P)
RDiv(x, y) == IF BSgn(y) > 0 THEN BDiv(BShl(x, P), y) ELSE BDiv(BShl(BNeg(x), P), BNeg(y))
RMulI(x, n) == BMul(x, BFromInt(n))
RDivI(x, n) == BDiv(x, BFromInt(n))         \* n > 0
RSqrt(x) == BSqrt(BShl(x, P))
RLt(x, y) == BLt(x, y)
RLe(x, y) == BLe(x, y)
RMax(x, y) == IF BLt(x, y) THEN y ELSE x
RMin(x, y) == IF BLt(x, y) THEN x ELSE y
RSgn(x) == BSgn(x)
RScale(x, k) == IF k >= 0 THEN BShl(x, k) ELSE BShr(x, -k)    \* x * 2^k

\* 10^-k
RECURSIVE RTen(_)
RTen(k) == IF k = 0 THEN ROne ELSE RDivI(RTen(k - 1), 10)
RTol == [k \in 0..40 |-> RTen(k)]
RECURSIVE RTenP(_)
RTenP(k) == IF k = 0 THEN ROne ELSE RMulI(RTenP(k - 1), 10)

\* ---------------------------------------------------------------- arctangent
\* Taylor series of atan on |x| <= 0.1 or so
RECURSIVE AtanSer(_, _, _, _)
AtanSer(pow, mx2, n, acc) ==
    IF BSgn(pow) = 0 \/ n > 401 THEN acc
    ELSE AtanSer(RMul(pow, mx2), mx2, n + 2, BAdd(acc, RDivI(pow, n)))
RECURSIVE AtanRed(_, _)
AtanRed(x, k) ==
    IF k = 0 THEN AtanSer(x, BNeg(RSqr(x)), 1, BZero)
    ELSE BShl(AtanRed(RDiv(x, BAdd(ROne, RSqrt(BAdd(ROne, RSqr(x))))), k - 1), 1)
\* |x| <= 1
AtanUnit(x) == IF BSgn(x) = 0 THEN BZero ELSE AtanRed(x, 4)

\* pi by Machin's formula
Pi == BShl(BSub(BShl(AtanSer(RQ(1, 5), BNeg(RQ(1, 25)), 1, BZero), 2),
                AtanSer(RQ(1, 239), BNeg(RSqr(RQ(1, 239))), 1, BZero)), 2)
PiHalf == BShr(Pi, 1)
TwoPi == BShl(Pi, 1)

\* angle of the vector (x, y), in (-pi, pi]; 0 for the zero vector
Atan2(y, x) ==
    LET ax == BAbs(x)  ay == BAbs(y)
        t == IF BLe(ay, ax) THEN AtanUnit(RDiv(ay, ax))
             ELSE BSub(PiHalf, AtanUnit(RDiv(ax, ay)))
        u == IF BSgn(x) < 0 THEN BSub(Pi, t) ELSE t
    IN IF BSgn(x) = 0 /\ BSgn(y) = 0 THEN BZero ELSE IF BSgn(y) < 0 THEN BNeg(u) ELSE u

\* -------------------------------------------------------------- sine, cosine
\* sum_{k} (-1)^k x^(2k+s)/(2k+s)!   starting from the term t of order n
RECURSIVE SinCosSer(_, _, _, _)
SinCosSer(t, mx2, n, acc) ==
    IF BSgn(t) = 0 \/ n > 120 THEN acc
    ELSE SinCosSer(RDivI(RMul(t, mx2), (n + 1) * (n + 2)), mx2, n + 2, BAdd(acc, t))

\* << sin x, cos x >>
SinCos(x) ==
    LET q == BShr(BAdd(BDiv(BShl(x, P), PiHalf), RHalf), P)      \* nearest multiple of pi/2
        r == BSub(x, BMul(q, PiHalf))
        m == BNeg(RSqr(r))
        s == SinCosSer(r, m, 1, BZero)
        c == SinCosSer(ROne, m, 0, BZero)
        k == BToInt(BMod(q, << 1, 4 >>))
    IN CASE k = 0 -> << s, c >>
         [] k = 1 -> << c, BNeg(s) >>
         [] k = 2 -> << BNeg(s), BNeg(c) >>
         [] OTHER -> << BNeg(c), s >>

\* x reduced modulo 2*pi to [-pi, pi)
WrapPi(x) ==
    LET q == BDiv(BAdd(x, Pi), TwoPi) IN BSub(x, BMul(q, TwoPi))

\* ------------------------------------------------------------------- doubles
(* A double as recorded by the harness is << hi, lo, e >>, the exact value    *)
(* (hi*2^27 + lo) * 2^e.  The three non-finite values use e >= 90000.         *)
NaNE == 90000
PInfE == 90001
NInfE == 90002
IsFin(d) == d[3] < NaNE
IsNaN(d) == d[3] = NaNE
IsPInf(d) == d[3] = PInfE
IsNInf(d) == d[3] = NInfE
\* value of a finite double, truncated below 2^-P
Val(d) == BScaled(d[1], d[2], d[3] + P)
\* value * 2^k (to look at very large or very small doubles)
ValS(d, k) == BScaled(d[1], d[2], d[3] + k + P)
=============================================================================
