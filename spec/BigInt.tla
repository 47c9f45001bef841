------------------------------- MODULE BigInt -------------------------------
(***************************************************************************)
(* Arbitrary-precision integers for TLC.                                   *)
(*                                                                         *)
(* TLC's own integers are 32-bit.  A big integer here is an ordinary TLA+  *)
(* sequence  << sign, l1, ..., lk >>  with sign \in {-1,0,1} and limbs     *)
(* l1..lk in base 2^15, least significant first, lk # 0; zero is << 0 >>.  *)
(* The representation is canonical, so "=" on values is equality.          *)
(*                                                                         *)
(* Everything below is plain TLA+ that TLC can evaluate as written.  The   *)
(* class java/BigInt.java is a TLC module override computing the very same *)
(* functions with java.math.BigInteger; it only makes them fast.           *)
(* Kernel.tla evaluates the two against each other.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL BASE == 32768

BZero == << 0 >>

\* ---------------------------------------------------------- magnitudes
\* A magnitude is a sequence of limbs with a non-zero last limb.

RECURSIVE MagStrip(_)
MagStrip(m) == IF m # << >> /\ m[Len(m)] = 0
               THEN MagStrip(SubSeq(m, 1, Len(m) - 1)) ELSE m

LOCAL Limb(m, i) == IF i <= Len(m) THEN m[i] ELSE 0

RECURSIVE MagAddC(_, _, _, _, _)
MagAddC(a, b, i, c, acc) ==
    IF i > Len(a) /\ i > Len(b)
    THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == Limb(a, i) + Limb(b, i) + c
         IN MagAddC(a, b, i + 1, t \div BASE, Append(acc, t % BASE))
MagAdd(a, b) == MagAddC(a, b, 1, 0, << >>)

RECURSIVE MagCmpAt(_, _, _)
MagCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE MagCmpAt(a, b, i - 1)
MagCmp(a, b) == IF Len(a) < Len(b) THEN -1
                ELSE IF Len(a) > Len(b) THEN 1
                ELSE MagCmpAt(a, b, Len(a))

\* a >= b
RECURSIVE MagSubC(_, _, _, _, _)
MagSubC(a, b, i, c, acc) ==
    IF i > Len(a) THEN MagStrip(acc)
    ELSE LET t == Limb(a, i) - Limb(b, i) - c
         IN IF t < 0 THEN MagSubC(a, b, i + 1, 1, Append(acc, t + BASE))
                     ELSE MagSubC(a, b, i + 1, 0, Append(acc, t))
MagSub(a, b) == MagSubC(a, b, 1, 0, << >>)

\* a times the single limb d, shifted by k limbs
RECURSIVE MagMulLimb(_, _, _, _, _)
MagMulLimb(a, d, i, c, acc) ==
    IF i > Len(a) THEN IF c = 0 THEN acc ELSE Append(acc, c)
    ELSE LET t == a[i] * d + c
         IN MagMulLimb(a, d, i + 1, t \div BASE, Append(acc, t % BASE))
LOCAL Zeros(k) == [i \in 1..k |-> 0]
RECURSIVE MagMulFrom(_, _, _)
MagMulFrom(a, b, j) ==
    IF j > Len(b) THEN << >>
    ELSE LET row == IF b[j] = 0 THEN << >>
                    ELSE Zeros(j - 1) \o MagMulLimb(a, b[j], 1, 0, << >>)
         IN MagAdd(row, MagMulFrom(a, b, j + 1))
MagMul(a, b) == IF a = << >> \/ b = << >> THEN << >> ELSE MagMulFrom(a, b, 1)

\* ------------------------------------------------------- signed integers
LOCAL Mk(s, m) == LET n == MagStrip(m) IN IF n = << >> THEN << 0 >> ELSE << s >> \o n

RECURSIVE MagOf(_)
MagOf(n) == IF n = 0 THEN << >> ELSE << n % BASE >> \o MagOf(n \div BASE)

\* every TLC integer except -2^31
BFromInt(n) == IF n < 0 THEN Mk(-1, MagOf(-n)) ELSE Mk(1, MagOf(n))

BSgn(x) == x[1]
BNeg(x) == << -x[1] >> \o Tail(x)
BAbs(x) == IF x[1] < 0 THEN BNeg(x) ELSE x

BAdd(x, y) ==
    IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
    ELSE IF x[1] = y[1] THEN Mk(x[1], MagAdd(Tail(x), Tail(y)))
    ELSE LET c == MagCmp(Tail(x), Tail(y))
         IN IF c = 0 THEN BZero
            ELSE IF c > 0 THEN Mk(x[1], MagSub(Tail(x), Tail(y)))
            ELSE Mk(y[1], MagSub(Tail(y), Tail(x)))
BSub(x, y) == BAdd(x, BNeg(y))
BMul(x, y) == Mk(x[1] * y[1], MagMul(Tail(x), Tail(y)))

BCmp(x, y) == BSgn(BSub(x, y))
BLt(x, y) == BCmp(x, y) < 0
BLe(x, y) == BCmp(x, y) <= 0

RECURSIVE BPow2(_)
BPow2(n) == IF n = 0 THEN << 1, 1 >>
            ELSE IF n >= 15 THEN LET p == BPow2(n - 15) IN << 1, 0 >> \o Tail(p)
            ELSE BAdd(BPow2(n - 1), BPow2(n - 1))

\* number of bits of |x|
RECURSIVE LimbBits(_)
LimbBits(d) == IF d = 0 THEN 0 ELSE 1 + LimbBits(d \div 2)
BBits(x) == IF x[1] = 0 THEN 0 ELSE 15 * (Len(x) - 2) + LimbBits(x[Len(x)])

\* << floor(x / y), x mod y >> for x >= 0, y > 0
RECURSIVE BQuot(_, _)
BQuot(x, y) ==
    IF BLt(x, y) THEN << BZero, x >>
    ELSE LET h == BQuot(x, BAdd(y, y))  q == BAdd(h[1], h[1]) IN
         IF BLe(y, h[2]) THEN << BAdd(q, << 1, 1 >>), BSub(h[2], y) >> ELSE << q, h[2] >>

\* magnitude divided by the single limb d, limb i downwards with remainder r: << quotient, remainder >>
RECURSIVE MagDivLimb(_, _, _, _, _)
MagDivLimb(a, d, i, r, acc) ==
    IF i = 0 THEN << MagStrip(acc), r >>
    ELSE LET t == r * BASE + a[i] IN MagDivLimb(a, d, i - 1, t % d, << t \div d >> \o acc)

\* floor division, y > 0
BDiv(x, y) ==
    IF Len(y) = 2
    THEN LET m == MagDivLimb(Tail(x), y[2], Len(x) - 1, 0, << >>)  q == Mk(x[1], m[1]) IN
         IF x[1] = 0 THEN x ELSE IF x[1] > 0 \/ m[2] = 0 THEN q ELSE BSub(q, << 1, 1 >>)
    ELSE LET m == BQuot(BAbs(x), y) IN
         IF x[1] >= 0 THEN m[1] ELSE IF m[2] = BZero THEN BNeg(m[1]) ELSE BSub(BNeg(m[1]), << 1, 1 >>)
BMod(x, y) == BSub(x, BMul(BDiv(x, y), y))

BShl(x, n) == IF n = 0 \/ x[1] = 0 THEN x
              ELSE << x[1] >> \o Zeros(n \div 15) \o MagMulLimb(Tail(x), 2^(n % 15), 1, 0, << >>)
BShr(x, n) ==                                                 \* floor(x / 2^n)
    IF n = 0 THEN x
    ELSE LET up == IF x[1] < 0 THEN BSub(x, BSub(BPow2(n), << 1, 1 >>)) ELSE x
             k == n \div 15 IN
         IF Len(up) - 1 <= k THEN BZero
         ELSE Mk(up[1], MagDivLimb(SubSeq(up, k + 2, Len(up)), 2^(n % 15), Len(up) - 1 - k, 0, << >>)[1])

\* floor(sqrt(x)), x >= 0
RECURSIVE BSqrt(_)
BSqrt(x) ==
    IF x[1] = 0 THEN BZero
    ELSE LET h == BSqrt(BShr(x, 2))  r == BAdd(h, h)  r1 == BAdd(r, << 1, 1 >>) IN IF BLe(BMul(r1, r1), x) THEN r1 ELSE r

\* the TLC integer equal to x, for |x| < 2^30; larger magnitudes saturate
RECURSIVE MagInt(_)
MagInt(m) == IF m = << >> THEN 0 ELSE Head(m) + BASE * MagInt(Tail(m))
BToInt(x) == IF Len(x) > 3 THEN x[1] * 1073741823 ELSE x[1] * MagInt(Tail(x))

\* floor( (hi*2^27 + lo) * 2^sh )     (how doubles enter the model)
BScaled(hi, lo, sh) ==
    LET m == BAdd(BShl(BFromInt(hi), 27), BFromInt(lo))
    IN IF sh >= 0 THEN BShl(m, sh) ELSE BShr(m, -sh)
=============================================================================
