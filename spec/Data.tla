-------------------------------- MODULE Data --------------------------------
(***************************************************************************)
(* Recorded values and verdicts.                                           *)
(*                                                                         *)
(* A recorded array is [sh |-> shape, v |-> doubles in row-major order]    *)
(* (booleans: [sh, b]); a scalar is the array of shape << >>.  Objects of  *)
(* the library are records with their kind in field k.                     *)
(*                                                                         *)
(* A relation between a call's arguments and its result is a sequence of   *)
(* clauses C(name, q); q is the observed error in thousandths of what is   *)
(* allowed, so a clause holds iff q <= 1000.                               *)
(***************************************************************************)
EXTENDS Earth, FiniteSets

CAP == 1000000
C(name, q) == [n |-> name, q |-> q]
QB(b) == IF b THEN 0 ELSE CAP
\* err >= 0 against the tolerance tol >= 0
Q(err, tol) == IF BSgn(err) = 0 THEN 0
               ELSE IF BSgn(tol) <= 0 THEN CAP
               ELSE LET q == BDiv(BMul(err, BFromInt(1000)), tol)
                    IN IF BLt(BFromInt(CAP), q) THEN CAP ELSE BToInt(q)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Max2(x, y) == IF x < y THEN y ELSE x
\* worst element
QAll(n, F(_)) == IF n = 0 THEN 0 ELSE MaxOf({F(i) : i \in 1..n})

Has(a, k) == k \in DOMAIN a

\* ------------------------------------------------------------------ arrays
Size(x) == IF "v" \in DOMAIN x THEN Len(x.v) ELSE Len(x.b)
IsArr(x) == "sh" \in DOMAIN x
IsScalar(x) == x.sh = << >>
Num(x) == Val(x.v[1])
El(x, i) == x.v[IF Len(x.v) = 1 THEN 1 ELSE i]         \* broadcasting a single element
VAt(x, i) == Val(El(x, i))
BAt(x, i) == x.b[IF Len(x.b) = 1 THEN 1 ELSE i]
Cols(x) == IF Len(x.sh) < 2 THEN 1 ELSE x.sh[Len(x.sh)]
ColE(x, i) == LET n == Cols(x)  j == IF n = 1 THEN 1 ELSE i
              IN << x.v[j], x.v[n + j], x.v[2 * n + j] >>
ColV(x, i) == LET c == ColE(x, i) IN << Val(c[1]), Val(c[2]), Val(c[3]) >>
\* 3x3 or 3x3xn
MatN(x) == IF Len(x.sh) = 3 THEN x.sh[3] ELSE 1
Mat(x, i) ==
    LET n == MatN(x)  l == IF n = 1 THEN 1 ELSE i
        e(r, c) == Val(x.v[((r - 1) * 3 + (c - 1)) * n + l])
    IN << << e(1, 1), e(1, 2), e(1, 3) >>, << e(2, 1), e(2, 2), e(2, 3) >>,
          << e(3, 1), e(3, 2), e(3, 3) >> >>
AllFin(x) == \A i \in 1..Len(x.v) : IsFin(x.v[i])
AllNaN(x) == \A i \in 1..Len(x.v) : IsNaN(x.v[i])
FinCol(x, i) == LET c == ColE(x, i) IN IsFin(c[1]) /\ IsFin(c[2]) /\ IsFin(c[3])
NaNCol(x, i) == LET c == ColE(x, i) IN IsNaN(c[1]) /\ IsNaN(c[2]) /\ IsNaN(c[3])
\* length after broadcasting
BLen2(n, m) == Max2(n, m)
BLen3(n, m, k) == Max2(n, Max2(m, k))

\* --------------------------------------------------------- shape of results
ShapeIs(x, sh) == C("shape", QB(x.sh = sh))
IsCols(x, n) == ShapeIs(x, << 3, n >>)
IsVec(x, n) == ShapeIs(x, << n >>)
\* 3x3 for one, 3x3xn for many
IsMats(x, n) == ShapeIs(x, IF n = 1 THEN << 3, 3 >> ELSE << 3, 3, n >>)
\* a number when s, else a vector of n
IsNum(x, s, n) == ShapeIs(x, IF s THEN << >> ELSE << n >>)
\* all clauses, provided x is an array of the right shape made of finite numbers
Finite(x, sh, cs) ==
    IF ~IsArr(x) \/ "v" \notin DOMAIN x THEN << C("shape", CAP) >>
    ELSE IF x.sh # sh THEN << C("shape", CAP) >>
    ELSE IF ~AllFin(x) THEN << C("shape", 0), C("finite", CAP) >>
    ELSE << C("shape", 0), C("finite", 0) >> \o cs
Shaped(x, sh, cs) ==
    IF ~IsArr(x) THEN << C("shape", CAP) >>
    ELSE IF x.sh # sh THEN << C("shape", CAP) >>
    ELSE << C("shape", 0) >> \o cs
MatsSh(n) == IF n = 1 THEN << 3, 3 >> ELSE << 3, 3, n >>
NumSh(s, n) == IF s THEN << >> ELSE << n >>

\* --------------------------------------------------------------- tolerances
Tiny == BPow2(16)                       \* 2^-160, far below any double in play
\* relative: k units in the last place of x
Rel(x, k) == BAdd(BShr(BMul(BAbs(x), BFromInt(k)), 52), Tiny)
\* k units of rounding times scale s
Tol(s, k) == BAdd(BShr(BMul(BAbs(s), BFromInt(k)), 52), Tiny)
QRel(x, y, k) == Q(BAbs(BSub(x, y)), Rel(y, k))
QAbs(x, y, s, k) == Q(BAbs(BSub(x, y)), Tol(s, k))
\* component-wise relative
QRelV(u, v, k) == MaxOf({QRel(u[1], v[1], k), QRel(u[2], v[2], k), QRel(u[3], v[3], k)})
\* by absolute distance, scale s
QDist(u, v, s, k) == Q(DistV(u, v), Tol(s, k))
QMat(m, w, k) == Q(MMaxAbs(MSub(m, w)), Uk(k))
QUnit(u, k) == Q(RAbs(RSub(Norm(u), ROne)), Uk(k))

\* the angle th (a real) points along (x, y): k units of rounding relative to
\* th, plus extra
QAngle(th, y, x, k, extra) == Q(AngleErr(th, y, x), BAdd(Rel(th, k), extra))

\* an array equals another in every bit (as numbers)
SameArr(x, y) == /\ IsArr(x) /\ IsArr(y) /\ "v" \in DOMAIN x /\ "v" \in DOMAIN y
                 /\ Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : x.v[i] = y.v[i]
\* the same numbers after broadcasting one of them
SameNums(x, y) == /\ "v" \in DOMAIN x /\ "v" \in DOMAIN y
                  /\ LET n == Max2(Len(x.v), Len(y.v)) IN
                     /\ Len(x.v) \in {1, n} /\ Len(y.v) \in {1, n}
                     /\ \A i \in 1..n : El(x, i) = El(y, i)

Deg2Rad == RDivI(Pi, 180)
\* an angle argument, in degrees when d
Ang(x, d) == IF d THEN RMul(x, Deg2Rad) ELSE x
=============================================================================
