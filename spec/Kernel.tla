-------------------------------- MODULE Kernel ------------------------------
(***************************************************************************)
(* The arithmetic the verdicts rest on.  A cursor walks over pairs of      *)
(* numbers; the invariants are the laws of integers and reals.  At the end *)
(* of a run the value of every operation on every pair is written to OUT:  *)
(* the check runs this module twice, once with TLC evaluating the TLA+     *)
(* definitions as they stand and once with the Java overrides, and the two *)
(* files have to be equal.                                                 *)
(***************************************************************************)
EXTENDS Real, Json, IOUtils

CONSTANTS Count,         \* how many of the numbers below
          From, To       \* the rows of the table to write
Rows == From..To

\* signs, limb boundaries, carries, exact squares, the size of angles and of metres
Nums == << BZero, << 1, 1 >>, << -1, 1 >>, << 1, 32767 >>, << 1, 0, 1 >>, << -1, 32767, 32767 >>, BPow2(30), ROne,
           BNeg(RHalf), R(6378137), RQ(1, 298), RQ(-22, 7), << 1, 12345, 0, 0, 321 >>, BNeg(BPow2(176)), R(-90),
           BSub(BPow2(200), << 1, 1 >>), << -1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13 >>, R(1000000000),
           RQ(1, 1000000000), << 1, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767, 32767 >> >>
\* doubles as recorded
Dbls == << << 0, 0, 0 >>, << 67108864, 0, -52 >>, << -67108864, 1, -53 >>, << 105414357, 16777216, -51 >>, << 67108864, 0, -1074 >>,
           << 134217727, 134217727, 10 >>, << -134217727, 134217727, -200 >> >>

VARIABLES i, j
Init == i = 1 /\ j = 1
Next == \/ i < Count /\ i' = i + 1 /\ UNCHANGED j
        \/ j < Count /\ j' = j + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<< i, j >>

Pos(y) == IF BSgn(y) > 0 THEN y ELSE ROne
NotNull(y) == IF BSgn(y) = 0 THEN ROne ELSE y
Cnt(y) == BToInt(BMod(BAbs(y), << 1, 1000 >>)) + 1
Flag(b) == IF b THEN 1 ELSE 0
Table(x, y) ==
    << BAdd(x, y), BSub(x, y), BMul(x, y), BDiv(x, Pos(y)), BMod(x, Pos(y)), BNeg(x), BAbs(x), BSgn(x), BCmp(x, y), Flag(BLt(x, y)), Flag(BLe(x, y)),
       BBits(x), BShl(x, Cnt(y)), BShr(x, Cnt(y)), BSqrt(BAbs(x)), BToInt(x), BFromInt(Cnt(x)), BPow2(Cnt(y)),
       RAdd(x, y), RSub(x, y), RNeg(x), RAbs(x), RMul(x, y), RSqr(x), RDiv(x, NotNull(y)), RSqrt(BAbs(x)), RMulI(x, Cnt(y)), RDivI(x, Cnt(y)),
       Flag(RLt(x, y)), Flag(RLe(x, y)), RMax(x, y), RMin(x, y), RScale(x, Cnt(y)), RScale(x, -Cnt(y)) >>
Curves(x, y) == << SinCos(x), Atan2(x, y), WrapPi(x) >>
Doubles == [q \in 1..Len(Dbls) |-> << Val(Dbls[q]), ValS(Dbls[q], 20), BScaled(Dbls[q][1], Dbls[q][2], 3) >>]
Written == [t |-> [p \in Rows |-> [q \in 1..Count |-> Table(Nums[p], Nums[q])]], c |-> [p \in Rows |-> Curves(Nums[p], Nums[1 + ((p + 7) - 20 * ((p + 7) \div 20))])],
            d |-> Doubles, pi |-> Pi, tol |-> [k \in 1..40 |-> RTol[k]]]

\* ------------------------------------------------------------------ the laws
x == Nums[i]   y == Nums[j]   z == Nums[(i * 7 + j * 3) - Count * ((i * 7 + j * 3) \div Count) + 1]
Ring == /\ BAdd(x, y) = BAdd(y, x) /\ BMul(x, y) = BMul(y, x) /\ BAdd(x, BNeg(x)) = BZero /\ BMul(x, << 1, 1 >>) = x
        /\ BAdd(BAdd(x, y), z) = BAdd(x, BAdd(y, z)) /\ BMul(BMul(x, y), z) = BMul(x, BMul(y, z))
        /\ BMul(x, BAdd(y, z)) = BAdd(BMul(x, y), BMul(x, z))
Order == /\ BLt(x, y) = ~BLe(y, x) /\ (BLe(x, y) /\ BLe(y, z) => BLe(x, z)) /\ (BLe(x, y) => BLe(BAdd(x, z), BAdd(y, z)))
         /\ BSgn(BMul(x, y)) = BSgn(x) * BSgn(y)
Division == LET d == Pos(y)  m == BMod(x, d) IN
            /\ BAdd(BMul(BDiv(x, d), d), m) = x /\ BSgn(m) >= 0 /\ BLt(m, d)
            /\ BShr(BShl(x, Cnt(y)), Cnt(y)) = x
            /\ LET r == BSqrt(BAbs(x))  r1 == BAdd(r, << 1, 1 >>) IN BLe(BMul(r, r), BAbs(x)) /\ BLt(BAbs(x), BMul(r1, r1))
            /\ x = BZero \/ (BLe(BPow2(BBits(x) - 1), BAbs(x)) /\ BLt(BAbs(x), BPow2(BBits(x))))
Close(p, q, k) == RLe(RAbs(RSub(p, q)), RTol[k])
Small(p) == RLe(RAbs(p), R(100000000))
Trig == Small(x) =>
        LET s == SinCos(x)  t == SinCos(y)  u == SinCos(BAdd(x, y)) IN
        /\ Close(RAdd(RSqr(s[1]), RSqr(s[2])), ROne, 40)
        /\ Small(y) => Close(u[1], RAdd(RMul(s[1], t[2]), RMul(s[2], t[1])), 40) /\ Close(u[2], RSub(RMul(s[2], t[2]), RMul(s[1], t[1])), 40)
        /\ Close(WrapPi(RSub(Atan2(s[1], s[2]), x)), BZero, 40)
        /\ Close(SinCos(RAdd(x, TwoPi))[1], s[1], 40) /\ SinCos(BZero) = << BZero, ROne >>
        /\ Close(SinCos(PiHalf)[1], ROne, 40) /\ Close(SinCos(RDivI(Pi, 6))[1], RHalf, 40)
Laws == Ring /\ Order /\ Division /\ Trig
ASSUME JsonSerialize(IOEnv.OUT, << Written >>)
=============================================================================
