-------------------------------- MODULE Vec ---------------------------------
(* 3-vectors << x, y, z >> and 3x3 matrices << row, row, row >> of reals.    *)
EXTENDS Real

VNeg(u) == << RNeg(u[1]), RNeg(u[2]), RNeg(u[3]) >>
VAdd(u, v) == << RAdd(u[1], v[1]), RAdd(u[2], v[2]), RAdd(u[3], v[3]) >>
VSub(u, v) == << RSub(u[1], v[1]), RSub(u[2], v[2]), RSub(u[3], v[3]) >>
VMul(k, u) == << RMul(k, u[1]), RMul(k, u[2]), RMul(k, u[3]) >>
VScale(u, n) == << RScale(u[1], n), RScale(u[2], n), RScale(u[3], n) >>
Dot(u, v) == RAdd(RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])), RMul(u[3], v[3]))
Cross(u, v) == << RSub(RMul(u[2], v[3]), RMul(u[3], v[2])),
                  RSub(RMul(u[3], v[1]), RMul(u[1], v[3])),
                  RSub(RMul(u[1], v[2]), RMul(u[2], v[1])) >>
\* |u|^2 and |u| are taken on the unshifted integers, so nothing is lost below 2^-P
Sq(x) == BMul(x, x)
Norm2Raw(u) == BAdd(BAdd(Sq(u[1]), Sq(u[2])), Sq(u[3]))
Norm(u) == BSqrt(Norm2Raw(u))
Hyp(x, y) == BSqrt(BAdd(Sq(x), Sq(y)))
IsZeroV(u) == BSgn(u[1]) = 0 /\ BSgn(u[2]) = 0 /\ BSgn(u[3]) = 0
Unit(u) == LET n == Norm(u) IN << RDiv(u[1], n), RDiv(u[2], n), RDiv(u[3], n) >>
\* largest absolute component
MaxAbs(u) == RMax(RAbs(u[1]), RMax(RAbs(u[2]), RAbs(u[3])))
DistV(u, v) == Norm(VSub(u, v))
Ex == << ROne, RZero, RZero >>
Ey == << RZero, ROne, RZero >>
Ez == << RZero, RZero, ROne >>

MV(m, v) == << Dot(m[1], v), Dot(m[2], v), Dot(m[3], v) >>
Tr(m) == << << m[1][1], m[2][1], m[3][1] >>,
            << m[1][2], m[2][2], m[3][2] >>,
            << m[1][3], m[2][3], m[3][3] >> >>
MM(m, k) == LET t == Tr(k) IN << MV(t, m[1]), MV(t, m[2]), MV(t, m[3]) >>
MId == << Ex, Ey, Ez >>
MSub(m, k) == << VSub(m[1], k[1]), VSub(m[2], k[2]), VSub(m[3], k[3]) >>
MMaxAbs(m) == RMax(MaxAbs(m[1]), RMax(MaxAbs(m[2]), MaxAbs(m[3])))
Det(m) == Dot(m[1], Cross(m[2], m[3]))
ColOf(m, j) == << m[1][j], m[2][j], m[3][j] >>
\* deviation from a proper rotation: max |M M^T - I| and |det M - 1|
RotDev(m) == RMax(MMaxAbs(MSub(MM(m, Tr(m)), MId)), RAbs(RSub(Det(m), ROne)))

\* elementary rotations by the angle with << sin, cos >> = sc
RotX(sc) == << Ex, << RZero, sc[2], RNeg(sc[1]) >>, << RZero, sc[1], sc[2] >> >>
RotY(sc) == << << sc[2], RZero, sc[1] >>, Ey, << RNeg(sc[1]), RZero, sc[2] >> >>
RotZ(sc) == << << sc[2], RNeg(sc[1]), RZero >>, << sc[1], sc[2], RZero >>, Ez >>
=============================================================================
