-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* What each function of the library must return: for every function f an  *)
(* operator P_f(e), where e is a recorded call with arguments e.a, result  *)
(* e.r and warnings e.w, giving the clauses the result has to satisfy.     *)
(***************************************************************************)
EXTENDS Data

\* arguments with the library's documented defaults
FnR(a) == IF Has(a, "R") THEN Mat(a.R, 1) ELSE Axese
WGS84a == R(6378137)
WGS84f == RDiv(R(1000000000), RAdd(RMulI(R(298), 1000000000), R(257223563)))
FnA(a) == IF Has(a, "a") THEN Num(a.a) ELSE WGS84a
FnF(a) == IF Has(a, "f") THEN Num(a.f) ELSE WGS84f
FnRadius(a) == IF Has(a, "radius") THEN Num(a.radius) ELSE R(6371009)
Opt(a, k, i) == IF Has(a, k) THEN VAt(a[k], i) ELSE RZero
OptN(a, k) == IF Has(a, k) THEN Size(a[k]) ELSE 1

\* the length check: a warning iff the n-vectors are far from unit length
Warned(e) == "UserWarning" \in {e.w[i] : i \in 1..Len(e.w)}
LenDev(x, i) == RAbs(RSub(Norm(ColV(x, i)), ROne))
DevLim == RQ(1, 10)
DevEps == RTol[9]
AllDev(x) == \A i \in 1..Cols(x) : RLt(RAdd(DevLim, DevEps), LenDev(x, i))
NoDev(x) == \A i \in 1..Cols(x) : RLt(LenDev(x, i), RSub(DevLim, DevEps))
CWarn(e, x) == C("warning", QB((AllDev(x) => Warned(e)) /\ (NoDev(x) => ~Warned(e))))

NVec(x, i, ree) == MV(ree, ColV(x, i))           \* north-first, not normalised
UVec(x, i, ree) == Unit(NVec(x, i, ree))

\* ---------------------------------------------------- lat/lon <-> n-vector
P_lat_lon2n_E(e) ==
    LET n == BLen2(Size(e.a.lat), Size(e.a.lon))  ree == FnR(e.a) IN
    Finite(e.r, << 3, n >>,
      << C("normal", QAll(n, LAMBDA i : QRelV(NVec(e.r, i, ree), OfLatLon(VAt(e.a.lat, i), VAt(e.a.lon, i)), 32))) >>)

QLatLon(u, lat, lon, k) ==
    Max2(QAngle(lat, u[1], Hyp(u[2], u[3]), k, RZero), QAngle(lon, u[2], RNeg(u[3]), k, RZero))
P_n_E2lat_lon(e) ==
    LET n == Cols(e.a.n)  ree == FnR(e.a)  lat == e.r.lat  lon == e.r.lon IN
    Finite(lat, << n >>,
      << C("lat-range", QB(\A i \in 1..n : RLe(RAbs(VAt(lat, i)), RAdd(PiHalf, U)))),
         C("latitude", QAll(n, LAMBDA i : LET u == NVec(e.a.n, i, ree) IN
                               QAngle(VAt(lat, i), u[1], Hyp(u[2], u[3]), 32, RZero))) >>)
    \o Finite(lon, << n >>,
      << C("lon-range", QB(\A i \in 1..n : RLe(RAbs(VAt(lon, i)), RAdd(Pi, U)))),
         C("longitude", QAll(n, LAMBDA i : LET u == NVec(e.a.n, i, ree) IN
                               QAngle(VAt(lon, i), u[2], RNeg(u[3]), 32, RZero))),
         CWarn(e, e.a.n) >>)

\* ------------------------------------------------------- ECEF <-> n-vector
P_n_EB_E2p_EB_E(e) ==
    LET a == FnA(e.a)  f == FnF(e.a)  ree == FnR(e.a)
        n == BLen2(Cols(e.a.n), OptN(e.a, "depth")) IN
    Finite(e.r, << 3, n >>,
      << C("position", QAll(n, LAMBDA i :
            LET d == Opt(e.a, "depth", i) IN
            QDist(NVec(e.r, i, ree), Fwd(UVec(e.a.n, i, ree), d, a, f), RAdd(a, RAbs(d)), 16))),
         CWarn(e, e.a.n) >>)

\* the position denoted by (n, z) is p
QDenotes(n, z, p, a, f, k) == QDist(Fwd(Unit(n), z, a, f), p, RAdd(a, Norm(p)), k)
P_p_EB_E2n_EB_E(e) ==
    LET a == FnA(e.a)  f == FnF(e.a)  ree == FnR(e.a)  n == Cols(e.a.p)
        rn == e.r.n  rz == e.r.depth IN
    IF ~(IsArr(rz) /\ rz.sh = << n >> /\ AllFin(rz)) THEN << C("shape", CAP) >>
    ELSE Finite(rn, << 3, n >>,
      << C("unit", QAll(n, LAMBDA i : QUnit(ColV(rn, i), 8))),
         C("inverse", QAll(n, LAMBDA i : QDenotes(NVec(rn, i, ree), VAt(rz, i), NVec(e.a.p, i, ree), a, f, 64))) >>)

P_delta(e) ==     \* n_EA_E_and_n_EB_E2p_AB_E
    LET a == FnA(e.a)  f == FnF(e.a)  ree == FnR(e.a)
        n == Max2(BLen2(Cols(e.a.nA), Cols(e.a.nB)), BLen2(OptN(e.a, "zA"), OptN(e.a, "zB"))) IN
    Finite(e.r, << 3, n >>,
      << C("delta", QAll(n, LAMBDA i :
            LET zA == Opt(e.a, "zA", i)  zB == Opt(e.a, "zB", i)
                pA == Fwd(UVec(e.a.nA, i, ree), zA, a, f)
                pB == Fwd(UVec(e.a.nB, i, ree), zB, a, f) IN
            QDist(NVec(e.r, i, ree), VSub(pB, pA), RAdd(a, RAdd(RAbs(zA), RAbs(zB))), 32))),
         CWarn(e, e.a.nA) >>)

P_add_delta(e) ==   \* n_EA_E_and_p_AB_E2n_EB_E
    LET a == FnA(e.a)  f == FnF(e.a)  ree == FnR(e.a)
        n == BLen3(Cols(e.a.nA), Cols(e.a.p), OptN(e.a, "zA"))
        rn == e.r.n  rz == e.r.z IN
    IF ~(IsArr(rz) /\ rz.sh = << n >> /\ AllFin(rz)) THEN << C("shape", CAP) >>
    ELSE Finite(rn, << 3, n >>,
      << C("unit", QAll(n, LAMBDA i : QUnit(ColV(rn, i), 8))),
         C("sum", QAll(n, LAMBDA i :
            LET zA == Opt(e.a, "zA", i)
                p == VAdd(Fwd(UVec(e.a.nA, i, ree), zA, a, f), NVec(e.a.p, i, ree)) IN
            QDist(Fwd(UVec(rn, i, ree), VAt(rz, i), a, f), p, RAdd(RAdd(a, RAbs(zA)), Norm(p)), 96))) >>)

\* ------------------------------------------------------------ local frames
IsPole(u) == BSgn(u[2]) = 0 /\ BSgn(u[3]) = 0
RN(x, i, ree) == MM(Tr(ree), NEDP(UVec(x, i, ree)))
P_n_E2R_EN(e) ==
    LET n == Cols(e.a.n)  ree == FnR(e.a) IN
    Finite(e.r, MatsSh(n),
      << C("rotation", QAll(n, LAMBDA i : Q(RotDev(Mat(e.r, i)), Uk(16)))),
         C("north-east-down", QAll(n, LAMBDA i : QMat(Mat(e.r, i), RN(e.a.n, i, ree), 16))),
         CWarn(e, e.a.n) >>)
\* frame N turned about down by the wander azimuth
RWander(u, wa) == MM(NEDP(u), RotZ(SinCos(wa)))
P_n_E_and_wa2R_EL(e) ==
    LET n == BLen2(Cols(e.a.n), Size(e.a.wa))  ree == FnR(e.a) IN
    Finite(e.r, MatsSh(n),
      << C("rotation", QAll(n, LAMBDA i : Q(RotDev(Mat(e.r, i)), Uk(16)))),
         C("down", QAll(n, LAMBDA i : QDist(MV(ree, ColOf(Mat(e.r, i), 3)), VNeg(UVec(e.a.n, i, ree)), ROne, 16))),
         C("wander", QAll(n, LAMBDA i :
            LET u == UVec(e.a.n, i, ree) IN
            IF IsPole(u) THEN 0 ELSE QMat(Mat(e.r, i), MM(Tr(ree), RWander(u, VAt(e.a.wa, i))), 32))) >>)
P_R2n_E(e) ==      \* R_EN2n_E, R_EL2n_E
    LET n == MatN(e.a.R3) IN
    Finite(e.r, << 3, n >>,
      << C("third-column", QAll(n, LAMBDA i : QDist(ColV(e.r, i), VNeg(ColOf(Mat(e.a.R3, i), 3)), ROne, 2))) >>)

\* ------------------------------------------------------------ Euler angles
P_xyz2R(e) ==
    LET n == BLen3(Size(e.a.x), Size(e.a.y), Size(e.a.z)) IN
    Finite(e.r, MatsSh(n),
      << C("product-xyz", QAll(n, LAMBDA i : QMat(Mat(e.r, i), XYZ(VAt(e.a.x, i), VAt(e.a.y, i), VAt(e.a.z, i)), 8))) >>)
P_zyx2R(e) ==
    LET n == BLen3(Size(e.a.x), Size(e.a.y), Size(e.a.z)) IN
    Finite(e.r, MatsSh(n),
      << C("product-zyx", QAll(n, LAMBDA i : QMat(Mat(e.r, i), ZYX(VAt(e.a.z, i), VAt(e.a.y, i), VAt(e.a.x, i)), 8))) >>)
AnglesOK(r, n) ==
    QB(\A i \in 1..n : /\ RLe(RAbs(VAt(r.x, i)), RAdd(Pi, U)) /\ RLe(RAbs(VAt(r.z, i)), RAdd(Pi, U))
                       /\ RLe(RAbs(VAt(r.y, i)), RAdd(PiHalf, U)))
P_R2xyz(e) ==
    LET n == MatN(e.a.R3)  sh == IF Len(e.a.R3.sh) = 3 THEN << n >> ELSE << >> IN
    Finite(e.r.x, sh, << >>) \o Finite(e.r.y, sh, << >>) \o Finite(e.r.z, sh,
      << C("range", AnglesOK(e.r, n)),
         C("middle", QAll(n, LAMBDA i : LET m == Mat(e.a.R3, i) IN
            QAbs(VAt(e.r.y, i), Atan2(m[1][3], Hyp(m[1][1], m[1][2])), ROne, 16))),
         C("rebuild-xyz", QAll(n, LAMBDA i :
            LET m == Mat(e.a.R3, i)  cy == Hyp(m[1][1], m[1][2]) IN
            IF RLt(cy, RTol[6]) THEN 0
            ELSE Q(MMaxAbs(MSub(m, XYZ(VAt(e.r.x, i), VAt(e.r.y, i), VAt(e.r.z, i)))),
                   RDiv(Uk(32), cy)))) >>)
P_R2zyx(e) ==
    LET n == MatN(e.a.R3)  sh == IF Len(e.a.R3.sh) = 3 THEN << n >> ELSE << >> IN
    Finite(e.r.x, sh, << >>) \o Finite(e.r.y, sh, << >>) \o Finite(e.r.z, sh,
      << C("range", AnglesOK(e.r, n)),
         C("middle", QAll(n, LAMBDA i : LET m == Mat(e.a.R3, i) IN
            QAbs(VAt(e.r.y, i), Atan2(RNeg(m[3][1]), Hyp(m[1][1], m[2][1])), ROne, 16))),
         C("rebuild-zyx", QAll(n, LAMBDA i :
            LET m == Mat(e.a.R3, i)  cy == Hyp(m[1][1], m[2][1]) IN
            IF RLt(cy, RTol[6]) THEN 0
            ELSE Q(MMaxAbs(MSub(m, ZYX(VAt(e.r.z, i), VAt(e.r.y, i), VAt(e.r.x, i)))),
                   RDiv(Uk(32), cy)))) >>)

\* ------------------------------------------------------------- the sphere
QArc(dist, a, b, radius, k) ==
    LET th == AngleBetween(a, b) IN QAbs(dist, RMul(th, radius), RMul(RAdd(ROne, th), radius), k)
P_great_circle_distance(e) ==
    LET n == BLen2(Cols(e.a.nA), Cols(e.a.nB))  r == FnRadius(e.a) IN
    Finite(e.r, << n >>,
      << C("arc", QAll(n, LAMBDA i : QArc(VAt(e.r, i), ColV(e.a.nA, i), ColV(e.a.nB, i), r, 8))) >>)
P_euclidean_distance(e) ==
    LET n == BLen2(Cols(e.a.nA), Cols(e.a.nB))  r == FnRadius(e.a) IN
    Finite(e.r, << n >>,
      << C("chord", QAll(n, LAMBDA i : QAbs(VAt(e.r, i), RMul(DistV(ColV(e.a.nA, i), ColV(e.a.nB, i)), r), RMulI(r, 2), 8))) >>)

\* azimuth of the vector v (north-first) seen in frame N at u; pos is the size of
\* the numbers v was computed from
QAzim(az, u, v, pos, k) ==
    LET m == NEDP(u)  x == Dot(ColOf(m, 1), v)  y == Dot(ColOf(m, 2), v)  h == Hyp(x, y)
        t == IF BSgn(h) = 0 THEN ROne ELSE RDiv(Tol(pos, k), h) IN
    IF RLt(RQ(1, 10), t) THEN 0 ELSE QAngle(az, y, x, k, t)
P_azimuth(e) ==
    LET a == FnA(e.a)  f == FnF(e.a)  ree == FnR(e.a)  n == BLen2(Cols(e.a.nA), Cols(e.a.nB)) IN
    Finite(e.r, << n >>,
      << C("az-range", QB(\A i \in 1..n : RLe(RAbs(VAt(e.r, i)), RAdd(Pi, U)))),
         C("azimuth", QAll(n, LAMBDA i :
            LET uA == UVec(e.a.nA, i, ree)  uB == UVec(e.a.nB, i, ree) IN
            QAzim(VAt(e.r, i), uA, VSub(Fwd(uB, RZero, a, f), Fwd(uA, RZero, a, f)), a, 32))) >>)
P_direct(e) ==     \* n_EA_E_distance_and_azimuth2n_EB_E
    LET ree == FnR(e.a)  n == BLen3(Cols(e.a.nA), Size(e.a.d), Size(e.a.az)) IN
    Finite(e.r, << 3, n >>,
      << C("unit", QAll(n, LAMBDA i : QUnit(ColV(e.r, i), 16))),
         C("direct", QAll(n, LAMBDA i :
            QDist(NVec(e.r, i, ree), SphereDirect(UVec(e.a.nA, i, ree), VAt(e.a.d, i), VAt(e.a.az, i)), ROne, 16))) >>)

\* sine of the angle between two directions
SinBetween(a, b) == RDiv(Norm(Cross(a, b)), RMul(Norm(a), Norm(b)))
\* exactly computed zero cross product: equal or opposite vectors
SameLine(x, y, i) == IsZeroV(Cross(ColV(x, i), ColV(y, i)))
\* too close to equal or opposite for double precision to tell a plane
NoPlane(x, y, i) == RLt(SinBetween(ColV(x, i), ColV(y, i)), RTol[13])
\* amplification of rounding in the plane of a path
Cond(a, b) == RDiv(ROne, SinBetween(a, b))
P_great_circle_normal(e) ==
    LET n == BLen2(Cols(e.a.nA), Cols(e.a.nB)) IN
    Shaped(e.r, << 3, n >>,
      << C("plane-normal", QAll(n, LAMBDA i :
            LET a == ColV(e.a.nA, i)  b == ColV(e.a.nB, i) IN
            IF SameLine(e.a.nA, e.a.nB, i) THEN QB(NaNCol(e.r, i))
            ELSE IF NoPlane(e.a.nA, e.a.nB, i) THEN 0
            ELSE IF ~FinCol(e.r, i) THEN CAP
            ELSE QDist(ColV(e.r, i), GCNormal(a, b), RAdd(ROne, Cond(a, b)), 8))) >>)

\* signed distance of b from the plane of path (a1, a2), positive to the right
PathN(a) == BLen2(Cols(a.p1), Cols(a.p2))
IsEuc(a) == Has(a, "method") /\ a.method \in {"euclidean", "Euclidean", "EUCLIDEAN", "e", "eu", "eucl"}
QCross(dist, a1, a2, b, radius, euc, k) ==
    LET s == RNeg(Dot(GCNormal(a1, a2), b))
        t == Tol(RAdd(ROne, Cond(a1, a2)), k)
        q == RDiv(dist, radius) IN
    IF euc THEN Q(RAbs(RSub(q, s)), t)
    ELSE IF RLt(RAdd(PiHalf, Uk(4)), RAbs(q)) THEN CAP
    ELSE Q(RAbs(RSub(SinCos(q)[1], s)), t)
P_cross_track_distance(e) ==
    LET n == BLen2(PathN(e.a), Cols(e.a.nB))  r == FnRadius(e.a)
        deg(i) == NoPlane(e.a.p1, e.a.p2, i) IN
    Shaped(e.r, << n >>,
      << C("cross-track", QAll(n, LAMBDA i :
            IF deg(i) THEN 0 ELSE IF ~IsFin(El(e.r, i)) THEN CAP
            ELSE QCross(VAt(e.r, i), ColV(e.a.p1, i), ColV(e.a.p2, i), ColV(e.a.nB, i), r, IsEuc(e.a), 8))) >>)

\* c is on the great circle (p1, p2) and no point of it is closer to b
QClosest(c, a1, a2, b, k) ==
    LET g == GCNormal(a1, a2)  t == Tol(RAdd(ROne, Cond(a1, a2)), k)
        pr == VSub(b, VMul(Dot(g, b), g)) IN
    MaxOf({QUnit(c, 16), Q(RAbs(Dot(g, c)), t), Q(Norm(Cross(pr, c)), t),
           IF RLt(Dot(pr, c), RNeg(t)) THEN CAP ELSE 0})
P_closest_circle(e) ==
    LET n == BLen2(PathN(e.a), Cols(e.a.nB)) IN
    Shaped(e.r, << 3, n >>,
      << C("closest", QAll(n, LAMBDA i :
            IF NoPlane(e.a.p1, e.a.p2, i) THEN 0 ELSE IF ~FinCol(e.r, i) THEN CAP
            ELSE QClosest(ColV(e.r, i), ColV(e.a.p1, i), ColV(e.a.p2, i), ColV(e.a.nB, i), 16))) >>)

\* truth of the predicates: TRUE / FALSE / "near" (too close to call)
FnAtol(a) == IF Has(a, "atol") THEN Num(a.atol) ELSE RTol[8]
CircleTruth(a1, a2, b, r, atol) ==
    \* everything in a coordinate plane: the distance is zero, exactly
    IF \E k \in 1..3 : BSgn(a1[k]) = 0 /\ BSgn(a2[k]) = 0 /\ BSgn(b[k]) = 0 THEN "yes" ELSE
    LET s == RAbs(Dot(GCNormal(a1, a2), b))
        d == RMul(r, Atan2(s, RSqrt(RMax(RZero, RSub(ROne, RSqr(s))))))
        noise == RMul(r, Tol(RAdd(ROne, Cond(a1, a2)), 8)) IN
    IF RLe(RAdd(d, noise), atol) THEN "yes" ELSE IF RLt(RAdd(atol, noise), d) THEN "no" ELSE "near"
\* position along the path: strictly between its endpoints, or strictly not;
\* m is the margin (an angle)
BetweenTruth(a1, a2, b, m) ==
    LET g == GCNormal(a1, a2)
        s1 == Dot(g, Cross(a1, b))  c1 == Dot(a1, b)       \* along-track angle from a1
        th == AngleBetween(a1, a2)
        x == Atan2(s1, c1) IN
    IF BSgn(s1) = 0 /\ BSgn(c1) = 0 THEN "near"
    ELSE IF RLe(m, x) /\ RLe(x, RSub(th, m)) THEN "yes"
    ELSE IF RLt(x, RNeg(m)) \/ RLt(RAdd(th, m), x)
         THEN (IF RLt(RSub(Pi, m), RAbs(x)) /\ RLt(RSub(Pi, m), th) THEN "near" ELSE "no")
    ELSE "near"
And3(x, y) == IF x = "no" \/ y = "no" THEN "no" ELSE IF x = "near" \/ y = "near" THEN "near" ELSE "yes"
Or3(x, y) == IF x = "yes" \/ y = "yes" THEN "yes" ELSE IF x = "near" \/ y = "near" THEN "near" ELSE "no"
Agree(t, b) == (t = "yes" => b) /\ (t = "no" => ~b)
QTruth(t, b) == QB(Agree(t, b))
P_on_great_circle(e) ==
    LET n == BLen2(PathN(e.a), Cols(e.a.nB)) IN
    Shaped(e.r, << n >>,
      << C("on-circle", QAll(n, LAMBDA i :
            IF NoPlane(e.a.p1, e.a.p2, i) THEN 0
            ELSE QTruth(CircleTruth(ColV(e.a.p1, i), ColV(e.a.p2, i), ColV(e.a.nB, i), FnRadius(e.a), FnAtol(e.a)), BAt(e.r, i)))) >>)
\* points within atol of the circle but off it blur the ends of the path
\* (the ends of nearly half a turn are blurred by rounding)
PathTruth(a1, a2, b, r, atol) ==
    LET half == RScale(RAdd(ROne, Dot(a1, a2)), -1)            \* cos^2 of half the angle
        blur == RMin(RTol[7], RDiv(RTol[12], RSqrt(RMax(half, RTol[14])))) IN
    IF b = a1 \/ b = a2 THEN "yes"                             \* its ends are on the path
    ELSE BetweenTruth(a1, a2, b, RAdd(blur, RScale(RDiv(atol, r), 1)))
P_on_great_circle_path(e) ==
    LET n == BLen2(PathN(e.a), Cols(e.a.nB))  r == FnRadius(e.a)  atol == FnAtol(e.a) IN
    Shaped(e.r, << n >>,
      << C("on-path", QAll(n, LAMBDA i :
            IF NoPlane(e.a.p1, e.a.p2, i) THEN 0
            ELSE LET a1 == ColV(e.a.p1, i)  a2 == ColV(e.a.p2, i)  b == ColV(e.a.nB, i) IN
                 QTruth(And3(CircleTruth(a1, a2, b, r, atol), PathTruth(a1, a2, b, r, atol)), BAt(e.r, i)))) >>)

\* intersection of two great circles: << exact degeneracy, clause value >>
QIntersect(c, a1, a2, b1, b2, k) ==
    LET g == GCNormal(a1, a2)  h == GCNormal(b1, b2)
        s == Norm(Cross(g, h))
        \* relative error of the cross products, amplified by their cancellation
        t == IF BSgn(s) = 0 THEN ROne ELSE RDiv(Tol(RAdd(Cond(a1, a2), Cond(b1, b2)), k), s) IN
    IF RLt(RTol[4], t) THEN 0
    ELSE MaxOf({QUnit(c, 16), Q(RAbs(Dot(g, c)), t), Q(RAbs(Dot(h, c)), t),
                IF RLt(Dot(c, a1), RNeg(t)) THEN CAP ELSE 0})
SameOrSwapped(a1, a2, b1, b2) ==
    \/ a1 = b1 /\ a2 = b2
    \/ a1 = b2 /\ a2 = b1
P_intersect(e) ==
    LET n == BLen2(BLen2(Cols(e.a.p1), Cols(e.a.p2)), BLen2(Cols(e.a.q1), Cols(e.a.q2)))
        void(i) == \/ SameLine(e.a.p1, e.a.p2, i) \/ SameLine(e.a.q1, e.a.q2, i)
                   \/ SameOrSwapped(ColV(e.a.p1, i), ColV(e.a.p2, i), ColV(e.a.q1, i), ColV(e.a.q2, i)) IN
    Shaped(e.r, << 3, n >>,
      << C("intersection", QAll(n, LAMBDA i :
            IF void(i) THEN QB(NaNCol(e.r, i))
            ELSE IF NoPlane(e.a.p1, e.a.p2, i) \/ NoPlane(e.a.q1, e.a.q2, i) THEN 0
            ELSE IF ~FinCol(e.r, i)
                 THEN QB(RLt(Norm(Cross(GCNormal(ColV(e.a.p1, i), ColV(e.a.p2, i)),
                                        GCNormal(ColV(e.a.q1, i), ColV(e.a.q2, i)))), RTol[9]))
            ELSE QIntersect(ColV(e.r, i), ColV(e.a.p1, i), ColV(e.a.p2, i), ColV(e.a.q1, i), ColV(e.a.q2, i), 16))),
         C("warning", QB((\E i \in 1..n : void(i)) => Warned(e))) >>)

\* unit vector along a + t (b - a)
QLerp(c, a, b, t, k) ==
    LET x == VAdd(a, VMul(t, VSub(b, a)))  s == Norm(x) IN
    IF BSgn(s) = 0 THEN 0
    ELSE LET z == RDiv(RAdd(ROne, RMulI(RAbs(t), 2)), s) IN
         IF RLt(RTenP(9), z) THEN 0 ELSE QDist(c, Unit(x), RAdd(ROne, z), k)
\* the ends are so close for this t that rounding decides
LerpLost(a, b, t) ==
    LET s == Norm(VAdd(a, VMul(t, VSub(b, a)))) IN RLt(s, RMul(RTol[9], RAdd(ROne, RMulI(RAbs(t), 2))))
LerpZero(a, b, t) == IsZeroV(VAdd(a, VMul(t, VSub(b, a))))
P_interpolate(e) ==
    LET n == BLen2(PathN(e.a), Size(e.a.t)) IN
    Shaped(e.r, << 3, n >>,
      << C("chord-point", QAll(n, LAMBDA i :
            LET a == ColV(e.a.p1, i)  b == ColV(e.a.p2, i)  t == VAt(e.a.t, i) IN
            IF LerpZero(a, b, t) THEN QB(NaNCol(e.r, i))
            ELSE IF LerpLost(a, b, t) THEN 0
            ELSE IF ~FinCol(e.r, i) THEN CAP ELSE QLerp(ColV(e.r, i), a, b, t, 8))) >>)

\* n-vectors sum to (nearly) nothing: the mean is undefined
SumV(x) == LET n == Cols(x)
               RECURSIVE S(_)
               S(i) == IF i = 0 THEN << RZero, RZero, RZero >> ELSE VAdd(ColV(x, i), S(i - 1))
           IN S(n)
QMean(c, x, k) ==
    LET s == SumV(x)  n == Cols(x)  m == Norm(s) IN
    IF RLt(m, RTol[9]) THEN 0
    ELSE QDist(c, Unit(s), RAdd(ROne, RDiv(R(n), m)), k)
P_mean_horizontal_position(e) ==
    Finite(e.r, << 3, 1 >>,
      << C("unit", QUnit(ColV(e.r, 1), 8)), C("mean", QMean(ColV(e.r, 1), e.a.n, 8)) >>)

\* ---------------------------------------------------------------- utilities
\* a column scaled by a power of two so that its largest component is of order one
ColS(x, i) ==
    LET c == ColE(x, i)
        ex == {c[j][3] + 52 : j \in {j \in 1..3 : c[j] # << 0, 0, 0 >>}}
        k == -MaxOf(ex) IN
    << ValS(c[1], k), ValS(c[2], k), ValS(c[3], k) >>
ZeroCol(x, i) == LET c == ColE(x, i) IN \A j \in 1..3 : c[j][1] = 0 /\ c[j][2] = 0
P_unit(e) ==
    LET n == Cols(e.a.v)
        toNaN == Has(e.a, "nz") /\ IsNaN(e.a.nz.v[1]) IN
    Shaped(e.r, << 3, n >>,
      << C("unit-vector", QAll(n, LAMBDA i :
            IF ZeroCol(e.a.v, i)
            THEN IF toNaN THEN QB(NaNCol(e.r, i))
                 ELSE IF ~FinCol(e.r, i) THEN CAP ELSE QB(ColV(e.r, i) = Ex)
            ELSE IF ~FinCol(e.r, i) THEN CAP
            ELSE QDist(ColV(e.r, i), Unit(ColS(e.a.v, i)), ROne, 8))) >>)

\* broadcasting of two shapes with at most two dimensions
Pad2(sh) == CASE Len(sh) = 0 -> << 1, 1 >> [] Len(sh) = 1 -> << 1, sh[1] >> [] OTHER -> sh
BSh(s, t) == LET p == Pad2(s)  q == Pad2(t) IN << Max2(p[1], q[1]), Max2(p[2], q[2]) >>
BIx(sh, full, i) ==
    LET p == Pad2(sh)  r == (i - 1) \div full[2]  c == (i - 1) % full[2] IN
    (IF p[1] = 1 THEN 0 ELSE r) * p[2] + (IF p[2] = 1 THEN 0 ELSE c) + 1
BShape(s, t) == LET k == Max2(Len(s), Len(t))  f == BSh(s, t) IN
                CASE k = 0 -> << >> [] k = 1 -> << f[2] >> [] OTHER -> f
CloseTruth(x, y, rtol, atol, eqnan) ==
    IF IsFin(x) /\ IsFin(y)
    THEN LET a == Val(x)  b == Val(y)  m == RMax(RAbs(a), RAbs(b))
             lim == RMax(atol, RMul(rtol, m))  d == RAbs(RSub(a, b))
             noise == Tol(lim, 4) IN
         IF d = lim /\ BSgn(lim) = 0 THEN "yes"
         ELSE IF RLe(RAdd(d, noise), lim) THEN "yes" ELSE IF RLt(RAdd(lim, noise), d) THEN "no" ELSE "near"
    ELSE IF IsNaN(x) /\ IsNaN(y) THEN (IF eqnan THEN "yes" ELSE "no")
    ELSE IF x = y /\ ~IsNaN(x) THEN "yes" ELSE "no"
CloseArgs(e, dr, da) ==
    [ rtol |-> IF Has(e.a, "rtol") THEN Num(e.a.rtol) ELSE dr,
      atol |-> IF Has(e.a, "atol") THEN Num(e.a.atol) ELSE da,
      en |-> IF Has(e.a, "equal_nan") THEN e.a.equal_nan ELSE FALSE ]
P_isclose(e) ==
    LET p == CloseArgs(e, RTol[9], RZero)  f == BSh(e.a.x.sh, e.a.y.sh)  n == f[1] * f[2] IN
    Shaped(e.r, BShape(e.a.x.sh, e.a.y.sh),
      << C("close", QAll(n, LAMBDA i :
            QTruth(CloseTruth(e.a.x.v[BIx(e.a.x.sh, f, i)], e.a.y.v[BIx(e.a.y.sh, f, i)], p.rtol, p.atol, p.en), e.r.b[i]))) >>)
P_allclose(e) ==
    LET p == CloseArgs(e, RTol[7], RTol[14])  f == BSh(e.a.x.sh, e.a.y.sh)  n == f[1] * f[2]
        ts == {CloseTruth(e.a.x.v[BIx(e.a.x.sh, f, i)], e.a.y.v[BIx(e.a.y.sh, f, i)], p.rtol, p.atol, p.en) : i \in 1..n}
        t == IF "no" \in ts THEN "no" ELSE IF "near" \in ts THEN "near" ELSE "yes" IN
    << C("all-close", IF "b" \in DOMAIN e.r /\ Len(e.r.b) = 1 THEN QTruth(t, e.r.b[1]) ELSE CAP) >>

\* stacks of matrices: element (r, c) of stack index l
TrailN(x) == IF Len(x.sh) = 3 THEN x.sh[3] ELSE 1
MElt(x, r, c, l) == LET n == TrailN(x) IN Val(x.v[((r - 1) * x.sh[2] + (c - 1)) * n + (IF n = 1 THEN 1 ELSE l)])
P_mdot(e) ==
    LET x == e.a.x  y == e.a.y  n == Max2(TrailN(x), TrailN(y))
        i1 == x.sh[1]  j1 == x.sh[2]  k1 == y.sh[2]
        sh == IF Len(x.sh) = 3 \/ Len(y.sh) = 3 THEN << i1, k1, n >> ELSE << i1, k1 >>
        RECURSIVE Sum(_, _, _, _)
        Sum(i, j, k, l) == IF j = 0 THEN << RZero, RZero >>
                           ELSE LET t == RMul(MElt(x, i, j, l), MElt(y, j, k, l))  s == Sum(i, j - 1, k, l)
                                IN << RAdd(s[1], t), RAdd(s[2], RAbs(t)) >> IN
    Finite(e.r, sh,
      << C("product", MaxOf({LET s == Sum(ix[1], j1, ix[2], ix[3]) IN
                             QAbs(MElt(e.r, ix[1], ix[2], ix[3]), s[1], s[2], 8)
                             : ix \in (1..i1) \X (1..k1) \X (1..n)})) >>)

RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN ROne ELSE RMul(x, RPow(x, n - 1))
\* numbers beyond 2^52 are not refined: the rounding of 1/n counts log2(x)-fold
RootLoss(x) == IF x[3] + 52 > 50 THEN 2048 ELSE 0
P_nthroot(e) ==
    LET m == Size(e.a.x) IN
    Finite(e.r, e.a.x.sh,
      << C("root", QAll(m, LAMBDA i :
            LET x == El(e.a.x, i)  y == El(e.r, i)
                k == -(y[3] + 52) IN                  \* scaled so that the root is about one
            IF x = << 0, 0, 0 >> \/ y = << 0, 0, 0 >> THEN QB(x = y)
            ELSE IF y[1] < 0 THEN CAP
            ELSE QRel(RPow(ValS(y, k), e.a.deg), ValS(x, k * e.a.deg), 8 * e.a.deg + RootLoss(x)))) >>)

\* deg, rad: a sequence of arguments, a sequence of results
QUnits(args, res, factor) ==
    IF Len(args) # Len(res) THEN CAP
    ELSE QAll(Len(args), LAMBDA j :
            IF ~IsArr(res[j]) \/ res[j].sh # args[j].sh THEN CAP
            ELSE QAll(Size(args[j]), LAMBDA i : QRel(Val(res[j].v[i]), RMul(Val(args[j].v[i]), factor), 4)))
P_deg(e) == << C("degrees", QUnits(e.a.args, e.r.res, RDiv(R(180), Pi))) >>
P_rad(e) == << C("radians", QUnits(e.a.args, e.r.res, Deg2Rad)) >>
=============================================================================
