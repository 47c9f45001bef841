------------------------------- MODULE Objects ------------------------------
(***************************************************************************)
(* The object-oriented interface: what positions, frames and paths denote, *)
(* and what every method must return (operators O_m(e), as P_f in Core).   *)
(***************************************************************************)
EXTENDS Series

\* ------------------------------------------------------------------ frames
FrA(fr) == Num(fr.a)
FrF(fr) == Num(fr.f)
FrR(fr) == Mat(fr.R, 1)
SameFrame(x, y) == SameArr(x.a, y.a) /\ SameArr(x.f, y.f) /\ SameArr(x.R, y.R)
\* documented equality of numbers: "yes" / "no" / "near"
EqRtol == RTol[12]
EqAtol == RTol[14]
EqNum(x, y) ==
    LET d == RAbs(RSub(x, y))  lim == RMax(EqAtol, RMul(EqRtol, RMax(RAbs(x), RAbs(y)))) IN
    IF RLe(RScale(d, 1), lim) THEN "yes" ELSE IF RLt(RScale(lim, 1), d) THEN "no" ELSE "near"
AndS(S) == IF "no" \in S THEN "no" ELSE IF "near" \in S THEN "near" ELSE "yes"
FrameEq(x, y) ==
    AndS({EqNum(FrA(x), FrA(y)), EqNum(FrF(x), FrF(y)), IF FrR(x) = FrR(y) THEN "yes" ELSE "no"})
EFrames == {"FrameE"}
Kinds == {"GeoPoint", "Nvector", "ECEFvector"}
LocalFrames == {"FrameN", "FrameL", "FrameB"}
\* the Earth frame an object lives in
EFrameOf(o) == CASE o.k \in Kinds -> o.frame
                 [] o.k \in LocalFrames -> o.origin.frame
                 [] OTHER -> o.frame.origin.frame

\* --------------------------------------------------------------- positions
ObjN(o) == CASE o.k = "GeoPoint" -> BLen3(Size(o.lat), Size(o.lon), Size(o.z))
             [] o.k = "Nvector" -> BLen2(Cols(o.normal), Size(o.z))
             [] o.k = "ECEFvector" \/ o.k = "Pvector" -> Cols(o.p)
\* north-first unit normal, depth, ECEF position of element i
UOf(o, i) == CASE o.k = "GeoPoint" -> OfLatLon(VAt(o.lat, i), VAt(o.lon, i))
               [] o.k = "Nvector" -> Unit(MV(FrR(o.frame), ColV(o.normal, i)))
               [] OTHER -> Inv(MV(FrR(o.frame), ColV(o.p, i)), FrA(o.frame), FrF(o.frame))[1]
ZOf(o, i) == CASE o.k \in {"GeoPoint", "Nvector"} -> VAt(o.z, i)
               [] OTHER -> Inv(MV(FrR(o.frame), ColV(o.p, i)), FrA(o.frame), FrF(o.frame))[2]
PosOf(o, i) == IF o.k = "ECEFvector" THEN MV(FrR(o.frame), ColV(o.p, i))
               ELSE Fwd(UOf(o, i), ZOf(o, i), FrA(o.frame), FrF(o.frame))
LatOf(o, i) == IF o.k = "GeoPoint" THEN VAt(o.lat, i)
               ELSE LET u == UOf(o, i) IN IF BSgn(u[1]) = 0 THEN RZero ELSE Atan2(u[1], Hyp(u[2], u[3]))
LonOf(o, i) == IF o.k = "GeoPoint" THEN VAt(o.lon, i)
               ELSE LET u == UOf(o, i) IN IF IsPole(u) THEN RZero ELSE Atan2(u[2], RNeg(u[3]))
\* all numbers of an object are finite
ObjFin(o) == CASE o.k = "GeoPoint" -> AllFin(o.lat) /\ AllFin(o.lon) /\ AllFin(o.z)
               [] o.k = "Nvector" -> AllFin(o.normal) /\ AllFin(o.z)
               [] OTHER -> AllFin(o.p)
KindIs(r, k) == "k" \in DOMAIN r /\ r.k = k
\* clauses cs about an object result of kind k with n elements in frame fr;
\* sc: the expected scalar flag
ObjBasic(r, k, n, fr, sc) ==
    << C("kind", QB(KindIs(r, k))),
       C("frame", QB(KindIs(r, k) /\ SameFrame(r.frame, fr))),
       C("shape", QB(KindIs(r, k) /\ ObjN(r) = n)),
       C("scalar", QB(KindIs(r, k) /\ r.s = sc)) >>
ObjRes(r, k, n, fr, sc, cs) ==
    IF ~KindIs(r, k) THEN << C("kind", CAP) >>
    ELSE IF ~ObjFin(r) THEN << C("finite", CAP) >>
    ELSE ObjBasic(r, k, n, fr, sc) \o (IF ObjN(r) = n THEN cs ELSE << >>)
ObjResNaN(r, k, n, fr, sc, cs) ==
    IF ~KindIs(r, k) THEN << C("kind", CAP) >>
    ELSE ObjBasic(r, k, n, fr, sc) \o (IF ObjN(r) = n THEN cs ELSE << >>)

\* element i of the GeoPoint r is the direction u
QHasK(r, i, u, s, k) == QDist(OfLatLon(VAt(r.lat, i), VAt(r.lon, i)), u, s, k)
QDepth(r, i, z, k) == QAbs(VAt(r.z, i), z, RAbs(z), k)

\* ------------------------------------------------------------ local frames
\* columns: axes of the local frame in north-first coordinates, element i.
\* At the exact poles the horizontal axes of L are not determined.
LFrameM(fr, i) ==
    LET u == UOf(fr.origin, i) IN
    CASE fr.k = "FrameN" -> NEDP(u)
      [] fr.k = "FrameL" -> RWander(u, VAt(fr.wa, i))
      [] OTHER -> MM(NEDP(u), ZYX(VAt(fr.yaw, i), VAt(fr.pitch, i), VAt(fr.roll, i)))
LFrameN(fr) == CASE fr.k = "FrameN" -> ObjN(fr.origin)
                 [] fr.k = "FrameL" -> BLen2(ObjN(fr.origin), Size(fr.wa))
                 [] OTHER -> BLen2(ObjN(fr.origin), BLen3(Size(fr.yaw), Size(fr.pitch), Size(fr.roll)))
Undetermined(fr, i) == fr.k = "FrameL" /\ IsPole(UOf(fr.origin, i))
\* normals that were computed from a position have unit length
UnitNormal(r, n) == IF r.k = "Nvector" THEN << C("unit-normal", QAll(n, LAMBDA i : QUnit(ColV(r.normal, i), 8))) >> ELSE << >>
O_convert(e) ==
    LET o == e.a.self  r == e.r  n == ObjN(o)  to == e.a.to
        fr == IF o.k = "Pvector" THEN EFrameOf(o) ELSE o.frame
        nn == IF o.k = "Pvector" THEN BLen2(n, ObjN(o.frame.origin)) ELSE n IN
    ObjRes(r, to, nn, fr, o.s /\ nn = 1,
      CASE o.k = to -> << C("identity", QB(r = o)) >>
        [] o.k = "GeoPoint" /\ to = "Nvector" ->
             << C("normal", QAll(n, LAMBDA i : QRelV(NVec(r.normal, i, FrR(fr)), UOf(o, i), 32))),
                C("depth", QB(SameNums(r.z, o.z))) >>
        [] o.k = "Nvector" /\ to = "GeoPoint" ->
             << C("latlon", QAll(n, LAMBDA i : QLatLon(NVec(o.normal, i, FrR(fr)), VAt(r.lat, i), VAt(r.lon, i), 32))),
                C("depth", QB(SameNums(r.z, o.z))) >>
        [] o.k \in {"GeoPoint", "Nvector"} /\ to = "ECEFvector" ->
             << C("position", QAll(n, LAMBDA i :
                   QDist(NVec(r.p, i, FrR(fr)), PosOf(o, i), RAdd(FrA(fr), RAbs(ZOf(o, i))), 24))) >>
        [] o.k = "ECEFvector" ->
             << C("denotes", QAll(n, LAMBDA i :
                   LET p == NVec(o.p, i, FrR(fr)) IN
                   QDist(PosOf(r, i), p, RAdd(FrA(fr), Norm(p)), 64))) >> \o UnitNormal(r, n)
        [] o.k = "Pvector" -> UnitNormal(r, nn) \o
             \* the vector, turned back into E, taken as a position
             << C("denotes", QAll(nn, LAMBDA i :
                   LET v == ColV(o.p, i)  w == PosOf(r, i)
                       s == IF to = "ECEFvector" THEN Norm(v) ELSE RAdd(FrA(fr), Norm(v)) IN
                   IF to # "ECEFvector" /\ RLt(Norm(v), RScale(FrA(fr), -1)) THEN 0
                   ELSE Max2(QAbs(Norm(w), Norm(v), s, 64),
                             IF Undetermined(o.frame, i)
                             THEN QAbs(Dot(w, VNeg(UOf(o.frame.origin, i))), v[3], s, 64)
                             ELSE QDist(w, MV(LFrameM(o.frame, i), v), s, 64)))) >>
        [] OTHER -> << >>)
O_R_EN(e) ==
    LET fr == e.a.self  n == LFrameN(fr)  ree == FrR(EFrameOf(fr)) IN
    Finite(e.r, MatsSh(n),
      << C("rotation", QAll(n, LAMBDA i : Q(RotDev(Mat(e.r, i)), Uk(24)))),
         C("down", QAll(n, LAMBDA i : IF fr.k = "FrameB" THEN 0
              ELSE QDist(MV(ree, ColOf(Mat(e.r, i), 3)), VNeg(UOf(fr.origin, i)), ROne, 24))),
         C("axes", QAll(n, LAMBDA i : IF Undetermined(fr, i) THEN 0
              ELSE QMat(Mat(e.r, i), MM(Tr(ree), LFrameM(fr, i)), 32))) >>)

\* Pvector r holds the vector v(i) (north-first) seen in local frame r.frame; pos is
\* the size of the numbers it was computed from
QLocal(r, i, v, pos, k) ==
    LET m == LFrameM(r.frame, i)  c == ColV(r.p, i) IN
    Max2(QAbs(Norm(c), Norm(v), pos, k),
         IF Undetermined(r.frame, i)
         THEN QAbs(c[3], Dot(VNeg(UOf(r.frame.origin, i)), v), pos, k)
         ELSE QDist(c, MV(Tr(m), v), pos, k))
PvecRes(r, k, n, sc, cs) ==
    IF ~KindIs(r, "Pvector") THEN << C("kind", CAP) >>
    ELSE IF ~AllFin(r.p) THEN << C("finite", CAP) >>
    ELSE << C("kind", QB(r.frame.k = k)), C("shape", QB(r.p.sh = << 3, n >>)), C("scalar", QB(r.s = sc)) >>
         \o (IF r.p.sh = << 3, n >> THEN cs ELSE << >>)
O_change_frame(e) ==
    LET o == e.a.self  fr == e.a.frame  n == BLen2(ObjN(o), LFrameN(fr)) IN
    PvecRes(e.r, fr.k, n, o.s /\ n = 1,
      << C("frame", QB(e.r.frame = fr)),
         C("rotated", QAll(n, LAMBDA i : LET v == PosOf(o, i) IN QLocal(e.r, i, v, Norm(v), 32))) >>)
O_to_ecef_local(e) ==       \* Pvector -> ECEFvector
    LET o == e.a.self  n == BLen2(ObjN(o), LFrameN(o.frame))  fr == EFrameOf(o) IN
    ObjRes(e.r, "ECEFvector", n, fr, o.s /\ n = 1,
      << C("rotated-back", QAll(n, LAMBDA i :
            LET v == ColV(o.p, i)  w == NVec(e.r.p, i, FrR(fr)) IN
            Max2(QAbs(Norm(w), Norm(v), Norm(v), 32),
                 IF Undetermined(o.frame, i)
                 THEN QAbs(Dot(w, VNeg(UOf(o.frame.origin, i))), v[3], Norm(v), 32)
                 ELSE QDist(w, MV(LFrameM(o.frame, i), v), Norm(v), 32)))) >>)

\* length, azimuth, elevation of a Pvector (or ECEFvector)
O_polar(e) ==
    LET o == e.a.self  n == Cols(o.p)  sh == NumSh(o.s, n)
        r == e.r  d == TRUE
        col(i) == ColV(o.p, i) IN
    Finite(r.length, sh,
       << C("length", QAll(n, LAMBDA i : QRel(VAt(r.length, i), Norm(col(i)), 8))) >>)
    \o Finite(r.az, sh,
       << C("azimuth", QAll(n, LAMBDA i : QAngle(VAt(r.az, i), col(i)[2], col(i)[1], 8, RZero))) >>)
    \o Finite(r.az_deg, sh,
       << C("azimuth-deg", QAll(n, LAMBDA i : QRel(RMul(VAt(r.az_deg, i), Deg2Rad), VAt(r.az, i), 8))) >>)
    \o Shaped(r.el, sh,
       << C("elevation", QAll(n, LAMBDA i :
              LET l == Norm(col(i)) IN
              IF BSgn(l) = 0 THEN 0 ELSE IF ~IsFin(El(r.el, i)) THEN CAP
              ELSE IF RLt(RAdd(PiHalf, U), RAbs(VAt(r.el, i))) THEN CAP
              ELSE QAbs(SinCos(VAt(r.el, i))[1], RDiv(col(i)[3], l), ROne, 8))) >>)
    \o Shaped(r.el_deg, sh,
       << C("elevation-deg", QAll(n, LAMBDA i : IF ~IsFin(El(r.el, i)) THEN 0 ELSE IF ~IsFin(El(r.el_deg, i)) THEN CAP
              ELSE QRel(RMul(VAt(r.el_deg, i), Deg2Rad), VAt(r.el, i), 8))) >>)

\* ------------------------------------------------------------------ deltas
MixN(x, y) == BLen2(ObjN(x), ObjN(y))
PosScale(o, i) == LET p == PosOf(o, i) IN RAdd(FrA(EFrameOf(o)), Norm(p))
DeltaV(x, y, i) == VSub(PosOf(y, i), PosOf(x, i))
O_delta_E(e) ==
    LET A == e.a.x  B == e.a.y  n == MixN(A, B) IN
    ObjRes(e.r, "ECEFvector", n, A.frame, A.s /\ B.s,
      << C("delta", QAll(n, LAMBDA i :
            QDist(NVec(e.r.p, i, FrR(A.frame)), DeltaV(A, B, i), RAdd(PosScale(A, i), PosScale(B, i)), 16))) >>)
\* the frame of a decomposed delta is the requested one at A
LFrameAt(fr, k, A) ==
    << C("frame-kind", QB(fr.k = k)),
       C("frame-origin", QB(ObjN(fr.origin) = ObjN(A) /\ SameFrame(fr.origin.frame, A.frame)
            /\ \A i \in 1..ObjN(A) : QDist(UOf(fr.origin, i), UOf(A, i), ROne, 64) <= 1000
                                      /\ BSgn(ZOf(fr.origin, i)) = 0)) >>
O_delta_local(e) ==         \* delta_N, delta_L, delta_to
    LET A == e.a.x  B == e.a.y  k == e.a.k
        n == BLen2(MixN(A, B), IF Has(e.a, "wa") THEN Size(e.a.wa) ELSE 1) IN
    PvecRes(e.r, k, n, A.s /\ B.s /\ n = 1,
      LFrameAt(e.r.frame, k, A) \o
      << C("wander", QB(k # "FrameL" \/ SameNums(e.r.frame.wa, IF Has(e.a, "wa") THEN e.a.wa ELSE [sh |-> << >>, v |-> << << 0, 0, 0 >> >>]))),
         C("delta-local", QAll(n, LAMBDA i :
            QLocal(e.r, i, DeltaV(A, B, i), RAdd(PosScale(A, i), PosScale(B, i)), 32))) >>)

\* ------------------------------------------------------------ constructors
O_FrameE(e) ==
    LET both == Has(e.a, "a") /\ Has(e.a, "f")
        key == IF Has(e.a, "key") THEN e.a.key ELSE "wgs84"
        ids == {i \in 1..19 : key \in Cat[i].key}
        ax == IF Has(e.a, "axes") THEN e.a.axes ELSE "e" IN
    IF ~KindIs(e.r, "FrameE") THEN << C("kind", CAP) >>
    ELSE << C("axes", QB(FrR(e.r) = (IF ax = "E" THEN AxesE ELSE Axese))),
            C("semi-axis", IF both THEN QB(SameNums(e.r.a, e.a.a))
                           ELSE IF ids = {} THEN CAP ELSE QRel(FrA(e.r), CatA(CHOOSE i \in ids : TRUE), 2)),
            C("flattening", IF both THEN QB(SameNums(e.r.f, e.a.f))
                            ELSE IF ids = {} THEN CAP ELSE QRel(FrF(e.r), CatF(CHOOSE i \in ids : TRUE), 4)),
            C("name", QB(e.r.name = (IF Has(e.a, "name") THEN e.a.name ELSE "WGS84"))) >>
O_GeoPoint(e) ==
    LET n == BLen3(Size(e.a.lat), Size(e.a.lon), OptN(e.a, "z"))
        sc == IsScalar(e.a.lat) /\ IsScalar(e.a.lon) /\ (~Has(e.a, "z") \/ IsScalar(e.a.z))
        d == Has(e.a, "degrees") /\ e.a.degrees IN
    ObjRes(e.r, "GeoPoint", n, e.a.frame, sc,
      << C("latitude", QAll(n, LAMBDA i : QRel(VAt(e.r.lat, i), Ang(VAt(e.a.lat, i), d), IF d THEN 4 ELSE 0))),
         C("longitude", QAll(n, LAMBDA i : QRel(VAt(e.r.lon, i), Ang(VAt(e.a.lon, i), d), IF d THEN 4 ELSE 0))),
         C("depth", QAll(n, LAMBDA i : QB(VAt(e.r.z, i) = Opt(e.a, "z", i)))) >>)
O_Nvector(e) ==
    LET n == BLen2(Cols(e.a.normal), OptN(e.a, "z")) IN
    ObjRes(e.r, "Nvector", n, e.a.frame, Cols(e.a.normal) = 1 /\ (~Has(e.a, "z") \/ IsScalar(e.a.z)),
      << C("normal", QB(SameArr(e.r.normal, e.a.normal))),
         C("depth", QAll(n, LAMBDA i : QB(VAt(e.r.z, i) = Opt(e.a, "z", i)))) >>)
O_ECEFvector(e) ==
    ObjRes(e.r, "ECEFvector", Cols(e.a.p), e.a.frame, IF Has(e.a, "scalar") THEN e.a.scalar ELSE Cols(e.a.p) = 1,
      << C("components", QB(SameArr(e.r.p, e.a.p))) >>)
O_Pvector(e) ==
    IF ~KindIs(e.r, "Pvector") THEN << C("kind", CAP) >>
    ELSE << C("components", QB(SameArr(e.r.p, e.a.p))), C("frame", QB(e.r.frame = e.a.frame)),
            C("scalar", QB(e.r.s = (IF Has(e.a, "scalar") THEN e.a.scalar ELSE Cols(e.a.p) = 1))) >>
\* origin of a local frame made at point A
OriginOK(r, A, keepz) ==
    IF ObjN(r.origin) # ObjN(A) \/ r.origin.s # A.s THEN CAP
    ELSE QAll(ObjN(A), LAMBDA i :
         MaxOf({QDist(UOf(r.origin, i), UOf(A, i), ROne, 64),
              IF A.k # "Nvector" /\ r.origin.k = "Nvector" THEN QUnit(ColV(r.origin.normal, i), 16) ELSE 0,
              IF keepz THEN QAbs(ZOf(r.origin, i), ZOf(A, i), RAdd(FrA(A.frame), RAbs(ZOf(A, i))), 64)
              ELSE QB(BSgn(ZOf(r.origin, i)) = 0)}))
O_FrameN(e) ==
    IF ~KindIs(e.r, "FrameN") THEN << C("kind", CAP) >>
    ELSE << C("frame", QB(SameFrame(e.r.origin.frame, e.a.x.frame))), C("origin", OriginOK(e.r, e.a.x, FALSE)) >>
O_FrameL(e) ==
    IF ~KindIs(e.r, "FrameL") THEN << C("kind", CAP) >>
    ELSE << C("frame", QB(SameFrame(e.r.origin.frame, e.a.x.frame))), C("origin", OriginOK(e.r, e.a.x, FALSE)),
            C("wander", IF Has(e.a, "wa") THEN QB(SameNums(e.r.wa, e.a.wa)) ELSE QB(BSgn(Num(e.r.wa)) = 0)) >>
QAngArg(x, a, k, d) == QAll(Size(x), LAMBDA i : QRel(VAt(x, i), IF Has(a, k) THEN Ang(VAt(a[k], i), d) ELSE RZero, 4))
O_FrameB(e) ==
    LET d == Has(e.a, "degrees") /\ e.a.degrees IN
    IF ~KindIs(e.r, "FrameB") THEN << C("kind", CAP) >>
    ELSE << C("frame", QB(SameFrame(e.r.origin.frame, e.a.x.frame))), C("origin", OriginOK(e.r, e.a.x, TRUE)),
            C("yaw", QAngArg(e.r.yaw, e.a, "yaw", d)), C("pitch", QAngArg(e.r.pitch, e.a, "pitch", d)),
            C("roll", QAngArg(e.r.roll, e.a, "roll", d)) >>
O_GeoPath(e) ==
    << C("kind", QB(KindIs(e.r, "GeoPath"))), C("ends", QB(KindIs(e.r, "GeoPath") => e.r.pa = e.a.x /\ e.r.pb = e.a.y)) >>
\* angles and depth of a GeoPoint in radians and degrees
O_latlon(e) ==
    LET o == e.a.self  n == ObjN(o)  r == e.r
        dg(x, y) == IF ~IsArr(x) \/ Size(x) # Size(y) THEN CAP
                    ELSE QAll(Size(y), LAMBDA i : QRel(RMul(VAt(x, i), Deg2Rad), VAt(y, i), 8)) IN
    << C("latitude-deg", dg(r.lat_deg, o.lat)), C("longitude-deg", dg(r.lon_deg, o.lon)),
       C("tuple", QB(/\ SameArr(r.ll_lat, o.lat) /\ SameArr(r.ll_lon, o.lon) /\ SameArr(r.ll_z, o.z)
                     /\ SameArr(r.lld_lat, r.lat_deg) /\ SameArr(r.lld_lon, r.lon_deg) /\ SameArr(r.lld_z, o.z))) >>

\* ------------------------------------------------- great-circle direct/inverse
IsDeg(a) == Has(a, "degrees") /\ a.degrees
\* azimuth (radians, real) az within q of direction of travel at x when coming from y
QArrive(az, x, y, i, k) ==
    LET v == VSub(PosOf(y, i), PosOf(x, i)) IN QAzim(RSub(az, Pi), UOf(x, i), v, RAdd(PosScale(x, i), PosScale(y, i)), k)
AzRange(x, d) == RLe(RAbs(x), IF d THEN RAdd(R(180), RTol[9]) ELSE RAdd(Pi, RTol[9]))
O_displace_gc(e) ==
    LET A == e.a.self  d == IsDeg(e.a)  n == BLen3(ObjN(A), Size(e.a.d), Size(e.a.az))
        Pt == e.r.point  sc == A.s /\ IsScalar(e.a.d) /\ IsScalar(e.a.az) IN
    ObjRes(Pt, "GeoPoint", n, A.frame, IF n = 1 THEN sc \/ Pt.s ELSE FALSE,
      << C("displaced", QAll(n, LAMBDA i :
            LET arc == RDiv(VAt(e.a.d, i), Norm(PosOf(A, i))) IN
            QHasK(Pt, i, SphereDirect(UOf(A, i), arc, Ang(VAt(e.a.az, i), d)), RAdd(ROne, RAbs(arc)), 32))) ,
         C("depth", QAll(n, LAMBDA i : QB(VAt(Pt.z, i) = VAt(A.z, i)))),
         C("azimuth-b", IF ~(IsArr(e.r.az) /\ Size(e.r.az) = n /\ AllFin(e.r.az)) THEN CAP
            ELSE QAll(n, LAMBDA i :
               IF ~AzRange(VAt(e.r.az, i), d) THEN CAP
               ELSE QArrive(Ang(VAt(e.r.az, i), d), Pt, A, i, 64))) >>)
O_dist_az_gc(e) ==
    LET A == e.a.self  B == e.a.y  d == IsDeg(e.a)  n == MixN(A, B)
        sh == NumSh(A.s /\ B.s, n) IN
    Finite(e.r.s, sh,
      << C("arc-length", QAll(n, LAMBDA i :
            LET rad == RScale(RAdd(Norm(PosOf(A, i)), Norm(PosOf(B, i))), -1) IN
            QArc(VAt(e.r.s, i), UOf(A, i), UOf(B, i), rad, 48))) >>)
    \o Finite(e.r.az1, sh,
      << C("azimuth-a", QAll(n, LAMBDA i :
            QAzim(Ang(VAt(e.r.az1, i), d), UOf(A, i), DeltaV(A, B, i), RAdd(PosScale(A, i), PosScale(B, i)), 64))) >>)
    \o Finite(e.r.az2, sh,
      << C("azimuth-b", QAll(n, LAMBDA i :
            IF ~AzRange(VAt(e.r.az2, i), d) THEN CAP ELSE QArrive(Ang(VAt(e.r.az2, i), d), B, A, i, 64))) >>)

\* ------------------------------------------------------- geodesics (ellipsoid)
BadLat(lat) == RLt(RAdd(PiHalf, RTol[12]), RAbs(lat))
\* landing of the geodesic: surface point and direction of travel there
Land(g, lon1) ==
    LET so == SinCos(RAdd(lon1, g.lam))
        h == Hyp(g.saz, g.caz)  sa == RDiv(g.saz, h)  ca == RDiv(g.caz, h) IN
    [ u |-> UpAt(g.slat, g.clat, so[1], so[2]),
      t |-> VAdd(VMul(ca, NorthAt(g.slat, g.clat, so[1], so[2])), VMul(sa, EastAt(so[1], so[2]))) ]
\* direction of travel with azimuth az at latitude, longitude
TravelAt(lat, lon, az) ==
    LET la == SinCos(lat)  lo == SinCos(lon)  s == SinCos(az) IN
    VAdd(VMul(s[2], NorthAt(la[1], la[2], lo[1], lo[2])), VMul(s[1], EastAt(lo[1], lo[2])))
SurfTol(a) == RMul(a, RTol[14])        \* 64 nm on Earth
\* direct problem: start (lat1, lon1), azimuth, distance; claims (lat2, lon2, az2)
QDirect(lat1, lon1, az1, s, lat2, lon2, az2, a, f, unroll) ==
    LET g == Geodesic(lat1, az1, s, a, f)  L == Land(g, lon1)
        u2 == OfLatLon(lat2, lon2)  t2 == TravelAt(lat2, lon2, az2)
        k == RAdd(ROne, RDiv(RAbs(s), a)) IN
    MaxOf({ Q(RMul(a, DistV(L.u, u2)), RMul(k, SurfTol(a))),
            Q(DistV(L.t, t2), RMul(k, RTol[13])),
            IF unroll
            THEN (IF RLt(g.clat, RTol[6]) THEN 0
                  ELSE Q(RAbs(RSub(lon2, RAdd(lon1, g.lam))), RDiv(RMul(k, RTol[13]), g.clat)))
            ELSE QB(RLe(RAbs(lon2), RAdd(Pi, RTol[12]))) })
\* inverse problem: claims (s, az1, az2) between two points
QInverse(lat1, lon1, lat2, lon2, s, az1, az2, a, f, useaz2) ==
    IF BSgn(s) < 0 THEN CAP
    ELSE LET g == Geodesic(lat1, az1, s, a, f)  L == Land(g, lon1)
             u2 == OfLatLon(lat2, lon2)  t2 == TravelAt(lat2, lon2, az2)
             \* no longitude difference is defined from or to a pole
             polar == \E la \in {lat1, lat2} : RLe(PiHalf, RAdd(RAbs(la), RTol[7]))
             short == IF BSgn(f) >= 0 \/ polar THEN RLe(g.sig12, RAdd(Pi, RTol[7])) ELSE RLe(RAbs(g.lam), RAdd(Pi, RTol[7]))
             dt == IF BSgn(s) = 0 THEN ROne ELSE RDiv(SurfTol(a), s) IN
         MaxOf({ Q(RMul(a, DistV(L.u, u2)), RScale(SurfTol(a), 1)),
                 IF useaz2 THEN Q(DistV(L.t, t2), RAdd(RTol[12], dt)) ELSE 0,
                 QB(short) })
AxisAt(fr, z) == RSub(FrA(fr), z)
AllArrNaN(r, i) == IsNaN(El(r.s, i)) /\ IsNaN(El(r.az1, i)) /\ IsNaN(El(r.az2, i))
O_inverse(e) ==             \* FrameE.inverse
    LET a == e.a  d == IsDeg(a)
        n == Max2(BLen2(Size(a.lat1), Size(a.lon1)), BLen3(Size(a.lat2), Size(a.lon2), OptN(a, "z")))
        sc == \A x \in {a.lat1, a.lon1, a.lat2, a.lon2} : IsScalar(x)
        sh == NumSh(sc /\ (~Has(a, "z") \/ IsScalar(a.z)), n)  r == e.r IN
    Shaped(r.s, sh, << >>) \o Shaped(r.az1, sh, << >>) \o
    Shaped(r.az2, sh,
      IF r.s.sh # sh \/ r.az1.sh # sh THEN << >> ELSE
      << C("geodesic", QAll(n, LAMBDA i :
            LET la == Ang(VAt(a.lat1, i), d)  lb == Ang(VAt(a.lat2, i), d) IN
            IF BadLat(la) \/ BadLat(lb) THEN QB(AllArrNaN(r, i))
            ELSE IF ~(IsFin(El(r.s, i)) /\ IsFin(El(r.az1, i)) /\ IsFin(El(r.az2, i))) THEN CAP
            ELSE QInverse(la, Ang(VAt(a.lon1, i), d), lb, Ang(VAt(a.lon2, i), d),
                          VAt(r.s, i), Ang(VAt(r.az1, i), d), Ang(VAt(r.az2, i), d),
                          AxisAt(a.self, Opt(a, "z", i)), FrF(a.self), TRUE))) >>)
\* at a pole the longitude of a point that was not given one is arbitrary
FreeLon(o, i) == o.k # "GeoPoint" /\ LET u == UOf(o, i) IN BSgn(u[2]) = 0 /\ BSgn(u[3]) = 0
O_dist_az(e) ==             \* GeoPoint.distance_and_azimuth, ellipsoidal
    LET a == e.a  A == a.self  B == a.y  d == IsDeg(a)  n == MixN(A, B)
        sh == NumSh(A.s /\ B.s, n)  r == e.r IN
    Finite(r.s, sh, << >>) \o Finite(r.az1, sh, << >>) \o
    Finite(r.az2, sh,
      IF r.s.sh # sh \/ r.az1.sh # sh \/ ~AllFin(r.s) \/ ~AllFin(r.az1) THEN << >> ELSE
      << C("geodesic", QAll(n, LAMBDA i :
            QInverse(LatOf(A, i), LonOf(A, i), LatOf(B, i), LonOf(B, i),
                     VAt(r.s, i), Ang(VAt(r.az1, i), d), Ang(VAt(r.az2, i), d),
                     AxisAt(A.frame, RScale(RAdd(ZOf(A, i), ZOf(B, i)), -1)), FrF(A.frame), ~FreeLon(B, i)))) >>)
O_direct(e) ==              \* FrameE.direct
    LET a == e.a  d == IsDeg(a)  r == e.r
        n == Max2(BLen3(Size(a.lat1), Size(a.lon1), Size(a.az)), BLen2(Size(a.d), OptN(a, "z")))
        sc == (\A x \in {a.lat1, a.lon1, a.az, a.d} : IsScalar(x)) /\ (~Has(a, "z") \/ IsScalar(a.z))
        sh == NumSh(sc, n)  un == Has(a, "unroll") /\ a.unroll IN
    Finite(r.lat, sh, << >>) \o Finite(r.lon, sh, << >>) \o
    Finite(r.az, sh,
      IF r.lat.sh # sh \/ r.lon.sh # sh \/ ~AllFin(r.lat) \/ ~AllFin(r.lon) THEN << >> ELSE
      << C("geodesic", QAll(n, LAMBDA i :
            QDirect(Ang(VAt(a.lat1, i), d), Ang(VAt(a.lon1, i), d), Ang(VAt(a.az, i), d), VAt(a.d, i),
                    Ang(VAt(r.lat, i), d), Ang(VAt(r.lon, i), d), Ang(VAt(r.az, i), d),
                    AxisAt(a.self, Opt(a, "z", i)), FrF(a.self), un))) >>)
O_displace(e) ==            \* GeoPoint.displace, ellipsoidal
    LET a == e.a  A == a.self  d == IsDeg(a)  n == BLen3(ObjN(A), Size(a.d), Size(a.az))
        Pt == e.r.point  un == Has(a, "unroll") /\ a.unroll IN
    ObjRes(Pt, "GeoPoint", n, A.frame, A.s /\ IsScalar(a.d) /\ IsScalar(a.az),
      << C("depth", QAll(n, LAMBDA i : QB(VAt(Pt.z, i) = VAt(A.z, i)))),
         C("geodesic", IF ~(IsArr(e.r.az) /\ Size(e.r.az) = n /\ AllFin(e.r.az)) THEN CAP
            ELSE QAll(n, LAMBDA i :
               QDirect(VAt(A.lat, i), VAt(A.lon, i), Ang(VAt(a.az, i), d), VAt(a.d, i),
                       VAt(Pt.lat, i), VAt(Pt.lon, i), Ang(VAt(e.r.az, i), d),
                       AxisAt(A.frame, VAt(A.z, i)), FrF(A.frame), un))) >>)

\* ------------------------------------------------------------------- paths
PathLen(p) == MixN(p.pa, p.pb)
MeanRadius(p, i) == RScale(RAdd(Norm(PosOf(p.pa, i)), Norm(PosOf(p.pb, i))), -1)
PathRadius(e, i) == IF Has(e.a, "radius") THEN VAt(e.a.radius, i) ELSE MeanRadius(e.a.self, i)
MeanDepth(p, i) == RScale(RAdd(ZOf(p.pa, i), ZOf(p.pb, i)), -1)
\* scale of the depths: an ECEF position determines its depth to a rounding of a
DepthScale(o, i) == IF o.k = "ECEFvector" THEN PosScale(o, i) ELSE RAbs(ZOf(o, i))
PUA(p, i) == UOf(p.pa, i)
PUB(p, i) == UOf(p.pb, i)
Degenerate(p, i) == RLt(SinBetween(PUA(p, i), PUB(p, i)), RTol[13])
PathScalar(p) == p.pa.s /\ p.pb.s
\* results are numbers when everything is scalar, else vectors of n
AnyNum(x, n) == IsArr(x) /\ (x.sh = << n >> \/ (n = 1 /\ x.sh = << >>))
NumRes(x, n, sc, cs) ==
    IF ~IsArr(x) THEN << C("shape", CAP) >>
    ELSE << C("shape", QB(IF sc THEN x.sh = << >> ELSE AnyNum(x, n))) >>
         \o (IF AnyNum(x, n) THEN cs ELSE << >>)
O_track_gc(e) ==            \* great circle or Euclidean track distance
    LET p == e.a.self  n == PathLen(p) IN
    NumRes(e.r, n, PathScalar(p),
      << C("track", QAll(n, LAMBDA i :
            LET rad == PathRadius(e, i)  u == PUA(p, i)  v == PUB(p, i) IN
            IF ~IsFin(El(e.r, i)) THEN CAP
            ELSE IF IsEuc(e.a) THEN QAbs(VAt(e.r, i), RMul(DistV(u, v), rad), RMulI(rad, 2), 48)
            ELSE QArc(VAt(e.r, i), u, v, rad, 48))) >>)
(* The witness e.a.wit gives, per element, the azimuth azB at A of a shortest geodesic
   to B; the specification verifies that it is one, of the claimed length.            *)
O_track_el(e) ==            \* ellipsoidal
    LET p == e.a.self  n == PathLen(p) IN
    NumRes(e.r, n, PathScalar(p),
      << C("track-ellipsoid", QAll(n, LAMBDA i :
            IF ~IsFin(El(e.r, i)) THEN CAP
            ELSE QInverse(LatOf(p.pa, i), LonOf(p.pa, i), LatOf(p.pb, i), LonOf(p.pb, i),
                     VAt(e.r, i), VAt(e.a.wit.azB, i), RZero,
                     AxisAt(p.pa.frame, MeanDepth(p, i)), FrF(p.pa.frame), FALSE))) >>)
O_cross_track(e) ==
    LET p == e.a.self  c == e.a.y  n == BLen2(PathLen(p), ObjN(c)) IN
    NumRes(e.r, n, PathScalar(p) /\ c.s,
      << C("cross-track", QAll(n, LAMBDA i :
            IF Degenerate(p, i) THEN 0 ELSE IF ~IsFin(El(e.r, i)) THEN CAP
            ELSE QCross(VAt(e.r, i), PUA(p, i), PUB(p, i), UOf(c, i), PathRadius(e, i), IsEuc(e.a), 32))) >>)
PathAtol(a) == IF Has(a, "atol") THEN Num(a.atol) ELSE RTol[8]
PathRtol(a) == IF Has(a, "rtol") THEN Num(a.rtol) ELSE RTol[6]
O_on_circle(e) ==
    LET p == e.a.self  c == e.a.y  n == BLen2(PathLen(p), ObjN(c)) IN
    NumRes(e.r, n, PathScalar(p) /\ c.s,
      << C("on-circle", QAll(n, LAMBDA i :
            IF Degenerate(p, i) THEN 0
            ELSE QTruth(CircleTruth(PUA(p, i), PUB(p, i), UOf(c, i), MeanRadius(p, i), PathAtol(e.a)), BAt(e.r, i)))) >>)
\* the depth condition, with the method's tolerances
DepthTruth(p, c, i, rtol, atol) ==
    LET z == MeanDepth(p, i)  y == ZOf(c, i)  d == RAbs(RSub(z, y))
        lim == RMax(atol, RMul(rtol, RMax(RAbs(z), RAbs(y))))
        noise == RAdd(Tol(RAdd(DepthScale(c, i), RAdd(DepthScale(p.pa, i), DepthScale(p.pb, i))), 64), RTol[10]) IN
    IF RLe(RAdd(d, noise), lim) THEN "yes" ELSE IF RLt(RAdd(lim, noise), d) THEN "no" ELSE "near"
O_on_path_gc(e) ==
    LET p == e.a.self  c == e.a.y  n == BLen2(PathLen(p), ObjN(c)) IN
    NumRes(e.r, n, PathScalar(p) /\ c.s,
      << C("on-path", QAll(n, LAMBDA i :
            IF Degenerate(p, i) THEN 0
            ELSE LET r == MeanRadius(p, i)  at == PathAtol(e.a) IN
                 QTruth(And3(And3(CircleTruth(PUA(p, i), PUB(p, i), UOf(c, i), r, at),
                                  PathTruth(PUA(p, i), PUB(p, i), UOf(c, i), r, at)),
                             DepthTruth(p, c, i, PathRtol(e.a), at)), BAt(e.r, i)))) >>)
(* Along the ellipsoid.  e.a.wit gives, per element, azimuth and distance at A of
   shortest geodesics to B and to C; the specification verifies that they are such. *)
WitOK(A, i, az, s, T, axis, f) ==
    LET g == Geodesic(LatOf(A, i), az, s, axis, f)  L == Land(g, LonOf(A, i)) IN
    RLe(RMul(axis, DistV(L.u, UOf(T, i))), RTol[6]) /\ RLe(RAbs(g.sig12), RAdd(Pi, RTol[7]))
O_on_path_el(e) ==
    LET p == e.a.self  c == e.a.y  n == BLen2(PathLen(p), ObjN(c))
        A == p.pa  fr == A.frame  w == e.a.wit
        axB(i) == AxisAt(fr, MeanDepth(p, i))
        axC(i) == AxisAt(fr, RScale(RAdd(ZOf(A, i), ZOf(c, i)), -1)) IN
    NumRes(e.r, n, PathScalar(p) /\ c.s,
      << C("on-path-ellipsoid", QAll(n, LAMBDA i :
            LET azB == VAt(w.azB, i)  azC == VAt(w.azC, i)  sB == VAt(w.sB, i)  sC == VAt(w.sC, i)
                da == RAbs(WrapPi(RSub(azB, azC)))
                atol == PathAtol(e.a)  rtol == PathRtol(e.a)
                amb(T) == RLt(RSub(Pi, RAdd(RMulI(RAbs(FrF(fr)), 4), RTol[6])), AngleBetween(UOf(A, i), UOf(T, i)))
                dirT == IF RLe(sC, RMin(RTol[9], RScale(atol, -1))) THEN "yes"
                        ELSE IF amb(p.pb) \/ amb(c) \/ RLe(sC, RScale(atol, 1)) THEN "near"
                        ELSE LET lim == RMax(atol, RMul(rtol, Pi)) IN
                             IF RLe(da, RAdd(RScale(atol, -1), RZero)) /\ RLt(RTenP(2), sC) THEN "yes"
                             ELSE IF RLt(RScale(lim, 1), da) /\ RLt(RDiv(RTol[6], sC), da) /\ RLt(RTol[4], sC) THEN "no" ELSE "near"
                lenT == IF RLe(sC, RMul(sB, RSub(ROne, RTol[6]))) THEN "yes"
                        ELSE IF RLt(RAdd(RMul(sB, RAdd(ROne, RTol[6])), RMax(atol, RTol[5])), sC) THEN "no" ELSE "near"
                t == And3(And3(dirT, lenT), DepthTruth(p, c, i, rtol, atol)) IN
            IF t = "near" THEN 0
            ELSE IF ~(WitOK(A, i, azB, sB, p.pb, axB(i), FrF(fr)) /\ WitOK(A, i, azC, sC, c, axC(i), FrF(fr))) THEN 0
            ELSE QTruth(t, BAt(e.r, i)))) >>)
O_closest_circle(e) ==
    LET p == e.a.self  c == e.a.y  n == BLen2(PathLen(p), ObjN(c)) IN
    ObjResNaN(e.r, "GeoPoint", n, c.frame, IF n = 1 THEN (PathScalar(p) /\ c.s) \/ e.r.s ELSE FALSE,
      << C("closest", QAll(n, LAMBDA i :
            IF Degenerate(p, i) THEN 0 ELSE IF ~(IsFin(El(e.r.lat, i)) /\ IsFin(El(e.r.lon, i))) THEN CAP
            ELSE QClosest(UOf(e.r, i), PUA(p, i), PUB(p, i), UOf(c, i), 48))),
         C("mean-depth", QAll(n, LAMBDA i :
            QAbs(ZOf(e.r, i), MeanDepth(p, i), RAdd(DepthScale(p.pa, i), DepthScale(p.pb, i)), 64))) >>)
\* the closest point of the segment: on it, and none closer
O_closest_path(e) ==
    LET p == e.a.self  c == e.a.y  A == PUA(p, 1)  B == PUB(p, 1)  X == UOf(c, 1)
        g == GCNormal(A, B)  t == Tol(RAdd(ROne, Cond(A, B)), 64)
        pr == VSub(X, VMul(Dot(g, X), g))
        y == UOf(e.r, 1)
        btw == IF RLt(Norm(pr), RMul(RTol[6], ROne)) THEN "near" ELSE BetweenTruth(A, B, pr, RTol[7])
        dA == AngleBetween(A, X)  dB == AngleBetween(B, X)
        eqA == QDist(y, A, ROne, 64) <= 1000  eqB == QDist(y, B, ROne, 64) <= 1000
        zA == Q(RAbs(RSub(ZOf(e.r, 1), ZOf(p.pa, 1))), Tol(DepthScale(p.pa, 1), 64))
        zB == Q(RAbs(RSub(ZOf(e.r, 1), ZOf(p.pb, 1))), Tol(DepthScale(p.pb, 1), 64))
        zM == Q(RAbs(RSub(ZOf(e.r, 1), MeanDepth(p, 1))), Tol(RAdd(DepthScale(p.pa, 1), DepthScale(p.pb, 1)), 64)) IN
    IF Degenerate(p, 1) THEN << >>
    ELSE ObjRes(e.r, "GeoPoint", 1, e.r.frame, (PathScalar(p) /\ c.s) \/ e.r.s,
      << C("frame", QB(SameFrame(e.r.frame, p.pa.frame) \/ SameFrame(e.r.frame, c.frame))),
         C("on-segment", IF eqA \/ eqB THEN 0
               ELSE IF RLt(t, RAbs(Dot(g, y))) THEN CAP
               ELSE QB(BetweenTruth(A, B, y, RTol[12]) # "no")),
         C("none-closer",
               CASE btw = "yes" -> QClosest(y, A, B, X, 64)
                 [] btw = "no" -> (IF RLt(RAdd(dA, RAdd(t, RTol[14])), dB) THEN QB(eqA)
                                   ELSE IF RLt(RAdd(dB, RAdd(t, RTol[14])), dA) THEN QB(eqB) ELSE QB(eqA \/ eqB))
                 [] OTHER -> QB(RLe(AngleBetween(y, X), RAdd(RMin(dA, dB), RTol[7])))),
         C("depth", MinOf((IF eqA THEN {zA} ELSE {}) \cup (IF eqB THEN {zB} ELSE {}) \cup {zM})) >>)
O_path_intersect(e) ==
    LET p == e.a.self  q == e.a.y  n == BLen2(PathLen(p), PathLen(q)) IN
    ObjResNaN(e.r, "Nvector", n, p.pa.frame, IF n = 1 THEN (PathScalar(p) /\ PathScalar(q)) \/ e.r.s ELSE FALSE,
      << C("intersection", QAll(n, LAMBDA i :
            IF e.a.same THEN QB(NaNCol(e.r.normal, i))
            ELSE IF Degenerate(p, i) \/ Degenerate(q, i) THEN 0
            ELSE LET s == Norm(Cross(GCNormal(PUA(p, i), PUB(p, i)), GCNormal(PUA(q, i), PUB(q, i)))) IN
                 IF RLt(s, RTol[9]) THEN 0
                 ELSE IF ~FinCol(e.r.normal, i) THEN CAP
                 ELSE QIntersect(MV(FrR(p.pa.frame), ColV(e.r.normal, i)), PUA(p, i), PUB(p, i), PUA(q, i), PUB(q, i), 64))),
         C("warning", QB(e.a.same => Warned(e))),
         C("mean-depth", QAll(n, LAMBDA i :
            QAbs(VAt(e.r.z, i), RScale(RAdd(MeanDepth(p, i), MeanDepth(q, i)), -1),
                 RAdd(RAdd(DepthScale(p.pa, i), DepthScale(p.pb, i)), RAdd(DepthScale(q.pa, i), DepthScale(q.pb, i))), 64))) >>)
O_path_interpolate(e) ==
    LET p == e.a.self  n == BLen2(PathLen(p), Size(e.a.t)) IN
    ObjResNaN(e.r, "Nvector", n, p.pa.frame, IF n = 1 THEN (PathScalar(p) /\ IsScalar(e.a.t)) \/ e.r.s ELSE FALSE,
      << C("chord-point", QAll(n, LAMBDA i :
            LET a == PUA(p, i)  b == PUB(p, i)  t == VAt(e.a.t, i)
                s == Norm(VAdd(a, VMul(t, VSub(b, a)))) IN
            IF e.a.void THEN QB(NaNCol(e.r.normal, i))
            ELSE IF RLt(s, RTol[8]) \/ LerpLost(a, b, t) THEN 0
            ELSE IF ~FinCol(e.r.normal, i) THEN CAP
            ELSE QLerp(MV(FrR(p.pa.frame), ColV(e.r.normal, i)), a, b, t, 48))),
         C("depth", QAll(n, LAMBDA i :
            LET za == ZOf(p.pa, i)  zb == ZOf(p.pb, i)  t == VAt(e.a.t, i) IN
            QAbs(VAt(e.r.z, i), RAdd(za, RMul(t, RSub(zb, za))),
                 RMul(RAdd(ROne, RMulI(RAbs(t), 2)), RAdd(DepthScale(p.pa, i), DepthScale(p.pb, i))), 64))) >>)
\* the representations of the two ends of a path
O_path_ends(e) ==
    LET p == e.a.self
        one(x, o, i) == LET s == PosScale(o, i) IN QDist(PosOf(x, i), PosOf(o, i), s, 128)
        end(x, k, o) == IF ~KindIs(x, k) \/ ObjN(x) # ObjN(o) \/ ~SameFrame(x.frame, o.frame) THEN CAP
                        ELSE QAll(ObjN(o), LAMBDA i : one(x, o, i))
        both(x, k) == Max2(end(x[1], k, p.pa), end(x[2], k, p.pb)) IN
    << C("ends", QB(e.r.ends = << p.pa, p.pb >> /\ e.r.aliases = e.r.ends)),
       C("nvectors", both(e.r.nvectors, "Nvector")), C("geo-points", both(e.r.geo_points, "GeoPoint")),
       C("ecef-vectors", both(e.r.ecef_vectors, "ECEFvector")),
       C("normals", Max2(QAll(ObjN(p.pa), LAMBDA i : QDist(MV(FrR(p.pa.frame), ColV(e.r.normals[1], i)), UOf(p.pa, i), ROne, 64)),
                         QAll(ObjN(p.pb), LAMBDA i : QDist(MV(FrR(p.pb.frame), ColV(e.r.normals[2], i)), UOf(p.pb, i), ROne, 64)))) >>

\* ---------------------------------------------------------------- printed form
\* the printed form tells the type and the exact attributes, all the way down
RECURSIVE Says(_, _)
Says(s, o) ==
    /\ "k" \in DOMAIN s /\ s.k = o.k
    /\ \A k \in DOMAIN o \ {"k", "s"} :
          /\ k \in DOMAIN s
          /\ CASE k \in {"frame", "origin"} -> Says(s[k], o[k])
               [] k = "name" -> s[k] = o[k]
               [] OTHER -> s[k] = o[k]
O_repr(e) == << C("printed-attributes", QB(Says(e.r.said, e.a.self))), C("str-is-repr", QB(e.r.str = "same")) >>

\* ------------------------------------------------------- means and time series
O_mean(e) ==
    LET o == e.a.self  m == Size(o.z)
        RECURSIVE S(_)
        S(i) == IF i = 0 THEN RZero ELSE RAdd(Val(o.z.v[i]), S(i - 1))
        RECURSIVE SA(_)
        SA(i) == IF i = 0 THEN RZero ELSE RAdd(RAbs(Val(o.z.v[i])), SA(i - 1)) IN
    ObjRes(e.r, "Nvector", 1, o.frame, TRUE,
      << C("unit", QUnit(ColV(e.r.normal, 1), 8)),
         C("mean", QMean(ColV(e.r.normal, 1), o.normal, 8)),
         C("mean-depth", QAbs(Num(e.r.z), RDivI(S(m), m), SA(m), 8)) >>)
O_series(e) ==              \* Nvector.interpolate
    LET o == e.a.self  m == Size(e.a.ti)  opt == SmOpt(e.a)  kind == Kind(e.a)  n == Cols(o.normal)
        loc(i) == Locate(VAt(e.a.ti, i), e.a.t)
        k == SplineOrder(kind)
        sp == TLCEval(IF k > 0 THEN SplineCoef(e.a.t, SmAll(o.normal, opt), k) ELSE << >>)
        spz == TLCEval(IF k > 0 THEN SplineCoef(e.a.t, TLCEval([j \in 1..n |-> TLCEval(<< Smooth(j, n, LAMBDA i : VAt(o.z, i), opt) >>)]), k) ELSE << >>)
        zmax == LET RECURSIVE M(_)
                    M(i) == IF i = 0 THEN RZero ELSE RMax(RAbs(Val(o.z.v[i])), M(i - 1))
                IN RMax(M(Size(o.z)), RAbs(opt.cval)) IN
    IF ~KindIs(e.r, "Nvector") THEN << C("kind", CAP) >>
    ELSE << C("frame", QB(SameFrame(e.r.frame, o.frame))), C("scalar", QB(m > 1 => ~e.r.s)) >> \o
    Shaped(e.r.normal, << 3, m >>,
      << C("outside-nan", QAll(m, LAMBDA i : IF loc(i)[1] = "out" THEN QB(NaNCol(e.r.normal, i)) ELSE QB(FinCol(e.r.normal, i)))),
         C("series", QAll(m, LAMBDA i : IF loc(i)[1] = "out" \/ ~FinCol(e.r.normal, i) THEN 0
                                        ELSE QSeries(ColV(e.r.normal, i), loc(i), kind, o.normal, opt, sp, VAt(e.a.ti, i)))) >>) \o
    (IF Size(e.r.z) # m THEN << C("shape", CAP) >> ELSE
     << C("depth-series", QAll(m, LAMBDA i :
          IF loc(i)[1] = "out" THEN QB(IsNaN(El(e.r.z, i)))
          ELSE IF ~IsFin(El(e.r.z, i)) THEN CAP
          ELSE LET sm(j) == Smooth(j, n, LAMBDA h : VAt(o.z, h), opt)
                   row == RowAt(loc(i), kind, sm)
                   spline == k > 0 /\ loc(i)[1] = "in" IN
               IF ~spline /\ ~row[1] THEN 0
               ELSE QAbs(VAt(e.r.z, i), IF spline THEN SplineAt(spz, VAt(e.a.ti, i))[1] ELSE row[2], zmax,
                         SeriesK(k, opt)))) >>)
O_unit(e) ==                \* Nvector.unit(): e.r is the object afterwards
    LET o == e.a.self  r == e.r  n == Cols(o.normal) IN
    IF ~KindIs(r, "Nvector") THEN << C("kind", CAP) >>
    ELSE << C("frame", QB(SameFrame(r.frame, o.frame))), C("depth", QB(SameArr(r.z, o.z))), C("scalar", QB(r.s = o.s)) >> \o
    Finite(r.normal, << 3, n >>,
      << C("unit-vector", QAll(n, LAMBDA i :
            IF ZeroCol(o.normal, i) THEN QB(ColV(r.normal, i) = Ex)
            ELSE QDist(ColV(r.normal, i), Unit(ColS(o.normal, i)), ROne, 8))) >>)

\* ------------------------------------------------------------------ algebra
Zero1 == [sh |-> << >>, v |-> << << 0, 0, 0 >> >>]
ArithV(op, u, v, k) == CASE op = "add" -> VAdd(u, v) [] op = "sub" -> VSub(u, v) [] op = "neg" -> VNeg(u)
                         [] op = "mul" -> VMul(k, u) [] op = "div" -> << RDiv(u[1], k), RDiv(u[2], k), RDiv(u[3], k) >>
ArithZ(op, x, y, k) == CASE op = "add" -> RAdd(x, y) [] op = "sub" -> RSub(x, y) [] op = "neg" -> RNeg(x)
                         [] op = "mul" -> RMul(k, x) [] op = "div" -> RDiv(x, k)
O_arith(e) ==
    LET x == e.a.self  op == e.a.op
        bin == op \in {"add", "sub"}
        y == IF bin THEN e.a.y ELSE x
        kf == IF op \in {"mul", "div"} THEN e.a.by ELSE Zero1
        fk(i) == VAt(kf, i)
        n == Max2(MixN(x, y), Size(kf))
        mag(u, v, k) == IF op = "div" THEN RDiv(MaxAbs(u), RAbs(k)) ELSE IF op = "mul" THEN RMul(MaxAbs(u), RAbs(k))
                        ELSE RAdd(MaxAbs(u), MaxAbs(v)) IN
    IF x.k = "Nvector"
    THEN IF ~KindIs(e.r, "Nvector") THEN << C("kind", CAP) >>
         ELSE << C("frame", QB(SameFrame(e.r.frame, x.frame))), C("new-object", QB(~e.a.isself)),
                 C("scalar", QB(n > 1 => ~e.r.s)) >> \o
         Finite(e.r.normal, << 3, Max2(Cols(x.normal), Max2(IF bin THEN Cols(y.normal) ELSE 1, Size(kf))) >>,
           << C("components", QAll(n, LAMBDA i :
                 LET u == ColV(x.normal, i)  v == IF bin THEN ColV(y.normal, i) ELSE u  k == fk(i) IN
                 QDist(ColV(e.r.normal, i), ArithV(op, u, v, k), mag(u, v, k), 4))),
              C("depth", QAll(n, LAMBDA i :
                 LET u == VAt(x.z, i)  v == IF bin THEN VAt(y.z, i) ELSE u  k == fk(i) IN
                 QAbs(VAt(e.r.z, i), ArithZ(op, u, v, k), IF bin THEN RAdd(RAbs(u), RAbs(v)) ELSE ArithZ(op, u, v, k), 4))) >>)
    ELSE ObjRes(e.r, "ECEFvector", n, x.frame, x.s /\ (~bin \/ y.s),
           << C("new-object", QB(~e.a.isself)),
              C("components", QAll(n, LAMBDA i :
                 LET u == ColV(x.p, i)  v == IF bin THEN ColV(y.p, i) ELSE u IN
                 QDist(ColV(e.r.p, i), ArithV(op, u, v, RZero), mag(u, v, RZero), 4))) >>)

\* ----------------------------------------------------------------- equality
AngEq(x, y) ==      \* angles modulo full turns
    LET d == RAbs(WrapPi(RSub(x, y))) IN
    IF RLe(d, RMulI(RTol[15], 5)) THEN "yes" ELSE IF RLt(RTol[13], d) THEN "no" ELSE "near"
Each(n, F(_)) == AndS({F(i) : i \in 1..n})
NumsEq(x, y) == LET n == Max2(Size(x), Size(y)) IN Each(n, LAMBDA i : EqNum(VAt(x, i), VAt(y, i)))
ColsEq(x, y) ==
    LET n == Max2(Cols(x), Cols(y)) IN
    Each(n, LAMBDA i : LET u == ColV(x, i)  v == ColV(y, i) IN AndS({EqNum(u[1], v[1]), EqNum(u[2], v[2]), EqNum(u[3], v[3])}))
PosEq(x, y) ==
    IF x.k # y.k THEN "no"
    ELSE CASE x.k = "GeoPoint" ->
               AndS({Each(MixN(x, y), LAMBDA i : AngEq(VAt(x.lat, i), VAt(y.lat, i))),
                     Each(MixN(x, y), LAMBDA i : AngEq(VAt(x.lon, i), VAt(y.lon, i))),
                     NumsEq(x.z, y.z), FrameEq(x.frame, y.frame)})
           [] x.k = "Nvector" -> AndS({ColsEq(x.normal, y.normal), NumsEq(x.z, y.z), FrameEq(x.frame, y.frame)})
           [] OTHER -> AndS({ColsEq(x.p, y.p), FrameEq(x.frame, y.frame)})
MatEq(m, w) == IF RLe(MMaxAbs(MSub(m, w)), RScale(EqAtol, -2)) THEN "yes"
               ELSE IF RLt(RTol[11], MMaxAbs(MSub(m, w))) THEN "no" ELSE "near"
FrameMatEq(x, y) ==
    Each(Max2(LFrameN(x), LFrameN(y)), LAMBDA i :
         IF Undetermined(x, i) \/ Undetermined(y, i) THEN "near" ELSE MatEq(LFrameM(x, i), LFrameM(y, i)))
LocalEq(x, y) ==
    IF {x.k, y.k} \subseteq {"FrameN", "FrameL"} THEN AndS({PosEq(x.origin, y.origin), FrameMatEq(x, y)})
    ELSE IF x.k # y.k THEN "no"
    ELSE LET t == AndS({PosEq(x.origin, y.origin), FrameMatEq(x, y)})
             ang == AndS({NumsEq(x.yaw, y.yaw), NumsEq(x.pitch, y.pitch), NumsEq(x.roll, y.roll)}) IN
         \* the same orientation by other angles: not decided here
         IF t # "no" /\ ang = "no" THEN "near" ELSE AndS({t, ang})
EqTruth(x, y) ==
    IF "k" \notin DOMAIN x \/ "k" \notin DOMAIN y THEN "no"
    ELSE IF x.k \in Kinds /\ y.k \in Kinds THEN PosEq(x, y)
    ELSE IF x.k = "FrameE" /\ y.k = "FrameE" THEN FrameEq(x, y)
    ELSE IF x.k \in LocalFrames /\ y.k \in LocalFrames THEN LocalEq(x, y)
    ELSE IF x.k = "Pvector" /\ y.k = "Pvector" THEN AndS({ColsEq(x.p, y.p), LocalEq(x.frame, y.frame)})
    ELSE "no"
O_eq(e) ==
    LET t == EqTruth(e.a.x, e.a.y) IN
    << C("equal", QB(Agree(t, e.r.xy))), C("symmetric", QB(e.r.xy = e.r.yx)),
       C("unequal", QB(e.r.nexy = ~e.r.xy /\ e.r.neyx = ~e.r.yx)), C("reflexive", QB(e.r.xx)) >>
=============================================================================
