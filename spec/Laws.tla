-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Does the specification say what the properties promise?                 *)
(*                                                                         *)
(* A surveyor stands somewhere on a lattice of ellipsoids, places, depths, *)
(* azimuths, distances ...  and at each step changes one of them (Next).   *)
(* TLC visits every combination and checks that the definitions used to    *)
(* judge the library (Earth, Core, Series, Objects) have the properties    *)
(* they are meant to have: round trips, symmetries, minimality, geodesics  *)
(* having no geodesic curvature, and so on.  Nothing here looks at the     *)
(* library; the recorded runs are judged by the same definitions.          *)
(*                                                                         *)
(* Uses: which coordinates of the lattice this run moves; Fine: how dense. *)
(***************************************************************************)
EXTENDS Nvector

CONSTANTS Uses, Fine

\* ------------------------------------------------------------------ lattice
Degs(n) == RMul(R(n), Deg2Rad)
\* << latitude, longitude >> in thousandths of degrees
Place0 == << << 90000, 0 >>, << 0, 0 >>, << 45000, 180000 >>, << -30000, -60000 >>, << -90000, 50000 >>,
             << 0, 90000 >>, << 89999, 135000 >>, << -45000, 0 >>, << 1, -179999 >>, << 52370, 4900 >> >>
Place1 == Place0 \o << << 60000, -90000 >>, << -10, 90010 >>, << 30000, 120000 >>, << 0, 180000 >>, << 0, -90000 >>,
                       << -89000, 10000 >>, << 45000, 0 >>, << 44999, 1 >>, << -52370, -175100 >>, << 15, 15 >> >>
Places == IF Fine THEN Place1 ELSE Place0
MilliDeg(n) == RDivI(RMul(R(n), Deg2Rad), 1000)
\* a (whole metres), f
Ell0 == << << WGS84a, WGS84f >>, << R(6371009), RZero >>, << R(6378137), RQ(1, 50) >>, << R(1000000), RQ(-1, 100) >>,
           << ROne, RQ(1, 298) >> >>
Ells == Ell0
\* depths as thousandths of the semi-axis (the last far above the surface)
Depth0 == << 0, 1, -1, 20, -3000 >>
Depths == IF Fine THEN Depth0 \o << -5, 100, -100000 >> ELSE Depth0
Az0 == << 0, 30000, 90000, 180000, -135000, 359999 >>
Azs == IF Fine THEN Az0 \o << -90000, 1, 179999, 89990, 270000 >> ELSE Az0
\* arcs in thousandths of a radian
Arc0 == << 0, 1, 300, 1500, 3000, -700, 7000 >>
Arcs == IF Fine THEN Arc0 \o << 3141, 3142, -1, 1571, -4000 >> ELSE Arc0
\* fractions of a path
Fr0 == << << 0, 1 >>, << 1, 1 >>, << 1, 2 >>, << 1, 3 >>, << -1, 4 >>, << 2, 1 >> >>
Frs == IF Fine THEN Fr0 \o << << 1, 1000 >>, << 999, 1000 >>, << 3, 4 >>, << 10, 1 >> >> ELSE Fr0
Modes == << "interp", "nearest", "mirror", "wrap", "constant" >>

Coords == [ e |-> Len(Ells), A |-> Len(Places), B |-> Len(Places), C |-> Len(Places), D |-> Len(Places),
            zA |-> Len(Depths), zB |-> Len(Depths), az |-> Len(Azs), ay |-> Len(Azs), ax |-> Len(Azs),
            s |-> Len(Arcs), s2 |-> Len(Arcs), t |-> Len(Frs),
            win |-> 4, ord |-> 3, mode |-> Len(Modes), j |-> 11, k |-> 5 ]

VARIABLE at
Init == at = [c \in DOMAIN Coords |-> 1]
Next == \E c \in Uses : \E i \in 1..Coords[c] : i # at[c] /\ at' = [at EXCEPT ![c] = i]
Spec == Init /\ [][Next]_at

\* ------------------------------------------------------- where the surveyor is
Lat(p) == MilliDeg(Places[p][1])
Lon(p) == MilliDeg(Places[p][2])
PU(p) == CASE Places[p][1] = 90000 -> Ex [] Places[p][1] = -90000 -> VNeg(Ex) [] OTHER -> OfLatLon(Lat(p), Lon(p))
uA == PU(at.A)  uB == PU(at.B)  uC == PU(at.C)  uD == PU(at.D)
ea == Ells[at.e][1]   ef == Ells[at.e][2]
eb == RMul(ea, RSub(ROne, ef))
DepthAt(i) == RDivI(RMul(R(Depths[i]), ea), 1000)
zA == DepthAt(at.zA)  zB == DepthAt(at.zB)
az == MilliDeg(Azs[at.az])  ay == MilliDeg(Azs[at.ay])  ax == MilliDeg(Azs[at.ax])
s == RQ(Arcs[at.s], 1000)  s2 == RQ(Arcs[at.s2], 1000)
t == RQ(Frs[at.t][1], Frs[at.t][2])
pA == Fwd(uA, zA, ea, ef)  pB == Fwd(uB, zB, ea, ef)  pC == Fwd(uC, RZero, ea, ef)

Mod(x, n) == x % n
\* equal but for the precision of the arithmetic: 10^-30 of the size
Eps(x) == RMul(RAdd(ROne, RAbs(x)), RTol[30])
Eq(x, y) == RLe(RAbs(RSub(x, y)), Eps(x))
EqV(x, y) == RLe(DistV(x, y), Eps(Norm(x)))
EqM(x, y) == RLe(MMaxAbs(MSub(x, y)), RTol[30])
EqAng(x, y) == RLe(RAbs(WrapPi(RSub(x, y))), RTol[28])
Sgn(x) == IF RLe(RAbs(x), RTol[30]) THEN 0 ELSE BSgn(x)
Polar(u) == RLe(Hyp(u[2], u[3]), RTol[20])
\* points that make a path, and how well they define it
Path(x, y) == RLt(RTol[6], SinBetween(x, y))
\* azimuth of direction v seen at u
AzOf(u, v) == LET m == NEDP(u) IN Atan2(Dot(ColOf(m, 2), v), Dot(ColOf(m, 1), v))
Along(x, y, arc) == LET g == GCNormal(x, y)  sc == SinCos(arc) IN VAdd(VMul(sc[2], x), VMul(sc[1], Cross(g, x)))

\* ------------------------------------------------------------------- C01, C29
L01 == LET u == uA  la == Lat(at.A) IN
       /\ Eq(Norm(u), ROne)
       /\ EqAng(Atan2(u[1], Hyp(u[2], u[3])), la)
       /\ Polar(u) \/ EqAng(Atan2(u[2], RNeg(u[3])), Lon(at.A))
       /\ Sgn(u[1]) = Sgn(la)
       /\ EqV(OfLatLon(RNeg(la), RAdd(Lon(at.A), Pi)), VNeg(u))
       /\ EqV(OfLatLon(la, RAdd(Lon(at.A), TwoPi)), u)
       /\ QLatLon(u, la, Lon(at.A), 1) <= 1
       /\ Polar(u) \/ QLatLon(u, RAdd(la, RTol[9]), Lon(at.A), 32) > 1000
       /\ Polar(u) \/ QLatLon(u, la, RAdd(Lon(at.A), RTol[9]), 32) > 1000
\* ------------------------------------------------------------------------ C02
L02 == LET p == Fwd(uA, RZero, ea, ef)
           gr == << RDiv(p[1], RMul(RDiv(eb, ea), eb)), RDiv(p[2], ea), RDiv(p[3], ea) >> IN
       /\ Eq(RAdd(RSqr(RDiv(p[1], eb)), RAdd(RSqr(RDiv(p[2], ea)), RSqr(RDiv(p[3], ea)))), ROne)
       /\ EqV(Unit(gr), uA)
       /\ EqV(pA, VSub(p, VMul(zA, uA)))
       /\ EqV(Fwd(VNeg(uA), zA, ea, ef), VNeg(pA))
       /\ BSgn(ef) # 0 \/ EqV(pA, VMul(RSub(ea, zA), uA))
L03 == LET v == Inv(pA, ea, ef) IN
       /\ EqV(v[1], uA)
       /\ RLe(RAbs(RSub(v[2], zA)), RMul(RAdd(ea, RAbs(zA)), RTol[28]))
       /\ QDenotes(uA, zA, pA, ea, ef, 1) <= 1
       /\ QDenotes(uA, RAdd(zA, RMul(ea, RTol[9])), pA, ea, ef, 64) > 1000 \/ at.zA = Len(Depths)
\* ------------------------------------------------------------------------ C04
L04 == LET d(x, y) == VSub(y, x) IN
       /\ d(pA, pB) = VNeg(d(pB, pA))
       /\ VAdd(d(pA, pB), d(pB, pC)) = d(pA, pC)
       /\ LET v == Inv(VAdd(pA, d(pA, pB)), ea, ef) IN
          EqV(v[1], uB) /\ RLe(RAbs(RSub(v[2], zB)), RMul(RAdd(ea, RAbs(zB)), RTol[28]))
\* ------------------------------------------------------------------------ C05
L05 == LET m == NEDP(uA)  n == ColOf(m, 1)  ee == ColOf(m, 2)  d == ColOf(m, 3)
           la == SinCos(Lat(at.A))  lo == SinCos(Lon(at.A))
           w == RWander(uA, az) IN
       /\ RLe(RotDev(m), RTol[30]) /\ EqV(d, VNeg(uA))
       /\ Polar(uA) \/ (/\ Sgn(n[1]) = 1 /\ Sgn(ee[1]) = 0
                        /\ EqV(n, NorthAt(la[1], la[2], lo[1], lo[2])) /\ EqV(ee, EastAt(lo[1], lo[2])))
       /\ RLe(RotDev(w), RTol[30]) /\ EqV(ColOf(w, 3), VNeg(uA))
       /\ EqM(RWander(uA, RAdd(az, ay)), MM(w, RotZ(SinCos(ay))))
       /\ Polar(uA) \/ EqAng(AzOf(uA, ColOf(w, 1)), az)       \* L's x axis points along the wander azimuth
\* ------------------------------------------------------------------------ C06
L06 == LET m == XYZ(ax, ay, az)  w == ZYX(az, ay, ax)  cy == Hyp(m[1][1], m[1][2])
           x == Atan2(RNeg(m[2][3]), m[3][3])  y == Atan2(m[1][3], cy)  z == Atan2(RNeg(m[1][2]), m[1][1]) IN
       /\ RLe(RotDev(m), RTol[30]) /\ RLe(RotDev(w), RTol[30])
       /\ EqM(Tr(m), ZYX(RNeg(az), RNeg(ay), RNeg(ax)))
       /\ RLt(cy, RTol[9]) \/ EqM(XYZ(x, y, z), m)
       /\ EqM(MM(w, Tr(w)), MId)
\* ------------------------------------------------------------------------ C07
L07 == LET m == MM(NEDP(uA), ZYX(az, ay, ax))  v == VSub(pB, pA)  l == MV(Tr(m), v) IN
       /\ EqV(MV(m, l), v) /\ Eq(Norm(l), Norm(v))
       /\ RLe(RAbs(RSub(MV(Tr(NEDP(uA)), VSub(Fwd(uA, zB, ea, ef), pA))[3], RSub(zB, zA))), RMul(ea, RTol[28]))
       /\ RLe(Norm(Cross(MV(Tr(NEDP(uA)), VSub(Fwd(uA, zB, ea, ef), pA)), Ez)), RMul(RAdd(Norm(pA), ea), RTol[28]))
\* ------------------------------------------------------------------------ C08
L08 == LET ab == AngleBetween(uA, uB)  ba == AngleBetween(uB, uA)  bc == AngleBetween(uB, uC)  ac == AngleBetween(uA, uC) IN
       /\ Eq(ab, ba) /\ BSgn(ab) >= 0 /\ RLe(ab, RAdd(Pi, RTol[30]))
       /\ RLe(ac, RAdd(RAdd(ab, bc), RTol[28]))
       /\ Eq(DistV(uA, uB), RMulI(SinCos(RScale(ab, -1))[1], 2))
       /\ EqV(uA, uB) = RLe(ab, RTol[28])
       /\ EqV(uA, VNeg(uB)) = RLe(RSub(Pi, ab), RTol[28])
       /\ QArc(ab, uA, uB, ROne, 8) <= 1 /\ QArc(RAdd(ab, RTol[12]), uA, uB, ROne, 8) > 1000
\* ------------------------------------------------------------------------ C09
Fold(x) == RAbs(WrapPi(x))
L09 == LET q == SphereDirect(uA, s, az)  arc == AngleBetween(uA, q)
           back == AzOf(q, VSub(uA, q)) IN
       /\ Eq(Norm(q), ROne)
       /\ RLe(RAbs(RSub(arc, Fold(s))), RTol[28])
       /\ (RLt(RTol[6], s) /\ RLt(s, RSub(Pi, RTol[6]))) => EqAng(AzOf(uA, VSub(q, uA)), az)
       /\ RLt(RTol[6], arc) => EqV(SphereDirect(q, arc, back), uA)
       /\ EqV(SphereDirect(uA, RAdd(s, s2), az), LET h == SinCos(s2)  e == SinCos(s)
                  m == NEDP(uA)  a == SinCos(az)
                  dir == VAdd(VMul(a[2], ColOf(m, 1)), VMul(a[1], ColOf(m, 2)))
                  tang == VSub(VMul(e[2], dir), VMul(e[1], uA)) IN VAdd(VMul(h[2], q), VMul(h[1], tang)))
       /\ EqV(SphereDirect(uA, RNeg(s), RAdd(az, Pi)), q)
       /\ (RLt(RTol[3], arc) /\ RLt(arc, RSub(Pi, RTol[3]))) =>
             QAzim(AzOf(uA, VSub(q, uA)), uA, VSub(q, uA), ROne, 32) <= 1
             /\ QAzim(RAdd(AzOf(uA, VSub(q, uA)), RTol[9]), uA, VSub(q, uA), ROne, 32) > 1000
\* ------------------------------------------------------------------------ C10
L10 == ~Path(uA, uB) \/
       LET g == GCNormal(uA, uB)  x == RNeg(Dot(g, uC))
           cp == VSub(uC, VMul(Dot(g, uC), g)) IN
       /\ Eq(x, Dot(GCNormal(uB, uA), uC))                                  \* sign turns with the path
       /\ Sgn(Dot(g, uA)) = 0 /\ Sgn(Dot(g, uB)) = 0
       /\ RLe(RAbs(x), RAdd(ROne, RTol[30]))
       \* as far as the nearest point of the circle
       /\ RLe(RAbs(RSub(AngleBetween(uC, IF RLt(Norm(cp), RTol[20]) THEN uA ELSE cp), Atan2(RAbs(x), RSqrt(RMax(RZero, RSub(ROne, RSqr(x))))))), RTol[13])
       \* positive to the right: the point a quarter turn to the right of A
       /\ LET rgt == VNeg(g) IN BSgn(RNeg(Dot(g, rgt))) = 1 /\ EqV(Unit(Cross(VSub(uB, VMul(Dot(uA, uB), uA)), uA)), rgt)
       /\ QCross(Atan2(x, RSqrt(RMax(RZero, RSub(ROne, RSqr(x))))), uA, uB, uC, ROne, FALSE, 8) <= 1
       /\ QCross(x, uA, uB, uC, ROne, TRUE, 8) <= 1
       /\ Sgn(x) = 0 \/ QCross(RNeg(x), uA, uB, uC, ROne, TRUE, 8) > 1000
\* ------------------------------------------------------------------------ C11
L11 == ~Path(uA, uB) \/
       LET g == GCNormal(uA, uB)  pr == VSub(uC, VMul(Dot(g, uC), g)) IN
       RLt(Norm(pr), RTol[6]) \/
       LET cp == Unit(pr)  other == Along(uA, uB, s)  dc == AngleBetween(uC, cp)  do == AngleBetween(uC, other) IN
       /\ Sgn(Dot(g, cp)) = 0
       /\ RLe(dc, RAdd(do, RTol[28]))                              \* no point of the circle is closer
       /\ QClosest(cp, uA, uB, uC, 16) <= 1
       /\ RLe(AngleBetween(cp, other), RTol[6]) \/ QClosest(other, uA, uB, uC, 16) > 1000
       /\ QClosest(VNeg(cp), uA, uB, uC, 16) > 1000
\* ------------------------------------------------------------------------ C12
L12 == ~Path(uA, uB) \/
       LET th == AngleBetween(uA, uB)  q == Along(uA, uB, RMul(t, th))
           b1 == BetweenTruth(uA, uB, q, RTol[12])  b2 == BetweenTruth(uB, uA, q, RTol[12])
           full == RMul(RAbs(t), th)
           in == BSgn(t) > 0 /\ RLt(t, ROne)
           end == BSgn(t) = 0 \/ t = ROne
           off == Unit(VAdd(q, VMul(RTol[6], GCNormal(uA, uB)))) IN
       /\ IF end THEN b1 # "no" /\ b2 # "no" ELSE b1 = b2
       /\ in => b1 = "yes"
       /\ (~in /\ ~end /\ RLt(full, RSub(TwoPi, th))) => b1 = "no"
       /\ CircleTruth(uA, uB, q, ROne, RTol[8]) = "yes"
       /\ CircleTruth(uA, uB, off, ROne, RTol[8]) = "no"
       /\ BetweenTruth(uA, uB, VNeg(Unit(VAdd(uA, uB))), RTol[12]) = "no"
       /\ PathTruth(uA, uB, uA, ROne, RTol[8]) = "yes" /\ PathTruth(uA, uB, uB, ROne, RTol[8]) = "yes"
\* ------------------------------------------------------------------------ C13
L13 == ~Path(uA, uB) \/ ~Path(uC, uD) \/
       LET g == GCNormal(uA, uB)  h == GCNormal(uC, uD)  x == Cross(g, h) IN
       RLt(Norm(x), RTol[6]) \/
       LET q == Unit(IF BSgn(Dot(x, uA)) < 0 THEN VNeg(x) ELSE x) IN
       /\ Sgn(Dot(g, q)) = 0 /\ Sgn(Dot(h, q)) = 0
       /\ QIntersect(q, uA, uB, uC, uD, 16) <= 1
       /\ Sgn(Dot(q, uA)) = 0 \/ QIntersect(VNeg(q), uA, uB, uC, uD, 16) > 1000 \/ RLt(RAbs(Dot(q, uA)), RTol[6])
       /\ QIntersect(Unit(VAdd(q, VMul(RTol[3], g))), uA, uB, uC, uD, 16) > 1000 \/ RLt(Norm(x), RTol[3])
       /\ EqV(q, Unit(Cross(h, g))) \/ EqV(q, VNeg(Unit(Cross(h, g))))
\* ------------------------------------------------------------------------ C14
Lerp(x, y, w) == Unit(VAdd(x, VMul(w, VSub(y, x))))
L14 == RLt(Norm(VAdd(uA, VMul(t, VSub(uB, uA)))), RTol[6]) \/
       LET q == Lerp(uA, uB, t) IN
       /\ (BSgn(t) = 0 => EqV(q, uA)) /\ (t = ROne => EqV(q, uB))
       /\ EqV(q, Lerp(uB, uA, RSub(ROne, t)))
       /\ Path(uA, uB) => Sgn(RMul(RTol[3], Dot(GCNormal(uA, uB), q))) = 0
       /\ t = RHalf => Eq(AngleBetween(uA, q), AngleBetween(q, uB))
       /\ QLerp(q, uA, uB, t, 8) <= 1
\* ------------------------------------------------------------------------ C15
WinOf == << 0, 3, 4, 7 >>[at.win]
OrdOf == at.ord
Sample(i, p) == R(IPow(i, p))              \* sample i of the polynomial x^p
L15 == LET n == 11  w == Odd(WinOf)  opt == [window |-> WinOf, order |-> OrdOf, mode |-> Modes[at.mode], cval |-> RZero]
           inner == at.j > 4 /\ at.j < 8
           h == (w - 1) \div 2
           RECURSIVE Sum(_, _)
           Sum(we, i) == IF i = 0 THEN RZero ELSE RAdd(we[i], Sum(we, i - 1)) IN
       \/ (WinOf = 0 /\ Smooth(at.j, n, LAMBDA i : Sample(i, 3), opt) = Sample(at.j, 3))
       \/ WinOf > 0 /\ (OrdOf < w =>
          /\ Eq(Sum(Weights(h, OrdOf, 0), w), ROne)
          \* polynomials of the order are kept; at the ends only by mode "interp"
          /\ \A p \in 0..OrdOf : (inner \/ opt.mode = "interp") =>
                Eq(Smooth(at.j, n, LAMBDA i : Sample(i, p), opt), Sample(at.j, p))
          \* constants are kept by every mode but "constant"
          /\ opt.mode # "constant" => Eq(Smooth(at.j, n, LAMBDA i : ROne, opt), ROne)
          /\ \A i \in -10..25 : opt.mode # "interp" => Ext(i, n, opt.mode) \in 0..n)
\* samples at uneven times, as recorded arrays
TimesArr == LET ts == << 0, 1, 3, 4, 5, 8, 9, 11, 12, 16 >> IN
            [sh |-> << 10 >>, v |-> [i \in 1..10 |-> << 0, ts[i], 0 >>]]
L15b == LET k == at.k  tq == RAdd(RQ(at.j * 14, 10), RZero)  y == tq
            sp == SplineCoef(TimesArr, TLCEval([i \in 1..10 |-> << RPow(VAt(TimesArr, i), k), RPow(VAt(TimesArr, i), k - 1), R(Mod(7 * i, 5)) >>]), k) IN
        /\ LET v == SplineAt(sp, y) IN
           RLe(RAbs(RSub(v[1], RPow(y, k))), RMul(RPow(y, k), RTol[25])) /\ RLe(RAbs(RSub(v[2], RPow(y, k - 1))), RMul(RPow(y, k), RTol[25]))
        /\ RLe(RAbs(RSub(SplineAt(sp, VAt(TimesArr, (IF at.j > 10 THEN 10 ELSE at.j)))[3], R(Mod(7 * (IF at.j > 10 THEN 10 ELSE at.j), 5)))), RTol[25])
\* ------------------------------------------------------------------------ C16

L16 == LET m3 == VAdd(VAdd(uA, uB), uC) IN
       RLt(Norm(m3), RTol[6]) \/
       LET m == Unit(m3)  rot == RotX(SinCos(az)) IN
       /\ EqV(m, Unit(VAdd(VAdd(uC, uA), uB)))
       /\ EqV(Unit(VMul(R(3), uA)), uA)
       /\ RLt(Norm(VAdd(uA, uB)), RTol[6]) \/ EqV(Unit(VAdd(uA, uB)), Lerp(uA, uB, RHalf))
       /\ EqV(MV(rot, m), Unit(VAdd(VAdd(MV(rot, uA), MV(rot, uB)), MV(rot, uC))))
\* ------------------------------------------------------------------ C17, C18
Dist == RMul(s, ea)
Geo(d) == Geodesic(Lat(at.A), az, d, ea, ef)
OnGeo(d) == Land(Geo(d), Lon(at.A))
GPos(d) == Fwd(OnGeo(d).u, RZero, ea, ef)
SmallV(v, lim) == RLe(Norm(v), lim)
L18 == Polar(uA) \/
       LET g == Geo(Dist)  l == OnGeo(Dist)
           h == RMul(ea, RTol[6])
           p0 == Fwd(l.u, RZero, ea, ef)  p1 == GPos(RAdd(Dist, h))  p2 == GPos(RSub(Dist, h))
           acc == VAdd(VSub(p1, p0), VSub(p2, p0))
           az2 == Atan2(g.saz, g.caz) IN
       \* starts where it should, in the direction it should
       /\ BSgn(Dist) # 0 \/ (EqV(l.u, uA) /\ EqV(l.t, TravelAt(Lat(at.A), Lon(at.A), az)))
       \* unit speed, along the direction of travel
       /\ RLe(DistV(VMul(RDiv(ROne, RMulI(h, 2)), VSub(p1, p2)), l.t), RTol[11])
       \* no geodesic curvature: the acceleration is vertical
       /\ RLe(Norm(Cross(acc, l.u)), RMul(Norm(acc), RTol[5]))
       /\ RLe(RMul(RAbs(Dot(acc, l.t)), ROne), RMul(Norm(acc), RTol[5]))
       \* Clairaut: the distance from the axis times the sine of the azimuth
       /\ RLe(RAbs(RSub(RMul(Hyp(p0[2], p0[3]), RDiv(g.saz, Hyp(g.saz, g.caz))),
                        LET q == Fwd(uA, RZero, ea, ef) IN RMul(Hyp(q[2], q[3]), SinCos(az)[1]))), RMul(ea, RTol[18]))
       \* on the sphere it is the great circle
       /\ BSgn(ef) # 0 \/ RLe(DistV(l.u, SphereDirect(uA, s, az)), RTol[18])
       \* the specification accepts it, and nothing a micrometre (of 10^7 m) away
       /\ QDirect(Lat(at.A), Lon(at.A), az, Dist, Atan2(g.slat, g.clat), RAdd(Lon(at.A), g.lam), az2, ea, ef, TRUE) <= 1
       /\ QDirect(Lat(at.A), Lon(at.A), az, RAdd(Dist, RMul(ea, RTol[12])), Atan2(g.slat, g.clat), WrapPi(RAdd(Lon(at.A), g.lam)), az2, ea, ef, FALSE) > 1000
\* composition and return
L18b == Polar(uA) \/
        LET g == Geo(Dist)  l == OnGeo(Dist)  d2 == RMul(s2, ea)  az2 == Atan2(g.saz, g.caz)  la2 == Atan2(g.slat, g.clat)
            g2 == Geodesic(la2, az2, d2, ea, ef)  l2 == Land(g2, RAdd(Lon(at.A), g.lam))
            g0 == Geodesic(la2, RAdd(az2, Pi), Dist, ea, ef)  l0 == Land(g0, RAdd(Lon(at.A), g.lam)) IN
        /\ RLe(DistV(l2.u, OnGeo(RAdd(Dist, d2)).u), RTol[16]) /\ RLe(DistV(l2.t, OnGeo(RAdd(Dist, d2)).t), RTol[12])
        /\ RLe(DistV(l0.u, uA), RTol[16])
        /\ EqAng(RAdd(g.lam, g2.lam), Geo(RAdd(Dist, d2)).lam) \/ RLe(RAbs(RSub(RAdd(g.lam, g2.lam), Geo(RAdd(Dist, d2)).lam)), RTol[12])
L17 == Polar(uA) \/ BSgn(s) <= 0 \/ RLt(RQ(29, 10), s) \/
       LET g == Geo(Dist)  la2 == Atan2(g.slat, g.clat)  lo2 == RAdd(Lon(at.A), g.lam)  az2 == Atan2(g.saz, g.caz) IN
       \* a geodesic shorter than half a turn solves the inverse problem
       /\ QInverse(Lat(at.A), Lon(at.A), la2, lo2, Dist, az, az2, ea, ef, TRUE) <= 1
       /\ QInverse(la2, lo2, Lat(at.A), Lon(at.A), Dist, RAdd(az2, Pi), RAdd(az, Pi), ea, ef, TRUE) <= 1   \* and its reverse the reversed one
       /\ QInverse(Lat(at.A), Lon(at.A), la2, lo2, RAdd(Dist, RMul(ea, RTol[12])), az, az2, ea, ef, TRUE) > 1000
       \* no shorter than the straight line
       /\ RLe(DistV(Fwd(uA, RZero, ea, ef), GPos(Dist)), RAdd(Dist, RMul(ea, RTol[20])))
\* the long way round is refused
L17b == Polar(uA) \/ BSgn(s) <= 0 \/ RLt(RQ(29, 10), s) \/ Sgn(Dot(Cross(uA, OnGeo(Dist).u), Ex)) = 0 \/ BSgn(ef) # 0 \/
        LET g == Geo(Dist)  la2 == Atan2(g.slat, g.clat)  lo2 == RAdd(Lon(at.A), g.lam)  az2 == Atan2(g.saz, g.caz) IN
        QInverse(Lat(at.A), Lon(at.A), la2, lo2, RSub(RMul(TwoPi, ea), Dist), RAdd(az, Pi), RAdd(az2, Pi), ea, ef, TRUE) > 1000
\* ------------------------------------------------------------------------ C19
\* shapes of at most two dimensions that may meet
Shapes == << << >>, << 1 >>, << 3 >>, << 3, 1 >>, << 1, 1 >>, << 1, 3 >>, << 3, 3 >> >>
ShapeNo(i) == Shapes[1 + Mod(i, 7)]
L19 == LET x == ShapeNo(at.A)  y == ShapeNo(at.B)  w == ShapeNo(at.C)  full == BSh(x, y)  n == full[1] * full[2]
           count(sh) == LET p == Pad2(sh) IN p[1] * p[2] IN
       /\ BShape(x, y) = BShape(y, x) /\ BShape(x, x) = x /\ BShape(BShape(x, y), w) = BShape(x, BShape(y, w)) /\ BShape(<< >>, x) = x
       /\ \A i \in 1..n : BIx(x, full, i) \in 1..count(x) /\ BIx(y, full, i) \in 1..count(y)
       /\ {BIx(x, full, i) : i \in 1..n} = 1..count(x)                       \* every element is used
       /\ count(x) = 1 \/ n # count(x) \/ \A i \in 1..n : BIx(x, full, i) = i
       \* taking one element first or computing all and taking one is the same
       /\ \A i \in 1..n : LET mid == BSh(BShape(x, y), w) IN
             \A k \in 1..(mid[1] * mid[2]) : BIx(x, full, BIx(BShape(x, y), mid, k)) = BIx(x, mid, k)
\* ------------------------------------------------------------------------ C20
\* geographic, n-vector and Cartesian descriptions: all the ways round
Back(u) == << Atan2(u[1], Hyp(u[2], u[3])), Atan2(u[2], RNeg(u[3])) >>
L20 == LET v == Inv(pA, ea, ef)  g == Back(v[1])  close == RMul(RAdd(ea, RAbs(zA)), RTol[26]) IN
       /\ RLe(DistV(Fwd(OfLatLon(g[1], g[2]), v[2], ea, ef), pA), close)
       /\ Polar(uA) \/ (EqAng(g[1], Lat(at.A)) /\ EqAng(g[2], Lon(at.A)))
       /\ RLe(RAbs(RSub(v[2], zA)), close)
       \* the turn about the axis commutes with all of them
       /\ EqV(OfLatLon(Lat(at.A), RAdd(Lon(at.A), ax)), MV(RotX(SinCos(RNeg(ax))), OfLatLon(Lat(at.A), Lon(at.A))))
          \/ EqV(OfLatLon(Lat(at.A), RAdd(Lon(at.A), ax)), MV(RotX(SinCos(ax)), OfLatLon(Lat(at.A), Lon(at.A))))
\* -------------------------------------------------------- C22, C23, C26: equality
\* recorded doubles and frames made of whole numbers
DInt(n) == IF n < 0 THEN << 0, n, 0 >> ELSE << 0, n, 0 >>
DScaled(n, x) == << 0, n, x >>
Numbers == << DInt(0), DInt(1), DInt(-1), DInt(1000), DInt(1001), DScaled(1, -40), DScaled(3, -42), << 0, 0, NaNE >>, << 0, 0, PInfE >>, << 0, 0, NInfE >> >>
Nm(i) == Numbers[Mod(i - 1, 10) + 1]
Tols == << RZero, RTol[9], RQ(1, 100), ROne >>
Op(x) == CASE x = "yes" -> 1 [] x = "no" -> 0 [] OTHER -> 2
L26 == LET x == Nm(at.A)  y == Nm(at.B)  rt == Tols[1 + Mod(at.k, 4)]  atl == Tols[at.win] IN
       /\ CloseTruth(x, y, rt, atl, TRUE) = CloseTruth(y, x, rt, atl, TRUE)
       /\ CloseTruth(x, x, rt, atl, TRUE) = "yes"
       /\ CloseTruth(x, x, rt, atl, FALSE) = (IF IsNaN(x) THEN "no" ELSE "yes")
       /\ CloseTruth(x, y, RZero, RZero, TRUE) = "yes" => CloseTruth(x, y, rt, atl, TRUE) = "yes"
       /\ (IsFin(x) /\ ~IsFin(y)) => CloseTruth(x, y, rt, atl, TRUE) = "no"
Arr1(d) == [sh |-> << >>, v |-> << d >>]
ArrM(m) == [sh |-> << 3, 3 >>, v |-> m]
MatEa == << DInt(1), DInt(0), DInt(0), DInt(0), DInt(1), DInt(0), DInt(0), DInt(0), DInt(1) >>
Matee == << DInt(0), DInt(0), DInt(1), DInt(0), DInt(1), DInt(0), DInt(-1), DInt(0), DInt(0) >>
FrameOf(i, j, r) == [k |-> "FrameE", a |-> Arr1(DInt(<< 6378137, 6378138, 1, 6371009 >>[1 + Mod(i, 4)])),
                     f |-> Arr1(<< DInt(0), DScaled(1, -8), DScaled(1, -30), DScaled(-1, -8) >>[1 + Mod(j, 4)]),
                     R |-> ArrM(IF Mod(r, 2) = 0 THEN MatEa ELSE Matee), name |-> "x"]
L23 == LET x == FrameOf(at.A, at.B, at.C)  y == FrameOf(at.zA, at.zB, at.D) IN
       /\ FrameEq(x, y) = FrameEq(y, x) /\ FrameEq(x, x) = "yes"
       /\ FrameEq(x, y) = "yes" <=> (x = y)
       /\ (FrameEq(x, y) = "no") = (FrameGuard([k |-> "GeoPoint", frame |-> x], [k |-> "GeoPoint", frame |-> y]) = << "ValueError" >>)
PointOf(p, q, r, fr) == [k |-> "GeoPoint", s |-> TRUE, frame |-> fr, lat |-> Arr1(Nm(1 + Mod(p, 7))), lon |-> Arr1(Nm(1 + Mod(q, 7))), z |-> Arr1(Nm(1 + Mod(r, 7)))]
L22 == LET x == PointOf(at.A, at.B, at.C, FrameOf(1, at.k, 1))  y == PointOf(at.D, at.zA, at.zB, FrameOf(1, 1, 1)) IN
       /\ EqTruth(x, y) = EqTruth(y, x) /\ EqTruth(x, x) = "yes"
       /\ (EqTruth(x, y) = "yes") => FrameEq(x.frame, y.frame) = "yes"
       /\ EqTruth(x, x.frame) = "no"
       /\ AngEq(Lat(at.A), RAdd(Lat(at.A), TwoPi)) = "yes"
\* ------------------------------------------------------------------------ C24
L24 == LET n == Len(Cat)  i == 1 + Mod(at.A * 10 + at.B, n)  c == 1 + Mod(at.C * 10 + at.D, n) IN
       /\ n = 19
       /\ i = c \/ (Cat[i].key \cap Cat[c].key = {} /\ Cat[i].nm \cap Cat[c].nm = {})
       /\ RLe(R(6377000), CatA(i)) /\ RLe(CatA(i), R(6379000))
       /\ RLe(RQ(33, 10000), CatF(i)) /\ RLe(CatF(i), RQ(35, 10000))
       /\ \A x \in Cat[i].key : CatIds([key |-> x]) = {i}
       /\ CatIds([num |-> i]) = {i}
\* ------------------------------------------------------------------------ C25
L25 == LET k == RAdd(RTol[9], RMulI(RAbs(s), 1000))  v == VMul(k, pA)  u == Unit(v) IN
       RLe(RAbs(RSub(Norm(u), ROne)), RTol[24]) /\ RLe(DistV(u, Unit(pA)), RTol[24]) /\ RLe(DistV(Unit(u), u), RTol[24]) /\ BSgn(Dot(u, v)) = 1
\* ------------------------------------------------------------------------ C27
L27 == /\ ArithV("sub", ArithV("add", pA, pB, RZero), pB, RZero) = pA
       /\ ArithV("neg", ArithV("neg", pA, pA, RZero), pA, RZero) = pA
       /\ ArithV("add", pA, pB, RZero) = ArithV("add", pB, pA, RZero)
       /\ ArithV("add", pA, ArithV("neg", pB, pB, RZero), RZero) = ArithV("sub", pA, pB, RZero)
       /\ EqV(ArithV("mul", VAdd(pA, pB), pA, t), VAdd(ArithV("mul", pA, pA, t), ArithV("mul", pB, pB, t)))
       /\ BSgn(t) = 0 \/ EqV(ArithV("mul", ArithV("div", pA, pA, t), pA, t), pA)
\* ------------------------------------------------------------------------ C28
L28 == LET m == XYZ(ax, ay, az)  w == NEDP(uA)  v == ZYX(ay, ax, az) IN
       /\ EqM(MM(MM(m, w), v), MM(m, MM(w, v))) /\ EqM(Tr(MM(m, w)), MM(Tr(w), Tr(m)))
       /\ EqM(MM(m, MId), m) /\ Eq(Det(MM(m, w)), ROne)
       /\ Eq(RDiv(RMul(az, Deg2Rad), Deg2Rad), az) /\ Eq(RMul(R(180), Deg2Rad), Pi)
\* ------------------------------------------------------------------------ C29
\* everything turns with the Earth
L29 == LET tr == RotX(SinCos(ax))  T(v) == MV(tr, v)  UC == T(uC) IN
       /\ EqV(Fwd(T(uA), zA, ea, ef), T(pA))
       /\ Polar(uA) \/ (EqM(NEDP(T(uA)), MM(tr, NEDP(uA))) /\ EqV(SphereDirect(T(uA), s, az), T(SphereDirect(uA, s, az))))
       /\ EqV(T(uA), OfLatLon(Lat(at.A), RAdd(Lon(at.A), ax))) \/ EqV(T(uA), OfLatLon(Lat(at.A), RSub(Lon(at.A), ax)))
       /\ Eq(AngleBetween(T(uA), T(uB)), AngleBetween(uA, uB))
       /\ Path(uA, uB) => EqV(GCNormal(T(uA), T(uB)), T(GCNormal(uA, uB)))
       \* and the two choices of axes are rotations of each other
       /\ RotDev(Axese) = RZero /\ RotDev(AxesE) = RZero /\ EqV(MV(Tr(Axese), MV(Axese, uA)), uA)
=============================================================================
