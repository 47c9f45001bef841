------------------------------- MODULE Earth --------------------------------
(***************************************************************************)
(* The geodesy the library is about, defined from first principles.        *)
(*                                                                         *)
(* North-first axes ("E" in the library): x = Earth's spin axis, pointing  *)
(* north; -z = (lat 0, lon 0); y = (lat 0, lon 90E).  A horizontal         *)
(* position is a unit outward normal u in these axes; depth is positive    *)
(* downwards.  A matrix "ree" turns vectors given in the user's E axes     *)
(* into north-first axes.                                                  *)
(***************************************************************************)
EXTENDS Vec

\* machine epsilon of IEEE double, 2^-52, and multiples of it
U == BPow2(P - 52)
Uk(k) == BMul(U, BFromInt(k))

AxesE == MId
Axese == << << RZero, RZero, ROne >>, << RZero, ROne, RZero >>, << RNeg(ROne), RZero, RZero >> >>

\* normal vector of latitude/longitude (north-first)
OfLatLon(lat, lon) ==
    LET la == SinCos(lat)  lo == SinCos(lon)
    IN << la[1], RMul(lo[1], la[2]), RNeg(RMul(lo[2], la[2])) >>

\* the angle "theta" points along (x, y) up to tol (tol small)
AngleErr(theta, y, x) ==
    LET sc == SinCos(theta)
        h == Hyp(x, y)
        cr == RAbs(RSub(RMul(sc[1], x), RMul(sc[2], y)))
        dt == RAdd(RMul(sc[2], x), RMul(sc[1], y))
    IN IF BSgn(h) = 0 THEN RZero
       ELSE IF BSgn(dt) <= 0 THEN ROne              \* more than 90 degrees off
       ELSE RDiv(cr, h)

\* ------------------------------------------------------------------ ellipsoid
\* p = surface point with outward normal u, plus (-depth) along u
Fwd(u, depth, a, f) ==
    LET q == RSub(ROne, f)
        q2 == RSqr(q)
        b == RMul(a, q)
        yz == Hyp(u[2], u[3])
        den == Hyp(u[1], RDiv(yz, q))
        s == RDiv(b, den)
        t == RSub(RDiv(s, q2), depth)
    IN << RMul(RSub(s, depth), u[1]), RMul(t, u[2]), RMul(t, u[3]) >>

\* the inverse: << u, depth >> of a point outside the central region.
\* (sin, cos) of latitude is the fixed point of (s,c) ~ (x + e^2 N(s) s, rho).
RECURSIVE InvIter(_, _, _, _, _, _)
InvIter(x, rho, a, e2, s, k) ==
    LET n == RDiv(a, RSqrt(RSub(ROne, RMul(e2, RSqr(s)))))
        y == RAdd(x, RMul(e2, RMul(n, s)))
        h == Hyp(y, rho)
        s1 == RDiv(y, h)
    IN IF k = 0 \/ BLe(BAbs(BSub(s1, s)), BPow2(20)) THEN << s1, RDiv(rho, h), n >>
       ELSE InvIter(x, rho, a, e2, s1, k - 1)
Inv(p, a, f) ==
    LET e2 == RMul(RSub(R(2), f), f)
        rho == Hyp(p[2], p[3])
        r == Hyp(p[1], rho)
        it == InvIter(p[1], rho, a, e2, RDiv(p[1], r), 60)
        s == it[1]  c == it[2]  n == it[3]
        u == IF BSgn(rho) = 0 THEN << s, RZero, RZero >>
             ELSE << s, RMul(c, RDiv(p[2], rho)), RMul(c, RDiv(p[3], rho)) >>
        \* height: projection of p - surface point on u
        h == RAdd(RMul(rho, c), RMul(p[1], s))
        h0 == RMul(a, RSqrt(RSub(ROne, RMul(e2, RSqr(s)))))     \* a * sqrt(1 - e^2 s^2)
    IN << u, RSub(h0, h) >>

\* ---------------------------------------------------------------- local frames
\* columns of R: north, east, down at normal u (not a pole), in north-first axes
NEast(u) == Unit(Cross(Ex, u))
NED(u) ==
    LET d == VNeg(u)  e == NEast(u)  n == Cross(e, d)
    IN Tr(<< n, e, d >>)
\* by library convention the east axis at a pole is y
NEDP(u) == IF BSgn(u[2]) = 0 /\ BSgn(u[3]) = 0
           THEN LET d == VNeg(u) IN Tr(<< Cross(Ey, d), Ey, d >>) ELSE NED(u)
XYZ(x, y, z) == MM(RotX(SinCos(x)), MM(RotY(SinCos(y)), RotZ(SinCos(z))))
ZYX(z, y, x) == MM(RotZ(SinCos(z)), MM(RotY(SinCos(y)), RotX(SinCos(x))))

\* ------------------------------------------------------------------- sphere
\* << sin, cos >> of the angle between directions a and b, up to the common factor |a||b|
AngSC(a, b) == << Norm(Cross(a, b)), Dot(a, b) >>
AngleBetween(a, b) == LET sc == AngSC(a, b) IN Atan2(sc[1], sc[2])
GCNormal(a, b) == Unit(Cross(a, b))
\* point at arc "d" from a in the direction "az" clockwise from north
SphereDirect(a, d, az) ==
    LET m == NEDP(a)  s == SinCos(az)  t == SinCos(d)
        dir == VAdd(VMul(s[2], ColOf(m, 1)), VMul(s[1], ColOf(m, 2)))
    IN VAdd(VMul(t[2], a), VMul(t[1], dir))

\* ------------------------------------------------- geodesics on the ellipsoid
(* Clairaut / Bessel reduction to the auxiliary sphere (Karney 2013, eqs 5-8).
   The two integrals
       I1(s) = int_0^s sqrt(1 + k2 sin^2) dt
       I3(s) = int_0^s (2-f) / (1 + (1-f) sqrt(1 + k2 sin^2)) dt
   are summed as power series in k2; NT terms leave less than 10^-20 for
   |f| <= 1/50.                                                              *)
NT == 14
\* binomial coefficients of sqrt(1+x)
RECURSIVE BinHalf(_)
BinHalf(j) == IF j = 0 THEN ROne
              ELSE RDivI(RMul(BinHalf(j - 1), RSub(RQ(3, 2), R(j))), j)
BinH == TLCEval([j \in 0..NT |-> BinHalf(j)])
\* J_j(s) = int_0^s sin^(2j):   2j J_j = (2j-1) J_{j-1} - cos s sin^(2j-1) s
RECURSIVE JSeq(_, _, _, _, _)
JSeq(j, sn, cs, powr, acc) ==
    IF j > NT THEN acc
    ELSE LET pw == IF j = 1 THEN sn ELSE RMul(powr, RSqr(sn))
             v == RDivI(RSub(RMulI(acc[Len(acc)], 2 * j - 1), RMul(cs, pw)), 2 * j)
         IN JSeq(j + 1, sn, cs, pw, Append(acc, v))
Js(sig) == LET sc == SinCos(sig) IN JSeq(1, sc[1], sc[2], RZero, << sig >>)
\* coefficients of the two integrands as series in x = k2 sin^2, times k2^j
RECURSIVE GCoef(_, _, _)
GCoef(d, n, g) ==
    IF n > NT THEN g
    ELSE LET RECURSIVE Sum(_)
             Sum(j) == IF j > n THEN RZero ELSE RAdd(RMul(d[j + 1], g[n - j + 1]), Sum(j + 1))
         IN GCoef(d, n + 1, Append(g, RNeg(RDiv(Sum(1), d[1]))))
RECURSIVE PowSeq(_, _, _)
PowSeq(k2, j, acc) == IF j > NT THEN acc ELSE PowSeq(k2, j + 1, Append(acc, RMul(acc[Len(acc)], k2)))
Coef1(k2) == LET pw == PowSeq(k2, 1, << ROne >>) IN TLCEval([j \in 1..NT + 1 |-> RMul(BinH[j - 1], pw[j])])
Coef3(k2, f) ==
    LET pw == PowSeq(k2, 1, << ROne >>)
        omf == RSub(ROne, f)
        d == TLCEval([j \in 1..NT + 1 |-> IF j = 1 THEN RSub(R(2), f) ELSE RMul(omf, BinH[j - 1])])
        g == GCoef(d, 1, << ROne >>)
    IN TLCEval([j \in 1..NT + 1 |-> RMul(g[j], pw[j])])
RECURSIVE Lin(_, _, _)
Lin(c, js, j) == IF j > NT + 1 THEN RZero ELSE RAdd(RMul(c[j], js[j]), Lin(c, js, j + 1))

\* solve I1(sig) = y by Newton from sig; I1' = sqrt(1 + k2 sin^2)
RECURSIVE Solve1(_, _, _, _, _)
Solve1(c1, k2, y, sig, k) ==
    LET r == RSub(Lin(c1, Js(sig), 1), y)
        sc == SinCos(sig)
        st == RDiv(r, RSqrt(RAdd(ROne, RMul(k2, RSqr(sc[1])))))
    IN IF k = 0 \/ BLe(BAbs(st), BPow2(30)) THEN RSub(sig, st)
       ELSE Solve1(c1, k2, y, RSub(sig, st), k - 1)

\* continuous branch of the longitude on the auxiliary sphere: omega(sig), |omega(sig) - sig| <= pi/2
Omega(sa0, sig) ==
    LET sc == SinCos(sig)
        w == Atan2(RMul(sa0, sc[1]), sc[2])              \* principal value, sa0 >= 0
        turns == BDiv(BAdd(BSub(sig, w), Pi), TwoPi)
    IN RAdd(w, BMul(turns, TwoPi))

(* Direct problem.  Start: reduced position from latitude lat1, azimuth az1, at
   distance s along the geodesic.  Result: record with latitude normal data, longitude difference,
   final azimuth and auxiliary arc sig12.  East-going is az in [0, pi]; west is mirrored. *)
Geodesic(lat1, az1, s, a, f) ==
    LET la == SinCos(lat1)
        az == SinCos(az1)
        west == BSgn(az[1]) < 0
        saz == RAbs(az[1])   caz == az[2]
        omf == RSub(ROne, f)
        b == RMul(a, omf)
        h1 == Hyp(RMul(omf, la[1]), la[2])
        sb1 == RDiv(RMul(omf, la[1]), h1)     \* sin beta1
        \* cos beta1; at a pole the azimuth refers to the given longitude, so it is not made zero
        cb1 == RMax(RDiv(la[2], h1), BPow2(P - 84))
        sa0 == RMul(saz, cb1)
        ca0 == Hyp(caz, RMul(saz, sb1))
        ep2 == RDiv(RMul(f, RSub(R(2), f)), RSqr(omf))
        k2 == RMul(ep2, RSqr(ca0))
        sig1 == IF BSgn(sb1) = 0 /\ BSgn(RMul(caz, cb1)) = 0 THEN RZero ELSE Atan2(sb1, RMul(caz, cb1))
        c1 == Coef1(k2)
        c3 == Coef3(k2, f)
        j1 == Js(sig1)
        i11 == Lin(c1, j1, 1)
        y == RAdd(i11, RDiv(s, b))
        sig2 == Solve1(c1, k2, y, RAdd(sig1, RDiv(s, b)), 12)
        j2 == Js(sig2)
        sc2 == SinCos(sig2)
        sb2 == RMul(ca0, sc2[1])
        cb2 == Hyp(RMul(ca0, sc2[2]), sa0)
        \* azimuth at 2 (eastward), and geographic latitude
        az2 == << sa0, RMul(ca0, sc2[2]) >>
        h2 == Hyp(RDiv(sb2, omf), cb2)
        slat2 == RDiv(RDiv(sb2, omf), h2)
        clat2 == RDiv(cb2, h2)
        lam == RSub(RSub(Omega(sa0, sig2), Omega(sa0, sig1)),
                    RMul(RMul(f, sa0), RSub(Lin(c3, j2, 1), Lin(c3, j1, 1))))
    IN [ slat |-> slat2, clat |-> clat2,
         lam  |-> IF west THEN RNeg(lam) ELSE lam,
         saz  |-> IF west THEN RNeg(az2[1]) ELSE az2[1], caz |-> az2[2],
         sig12 |-> RSub(sig2, sig1) ]

\* unit vectors (north-first axes) at latitude (s,c), longitude (s,c)
UpAt(sl, cl, so, co) == << sl, RMul(so, cl), RNeg(RMul(co, cl)) >>
NorthAt(sl, cl, so, co) == << cl, RNeg(RMul(so, sl)), RMul(co, sl) >>
EastAt(so, co) == << RZero, co, so >>
=============================================================================
