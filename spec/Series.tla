------------------------------- MODULE Series -------------------------------
(***************************************************************************)
(* Interpolation of time series, with optional Savitzky-Golay smoothing,   *)
(* and the catalogue of ellipsoids.                                        *)
(***************************************************************************)
EXTENDS Core

\* ----------------------------------------------------- least-squares weights
\* solve m g = v for a symmetric positive definite matrix (Gauss-Jordan)
RECURSIVE GJ(_, _, _)
GJ(aug, c, m) ==
    IF c > m THEN TLCEval([r \in 1..m |-> RDiv(aug[r][m + 1], aug[r][r])])
    ELSE LET row == aug[c]
             step(r) == IF r = c THEN row
                        ELSE LET f == TLCEval(RDiv(aug[r][c], row[c]))
                             IN TLCEval([j \in 1..m + 1 |-> RSub(aug[r][j], RMul(f, row[j]))])
         IN GJ(TLCEval([r \in 1..m |-> step(r)]), c + 1, m)
RECURSIVE IPow(_, _)
IPow(x, n) == IF n = 0 THEN 1 ELSE x * IPow(x, n - 1)
SumInt(lo, hi, F(_)) ==
    LET RECURSIVE S(_)
        S(i) == IF i > hi THEN 0 ELSE F(i) + S(i + 1)
    IN S(lo)
\* weights of the samples at -h..h in the value at x0 of the polynomial of order k
\* fitted to them by least squares
Weights(h, k, x0) ==
    LET m == k + 1
        aug == TLCEval([r \in 1..m |-> [j \in 1..m + 1 |->
                  IF j <= m THEN R(SumInt(-h, h, LAMBDA x : IPow(x, r + j - 2))) ELSE R(IPow(x0, r - 1))]])
        g == GJ(aug, 1, m)
        RECURSIVE W(_, _)
        W(x, p) == IF p > m THEN RZero ELSE RAdd(RMulI(g[p], IPow(x, p - 1)), W(x, p + 1))
    IN TLCEval([i \in 1..2 * h + 1 |-> W(i - h - 1, 1)])

\* index of a sample beyond the ends; 0 means the constant
Wrap(i, n) == ((i - 1) % n) + 1
Ext(i, n, mode) ==
    IF i >= 1 /\ i <= n THEN i
    ELSE CASE mode = "nearest" -> IF i < 1 THEN 1 ELSE n
           [] mode = "wrap" -> Wrap(i, n)
           [] mode = "mirror" -> LET p == 2 * n - 2  q == (i - 1) % p IN IF q < n THEN q + 1 ELSE p - q + 1
           [] OTHER -> 0

Odd(w) == w + ((w + 1) % 2)
\* smoothed sample j (of n) of the row given by val(i); opt = window, polyorder, mode, cval
Smooth(j, n, val(_), opt) ==
    IF opt.window <= 0 THEN val(j)
    ELSE LET w == Odd(opt.window)  h == (w - 1) \div 2 IN
         IF opt.mode = "interp"
         THEN LET s == IF j - h < 1 THEN 1 ELSE IF j + h > n THEN n - w + 1 ELSE j - h
                  we == Weights(h, opt.order, j - (s + h))
                  RECURSIVE S(_)
                  S(i) == IF i = 0 THEN RZero ELSE RAdd(RMul(we[i], val(s + i - 1)), S(i - 1))
              IN S(w)
         ELSE LET we == Weights(h, opt.order, 0)
                  ev(i) == LET x == Ext(i, n, opt.mode) IN IF x = 0 THEN opt.cval ELSE val(x)
                  RECURSIVE S(_)
                  S(i) == IF i = 0 THEN RZero ELSE RAdd(RMul(we[i], ev(j - h + i - 1)), S(i - 1))
              IN S(w)
SmOpt(a) == [ window |-> IF Has(a, "window") THEN a.window ELSE 0,
              order |-> IF Has(a, "order") THEN a.order ELSE 2,
              mode |-> IF Has(a, "mode") THEN a.mode ELSE "interp",
              cval |-> IF Has(a, "cval") THEN Num(a.cval) ELSE RZero ]
Kind(a) == IF Has(a, "kind") THEN a.kind ELSE "linear"

\* where a query time falls: << "out" >>, << "at", j >> or << "in", i, j, weight >>,
\* i and j the samples next in time below and above (samples may come in any order)
Locate(t, ts) ==
    LET n == Size(ts)
        le == {j \in 1..n : RLe(VAt(ts, j), t)}  ge == {j \in 1..n : RLe(t, VAt(ts, j))} IN
    IF le = {} \/ ge = {} THEN << "out" >>
    ELSE LET i == CHOOSE i \in le : \A k \in le : RLe(VAt(ts, k), VAt(ts, i))
             j == CHOOSE j \in ge : \A k \in ge : RLe(VAt(ts, j), VAt(ts, k)) IN
         IF t = VAt(ts, j) THEN << "at", j >>
         ELSE << "in", i, j, RDiv(RSub(t, VAt(ts, i)), RSub(VAt(ts, j), VAt(ts, i))) >>
\* the samples in the order of their times
ByTime(ts) == TLCEval(SortSeq([j \in 1..Size(ts) |-> j], LAMBDA i, j : RLt(VAt(ts, i), VAt(ts, j))))

\* value of a row at the located time, as << exact?, value >>
RowAt(loc, kind, val(_)) ==
    IF loc[1] = "at" THEN << TRUE, val(loc[2]) >>
    ELSE LET x == val(loc[2])  y == val(loc[3])  w == loc[4] IN
         CASE kind \in {"linear", "slinear"} -> << TRUE, RAdd(x, RMul(w, RSub(y, x))) >>
           [] kind \in {"zero", "previous"} -> << TRUE, x >>
           [] kind = "next" -> << TRUE, y >>
           [] kind = "nearest" -> << RLt(RTol[9], RAbs(RSub(w, RHalf))), IF RLt(w, RHalf) THEN x ELSE y >>
           [] OTHER -> << FALSE, RZero >>

(* Splines of second and third order through the samples, with the free conditions
   used up at the ends ("not a knot"): polynomials of the order between knots at the
   samples (odd order) or half way between them (even order), the outermost left out.
   Basis: powers and truncated powers of the time, scaled to 0..1.                  *)
SplineX(ts, t) == RDiv(RSub(t, ts[1]), RSub(ts[Len(ts)], ts[1]))
SplineKnots(x, n, k) ==
    [j \in 1..n - k - 1 |-> IF k % 2 = 1 THEN x[j + (k + 1) \div 2]
                            ELSE RScale(RAdd(x[j + k \div 2], x[j + k \div 2 + 1]), -1)]
SplineBasis(y, kn, k) ==
    TLCEval([c \in 1..k + 1 + Len(kn) |->
        IF c <= k + 1 THEN RPow(y, c - 1)
        ELSE IF RLe(y, kn[c - k - 1]) THEN RZero ELSE RPow(RSub(y, kn[c - k - 1]), k)])
\* Gauss-Jordan with several right-hand sides (no pivoting is needed: the leading
\* minors are those of splines through the first samples)
RECURSIVE GJM(_, _, _)
GJM(aug, c, m) ==
    IF c > m THEN TLCEval([r \in 1..m |-> [j \in 1..Len(aug[1]) - m |-> RDiv(aug[r][m + j], aug[r][r])]])
    ELSE LET row == aug[c]
             step(r) == IF r = c THEN row
                        ELSE LET f == TLCEval(RDiv(aug[r][c], row[c]))  own == aug[r]
                             IN TLCEval([j \in 1..Len(row) |-> IF j < c THEN own[j] ELSE RSub(own[j], RMul(f, row[j]))])
         IN GJM(TLCEval([r \in 1..m |-> step(r)]), c + 1, m)
\* coefficients (a row for each basis function, a column for each of the rows of samples)
SplineCoef(times, vals, k) ==       \* vals[j]: the values at sample j
    LET n == Size(times)
        o == ByTime(times)
        ts == TLCEval([j \in 1..n |-> VAt(times, o[j])])
        x == TLCEval([j \in 1..n |-> SplineX(ts, ts[j])])
        kn == TLCEval(SplineKnots(x, n, k))
        aug == TLCEval([j \in 1..n |-> TLCEval(SplineBasis(x[j], kn, k) \o vals[o[j]])]) IN
    [ kn |-> kn, c |-> GJM(aug, 1, n), ts |-> ts, k |-> k ]
SplineAt(sp, t) ==
    LET b == SplineBasis(SplineX(sp.ts, t), sp.kn, sp.k)
        RECURSIVE S(_, _)
        S(i, j) == IF i = 0 THEN RZero ELSE RAdd(RMul(b[i], sp.c[i][j]), S(i - 1, j)) IN
    TLCEval([j \in 1..Len(sp.c[1]) |-> S(Len(b), j)])
SplineOrder(kind) == CASE kind = "quadratic" -> 2 [] kind = "cubic" -> 3
                       [] kind = "order4" -> 4 [] kind = "order5" -> 5 [] OTHER -> 0
\* rounding of the interpolation, in units of the largest sample
SeriesK(k, opt) == IF k > 3 THEN 268435456 ELSE IF k > 0 THEN 16777216 ELSE IF opt.window > 0 THEN 4096 ELSE 256

SmNormal(x, j, opt) ==
    LET n == Cols(x) IN
    << Smooth(j, n, LAMBDA i : Val(x.v[i]), opt),
       Smooth(j, n, LAMBDA i : Val(x.v[n + i]), opt),
       Smooth(j, n, LAMBDA i : Val(x.v[2 * n + i]), opt) >>
\* all samples of the normal vector, smoothed
SmAll(x, opt) == TLCEval([j \in 1..Cols(x) |-> TLCEval(SmNormal(x, j, opt))])
QSeries(c, loc, kind, x, opt, sp, t) ==
    LET k == SplineOrder(kind)
        spline == k > 0 /\ loc[1] = "in"
        v1 == SmNormal(x, loc[2], opt)
        v2 == IF loc[1] = "in" THEN SmNormal(x, loc[3], opt) ELSE v1
        row(j) == RowAt(loc, kind, LAMBDA i : IF i = loc[2] THEN v1[j] ELSE v2[j])
        v == IF spline THEN SplineAt(sp, t) ELSE << row(1)[2], row(2)[2], row(3)[2] >>
        s == Norm(v) IN
    IF ~spline /\ ~row(1)[1] THEN 0
    ELSE IF RLt(s, RTol[6]) THEN 0
    ELSE QDist(c, Unit(v), RDiv(ROne, s), SeriesK(k, opt))
\* is the smoothing / interpolation argument within the domain?
P_interp_nvectors(e) ==
    LET m == Size(e.a.ti)  opt == SmOpt(e.a)  kind == Kind(e.a)  k == SplineOrder(kind)
        loc(i) == Locate(VAt(e.a.ti, i), e.a.t)
        sp == TLCEval(IF k > 0 THEN SplineCoef(e.a.t, SmAll(e.a.n, opt), k) ELSE << >>) IN
    Shaped(e.r, << 3, m >>,
      << C("outside-nan", QAll(m, LAMBDA i : IF loc(i)[1] = "out" THEN QB(NaNCol(e.r, i)) ELSE QB(FinCol(e.r, i)))),
         C("unit", QAll(m, LAMBDA i : IF ~FinCol(e.r, i) THEN 0 ELSE QUnit(ColV(e.r, i), 8))),
         C("series", QAll(m, LAMBDA i : IF loc(i)[1] = "out" \/ ~FinCol(e.r, i) THEN 0
                                        ELSE QSeries(ColV(e.r, i), loc(i), kind, e.a.n, opt, sp, VAt(e.a.ti, i)))) >>)

\* --------------------------------------------------------- the ellipsoids
\* id -> semi-major axis in mm, 1/f times 10^10 as << integer part, fraction >>,
\* the accepted names, the keys (lower case, no blanks) that select it
Cat ==
  << [a |-> << 6377563, 396 >>, rf |-> << 299, 324964600, 0 >>, nm |-> {"Airy 1858"}, key |-> {"airy1858"}],
     [a |-> << 6377340, 189 >>, rf |-> << 299, 324964600, 0 >>, nm |-> {"Airy Modified"}, key |-> {"airymodified"}],
     [a |-> << 6378160, 0 >>, rf |-> << 298, 250000000, 0 >>, nm |-> {"Australian National"}, key |-> {"australiannational"}],
     [a |-> << 6377397, 155 >>, rf |-> << 299, 152812800, 0 >>, nm |-> {"Bessel 1841"}, key |-> {"bessel1841", "bessel"}],
     [a |-> << 6378249, 145 >>, rf |-> << 293, 465000000, 0 >>, nm |-> {"Clarke 1880"}, key |-> {"clarke1880"}],
     [a |-> << 6377276, 345 >>, rf |-> << 300, 801700000, 0 >>, nm |-> {"Everest 1830"}, key |-> {"everest1830"}],
     [a |-> << 6377304, 63 >>, rf |-> << 300, 801700000, 0 >>, nm |-> {"Everest Modified"}, key |-> {"everestmodified"}],
     [a |-> << 6378166, 0 >>, rf |-> << 298, 300000000, 0 >>, nm |-> {"Fisher 1960"}, key |-> {"fisher1960"}],
     [a |-> << 6378150, 0 >>, rf |-> << 298, 300000000, 0 >>, nm |-> {"Fisher 1968"}, key |-> {"fisher1968"}],
     [a |-> << 6378270, 0 >>, rf |-> << 297, 0, 0 >>, nm |-> {"Hough 1956"}, key |-> {"hough1956", "hough"}],
     [a |-> << 6378388, 0 >>, rf |-> << 297, 0, 0 >>, nm |-> {"International (Hayford)/European Datum (ED50)"},
        key |-> {"international", "hayford", "ed50", "international(hayford)/europeandatum(ed50)"}],
     [a |-> << 6378245, 0 >>, rf |-> << 298, 300000000, 0 >>, nm |-> {"Krassovsky 1938"}, key |-> {"krassovsky1938", "krassovsky"}],
     [a |-> << 6378145, 0 >>, rf |-> << 298, 250000000, 0 >>, nm |-> {"NWL-9D  (WGS 66)", "NWL-9D (WGS 66)"},
        key |-> {"nwl-9d", "wgs66", "nwl-9d(wgs66)"}],
     [a |-> << 6378160, 0 >>, rf |-> << 298, 250000000, 0 >>,
        nm |-> {"South American 1969 (SAD69", "South American 1969 (SAD69)", "South American 1969"},
        key |-> {"southamerican1969", "sad69"}],
     [a |-> << 6378136, 0 >>, rf |-> << 298, 257000000, 0 >>, nm |-> {"Soviet Geod. System 1985"}, key |-> {"sovietgeod.system1985"}],
     [a |-> << 6378135, 0 >>, rf |-> << 298, 260000000, 0 >>, nm |-> {"WGS 72"}, key |-> {"wgs72"}],
     [a |-> << 6378206, 400 >>, rf |-> << 294, 978698213, 8 >>, nm |-> {"Clarke 1866    (NAD27)"},
        key |-> {"clarke1866", "nad27", "clarke1866(nad27)"}],
     [a |-> << 6378137, 0 >>, rf |-> << 298, 257223563, 0 >>, nm |-> {"GRS80 / WGS84  (NAD83)"},
        key |-> {"grs80", "wgs84", "nad83", "grs80/wgs84(nad83)"}],
     [a |-> << 6378137, 0 >>, rf |-> << 298, 257222101, 0 >>, nm |-> {"ETRS89"}, key |-> {"etrs89"}] >>
CatA(i) == RAdd(R(Cat[i].a[1]), RQ(Cat[i].a[2], 1000))
CatF(i) == LET q == Cat[i].rf IN
           RDiv(ROne, RAdd(R(q[1]), RAdd(RQ(q[2], 1000000000), RDivI(RQ(q[3], 1000000000), 10))))
\* e.a.key is the name in lower case without blanks, or e.a.num the number
CatIds(a) == IF Has(a, "num") THEN (IF a.num \in 1..19 THEN {a.num} ELSE {})
             ELSE {i \in 1..19 : a.key \in Cat[i].key}
P_get_ellipsoid(e) ==
    LET ids == CatIds(e.a) IN
    IF ids = {} THEN << C("unknown-refused", CAP) >>        \* should have raised
    ELSE LET i == CHOOSE i \in ids : TRUE IN
         << C("semi-axis", QRel(Num(e.r.a), CatA(i), 2)), C("flattening", QRel(Num(e.r.f), CatF(i), 4)),
            C("name", QB(e.r.name \in Cat[i].nm)) >>
P_E_rotation(e) ==
    << C("axes-matrix", QB(IsArr(e.r) /\ e.r.sh = << 3, 3 >> /\
          Mat(e.r, 1) = (IF Has(e.a, "axes") /\ e.a.axes = "E" THEN AxesE ELSE Axese))) >>
=============================================================================
