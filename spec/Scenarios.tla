------------------------------ MODULE Scenarios ------------------------------
(***************************************************************************)
(* The scenarios in which each operation is exercised.                     *)
(*                                                                         *)
(* Every operation has dimensions, each with the classes of input that can *)
(* make a difference to it; a scenario chooses a class in every dimension. *)
(* For every operation TLC enumerates all pairs of classes of two          *)
(* dimensions and completes each (deterministically, from SALT) to a       *)
(* scenario that Valid admits: Cover(op).  The harness replays these       *)
(* against the library.  Pairs that no valid scenario has are not covered. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

POS == << "gen", "np", "sp", "nearp", "eq", "dl", "lon90", "origin", "mix" >>
REL == << "deg", "same", "ulp", "close", "m", "km", "quarter", "far", "nearanti", "anti", "meridian", "mix" >>
NN == << "1", "2", "3", "5", "12" >>
BC == << "nn", "1n", "n1" >>
ELL == << "dflt", "wgs84", "sphere", "prolate", "oblate", "unit", "moon", "slight" >>
AX == << "dflt", "e", "E" >>
AX2 == << "e", "E" >>
KIND == << "G", "N", "E" >>
TRD == << "on", "mid", "A", "B", "before", "beyond", "opposite", "antiA", "antimid", "beside", "tol", "pole", "nearpole", "any", "mix" >>
XTRD == << "gen", "same", "swapped", "zero", "antipair", "at90", "near90", "atA", "perp", "shallow", "mix" >>
DEG == << "dflt", "yes", "no" >>
YN == << "no", "yes" >>
METH == << "dflt", "greatcircle", "euclidean", "eucl" >>
XMETH == METH \o << "Euclidean", "e", "EUCLIDEAN", "Greatcircle" >>
EMETH == << "dflt", "ellipsoid", "exact", "ellipsoidal" >>
LEN == << "unit", "scaled" >>
TT == << "in", "0", "1", "half", "neg", "more", "int" >>
FRM == << "arr", "fortran", "strided" >>
FR2 == << "same", "equal", "a", "f", "axes", "name", "neara", "nearf" >>
ARC == << "gen", "zero", "tiny", "quarter", "half", "neg", "turns" >>
DIST == << "far", "zero", "mm", "km", "neg", "turns", "int" >>
NAME == << "plain", "alias" >>
AZ2 == << "gen", "n", "s", "ew", "nearns" >>
DEP == << "small", "zero", "big", "cm", "one" >>
SERIES == [ len_t |-> << "mid", "short", "long" >>, win |-> << "none", "odd", "even" >>,
            mode |-> << "dflt", "interp", "mirror", "nearest", "wrap", "constant" >>,
            kind |-> << "dflt", "linear", "slinear", "nearest", "zero", "previous", "next", "quadratic", "cubic",
                       "i0", "i1", "i2", "i3", "i4", "i5" >>,
            times |-> << "random", "uniform", "int", "unsorted", "down" >>, qry |-> << "mixed", "samples", "ends", "inside", "out" >>,
            track |-> << "smooth", "still", "random" >>, pos |-> << "gen", "np", "dl", "eq" >>, ax |-> AX2 ]

PairN == [ n |-> NN, bc |-> BC ]
Path == [ pos |-> POS, rel |-> REL, n |-> NN, bc |-> BC ]
OPath == Path @@ [ ka |-> KIND, kb |-> KIND, dep |-> DEP, ell |-> ELL, ax |-> AX ]
OPair == OPath

Dims == [
  lat_lon2n_E |-> PairN @@ [ pos |-> POS, ax |-> AX, form |-> << "arr", "list", "int", "wide" >> ],
  n_E2lat_lon |-> [ pos |-> POS, ax |-> AX, n |-> NN, len |-> << "unit", "scaled", "off" >>, form |-> << "arr", "int", "fortran", "strided" >> ],
  n_EB_E2p_EB_E |-> PairN @@ [ pos |-> POS, ax |-> AX, len |-> << "unit", "scaled", "off" >>, ell |-> ELL,
                               dep |-> << "none", "zero", "small", "big", "cm", "one", "int" >>, form |-> FRM ],
  p_EB_E2n_EB_E |-> [ pos |-> POS, ax |-> AX, n |-> NN, ell |-> ELL, dep |-> << "none", "small", "big", "cm" >>, form |-> FRM ],
  delta |-> Path @@ [ ax |-> AX, ell |-> ELL, dep |-> << "none", "zero", "small", "big", "one" >> ],
  add_delta |-> Path @@ [ ax |-> AX, ell |-> ELL, dep |-> << "none", "zero", "small", "one" >>, dz |-> << "other", "same" >> ],
  n_E2R_EN |-> [ pos |-> POS, ax |-> AX, n |-> NN, len |-> << "unit", "scaled", "off" >>, form |-> FRM ],
  n_E_and_wa2R_EL |-> PairN @@ [ wa |-> << "some", "turns", "int", "tiny" >>, pos |-> POS, ax |-> AX, len |-> << "unit", "scaled" >> ],
  R_EN2n_E |-> [ rot |-> << "gen", "id", "lock", "axis" >>, n |-> NN, form |-> << "arr", "list", "stack1" >> ],
  R_EL2n_E |-> [ rot |-> << "gen", "id", "lock", "axis" >>, n |-> NN, form |-> << "arr", "list", "stack1" >> ],
  R2xyz |-> [ rot |-> << "gen", "id", "lock", "nearlock", "axis" >>, n |-> NN, form |-> << "arr", "stack1" >> ],
  R2zyx |-> [ rot |-> << "gen", "id", "lock", "nearlock", "axis" >>, n |-> NN, form |-> << "arr", "stack1" >> ],
  xyz2R |-> PairN @@ [ rot |-> << "gen", "small" >>, form |-> << "arr", "list", "int" >> ],
  zyx2R |-> PairN @@ [ rot |-> << "gen", "small" >>, form |-> << "arr", "list", "int" >> ],
  great_circle_distance |-> Path @@ [ ax |-> AX2, rad |-> << "dflt", "one", "int", "any" >>, form |-> FRM ],
  euclidean_distance |-> Path @@ [ ax |-> AX2, rad |-> << "dflt", "one", "int", "any" >>, form |-> FRM ],
  great_circle_normal |-> Path @@ [ ax |-> AX2 ],
  azimuth |-> Path @@ [ ax |-> AX, ell |-> ELL ],
  direct |-> PairN @@ [ pos |-> POS, arc |-> ARC, az |-> << "gen", "n", "s", "ew", "wide" >>, ax |-> AX ],
  cross_track_distance |-> Path @@ [ trd |-> TRD, ax |-> AX2, rad |-> << "dflt", "one", "any" >>, meth |-> XMETH ],
  closest_circle |-> Path @@ [ trd |-> TRD, ax |-> AX2 ],
  on_great_circle |-> Path @@ [ trd |-> TRD, ax |-> AX2, rad |-> << "dflt", "one", "any" >>, tol |-> << "dflt", "zero", "mm", "m", "km" >> ],
  on_great_circle_path |-> Path @@ [ trd |-> TRD, ax |-> AX2, rad |-> << "dflt", "one", "any" >>, tol |-> << "dflt", "zero", "mm", "m", "km" >> ],
  intersect |-> Path @@ [ trd |-> XTRD, ax |-> AX2, mix |-> YN ],
  interpolate |-> Path @@ [ t |-> TT, ax |-> AX2 ],
  mean |-> [ pos |-> POS, rel |-> REL \o << "spread" >>, m |-> << "3", "1", "2", "7", "40" >>, ax |-> AX2, form |-> FRM,
             len |-> << "unit", "scaled", "off" >> ],
  interp_nvectors |-> SERIES,
  unit |-> [ size |-> << "one", "tiny", "small", "big", "huge", "int", "axis", "skew", "zero" >>, n |-> NN, mix |-> YN,
             nz |-> << "dflt", "nan", "one" >>, form |-> FRM ],
  isclose |-> [ shape |-> << "s", "v", "sv", "vs", "m", "mv", "mc", "cr" >>, rtol |-> << "dflt", "zero", "any", "big" >>,
                atol |-> << "dflt", "zero", "any" >>, val |-> << "near", "special", "ints", "edge", "one-off", "gen" >>, nan |-> << "dflt", "yes", "no" >> ],
  allclose |-> [ shape |-> << "s", "v", "sv", "vs", "m", "mv", "mc", "cr" >>, rtol |-> << "dflt", "zero", "any", "big" >>,
                atol |-> << "dflt", "zero", "any" >>, val |-> << "near", "special", "ints", "edge", "one-off", "gen" >>, nan |-> << "dflt", "yes", "no" >> ],
  mdot |-> PairN @@ [ dims |-> << "333", "331", "133", "131", "234" >>, stk |-> << "yes", "no" >>, form |-> << "arr", "list", "int" >> ],
  nthroot |-> [ size |-> << "gen", "zero", "tiny", "big", "int", "wee", "vast", "one" >>, deg |-> << "1", "2", "3", "4", "5", "6", "7", "11" >>, n |-> NN ],
  deg |-> [ args |-> << "1", "2", "3", "4", "5", "8" >>, size |-> << "gen", "tiny", "int", "zero", "big" >>, n |-> NN ],
  rad |-> [ args |-> << "1", "2", "3", "4", "5", "8" >>, size |-> << "gen", "tiny", "int", "zero", "big" >>, n |-> NN ],
  get_ellipsoid |-> [ which |-> << "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19" >>,
                      how |-> << "plain", "lower", "upper", "nospace", "mixed", "number", "unknown" >>,
                      nm |-> NAME ],
  E_rotation |-> [ axes |-> << "dflt", "e", "E", "x", "n", "EE" >> ] ]

ODims == [
  convert |-> [ len |-> LEN, k |-> << "G", "N", "E", "P" >>, to |-> KIND, pos |-> POS, dep |-> DEP, n |-> NN, ax |-> AX, ell |-> ELL,
                form |-> << "arr", "vec1" >> ],
  R_EN |-> PairN @@ [ len |-> LEN, lk |-> << "N", "L", "B" >>, k |-> KIND, pos |-> POS, dep |-> << "small", "zero", "one" >>, ax |-> AX,
             ell |-> << "dflt", "sphere", "oblate" >>, deg |-> YN ],
  change_frame |-> PairN @@ [ len |-> LEN, form |-> << "arr", "vec1" >>, lk |-> << "N", "L", "B" >>, k |-> KIND, pos |-> POS, vec |-> << "local", "zero", "pos", "up", "tiny" >>,
                     dep |-> << "small", "zero", "one" >>, ax |-> AX, ell |-> ELL, fr2 |-> FR2, deg |-> YN ],
  to_ecef_local |-> PairN @@ [ lk |-> << "N", "L", "B" >>, pos |-> POS, vec |-> << "local", "zero", "pos", "up", "tiny" >>,
                     dep |-> << "small", "zero" >>, ax |-> AX, ell |-> << "dflt", "sphere", "oblate" >>, via |-> << "Pvector", "frame" >>, deg |-> YN ],
  polar |-> [ form |-> << "arr", "vec1" >>, k |-> << "E", "P" >>, dir |-> << "gen", "zero", "x", "negx", "y", "z", "nearz" >>, n |-> NN, lk |-> << "N", "L", "B" >> ],
  delta_E |-> OPair @@ [ len |-> LEN, form |-> << "arr", "vec1" >>, nm |-> NAME, fr2 |-> FR2, order |-> << "plain", "swap" >> ],
  delta_local |-> OPair @@ [ len |-> LEN, form |-> << "arr", "vec1" >>, fr2 |-> FR2, order |-> << "plain", "swap" >>, lk |-> << "N", "L", "to" >>, wa |-> << "some", "none", "turns", "int", "tiny" >> ],
  FrameE |-> [ how |-> << "dflt", "af", "name", "afname", "unknown" >>, axes |-> << "dflt", "e", "E", "x", "n", "EE" >>,
               rep |-> << "1", "2", "3", "4", "5", "6", "7", "8" >> ],
  GeoPoint |-> PairN @@ [ pos |-> POS, deg |-> DEG, form |-> << "arr", "int", "list" >>, dep |-> << "none", "zero", "small", "one" >>,
                 via |-> << "frame", "class", "given", "bare" >>, ax |-> AX, ell |-> ELL ],
  Nvector |-> PairN @@ [ pos |-> POS, dep |-> << "none", "zero", "small", "one" >>, via |-> << "frame", "class", "given", "bare" >>, ax |-> AX, ell |-> ELL ],
  ECEFvector |-> [ pos |-> POS, n |-> NN, sc |-> DEG, dep |-> DEP, via |-> << "frame", "class", "given", "bare" >>, ax |-> AX, ell |-> ELL ],
  Pvector |-> [ pos |-> POS, n |-> NN, sc |-> DEG, lk |-> << "N", "L", "B" >>, via |-> << "frame", "class" >>, ax |-> AX, ell |-> ELL ],
  FrameN |-> [ k |-> KIND, pos |-> POS, n |-> NN, dep |-> DEP, ax |-> AX, ell |-> ELL ],
  FrameL |-> PairN @@ [ k |-> KIND, pos |-> POS, dep |-> DEP, ax |-> AX, ell |-> ELL, wa |-> << "some", "none", "turns", "int", "tiny" >> ],
  FrameB |-> PairN @@ [ k |-> KIND, pos |-> POS, dep |-> DEP, ax |-> AX, ell |-> ELL, wa |-> << "some", "none", "turns", "int", "tiny" >>, deg |-> DEG ],
  latlon |-> [ pos |-> POS, n |-> NN, dep |-> DEP, form |-> << "arr", "vec1" >>, ax |-> AX ],
  displace_gc |-> PairN @@ [ pos |-> POS, dist |-> DIST, az |-> AZ2, dep |-> DEP, ax |-> AX, ell |-> ELL, deg |-> DEG ],
  displace |-> PairN @@ [ meth |-> EMETH, pos |-> POS, dist |-> DIST, az |-> AZ2, dep |-> DEP, ax |-> AX, ell |-> ELL, deg |-> DEG, unroll |-> DEG,
                 form |-> << "arr", "vec1" >> ],
  dist_az_gc |-> PairN @@ [ kb |-> KIND, pos |-> POS, rel |-> REL, dep |-> DEP, ax |-> AX, ell |-> ELL, deg |-> DEG, fr2 |-> FR2, order |-> << "plain", "swap" >> ],
  dist_az |-> PairN @@ [ meth |-> EMETH, unroll |-> DEG, kb |-> KIND, pos |-> POS, rel |-> REL, dep |-> DEP, ax |-> AX, ell |-> ELL, deg |-> DEG, fr2 |-> FR2, order |-> << "plain", "swap" >> ],
  inverse |-> PairN @@ [ unroll |-> DEG, pos |-> POS, rel |-> REL, dep |-> << "none", "zero", "small", "one", "vecz" >>, ell |-> ELL, deg |-> DEG, bad |-> YN, form |-> << "arr", "vec1" >> ],
  direct |-> PairN @@ [ pos |-> POS, dist |-> DIST, az |-> AZ2, dep |-> << "none", "zero", "small", "one", "vecz" >>, ell |-> ELL, deg |-> DEG, unroll |-> DEG, form |-> << "arr", "vec1" >> ],
  track_gc |-> OPath @@ [ rad |-> << "dflt", "int", "any" >>, meth |-> METH ],
  track_el |-> OPath @@ [ meth |-> EMETH ],
  cross_track |-> OPath @@ [ kc |-> KIND, trd |-> TRD, rad |-> << "dflt", "int", "any" >>, meth |-> XMETH ],
  on_circle |-> OPath @@ [ kc |-> KIND, trd |-> TRD, tol |-> << "dflt", "zero", "mm", "m", "km" >> ],
  on_path_gc |-> OPath @@ [ kc |-> KIND, trd |-> TRD, tol |-> << "dflt", "zero", "mm", "m", "km" >>, rtol |-> << "dflt", "big" >>,
                            zc |-> << "mean", "off", "other", "slight" >> ],
  on_path_el |-> OPath @@ [ meth |-> EMETH, kc |-> KIND, trd |-> << "on", "mid", "A", "B", "before", "beyond", "beside", "opposite", "any" >>,
                            tol |-> << "dflt", "mm", "m", "km" >>, rtol |-> << "dflt", "big" >>,
                            zc |-> << "mean", "off", "other", "slight" >> ],
  closest_circle |-> OPath @@ [ kc |-> KIND, trd |-> TRD ],
  closest_path |-> [ kc |-> KIND, trd |-> TRD, n |-> << "1" >>, bc |-> << "nn" >> ] @@ OPath,
  path_intersect |-> OPath @@ [ trd |-> XTRD, nm |-> NAME ],
  path_interpolate |-> OPath @@ [ t |-> TT ],
  path_ends |-> OPath,
  mean |-> [ len |-> LEN, pos |-> POS, rel |-> REL \o << "spread" >>, m |-> << "3", "1", "2", "7", "40" >>, nm |-> NAME, dep |-> << "small", "zero", "one", "rep" >>, ax |-> AX, ell |-> ELL ],
  series |-> SERIES @@ [ dep |-> << "small", "one" >>, ell |-> ELL ],
  unit |-> [ pos |-> POS, n |-> NN, mix |-> YN, dep |-> << "small", "one" >>, ax |-> AX, ell |-> << "dflt", "sphere" >> ],
  arith |-> PairN @@ [ form |-> << "arr", "vec1" >>, k |-> << "N", "E" >>, op |-> << "add", "sub", "neg", "mul", "div" >>, pos |-> POS, rel |-> REL, dep |-> DEP,
              byn |-> << "one", "many", "obj" >>, side |-> << "left", "right" >>, fr2 |-> FR2, ax |-> AX, ell |-> << "dflt", "sphere", "oblate" >> ],
  eq |-> [ part |-> << "both", "nolon", "nolat" >>, k |-> << "G", "N", "E", "FE", "FN", "FL", "FB", "P" >>,
           d |-> << "self", "equal", "turn", "turnulp", "tiny", "lat", "lon", "half", "neg", "depth", "comp", "angle", "frame", "kind", "alien", "zero-wa" >>,
           pos |-> POS, n |-> NN, dep |-> DEP, ax |-> AX, ell |-> ELL ],
  repr |-> [ form |-> << "arr", "vec1" >>, k |-> << "G", "N", "E", "FE", "FN", "FL", "FB", "P" >>, pos |-> POS, n |-> NN, dep |-> DEP, ax |-> AX, ell |-> ELL ],
  GeoPath |-> [ ka |-> KIND, kb |-> KIND, pos |-> POS, rel |-> REL, n |-> NN, bc |-> BC, dep |-> DEP, ell |-> ELL, ax |-> AX ] ]

\* what a scenario must satisfy
Is(c, k, S) == k \in DOMAIN c => c[k] \in S
Valid(op, c) ==
    \* broadcasting needs several elements
    /\ ("n" \in DOMAIN c /\ c.n = "1") => Is(c, "bc", {"nn"})
    \* a vector of one only when there is one
    /\ ("form" \in DOMAIN c /\ c.form \in {"vec1", "stack1"}) => Is(c, "n", {"1"})
    /\ ("mix" \in DOMAIN c /\ c.mix = "yes") => ~Is(c, "n", {"1"}) \/ op = "o.unit"
    /\ ("win" \in DOMAIN c /\ c.win = "none") => Is(c, "mode", {"dflt"})
    \* mixtures need several elements; whether halfway is defined is a matter of the element
    /\ ("rel" \in DOMAIN c /\ c.rel = "mix") => /\ "n" \in DOMAIN c => c.n # "1"
                                                /\ "m" \in DOMAIN c => c.m # "1"
                                                /\ "t" \in DOMAIN c => c.t # "half"
    /\ (op = "f.unit" /\ c.mix = "yes") => c.size # "int"
    /\ (op = "f.mdot" /\ c.stk = "no") => c.bc = "nn"
    /\ (op = "o.convert" /\ c.k = "P") => c.form = "arr"
    /\ ("sc" \in DOMAIN c /\ c.sc = "yes") => Is(c, "n", {"1"})
    /\ op = "o.arith" =>
         /\ c.k = "E" => c.op \in {"add", "sub", "neg"}
         /\ c.op \notin {"mul", "div"} => c.byn = "one" /\ c.side = "left"
         /\ c.op \in {"neg", "mul", "div"} => c.fr2 = "same"
         /\ c.byn = "many" => c.side = "left" /\ c.bc = "nn"
    /\ op = "o.eq" =>
         /\ c.d \in {"turn", "turnulp"} => c.k = "G"
         /\ c.d \in {"half", "neg"} => c.k \in {"G", "N", "E", "FN", "FL", "FB"}
         /\ c.d = "comp" => c.k = "P"
         /\ c.d = "angle" => c.k \in {"FL", "FB"}
         /\ c.d = "zero-wa" => c.k \in {"FN", "FL"}
         /\ c.k = "FE" => c.d \in {"self", "equal", "frame", "kind", "alien"}
    \* the geodesic between opposite points of a prolate ellipsoid is a matter of C17 (known_findings.txt)
    /\ (op = "o.on_path_el" /\ c.ell \in {"prolate", "slight"}) => c.rel \notin {"anti", "mix"}
    \* with a wrong frame the rest does not matter much
    /\ (op = "o.inverse" /\ c.bad = "yes") => c.rel \notin {"anti", "mix"}

------------------------------------------------------------------------------
(* What to enumerate: operations and salts.  A salt selects how the classes that
   a pair does not mention are chosen.                                         *)
Wanted == JsonDeserialize(IOEnv.WANTED)
\* pseudo-random choice number k of scenario (i, try t)
Prime == 46337
Cube(x) == LET y == x % Prime IN ((y * y) % Prime) * y % Prime      \* a permutation: 3 does not divide Prime - 1
Mix(salt, i, t, k) == Cube(Cube(Cube(Cube(salt + 17) + i) + 31 * k) + t) \div 16
Complete(salt, dims, index, i, t, fixed) ==
    [k \in DOMAIN dims |->
        IF k \in DOMAIN fixed THEN fixed[k]
        ELSE dims[k][(Mix(salt, i, t, index[k]) % Len(dims[k])) + 1]]
Tries == 40
Try(salt, op, dims, index, i, fixed, t) == LET c == TLCEval(Complete(salt, dims, index, i, t, fixed)) IN Valid(op, c)
FirstValid(salt, op, dims, index, i, fixed) ==
    IF \E t \in 0..Tries : Try(salt, op, dims, index, i, fixed, t)
    THEN LET first == CHOOSE t \in 0..Tries : Try(salt, op, dims, index, i, fixed, t) IN
         << TLCEval(Complete(salt, dims, index, i, first, fixed)) >>
    ELSE << >>
\* all pairs of classes, as partial scenarios
Pairs(dims, keys) ==
    LET m == Len(keys)
        S == {<< a, i, b, j >> \in (1..m) \X (1..19) \X (1..m) \X (1..19) :
                a < b /\ i <= Len(dims[keys[a]]) /\ j <= Len(dims[keys[b]])} IN
    IF m = 1 THEN [i \in 1..Len(dims[keys[1]]) |-> (keys[1] :> dims[keys[1]][i])]
    ELSE LET q == SetToSeq(S) IN
         [x \in 1..Len(q) |-> (keys[q[x][1]] :> dims[keys[q[x][1]]][q[x][2]]) @@ (keys[q[x][3]] :> dims[keys[q[x][3]]][q[x][4]])]
DimsOf(op) == LET k == SubSeq(op, 3, Len(op)) IN IF SubSeq(op, 1, 2) = "f." THEN Dims[k] ELSE ODims[k]
Cover(salt, op) ==
    LET dims == TLCEval(DimsOf(op))  keys == TLCEval(SetToSeq(DOMAIN dims))  ps == TLCEval(Pairs(dims, keys))
        index == TLCEval([k \in DOMAIN dims |-> CHOOSE j \in 1..Len(keys) : keys[j] = k]) IN
    LET found == SelectSeq(TLCEval([x \in 1..Len(ps) |-> FirstValid(salt, op, dims, index, x, ps[x])]), LAMBDA c : c # << >>) IN
    [x \in 1..Len(found) |-> found[x][1]]

AllOps == {"f." \o k : k \in DOMAIN Dims} \cup {"o." \o k : k \in DOMAIN ODims}

VARIABLES cur, salt, cover
Init == /\ cur \in {Wanted.ops[i] : i \in 1..Len(Wanted.ops)} \cap AllOps
        /\ salt \in {Wanted.salts[i] : i \in 1..Len(Wanted.salts)}
        /\ cover = << >>
Next == /\ cover = << >>
        /\ cover' = Cover(salt, cur)
        /\ JsonSerialize(IOEnv.OUT \o "/" \o cur \o "-" \o ToString(salt) \o ".json", cover')
        /\ UNCHANGED << cur, salt >>
Spec == Init /\ [][Next]_<< cur, salt, cover >>
\* every scenario chooses a known class in every dimension, and is valid
TypeOK == \A i \in 1..Len(cover) :
             /\ DOMAIN cover[i] = DOMAIN DimsOf(cur)
             /\ \A k \in DOMAIN cover[i] : \E j \in 1..Len(DimsOf(cur)[k]) : DimsOf(cur)[k][j] = cover[i][k]
             /\ Valid(cur, cover[i])
=============================================================================
