------------------------------- MODULE Nvector ------------------------------
(***************************************************************************)
(* The library as a state machine.                                         *)
(*                                                                         *)
(* State: a heap of the objects a program has made (handle -> object;      *)
(* objects refer to each other by handle where they share an object).      *)
(* One transition per public call: Call(e) says, for a call e with its     *)
(* arguments, result, exception, warnings and observed heap changes, which *)
(* obligations ("clauses") it meets and what the heap is afterwards.       *)
(***************************************************************************)
EXTENDS Objects, TLC

\* ------------------------------------------------------------- the heap
IsRef(o) == "h" \in DOMAIN o
RECURSIVE Deref(_, _)
Deref(hp, o) ==
    IF IsRef(o) THEN Deref(hp, hp[o.h])
    ELSE CASE "k" \notin DOMAIN o -> o
           [] o.k \in {"GeoPoint", "Nvector", "ECEFvector", "Pvector"} -> [o EXCEPT !.frame = Deref(hp, @)]
           [] o.k \in LocalFrames -> [o EXCEPT !.origin = Deref(hp, @)]
           [] o.k = "GeoPath" -> [o EXCEPT !.pa = Deref(hp, @), !.pb = Deref(hp, @)]
           [] OTHER -> o
\* arguments that are objects (the others are numbers, words, flags)
ObjArgs == {"self", "x", "y", "frame"}
\* objects without a position (NaN coordinates) have nothing to be converted
RECURSIVE Located(_)
Located(o) ==
    IF "v" \in DOMAIN o THEN \A i \in 1..Len(o.v) : IsFin(o.v[i])
    ELSE \A k \in DOMAIN o : k \in {"k", "s", "name"} \/ Located(o[k])
AllLocated(a) == \A k \in DOMAIN a \cap ObjArgs : ~("k" \in DOMAIN a[k] /\ a[k].k \in Kinds \cup {"Pvector", "GeoPath"} \cup LocalFrames)
                                                  \/ Located(a[k])
Args(hp, a) == TLCEval([k \in DOMAIN a |-> IF k \in ObjArgs THEN Deref(hp, a[k]) ELSE a[k]])
PairRes == {"nvectors", "geo_points", "ecef_vectors", "ends", "aliases"}
Res(hp, r) ==
    IF IsRef(r) \/ "k" \in DOMAIN r THEN Deref(hp, r)
    ELSE IF "point" \in DOMAIN r THEN [r EXCEPT !.point = Deref(hp, @)]
    ELSE IF "nvectors" \in DOMAIN r
         THEN [k \in DOMAIN r |-> IF k \in PairRes THEN << Deref(hp, r[k][1]), Deref(hp, r[k][2]) >> ELSE r[k]]
    ELSE r

\* --------------------------------------------------- what calls must return
Post(e) ==
    CASE e.op = "f.lat_lon2n_E" -> P_lat_lon2n_E(e)
      [] e.op = "f.n_E2lat_lon" -> P_n_E2lat_lon(e)
      [] e.op = "f.n_EB_E2p_EB_E" -> P_n_EB_E2p_EB_E(e)
      [] e.op = "f.p_EB_E2n_EB_E" -> P_p_EB_E2n_EB_E(e)
      [] e.op = "f.delta" -> P_delta(e)
      [] e.op = "f.add_delta" -> P_add_delta(e)
      [] e.op = "f.n_E2R_EN" -> P_n_E2R_EN(e)
      [] e.op = "f.n_E_and_wa2R_EL" -> P_n_E_and_wa2R_EL(e)
      [] e.op \in {"f.R_EN2n_E", "f.R_EL2n_E"} -> P_R2n_E(e)
      [] e.op = "f.xyz2R" -> P_xyz2R(e)
      [] e.op = "f.zyx2R" -> P_zyx2R(e)
      [] e.op = "f.R2xyz" -> P_R2xyz(e)
      [] e.op = "f.R2zyx" -> P_R2zyx(e)
      [] e.op = "f.great_circle_distance" -> P_great_circle_distance(e)
      [] e.op = "f.euclidean_distance" -> P_euclidean_distance(e)
      [] e.op = "f.azimuth" -> P_azimuth(e)
      [] e.op = "f.direct" -> P_direct(e)
      [] e.op = "f.great_circle_normal" -> P_great_circle_normal(e)
      [] e.op = "f.cross_track_distance" -> P_cross_track_distance(e)
      [] e.op = "f.closest_circle" -> P_closest_circle(e)
      [] e.op = "f.on_great_circle" -> P_on_great_circle(e)
      [] e.op = "f.on_great_circle_path" -> P_on_great_circle_path(e)
      [] e.op = "f.intersect" -> P_intersect(e)
      [] e.op = "f.interpolate" -> P_interpolate(e)
      [] e.op = "f.interp_nvectors" -> P_interp_nvectors(e)
      [] e.op = "f.mean" -> P_mean_horizontal_position(e)
      [] e.op = "f.unit" -> P_unit(e)
      [] e.op = "f.isclose" -> P_isclose(e)
      [] e.op = "f.allclose" -> P_allclose(e)
      [] e.op = "f.mdot" -> P_mdot(e)
      [] e.op = "f.nthroot" -> P_nthroot(e)
      [] e.op = "f.deg" -> P_deg(e)
      [] e.op = "f.rad" -> P_rad(e)
      [] e.op = "f.get_ellipsoid" -> P_get_ellipsoid(e)
      [] e.op = "f.E_rotation" -> P_E_rotation(e)
      [] e.op = "o.convert" -> O_convert(e)
      [] e.op = "o.R_EN" -> O_R_EN(e)
      [] e.op = "o.change_frame" -> O_change_frame(e)
      [] e.op = "o.to_ecef_local" -> O_to_ecef_local(e)
      [] e.op = "o.polar" -> O_polar(e)
      [] e.op = "o.delta_E" -> O_delta_E(e)
      [] e.op = "o.delta_local" -> O_delta_local(e)
      [] e.op = "o.FrameE" -> O_FrameE(e)
      [] e.op = "o.GeoPoint" -> O_GeoPoint(e)
      [] e.op = "o.Nvector" -> O_Nvector(e)
      [] e.op = "o.ECEFvector" -> O_ECEFvector(e)
      [] e.op = "o.Pvector" -> O_Pvector(e)
      [] e.op = "o.FrameN" -> O_FrameN(e)
      [] e.op = "o.FrameL" -> O_FrameL(e)
      [] e.op = "o.FrameB" -> O_FrameB(e)
      [] e.op = "o.GeoPath" -> O_GeoPath(e)
      [] e.op = "o.latlon" -> O_latlon(e)
      [] e.op = "o.displace_gc" -> O_displace_gc(e)
      [] e.op = "o.displace" -> O_displace(e)
      [] e.op = "o.dist_az_gc" -> O_dist_az_gc(e)
      [] e.op = "o.dist_az" -> O_dist_az(e)
      [] e.op = "o.inverse" -> O_inverse(e)
      [] e.op = "o.direct" -> O_direct(e)
      [] e.op = "o.track_gc" -> O_track_gc(e)
      [] e.op = "o.track_el" -> O_track_el(e)
      [] e.op = "o.cross_track" -> O_cross_track(e)
      [] e.op = "o.on_circle" -> O_on_circle(e)
      [] e.op = "o.on_path_gc" -> O_on_path_gc(e)
      [] e.op = "o.on_path_el" -> O_on_path_el(e)
      [] e.op = "o.closest_circle" -> O_closest_circle(e)
      [] e.op = "o.closest_path" -> O_closest_path(e)
      [] e.op = "o.path_intersect" -> O_path_intersect(e)
      [] e.op = "o.path_interpolate" -> O_path_interpolate(e)
      [] e.op = "o.path_ends" -> O_path_ends(e)
      [] e.op = "o.mean" -> O_mean(e)
      [] e.op = "o.series" -> O_series(e)
      [] e.op = "o.unit" -> O_unit(e)
      [] e.op = "o.arith" -> O_arith(e)
      [] e.op = "o.eq" -> O_eq(e)
      [] e.op = "o.repr" -> O_repr(e)

\* ------------------------------------------------------- refused operations
Mismatch(x, y) == FrameEq(EFrameOf(x), EFrameOf(y))       \* "no" = different frames
(* << >>: nothing to refuse; << exception names >>: one of these must be raised;
   << "?" >>: frames too close to call.                                          *)
FrameGuard(x, y) == LET t == Mismatch(x, y) IN
    CASE t = "yes" -> << >> [] t = "no" -> << "ValueError" >> [] OTHER -> << "?" >>
MustRaise(e) ==
    CASE e.op \in {"o.delta_E", "o.delta_local"} -> FrameGuard(e.a.x, e.a.y)
      [] e.op \in {"o.dist_az", "o.dist_az_gc"} -> FrameGuard(e.a.self, e.a.y)
      [] e.op = "o.change_frame" -> FrameGuard(e.a.self, e.a.frame)
      [] e.op = "o.arith" ->
           (CASE e.a.op \in {"add", "sub"} -> FrameGuard(e.a.self, e.a.y)
              [] e.a.op \in {"mul", "div"} /\ Has(e.a, "y") -> << "NotImplementedError" >>
              [] OTHER -> << >>)
      [] e.op = "f.get_ellipsoid" -> IF CatIds(e.a) = {} THEN << "KeyError", "ValueError", "IndexError" >> ELSE << >>
      [] e.op = "o.FrameE" ->
           IF (Has(e.a, "axes") /\ e.a.axes \notin {"e", "E"}) \/
              (~(Has(e.a, "a") /\ Has(e.a, "f")) /\ Has(e.a, "key") /\ ~\E i \in 1..19 : e.a.key \in Cat[i].key)
           THEN << "KeyError", "ValueError", "IndexError" >> ELSE << >>
      [] e.op = "f.E_rotation" -> IF Has(e.a, "axes") /\ e.a.axes \notin {"e", "E"} THEN << "KeyError", "ValueError", "IndexError" >> ELSE << >>
      [] OTHER -> << >>

\* clauses of one call, arguments and result resolved
Obey(e) ==
    LET m == MustRaise(e) IN
    IF m = << "?" >> THEN << >>
    ELSE IF m # << >> THEN << C("refused", QB(\E i \in 1..Len(m) : m[i] = e.x)) >>
    ELSE IF ~AllLocated(e.a) THEN << >>
    ELSE IF e.x # "" THEN << C("no-exception", CAP) >>
    ELSE << C("no-exception", 0) >> \o Post(e)
Good(cs) == \A i \in 1..Len(cs) : cs[i].q <= 1000

(* The same value (used for "the same call again"): the same bits up to the last
   places, which may depend on where in memory the arrays are: k decimals relative
   to the number itself or k + 1 relative to the largest of its array.            *)
NearD(x, y, m, k) ==
    x = y \/ (IsFin(x) /\ IsFin(y) /\
              LET d == BAbs(BSub(Val(x), Val(y))) IN
              \/ BLe(d, RMul(RMax(BAbs(Val(x)), BAbs(Val(y))), RTol[k]))
              \/ BLe(d, RMul(m, RTol[k + 1])))
RECURSIVE Largest(_, _)
Largest(v, i) == IF i = 0 THEN RZero ELSE RMax(IF IsFin(v[i]) THEN BAbs(Val(v[i])) ELSE RZero, Largest(v, i - 1))
RECURSIVE SameVal(_, _, _)
SameVal(x, y, n) ==
    \/ x = y
    \/ /\ DOMAIN x = DOMAIN y
       /\ \A k \in DOMAIN x :
             IF k \in {"k", "name", "s", "sh", "b", "h"} THEN x[k] = y[k]
             ELSE IF k = "v" THEN /\ Len(x[k]) = Len(y[k])
                                  /\ LET m == Largest(x[k], Len(x[k])) IN
                                     \A i \in 1..Len(x[k]) : NearD(x[k][i], y[k][i], m, n)
             ELSE SameVal(x[k], y[k], n)
(* e is the event of a call, r what the same call gave another time: the same
   but for rounding; where the answer is badly conditioned, another right answer. *)
Repeated(hp, e, r) ==
    \/ SameVal(e.r, r, 12)
    \/ /\ e.op \in {"f.interp_nvectors", "o.series"} => SameVal(e.r, r, 6)
       /\ Good(Obey([op |-> e.op, a |-> Args(hp, e.a), r |-> Res(hp, r), x |-> e.x, w |-> e.w]))
=============================================================================
