------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* Programs that use the library's objects: who refers to whom, who shares *)
(* storage with whom, and what each step may change.                       *)
(*                                                                         *)
(* An object is its kind, the objects it refers to, and the storage cells  *)
(* (arrays) it owns or shares.  A cell has a version, bumped when somebody *)
(* writes into it.  The only step of the library that changes an object is *)
(* Unit(h), and it *rebinds* h to a fresh cell: with InPlace = TRUE (the   *)
(* library would write into the old cell instead) Frame is violated,       *)
(* because frames share the cell of the position they were made at.        *)
(* Set(h) is the user assigning a documented attribute of an object, which  *)
(* also rebinds; what refers to h means something else from then on, what  *)
(* was made from h and does not refer to it does not.  ReAsk makes a call  *)
(* of which something has changed since: it is answered anew.              *)
(* Spoil is the user overwriting a value a call returned.                  *)
(*                                                                         *)
(* The same module generates the programs that are run on the library:     *)
(* simulation prints each complete program as JSON.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxObj, MaxLen, InPlace, Classes, Dump, Warm

VARIABLES obj,      \* sequence of objects [k, v, of, en, cells]
          ver,      \* version of each cell
          prog,     \* the steps so far
          snap,     \* what was visible to each step when it was made
          pick      \* class of the next step ("" = choose)
vars == << obj, ver, prog, snap, pick >>

Ids == 1..Len(obj)
K(S) == {h \in Ids : obj[h].k \in S}
RECURSIVE Reach(_, _)
Reach(o, h) == {h} \cup UNION {Reach(o, g) : g \in o[h].of}
\* everything h's meaning depends on
Seen(o, v, h) == {<< g, c, v[c] >> : g \in Reach(o, h), c \in UNION {o[g2].cells : g2 \in Reach(o, h)}}
SeenOf(o, v, h) == UNION {{<< g, c, v[c] >> : c \in o[g].cells} : g \in Reach(o, h)}
View == [h \in Ids |-> SeenOf(obj, ver, h)]

RECURSIVE FrameId(_)
FrameId(h) == IF obj[h].k = "F" THEN h ELSE FrameId(CHOOSE g \in obj[h].of : TRUE)
SameF(x, y) == LET a == obj[FrameId(x)].v  b == obj[FrameId(y)].v IN a = b \/ {a, b} = {1, 2}
Pos == {"G", "N", "E"}
Loc == {"LN", "LL", "LB"}

\* ------------------------------------------------------------------ steps
Rec(do, x, y, w, v, r) == [do |-> do, x |-> x, y |-> y, w |-> w, v |-> v, r |-> r]
Push(rec, args) ==
    /\ prog' = Append(prog, rec)
    /\ snap' = Append(snap, [h \in args |-> SeenOf(obj, ver, h)])
    /\ pick' = ""
Room == Len(obj) < MaxObj
\* makes an object of kind k referring to of, with a fresh cell and those in share
Make(k, v, of, share, do, x, y, w, args) ==
    /\ Room
    /\ obj' = Append(obj, [k |-> k, v |-> v, of |-> of, en |-> IF k = "T" THEN << x, y >> ELSE << >>,
                           cells |-> {Len(ver) + 1} \cup share])
    /\ ver' = Append(ver, 0)
    /\ Push(Rec(do, x, y, w, v, Len(obj) + 1), args)
Ask(do, x, y, w, v, args) ==
    /\ Push(Rec(do, x, y, w, v, 0), args)
    /\ UNCHANGED << obj, ver >>
Shared(h) == IF obj[h].k = "N" THEN obj[h].cells ELSE {}

NewFrame == Cardinality(K({"F"})) < 4 /\ \E v \in 1..4 : Make("F", v, {}, {}, "frame", 0, 0, "", {})
NewPoint == \E h \in K({"F"}), k \in Pos, v \in 1..4 : Make(k, v, {h}, {}, "point", h, 0, k, {h})
NewLocal ==
    \E h \in K(Pos), k \in Loc, v \in 1..2 :
        IF k = "LB" /\ obj[h].k = "N"
        THEN Make(k, v, {h}, {}, "local", h, 0, k, {h})
        ELSE Make(k, v, {FrameId(h)}, Shared(h), "local", h, 0, k, {h})
NewPath == \E x, y \in K(Pos) : SameF(x, y) /\ x # y /\ Make("T", 0, {x, y}, {}, "path", x, y, "", {x, y})
NewPvector == \E h \in K(Loc), v \in 1..2 : Make("P", v, {h}, {}, "pvector", h, 0, "", {h})
Convert ==
    \E h \in K(Pos), to \in Pos :
        IF obj[h].k = to THEN Ask("convert", h, 0, to, 0, {h})
        ELSE Make(to, 0, {FrameId(h)}, {}, "convert", h, 0, to, {h})
Delta ==
    \E x, y \in K(Pos), w \in {"E", "N", "L", "to"} :
        IF ~SameF(x, y) THEN Ask("delta", x, y, w, 0, {x, y})
        ELSE IF w = "E" THEN Make("V", 0, {FrameId(x)}, {}, "delta", x, y, w, {x, y})
        ELSE Make("P", 0, {FrameId(x)}, Shared(x), "delta", x, y, w, {x, y})
Change ==
    \E x \in K({"V", "E"}), y \in K(Loc) :
        IF ~SameF(x, y) THEN Ask("change", x, y, "", 0, {x, y}) ELSE Make("P", 0, {y}, {}, "change", x, y, "", {x, y})
Back == \E x \in K({"P"}) : Make("V", 0, {FrameId(x)}, {}, "back", x, 0, "", {x})
Displace ==
    \E x \in K({"G"}), w \in {"gc", "el"}, v \in 1..3 : Make("G", v, {FrameId(x)}, {}, "displace", x, 0, w, {x})
Interp == \E x \in K({"T"}), v \in 1..3 : Make("N", v, {FrameId(x)}, {}, "interp", x, 0, "", {x})
Intersect ==
    \E x, y \in K({"T"}) : x # y /\ SameF(x, y) /\ Make("N", 0, {FrameId(x)}, {}, "intersect", x, y, "", {x, y})
\* the closest point of a path may be one of its ends: the very object
Closest ==
    \E x \in K({"T"}), y \in K(Pos), w \in {"circle", "path"} :
        SameF(x, y) /\ Make("G", 0, {FrameId(x)}, {}, "closest", x, y, w, {x, y})
Mean == \E x \in K({"N", "R"}) : Make("N", 0, {FrameId(x)}, {}, "mean", x, 0, "", {x})
Arith ==
    \/ \E x, y \in K({"N", "R"}), w \in {"add", "sub"} :
         IF ~SameF(x, y) THEN Ask("arith", x, y, w, 0, {x, y})
         ELSE Make("R", 0, {FrameId(x)}, {}, "arith", x, y, w, {x, y})
    \/ \E x, y \in K({"V", "E"}), w \in {"add", "sub"} :
         IF ~SameF(x, y) THEN Ask("arith", x, y, w, 0, {x, y})
         ELSE Make("V", 0, {FrameId(x)}, {}, "arith", x, y, w, {x, y})
    \/ \E x \in K({"N", "R"}), w \in {"neg", "mul", "div"}, v \in 1..2 :
         Make("R", v, {FrameId(x)}, {}, "arith", x, 0, w, {x})
Unit ==
    \E x \in K({"N", "R"}) :
        /\ IF InPlace
           THEN /\ ver' = [c \in DOMAIN ver |-> IF c \in obj[x].cells THEN ver[c] + 1 ELSE ver[c]]
                /\ obj' = [obj EXCEPT ![x].k = "N"]
           ELSE /\ ver' = Append(ver, 0)
                /\ obj' = [obj EXCEPT ![x].k = "N", ![x].cells = {Len(ver) + 1}]
        /\ Push(Rec("unit", x, 0, "", 0, 0), {x})
\* what an object lets the user assign
Attrs(k) ==
    CASE k = "G" -> {"lat", "lon", "z"} [] k \in {"N", "R"} -> {"normal", "z"} [] k \in {"E", "V", "P"} -> {"p"}
      [] k = "LL" -> {"wa"} [] k = "LB" -> {"yaw", "pitch", "roll"} [] OTHER -> {}
Used == UNION {DOMAIN snap[i] : i \in 1..Len(snap)}
Looked == UNION {Reach(obj, h) : h \in Used}
Set ==
    \/ \E x \in Looked, w \in {"lat", "lon", "z", "normal", "p", "wa", "yaw", "pitch", "roll"}, v \in 1..3 :
         /\ w \in Attrs(obj[x].k)
         /\ ver' = Append(ver, 0)
         /\ obj' = [obj EXCEPT ![x].cells = {Len(ver) + 1}]
         /\ Push(Rec("set", x, 0, w, v, 0), {x})
    \/ \E x \in Looked \cap K({"T"}), y \in K(Pos), w \in {"pa", "pb"} :
         LET i == IF w = "pa" THEN 1 ELSE 2
             en == [obj[x].en EXCEPT ![i] = y] IN
         /\ SameF(x, y) /\ en[1] # en[2] /\ y # obj[x].en[i]
         /\ ver' = Append(ver, 0)
         /\ obj' = [obj EXCEPT ![x].cells = {Len(ver) + 1}, ![x].en = en, ![x].of = {en[1], en[2]}]
         /\ Push(Rec("set", x, y, w, 0, 0), {x, y})
Number ==       \* used in exhaustive checking: all questions alike
    \E x \in Ids : Ask("number", x, 0, "", 0, {x})
Dist == \E x \in K({"G"}), y \in K(Pos), w \in {"dist", "dist_gc"}, v \in 1..2 : Ask("dist", x, y, w, v, {x, y})
PathPoint ==
    \E x \in K({"T"}), y \in K(Pos), w \in {"cross", "on_circle", "on_path", "on_path_el"} :
       SameF(x, y) /\ Ask("pathpoint", x, y, w, 0, {x, y})
Path1 == \E x \in K({"T"}), w \in {"track", "track_el", "ends"} : Ask("path1", x, 0, w, 0, {x})
Local1 == \E x \in K(Loc) : Ask("R_EN", x, 0, "", 0, {x})
Polar == \E x \in K({"V", "E", "P"}) : Ask("polar", x, 0, "", 0, {x})
LatLon == \E x \in K({"G"}) : Ask("latlon", x, 0, "", 0, {x})
Geodesic == \E x \in K({"F"}), w \in {"inverse", "direct"}, v \in 1..3 : Ask("geodesic", x, 0, w, v, {x})
Equal == \E x, y \in Ids : obj[x].k # "T" /\ obj[y].k # "T" /\ Ask("eq", x, y, "", 0, {x, y})
Repr == \E x \in Ids : obj[x].k # "T" /\ Ask("repr", x, 0, "", 0, {x})
\* plain functions called with the arrays the objects hold
Func == \E x \in K({"N", "V", "E"}), w \in 1..6 : Ask("func", x, 0, "", w, {x})

\* the same call again: everything it depends on is as it was
Valid(i) == \A h \in DOMAIN snap[i] : SeenOf(obj, ver, h) = snap[i][h]
Actions == {"again", "spoil", "unit", "set", "reask"}
Repeats == {i \in 1..Len(prog) : prog[i].do \notin Actions /\ Valid(i)}
Stale == {i \in 1..Len(prog) : prog[i].do \notin Actions /\ ~Valid(i)}
ReAsk == \E i \in Stale : Push(Rec("reask", i, 0, "", 0, 0), {}) /\ UNCHANGED << obj, ver >>
Again == \E i \in Repeats : Push(Rec("again", i, 0, "", 0, 0), {}) /\ UNCHANGED << obj, ver >>
\* the same call again, its result overwritten by the user
Spoil == \E i \in Repeats : Push(Rec("spoil", i, 0, "", 0, 0), {}) /\ UNCHANGED << obj, ver >>

Do(c) ==
    CASE c = "frame" -> NewFrame [] c = "point" -> NewPoint [] c = "local" -> NewLocal [] c = "path" -> NewPath
      [] c = "pvector" -> NewPvector [] c = "convert" -> Convert [] c = "delta" -> Delta [] c = "change" -> Change
      [] c = "back" -> Back [] c = "displace" -> Displace [] c = "interp" -> Interp [] c = "intersect" -> Intersect
      [] c = "closest" -> Closest [] c = "mean" -> Mean [] c = "arith" -> Arith [] c = "unit" -> Unit
      [] c = "number" -> Number [] c = "dist" -> Dist [] c = "pathpoint" -> PathPoint [] c = "path1" -> Path1
      [] c = "local1" -> Local1 [] c = "polar" -> Polar [] c = "latlon" -> LatLon [] c = "geodesic" -> Geodesic
      [] c = "eq" -> Equal [] c = "repr" -> Repr [] c = "func" -> Func
      [] c = "set" -> Set [] c = "reask" -> ReAsk
      [] c = "again" -> Again [] c = "spoil" -> Spoil

Init ==
    /\ obj = << [k |-> "F", v |-> 1, of |-> {}, en |-> << >>, cells |-> {1}] >> /\ ver = << 0 >>
    /\ prog = << Rec("frame", 0, 0, "", 1, 1) >> /\ snap = << [h \in {} |-> {}] >> /\ pick = ""
Choose == /\ pick = "" /\ Len(prog) < MaxLen
          /\ pick' \in (IF Len(prog) <= Warm THEN {"frame", "point", "local", "path", "displace", "arith"}
                     ELSE IF Dump /\ prog[Len(prog)].do = "set" /\ Stale # {} THEN {"reask"} ELSE Classes)
          /\ UNCHANGED << obj, ver, prog, snap >>
Step == /\ pick \notin {"", "done"}
        /\ Do(pick)
\* a program is complete: print it, with the steps whose result still has to be the same
Finish == /\ Dump /\ Len(prog) = MaxLen /\ pick = ""
          /\ PrintT(<< "PROG", ToJson([prog |-> prog, again |-> Repeats]) >>)
          /\ pick' = "done" /\ UNCHANGED << obj, ver, prog, snap >>
\* a class that has no step now
Skip == pick \notin {"", "done"} /\ ~ENABLED Do(pick) /\ pick' = "" /\ UNCHANGED << obj, ver, prog, snap >>
Next == Choose \/ Step \/ Skip \/ Finish
Spec == Init /\ [][Next]_vars

\* --------------------------------------------------------------- properties
TypeOK ==
    /\ Len(obj) <= MaxObj /\ Len(snap) = Len(prog)
    /\ \A h \in Ids : /\ obj[h].of \subseteq (IF obj[h].k = "T" THEN K(Pos) ELSE 1..(h - 1))
                      /\ obj[h].cells \subseteq DOMAIN ver
\* every object but a frame lives in exactly one Earth frame
Rooted == \A h \in Ids : Cardinality({g \in Reach(obj, h) : obj[g].k = "F"}) >= 1
\* C21: only unit and assignments change what any object means, and only of objects that refer to their target
Frame ==
    [][\A h \in Ids : SeenOf(obj', ver', h) # SeenOf(obj, ver, h) =>
          LET p == prog'[Len(prog')] IN p.do \in {"unit", "set"} /\ p.x \in Reach(obj, h)]_vars
\* what a step depended on stays valid unless part of it was normalised or assigned
StillValid ==
    \A i \in {k \in 1..Len(prog) : prog[k].do \notin {"unit", "set"}} :
        (\A j \in (i + 1)..Len(prog) :
            prog[j].do \in {"unit", "set"} => \A h \in DOMAIN snap[i] : prog[j].x \notin Reach(obj, h))
        => Valid(i)
=============================================================================
