-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Runs recorded from the library, replayed against Nvector.               *)
(*                                                                         *)
(* There are K independent recordings ("shards"), each a sequence of       *)
(* events; an initial state per shard, one transition per event.  Every    *)
(* transition evaluates all obligations of the call; unmet ones are        *)
(* printed as FAIL lines and counted in the state; statistics of all       *)
(* clauses are printed at the end of each shard.                           *)
(***************************************************************************)
EXTENDS Nvector, Json, IOUtils

K == atoi(IOEnv.SHARDS)
Log == [s \in 1..K |-> ndJsonDeserialize(IOEnv.TRACES \o "/shard" \o ToString(s) \o ".ndjson")]

\* "all" obligations, or only those about arguments and other objects ("pure"; calls
\* made again after something was assigned are judged in full)
Focus == IF "FOCUS" \in DOMAIN IOEnv THEN IOEnv.FOCUS ELSE "all"

VARIABLES sh,       \* the shard
          l,        \* next event of it
          heap,     \* the program's objects
          st,       \* clause -> << evaluations, worst q >>
          bad       \* number of unmet obligations so far
vars == << sh, l, heap, st, bad >>

Empty == [i \in {} |-> << >>]
Init == /\ sh \in 1..K /\ l = 1 /\ heap = Empty /\ st = Empty /\ bad = 0

\* heap changes the call was observed to cause, and whether it may
Allowed(e) == IF e.op \in {"o.unit", "set"} /\ "ref" \in DOMAIN e THEN {e.ref} ELSE {}
ChangedHandles(e) == {e.chg[i].h : i \in 1..Len(e.chg)}
CHeap(e) == C("heap-unchanged", QB(ChangedHandles(e) \subseteq Allowed(e)))
Mutator(e) == IF e.op = "o.unit" \/ ("for" \in DOMAIN e /\ e.for = "o.unit") THEN {"self"} ELSE {}
CPure(e) == C("arguments-unchanged", QB({e.mut[i] : i \in 1..Len(e.mut)} \subseteq Mutator(e)))
NewHeap(hp, e) ==
    LET h1 == [h \in DOMAIN hp \cup ChangedHandles(e) |->
                 IF h \in ChangedHandles(e) THEN e.chg[CHOOSE i \in 1..Len(e.chg) : e.chg[i].h = h].o ELSE hp[h]] IN
    IF "ret" \in DOMAIN e THEN (e.ret :> (IF "point" \in DOMAIN e.r THEN e.r.point ELSE e.r)) @@ h1 ELSE h1

\* the same computation done another way must be equally right
Twin(hp, e, own) ==
    [i \in 1..Len(e.tw) |->
       LET t == e.tw[i]
           cs == Obey([op |-> t.op, a |-> Args(hp, t.a), r |-> Res(hp, t.r), x |-> t.x, w |-> t.w]) IN
       C("agree-" \o t.t, QB(Good(cs) = Good(own)))]
\* element-wise calls: the vector call is right iff all of them are
Parts(hp, e, own) ==
    IF "parts" \notin DOMAIN e THEN << >>
    ELSE LET ok == \A i \in 1..Len(e.parts) :
                     LET t == e.parts[i] IN
                     Good(Obey([op |-> t.op, a |-> Args(hp, t.a), r |-> Res(hp, t.r), x |-> t.x, w |-> t.w])) IN
         << C("agree-elements", QB(Good(own) \/ ~ok)) >>

\* a missing element (nan in an argument; the result has there what it has without) matters to no other
Missing(hp, e, own) ==
    IF "hole" \notin DOMAIN e THEN << >>
    ELSE LET cs == Obey([op |-> e.op, a |-> Args(hp, e.a), r |-> Res(hp, e.hole.r), x |-> e.hole.x, w |-> e.w]) IN
         << C("agree-missing", QB(Good(cs) \/ ~Good(own))) >>

Verdict(hp, e) ==
    CASE e.op = "new" -> << >>
      \* the user assigned an attribute: that is what the object has now, and nothing else is different
      [] e.op = "set" -> << CHeap(e), C("assigned", QB(NewHeap(hp, e)[e.ref] = [hp[e.ref] EXCEPT ![e.a.attr] = e.a.val])) >>
      [] e.op = "setup" -> << C("no-exception", CAP) >>     \* arguments could not be made
      [] e.op = "unread" -> << C("repeatable", CAP) >>      \* the same call gave something that is no answer at all
      [] e.op = "scribble" -> << CHeap(e), CPure(e) >>
      [] e.op \in {"again", "fresh"} ->     \* the same call later, or in a process that did nothing else
           LET p == Log[sh][e.of] IN
           << CHeap(e), CPure(e), C("repeatable", QB(p.x = e.x /\ Repeated(hp, p, e.r))) >>
      [] Focus = "pure" /\ "re" \notin DOMAIN e -> << CPure(e), CHeap(e) >>
      [] OTHER ->
           LET own == Obey([op |-> e.op, a |-> Args(hp, e.a), r |-> Res(hp, e.r), x |-> e.x, w |-> e.w]) IN
           own \o << CPure(e), CHeap(e) >>
           \o (IF "tw" \in DOMAIN e THEN Twin(hp, e, own) ELSE << >>) \o Parts(hp, e, own) \o Missing(hp, e, own)

Key(e, c) == e.op \o "/" \o c.n
RECURSIVE Tally(_, _, _, _)
Tally(t, e, cs, i) ==
    IF i > Len(cs) THEN t
    ELSE LET k == Key(e, cs[i])
             o == IF k \in DOMAIN t THEN t[k] ELSE << 0, 0 >> IN
         Tally((k :> << o[1] + 1, Max2(o[2], cs[i].q) >>) @@ t, e, cs, i + 1)

Step ==
    /\ l <= Len(Log[sh])
    /\ LET e == Log[sh][l]
           cs == Verdict(heap, e)
           f == {i \in 1..Len(cs) : cs[i].q > 1000} IN
       /\ \A i \in f : PrintT(<< "FAIL", sh, l, e.op, cs[i].n, cs[i].q >>)
       /\ heap' = IF e.op = "new" THEN Empty ELSE NewHeap(heap, e)
       /\ st' = Tally(st, e, cs, 1)
       /\ bad' = bad + Cardinality(f)
       /\ IF l = Len(Log[sh])
          THEN \A k \in DOMAIN st' : PrintT(<< "STAT", k, st'[k][1], st'[k][2] >>)
          ELSE TRUE
    /\ l' = l + 1
    /\ UNCHANGED sh
Spec == Init /\ [][Step]_vars

TypeOK == sh \in 1..K /\ l \in 1..Len(Log[sh]) + 1 /\ bad \in Nat
RECURSIVE Total(_)
Total(s) == IF s = 0 THEN 0 ELSE Len(Log[s]) + Total(s - 1)
\* every event was consumed
Consumed == TLCGet("stats").distinct = Total(K) + K
=============================================================================
