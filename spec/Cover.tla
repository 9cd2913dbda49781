-------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* Aggregation and deaggregation never lose an execution, and never invent *)
(* a concrete one.                                                         *)
(*                                                                         *)
(* The specification explores the scenario without any aggregation (every  *)
(* discrete successor is worked on by itself, Engine.tla with agg = none)  *)
(* and demands of every set it meets - mode, steps in the mode, elapsed    *)
(* steps, states - that the finished computation of the real engine        *)
(* covers it: some node that is still part of the computation, after all   *)
(* splitting and replaying, has the mode, the elapsed time and the states. *)
(*                                                                         *)
(* Cases: [id, sc, status, exc, fin, agg, conc, stale, nodes], stale: a     *)
(* set was worked on, or waiting, whose origin was no longer part of the   *)
(* computation; a node being                                               *)
(* [mode, lo, hi, conc, alive, last, ops, snaps], its snapshots            *)
(* [k, sup, off]; lo, hi are the elapsed steps at entry, ops the           *)
(* transitions it was made from.                                           *)
(***************************************************************************)
EXTENDS Engine, Json, IOUtils, TLCExt

VARIABLES c, pre, st, hist, errs, bad
vars == <<c, pre, st, hist, errs, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case  == Cases[c]

\* the same scenario, explored exactly and to the end
Sc == [Case.sc EXCEPT !.set.agg = "none", !.set.stopagg = FALSE, !.set.stopconc = FALSE]

Tol(v) == DAdd(DRat(2, 100000), DMul(DRat(1, 1000000), DAbs(v)))
Covers(snap, P) == \A d \in 1..Len(Sc.dirs) : DLe(Supp(P, Sc.dirs[d]), DAdd(snap.sup[d], Tol(snap.sup[d])))
Within(snap, P) == \A d \in 1..Len(Sc.dirs) : DLe(snap.sup[d], DAdd(Supp(P, Sc.dirs[d]), Tol(snap.sup[d])))

\* a replay goes on to the next step at which something happened, so that a node need not have been seen at every step
CoveredBy(nd, cur) ==
    /\ nd.alive /\ nd.mode = cur.mode
    /\ nd.lo + cur.k <= cur.lo /\ cur.hi <= nd.hi + cur.k
    /\ \/ \E x \in 1..Len(nd.snaps) : nd.snaps[x].k = cur.k /\ Covers(nd.snaps[x], cur.S.L)
       \/ nd.last >= cur.k /\ \A x \in 1..Len(nd.snaps) : nd.snaps[x].k # cur.k

Whole == Case.status = "ok" /\ Case.fin /\ ~(Case.sc.set.stopconc /\ Case.conc) /\ ~(Case.sc.set.stopagg /\ Case.agg)
Uncovered(cur) == Whole /\ cur.has /\ cur.S.L # <<>> /\ \A x \in 1..Len(Case.nodes) : ~CoveredBy(Case.nodes[x], cur)

------------------------------------------------------------------------------
(* the exact exploration *)

InitMeets == [k \in 1..Len(Sc.init) |-> Meet(Exact(FromH(Sc.init[k].H)), Sc.modes[Sc.init[k].mode].inv)]
Start == LET ms == InitMeets
             ks == SelectSeq([k \in 1..Len(Sc.init) |-> k], LAMBDA k : ms[k].can)
         IN  [wait |-> [j \in 1..Len(ks) |-> [id |-> 0, mode |-> Sc.init[ks[j]].mode, lo |-> 0, hi |-> 0, conc |-> TRUE,
                                              S |-> ms[ks[j]].S, par |-> 0, tr |-> 0]],
              cur |-> NoCur, tt |-> "no", agg |-> FALSE, conc |-> FALSE, nn |-> 0]

\* transitions of s.cur: errors it certainly / possibly reaches, successors
Branch(s) ==
    LET may == MayTake(Sc, pre, s.cur)
        must == MustTake(Sc, pre, s.cur)
        er(T) == \E t \in T : Sc.modes[Sc.trans[t].dst].err
    IN  [st |-> TakeFrom(Sc, pre, s, pre.out[s.cur.mode], may), met |-> s.cur, must |-> er(must), can |-> er(may)]

NoBranch(s) == [st |-> s, met |-> s.cur, must |-> FALSE, can |-> FALSE]
Vacant(s) == [s EXCEPT !.cur = NoCur, !.tt = "no"]
Weak(s)  == [s EXCEPT !.cur.S = [L |-> <<>>, U |-> @.U]]      \* nothing is claimed about it any more

PopNext(s) ==
    LET it == Head(s.wait)
        me == Meet(it.S, Sc.modes[it.mode].inv)
        s0 == [s EXCEPT !.wait = Tail(@), !.nn = @ + 1, !.tt = "no"]
        s1 == [s0 EXCEPT !.cur = [has |-> TRUE, mode |-> it.mode, k |-> 0, lo |-> it.lo, hi |-> it.hi, conc |-> TRUE,
                               S |-> Approx(Sc, pre, it.mode, me.S)]]
    IN  IF Sc.modes[it.mode].err THEN NoBranch(s0)
        ELSE IF ~me.can THEN NoBranch(s0)
        ELSE IF Sc.set.urgent THEN Branch(s1) ELSE NoBranch(s1)

StepNext(s) ==
    LET m == s.cur.mode
        me == Meet(s.cur.S, Sc.modes[m].inv)
        f(P) == StepPoly(pre, m, P)
        s1 == [s EXCEPT !.cur.S = Lift(f, me.S), !.cur.k = @ + 1, !.cur.lo = @ + 1, !.cur.hi = @ + 1, !.tt = "no"]
        b  == Branch(IF s.tt = "maybe" THEN Weak(s1) ELSE s1)
        zero == Sc.set.skipzero /\ Sc.modes[m].zero /\ ~Sc.modes[m].hasU
    IN  IF s.cur.lo >= Steps(Sc) \/ s.tt = "yes" \/ ~me.can THEN NoBranch(Vacant(s))
        ELSE IF zero THEN [b EXCEPT !.st = Vacant(b.st)] ELSE b

------------------------------------------------------------------------------
(* at the end *)

\* a concrete node is a set of the exact exploration
Invented(nd) == /\ nd.conc
                /\ \E x \in 1..Len(nd.snaps) :
                     /\ nd.snaps[x].k > 0          \* a replayed node may be seen before the invariant is applied
                     /\ ~\E h \in 1..Len(hist) : /\ hist[h].mode = nd.mode /\ hist[h].k = nd.snaps[x].k
                                              /\ hist[h].lo = nd.lo + hist[h].k /\ hist[h].hi = nd.hi + hist[h].k
                                              /\ hist[h].S.U # <<>> /\ Within(nd.snaps[x], hist[h].S.U)

\* a piece of a node is part of it (if its faces have the same directions)
SameFaces == \/ Case.sc.set.agg = "chull"
             \/ Case.sc.set.agg = "box" /\ (~Sc.set.addguard \/ Sc.set.samepath)
SubOps(a, b) == \A x \in 1..Len(a.ops) : \E y \in 1..Len(b.ops) : a.ops[x] = b.ops[y]
Grown(a, b) == /\ SubOps(a, b) /\ Len(a.ops) < Len(b.ops)
               /\ \E x \in 1..Len(a.snaps) : \E y \in 1..Len(b.snaps) :
                    /\ a.snaps[x].k = b.snaps[y].k /\ a.snaps[x].k > 0
                    /\ \E d \in 1..Len(Sc.dirs) : DLt(DAdd(b.snaps[y].sup[d], Tol(b.snaps[y].sup[d])), a.snaps[x].sup[d])

Ix == 1..Len(Case.nodes)
EndBad ==
    IF Case.status # "ok" THEN Case.status
    ELSE IF Case.stale THEN "deagg.stale"
    ELSE IF Case.conc /\ ~errs.can THEN "deagg.conc.spurious"
    ELSE IF Whole /\ errs.must /\ ~Case.conc /\ (Sc.set.deagg \/ ~Case.agg) THEN "deagg.conc.missing"
    ELSE IF \E x \in Ix : Invented(Case.nodes[x]) THEN "deagg.invented"
    ELSE IF SameFaces /\ \E x, y \in Ix : x # y /\ Grown(Case.nodes[x], Case.nodes[y]) THEN "deagg.grown"
    ELSE ""

Vague == LET ms == InitMeets IN \E k \in 1..Len(Sc.init) : ms[k].can /\ ~ms[k].must
NoInit == LET ms == InitMeets IN \A k \in 1..Len(Sc.init) : ~ms[k].can
Huge(P) == \E j \in 1..Len(P) : DLt(DInt(300), DAbs(P[j][1])) \/ DLt(DInt(300), DAbs(P[j][2]))
TooBig(s) == Huge(s.cur.S.U) \/ s.nn > 160

Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)
Debug == "DEBUG" \in DOMAIN IOEnv
Show(cur) == Debug => PrintT(<<"piece", cur.mode, cur.k, cur.lo, Supports(cur.S.L, Sc.dirs), cur.S.L>>)
Where(cur) == "mode " \o ToString(cur.mode) \o " k " \o ToString(cur.k) \o " at " \o ToString(cur.lo)

Init == /\ c \in 1..Len(Cases)
        /\ pre = Pre(Cases[c].sc)
        /\ st = [nn |-> -1]
        /\ hist = <<>>
        /\ errs = [must |-> FALSE, can |-> FALSE]
        /\ bad = ""

Stop(b) == bad' = b /\ UNCHANGED <<c, pre, st, hist, errs>>

Next ==
    /\ bad = ""
    /\ IF st.nn = -1
       THEN IF Vague \/ NoInit THEN Stop("done") /\ Say("ok", "no or vague initial states")
            ELSE st' = Start /\ UNCHANGED <<c, pre, hist, errs, bad>>
       ELSE IF TooBig(st) THEN Stop("done") /\ Say("ok", "large " \o ToString(st.nn))
       ELSE IF Uncovered(st.cur) THEN Stop("bad") /\ Say("cover.lost", Where(st.cur)) /\ Show(st.cur)
       ELSE IF ~st.cur.has /\ st.wait = <<>>
       THEN LET b == EndBad
            IN  /\ Stop("done")
                /\ IF b = "" THEN Say("ok", ToString(Len(hist)) \o " sets" \o (IF Whole THEN " whole" ELSE ""))
                   ELSE Say(b, IF Case.status # "ok" THEN Case.exc ELSE ToString(Len(hist)))
       ELSE LET r == IF st.cur.has THEN StepNext(st) ELSE PopNext(st)
            IN  /\ st' = r.st
                /\ errs' = [must |-> errs.must \/ r.must, can |-> errs.can \/ r.can]
                /\ hist' = IF r.met.has THEN Append(hist, r.met) ELSE hist
                /\ UNCHANGED <<c, pre, bad>>

Spec == Init /\ [][Next]_vars
==============================================================================
