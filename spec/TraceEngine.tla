----------------------------- MODULE TraceEngine -----------------------------
(***************************************************************************)
(* Checks recorded runs of the real engine against Engine.tla.             *)
(*                                                                         *)
(* A batch is a sequence of cases [id, sc, log, status, exc, views, data,  *)
(* asks].  Every case                                                      *)
(* is one initial state; its behaviour walks through the log, one event    *)
(* per step of the real engine, and ends with one verdict line:            *)
(*    "VERDICT|id|ok|..." or "VERDICT|id|<clause>|event ..."               *)
(* The specification keeps its own engine state; the log only decides what *)
(* the specification leaves open (which item of several equal ones is      *)
(* popped; contacts closer than Delta).                                    *)
(***************************************************************************)
EXTENDS Engine, Draw, Json, IOUtils, TLCExt

CONSTANT Dummy
VARIABLES c, i, pre, st, drawn, bad
vars == <<c, i, pre, st, drawn, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)

Tol(v) == DAdd(DRat(2, 100000), DMul(DRat(1, 1000000), DAbs(v)))

------------------------------------------------------------------------------
(* comparison of a recorded set with the bounds *)

RECURSIVE FirstBad(_, _, _, _)
FirstBad(S, rec, D, j) ==
    IF j > Len(D) THEN ""
    ELSE LET v == rec.sup[j]
         IN  IF S.L # <<>> /\ DLt(DAdd(v, Tol(v)), Supp(S.L, D[j])) THEN "lower"
             ELSE IF S.U = <<>> \/ DLt(DAdd(Supp(S.U, D[j]), Tol(v)), v) THEN "upper"
             ELSE FirstBad(S, rec, D, j + 1)

SetBad(sc, S, rec) ==
    IF DLt(Tol(DOne), rec.off) THEN "off"
    ELSE FirstBad(S, rec, sc.dirs, 1)

Ok(s)      == [st |-> s, bad |-> ""]
Bad(s, cl) == [st |-> s, bad |-> cl]

ItemBad(sc, it, rec) ==
    IF rec.mode # it.mode \/ rec.tr # it.tr THEN "succ.mode"
    ELSE IF rec.lo # it.lo \/ rec.hi # it.hi THEN "succ.time"
    ELSE IF rec.k # 0 THEN "succ.time"
    ELSE IF rec.conc # it.conc THEN "succ.conc"
    ELSE LET b == SetBad(sc, it.S, rec) IN IF b = "" THEN "" ELSE "succ." \o b

RECURSIVE ItemsBad(_, _, _, _)
ItemsBad(sc, its, recs, j) ==
    IF j > Len(its) THEN ""
    ELSE LET b == ItemBad(sc, its[j], recs[j]) IN IF b # "" THEN b ELSE ItemsBad(sc, its, recs, j + 1)

CurBad(sc, cur, rec) ==
    IF rec.mode # cur.mode THEN "cur.mode"
    ELSE IF rec.k # cur.k \/ rec.lo # cur.lo \/ rec.hi # cur.hi THEN "cur.time"
    ELSE IF rec.conc # cur.conc THEN "cur.conc"
    ELSE LET b == SetBad(sc, cur.S, rec) IN IF b = "" THEN "" ELSE "cur." \o b

Prefix(b, p) == IF b = "" THEN "" ELSE p \o b

------------------------------------------------------------------------------
(* verdict flags, end of the analysis *)

FlagsBad(sc, s, ev) ==
    IF ev.agg # s.agg THEN IF s.agg THEN "verdict.agg.missing" ELSE "verdict.agg.spurious"
    ELSE IF ev.conc # s.conc THEN IF s.conc THEN "verdict.conc.missing" ELSE "verdict.conc.spurious"
    ELSE IF ev.fin # Finished(sc, s) THEN IF ev.fin THEN "stop.early" ELSE "stop.late"
    ELSE ""

\* the engine state s is what the specification expects after the event; base is the
\* length of the waiting list before new items; compare, and give new items their recorded ids
Conclude(sc, s, ev, base, pfx) ==
    LET fl == FlagsBad(sc, s, ev)
        nnew == Len(s.wait) - base
        ids == [j \in 1..Len(ev.new) |-> ev.new[j].id]
        cut == (sc.set.stopagg /\ s.agg) \/ (sc.set.stopconc /\ s.conc)
    IN  IF fl # "" THEN Bad(s, fl)
        ELSE IF cut THEN Ok(s)                        \* analysis was stopped by a verdict
        ELSE IF ev.cur.has # s.cur.has THEN Bad(s, IF s.cur.has THEN pfx \o "left.early" ELSE pfx \o "left.late")
        ELSE IF Len(ev.new) # nnew THEN Bad(s, "worklist.size")
        ELSE IF ev.wait # [j \in 1..base |-> s.wait[j].id] \o ids THEN Bad(s, "worklist.content")
        ELSE LET b1 == IF s.cur.has THEN CurBad(sc, s.cur, ev.cur) ELSE ""
                 b2 == ItemsBad(sc, SubSeq(s.wait, base + 1, Len(s.wait)), ev.new, 1)
             IN  IF b1 # "" THEN Bad(s, pfx \o b1)
                 ELSE IF b2 # "" THEN Bad(s, b2)
                 ELSE Ok([s EXCEPT !.wait = [j \in 1..Len(s.wait) |->
                            IF j <= base THEN s.wait[j] ELSE [s.wait[j] EXCEPT !.id = ids[j - base]]]])

\* take the transitions of the current set: the recorded choice has to lie between must and may
Guards(sc, pr, s, ev, base, pfx, zero) ==
    LET must == MustTake(sc, pr, s.cur)
        may  == MayTake(sc, pr, s.cur)
        trs  == {ev.new[j].tr : j \in 1..Len(ev.new)}
        \* error transitions whose successor is not recorded because the analysis ended
        stopped == ev.fin /\ (ev.agg \/ ev.conc)
        errs == {t \in may : sc.modes[sc.trans[t].dst].err}
        en   == IF stopped THEN must \cup (trs \cap may) \cup
                      (IF \E t \in must : t \in errs THEN {} ELSE errs)
                ELSE trs
        s1 == TakeFrom(sc, pr, s, pr.out[s.cur.mode], en)
        s2 == IF zero THEN [s1 EXCEPT !.cur = NoCur, !.tt = "no"] ELSE s1
    IN  IF ~stopped /\ ~(must \subseteq trs) THEN Bad(s1, "guard.missed")
        ELSE IF ~(trs \subseteq may) THEN Bad(s1, "guard.spurious")
        ELSE Conclude(sc, s2, ev, base, pfx)

------------------------------------------------------------------------------
(* the events *)

InitItem(sc, k, S) == [id |-> 0, mode |-> sc.init[k].mode, lo |-> 0, hi |-> 0, conc |-> TRUE, S |-> S, par |-> 0, tr |-> 0]

Empty == [wait |-> <<>>, cur |-> NoCur, tt |-> "no", agg |-> FALSE, conc |-> FALSE, nn |-> 0]

InitMeets(sc) == [k \in 1..Len(sc.init) |-> Meet(Exact(FromH(sc.init[k].H)), sc.modes[sc.init[k].mode].inv)]

Setup(sc, ev) ==
    LET ms == InitMeets(sc)
        keep == SelectSeq([k \in 1..Len(sc.init) |-> k], LAMBDA k : ms[k].can)
        s == [Empty EXCEPT !.wait = [j \in 1..Len(keep) |-> InitItem(sc, keep[j], ms[keep[j]].S)]]
    IN  Conclude(sc, s, ev, 0, "setup.")

Pop(sc, pr, s, ev) ==
    LET n == Len(s.wait)
        left == {ev.wait[j] : j \in 1..Len(ev.wait)}
        gone == {j \in 1..n : s.wait[j].id \notin left}
        gseq == SeqOf(gone)
        items == [j \in 1..Len(gseq) |-> s.wait[gseq[j]]]
        rest == SelectSeq(s.wait, LAMBDA it : it.id \in left)
        s0 == [s EXCEPT !.wait = rest, !.nn = @ + 1, !.tt = "no"]
        base == Len(rest)
    IN  IF gone = {} THEN Bad(s, "pop.none")
        ELSE IF gone \notin PopChoices(sc, s.wait) THEN Bad(s, "pop.choice")
        ELSE IF sc.modes[items[1].mode].err THEN Conclude(sc, s0, ev, base, "pop.")
        ELSE LET m == Merge(sc, pr, items)
                 me == Meet(m.S, sc.modes[m.mode].inv)
                 agg == IF Len(items) > 1 THEN "agg." ELSE "pop."
                 S2 == Approx(sc, pr, m.mode, me.S)
                 s1 == [s0 EXCEPT !.cur = [m EXCEPT !.S = S2]]
                 stay == ev.cur.has \/ Len(ev.new) > 0
             IN  IF ~me.can \/ (~stay /\ ~me.must) THEN Conclude(sc, s0, ev, base, agg)
                 ELSE IF ~FineOk(sc, pr, m.mode, me.S, S2) THEN Bad(s1, "spec.fine")
                 ELSE IF sc.set.urgent THEN Guards(sc, pr, s1, ev, base, agg, FALSE)
                 ELSE Conclude(sc, s1, ev, base, agg)

StepOn(sc, pr, s, ev) ==
    LET base == Len(s.wait)
        gone == [s EXCEPT !.cur = NoCur, !.tt = "no"]
        m == s.cur.mode
        me == Meet(s.cur.S, sc.modes[m].inv)
        f(P) == StepPoly(pr, m, P)
        nxt == [s EXCEPT !.cur.S = Lift(f, me.S), !.cur.k = @ + 1, !.cur.lo = @ + 1, !.cur.hi = @ + 1, !.tt = "no"]
        zero == sc.set.skipzero /\ sc.modes[m].zero /\ ~sc.modes[m].hasU
        moved == ev.cur.has \/ Len(ev.new) > 0 \/ ev.agg # s.agg \/ ev.conc # s.conc
    IN  IF s.cur.lo >= Steps(sc) THEN Conclude(sc, gone, ev, base, "bound.")
        ELSE IF s.tt = "yes" \/ (s.tt = "maybe" /\ ~ev.cur.has) THEN Conclude(sc, gone, ev, base, "tt.")
        ELSE IF ~me.can THEN Conclude(sc, gone, ev, base, "inv.")
        ELSE IF ~me.must /\ ~moved THEN Conclude(sc, gone, ev, base, "inv.")
        ELSE Guards(sc, pr, nxt, ev, base, IF zero THEN "zero." ELSE "step.", zero)

EventStep(sc, pr, s, ev, k) ==
    IF k = 1 THEN Setup(sc, ev)
    ELSE IF Finished(sc, s) THEN Bad(s, "step.after.end")
    ELSE IF s.cur.has THEN StepOn(sc, pr, s, ev)
    ELSE Pop(sc, pr, s, ev)

------------------------------------------------------------------------------

\* initial sets for which it is open whether they are empty: the case says nothing
Vague(sc) == LET ms == InitMeets(sc) IN \E k \in 1..Len(sc.init) : ms[k].can /\ ~ms[k].must
NoInit(sc) == LET ms == InitMeets(sc) IN \A k \in 1..Len(sc.init) : ~ms[k].can

Debug == "DEBUG" \in DOMAIN IOEnv
Dump(sc, r, ev) ==
    Debug => /\ PrintT(<<"expected", r.st, [d \in 1..Len(sc.dirs) |->
                           IF r.st.cur.S.U = <<>> THEN DZero ELSE Supp(r.st.cur.S.U, sc.dirs[d])]>>)
             /\ PrintT(<<"recorded", ev>>)

\* values beyond the range of the model's bounding box: nothing more is said about the run
Huge(P) == \E j \in 1..Len(P) : DLt(DInt(300), DAbs(P[j][1])) \/ DLt(DInt(300), DAbs(P[j][2]))
TooBig(s) == Huge(s.cur.S.U) \/ \E j \in 1..Len(s.wait) : Huge(s.wait[j].S.U)

(* plot data: views[v][mode] is a view, data[v][mode] the stored polygons [k, verts] in the order in which they were    *)
(* stored; every set that is current after an event is drawn once in every view                                        *)

RECURSIVE DrawnBad(_, _, _, _)
DrawnBad(cs, s, n, v) ==
    IF v > Len(cs.views) THEN ""
    ELSE LET m == s.cur.mode
             d == cs.data[v][m]
             b == IF n > Len(d) THEN "plot.missing"
                  ELSE IF d[n].k # s.cur.k THEN "plot.step"
                  ELSE IF s.cur.S.U = <<>> THEN ""
                  ELSE DrawBad(cs.views[v][m], d[n].verts, s.cur.S.L, s.cur.S.U, DMul(DInt(s.cur.lo), cs.sc.h), DMul(DInt(s.cur.hi), cs.sc.h))
         IN  IF b # "" THEN b ELSE DrawnBad(cs, s, n, v + 1)

\* nothing else is stored, and points are found in the polygons they are in
AskBad(cs, a) ==
    LET d == cs.data[a.v]
        tol == DMul(DRat(1, 1000000), DAdd(DOne, DAdd(DAbs(a.p[1]), DAbs(a.p[2]))))
        in(m, n, what) == Within(d[m][n].verts, a.p, tol) \in what
    IN  IF a.found THEN IF \E n \in 1..Len(d[a.mode]) : d[a.mode][n].k = a.k /\ in(a.mode, n, {"yes", "open"}) THEN "" ELSE "plot.query.wrong"
        ELSE IF \E m \in 1..Len(d) : \E n \in 1..Len(d[m]) : in(m, n, {"yes"}) THEN "plot.query.missed" ELSE ""

StoreBad(cs, dr) ==
    IF \E v \in 1..Len(cs.views) : \E m \in 1..Len(dr) : Len(cs.data[v][m]) # dr[m] THEN "plot.extra"
    ELSE LET bs == {AskBad(cs, cs.asks[k]) : k \in 1..Len(cs.asks)} \ {""}
         IN  IF bs = {} THEN "" ELSE CHOOSE b \in bs : TRUE

Say(cs, cl, det) == PrintT("VERDICT|" \o cs.id \o "|" \o cl \o "|" \o det)

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ pre = Pre(Cases[c].sc)
        /\ st = Empty
        /\ drawn = [m \in 1..Len(Cases[c].sc.modes) |-> 0]
        /\ bad = ""

Next ==
    /\ bad = ""
    /\ LET cs == Cases[c]
           sc == cs.sc
       IN  IF i = 0 /\ Vague(sc)
           THEN bad' = "vague" /\ Say(cs, "ok", "vague") /\ UNCHANGED <<c, i, pre, st, drawn>>
           ELSE IF i = 0 /\ NoInit(sc)
           THEN /\ bad' = "done"
                /\ IF cs.status = "exc" /\ cs.kind = "RuntimeError" /\ Len(cs.log) = 0
                   THEN Say(cs, "ok", "no initial states") ELSE Say(cs, "setup.noinit", cs.exc)
                /\ UNCHANGED <<c, i, pre, st, drawn>>
           ELSE IF i = Len(cs.log)
           THEN /\ bad' = "done"
                /\ IF cs.status = "limit" THEN Say(cs, "ok", "limit " \o ToString(i))
                   ELSE IF cs.status # "ok" THEN Say(cs, cs.status, cs.exc)
                   ELSE IF ~Finished(sc, st) THEN Say(cs, "stop.early", "log ended")
                   ELSE LET b == StoreBad(cs, drawn) IN IF b # "" THEN Say(cs, b, "end") ELSE Say(cs, "ok", ToString(i))
                /\ UNCHANGED <<c, i, pre, st, drawn>>
           ELSE IF i > 0 /\ TooBig(st)
           THEN bad' = "range" /\ Say(cs, "ok", "range " \o ToString(i)) /\ UNCHANGED <<c, i, pre, st, drawn>>
           ELSE LET r == EventStep(sc, pre, st, cs.log[i + 1], i + 1)
                    s  == r.st
                    d1 == IF r.bad = "" /\ s.cur.has /\ cs.views # <<>> THEN [drawn EXCEPT ![s.cur.mode] = @ + 1] ELSE drawn
                    b  == IF d1 = drawn THEN r.bad ELSE DrawnBad(cs, s, d1[s.cur.mode], 1)
                IN  /\ i' = i + 1
                    /\ st' = s
                    /\ drawn' = d1
                    /\ bad' = b
                    /\ (b # "" => Say(cs, b, ToString(i + 1)) /\ Dump(sc, r, cs.log[i + 1]))
                    /\ UNCHANGED <<c, pre>>

Spec == Init /\ [][Next]_vars
==============================================================================
