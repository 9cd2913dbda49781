------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Simulation: a number of points, stepped through their modes together.   *)
(* A state is a list of current points (some of which have ended), all in  *)
(* one mode, and a list of waiting points that have taken a transition.    *)
(* Recorded runs of the real simulator are checked step by step, and every *)
(* point against the state sets that the real analysis computes for the    *)
(* same model.                                                             *)
(*                                                                         *)
(* A case is [id, sc, status, exc, log, lines, drawn, views, nodes, cover,  *)
(* avoid, num, skip].                                                       *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils, TLCExt

CONSTANT Dummy
VARIABLES c, i, pre, st, bad

Cases == JsonDeserialize(IOEnv.BATCH)

Tol(v) == DAdd(DRat(1, 1000000), DMul(DRat(1, 1000000), DAbs(v)))
SetTol == DRat(2, 100000)
PtNear(p, q) == DNear(p[1], q[1], Tol(p[1])) /\ DNear(p[2], q[2], Tol(p[2]))

\* does p satisfy the half-planes: "yes", "no", or "open" when it is too close to a border
Sat(H, p) ==
    LET v(h) == DSub(PtDot(<<h[1], h[2]>>, p), h[3])
    IN  IF \E k \in 1..Len(H) : DLt(Delta, v(H[k])) THEN "no"
        ELSE IF \E k \in 1..Len(H) : DLt(DNeg(Delta), v(H[k])) THEN "open"
        ELSE "yes"

\* a current point: where it is, whether it has not moved since it got here, and whether it has left through a transition
None == [on |-> FALSE, steps |-> 0, p |-> PZero, fresh |-> FALSE, left |-> FALSE]
Enter(w) == [on |-> TRUE, steps |-> w.steps, p |-> w.p, fresh |-> TRUE, left |-> FALSE]

------------------------------------------------------------------------------
(* What may become of a point in one step: a set of [kind, t].             *)

Outcomes(sc, pr, m, e) ==
    LET inv == Sat(sc.modes[m].inv, e.p)
        try == IF ~e.fresh THEN "yes" ELSE IF sc.set.urgent THEN inv ELSE "no"     \* may transitions be taken now?
        out == pr.out[m]
        g   == [k \in 1..Len(out) |-> Sat(pr.trans[out[k]].guard, e.p)]
        first(k) == \A j \in 1..(k - 1) : g[j] # "yes"
        jumps == IF try = "no" THEN {} ELSE {k \in 1..Len(out) : g[k] # "no" /\ first(k)}
        forced == try = "yes" /\ \E k \in 1..Len(out) : g[k] = "yes"
        rest == IF forced THEN {}
                ELSE (IF inv # "yes" THEN {[kind |-> "end", t |-> 0]} ELSE {})
                     \cup (IF inv # "no" THEN {[kind |-> "move", t |-> 0]} ELSE {})
    IN  IF e.steps >= Steps(sc) \/ e.left THEN {[kind |-> "end", t |-> 0]}
        ELSE {[kind |-> "jump", t |-> out[k]] : k \in jumps} \cup rest

After(sc, pr, m, e, o) ==
    CASE o.kind = "end"  -> None
      [] o.kind = "move" -> [e EXCEPT !.p = PtMap(pr.modes[m].M, e.p), !.steps = @ + 1, !.fresh = FALSE]
      [] OTHER           -> [e EXCEPT !.p = IF sc.trans[o.t].idr THEN e.p ELSE PtMap(sc.trans[o.t].R, e.p), !.left = TRUE]

\* a recorded point agrees
Agrees(e, r) == /\ r.on = e.on
                /\ e.on => /\ r.steps = e.steps
                           /\ DLe(r.off, SetTol)
                           /\ PtNear(e.p, r.p)

NoEntry(sc, o) == o.kind # "jump" \/ sc.modes[sc.trans[o.t].dst].err

WaitAgrees(w, r) == r.mode = w.mode /\ r.steps = w.steps /\ DLe(r.off, SetTol) /\ PtNear(w.p, r.p)

\* the points from number k on; new: recorded new waiting points not accounted for yet
RECURSIVE StepFrom(_, _, _, _, _, _, _, _)
StepFrom(sc, pr, m, cur, rec, k, new, acc) ==
    IF k > Len(cur) THEN IF new = <<>> THEN [ok |-> TRUE, cur |-> acc.cur, wait |-> acc.wait, bad |-> ""]
                         ELSE [ok |-> FALSE, cur |-> acc.cur, wait |-> acc.wait, bad |-> "sim.jump.extra"]
    ELSE IF ~cur[k].on
         THEN IF rec[k].on THEN [ok |-> FALSE, cur |-> acc.cur, wait |-> acc.wait, bad |-> "sim.revived"]
              ELSE StepFrom(sc, pr, m, cur, rec, k + 1, new, [acc EXCEPT !.cur = Append(@, None)])
    ELSE LET os == Outcomes(sc, pr, m, cur[k])
             entry(o) == [mode |-> sc.trans[o.t].dst, steps |-> cur[k].steps, p |-> After(sc, pr, m, cur[k], o).p]
             fits == {o \in os : /\ Agrees(After(sc, pr, m, cur[k], o), rec[k])
                                 /\ NoEntry(sc, o) \/ (new # <<>> /\ WaitAgrees(entry(o), new[1]))}
             want == {o.kind : o \in os}
             why == IF \A o \in os : ~Agrees(After(sc, pr, m, cur[k], o), rec[k])
                    THEN IF want = {"end"} THEN "sim.end.missed"
                         ELSE IF want = {"move"} THEN IF rec[k].on THEN "sim.move" ELSE "sim.end.early"
                         ELSE IF want = {"jump"} THEN "sim.jump" ELSE "sim.step"
                    ELSE "sim.entry"
             o == CHOOSE o \in fits : \A o2 \in fits : o.kind = "jump" \/ o2.kind # "jump"
         IN  IF fits = {} THEN [ok |-> FALSE, cur |-> acc.cur, wait |-> acc.wait, bad |-> why]
             ELSE StepFrom(sc, pr, m, cur, rec, k + 1, IF NoEntry(sc, o) THEN new ELSE Tail(new),
                           [cur |-> Append(acc.cur, After(sc, pr, m, cur[k], o)),
                            wait |-> IF NoEntry(sc, o) THEN acc.wait ELSE Append(acc.wait, entry(o))])

------------------------------------------------------------------------------

Start(cs) == [mode |-> 0, cur |-> <<>>, wait |-> <<>>, lines |-> <<>>]

\* the points drawn after a step, appended to the lines of the current batch
Drawn(cur, lines) == [k \in 1..Len(cur) |-> IF cur[k].on THEN Append(lines[k], [p |-> cur[k].p, steps |-> cur[k].steps]) ELSE lines[k]]
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* the initial points
First(cs, ev) ==
    LET sc == cs.sc
        box == Relax(sc.init[1].H, DRat(1, 1000000))
        ok(w) == w.mode = sc.init[1].mode /\ w.steps = 0 /\ DLe(w.off, SetTol)
    IN  IF Len(ev.wait) # cs.num THEN [st |-> Start(cs), bad |-> "sim.count"]
        ELSE IF ev.busy THEN [st |-> Start(cs), bad |-> "sim.start"]
        ELSE IF \E k \in 1..Len(ev.wait) : ~ok(ev.wait[k]) \/ Sat(box, ev.wait[k].p) = "no" THEN [st |-> Start(cs), bad |-> "sim.box"]
        ELSE [st |-> [Start(cs) EXCEPT !.wait = [k \in 1..Len(ev.wait) |-> [mode |-> ev.wait[k].mode, steps |-> 0, p |-> ev.wait[k].p]]],
              bad |-> ""]

\* all points that wait in one mode are taken up; a mode to avoid only if there is nothing else
Take(cs, s, ev) ==
    LET sc == cs.sc
        mode(m) == SelectSeq(s.wait, LAMBDA w : w.mode = m)
        rest(m) == SelectSeq(s.wait, LAMBDA w : w.mode # m)
        dull(m) == \E k \in 1..Len(cs.avoid) : cs.avoid[k] = m
        can == {m \in {s.wait[k].mode : k \in 1..Len(s.wait)} : ~dull(m) \/ \A k \in 1..Len(s.wait) : dull(s.wait[k].mode)}
        same(m) == LET ws == mode(m)
                   IN  /\ Len(ev.cur) = Len(ws)
                       /\ \A k \in 1..Len(ws) : Agrees(Enter(ws[k]), ev.cur[k])
        kept(m) == Len(ev.wait) = Len(rest(m)) /\ \A k \in 1..Len(ev.wait) : WaitAgrees(rest(m)[k], ev.wait[k])
        good == {m \in can : same(m) /\ kept(m)}
        m == CHOOSE m \in good : TRUE
        cur == [k \in 1..Len(mode(m)) |-> Enter(mode(m)[k])]
    IN  IF good = {} THEN [st |-> s, bad |-> "sim.pop"]
        ELSE [st |-> [mode |-> m, cur |-> cur, wait |-> rest(m),
                      lines |-> Append(s.lines, Drawn(cur, [k \in 1..Len(cur) |-> <<>>]))], bad |-> ""]

Move(cs, pr, s, ev) ==
    LET base == Len(s.wait)
        n == Len(ev.wait)
        \* when all have ended, there is no list of current points any more
        rec == IF ev.busy THEN ev.cur ELSE [k \in 1..Len(s.cur) |-> [on |-> FALSE]]
    IN  IF Len(rec) # Len(s.cur) THEN [st |-> s, bad |-> "sim.lost"]
        ELSE IF n < base \/ \E k \in 1..base : ~WaitAgrees(s.wait[k], ev.wait[k]) THEN [st |-> s, bad |-> "sim.waiting"]
        ELSE LET r == StepFrom(cs.sc, pr, s.mode, s.cur, rec, 1, SubSeq(ev.wait, base + 1, n), [cur |-> <<>>, wait |-> <<>>])
                 alive == \E k \in 1..Len(r.cur) : r.cur[k].on
             IN  IF ~r.ok THEN [st |-> s, bad |-> r.bad]
                 ELSE [st |-> [mode |-> s.mode, cur |-> IF alive THEN r.cur ELSE <<>>, wait |-> s.wait \o r.wait,
                               lines |-> Append(Front(s.lines), Drawn(r.cur, Last(s.lines)))],
                       bad |-> IF ev.busy # alive THEN "sim.batch" ELSE ""]

------------------------------------------------------------------------------
(* Every point is in a computed state set of its mode and number of steps. *)

InNode(sc, nd, m, e) ==
    /\ nd.alive /\ nd.mode = m
    /\ \E j \in 1..Len(nd.snaps) :
         LET sn == nd.snaps[j]
         IN  /\ nd.lo + sn.k <= e.steps /\ e.steps <= nd.hi + sn.k
             /\ \A d \in 1..Len(sc.dirs) : DLe(PtDot(sc.dirs[d], e.p), DAdd(sn.sup[d], SetTol))

Covered(cs, s) ==
    \A k \in 1..Len(s.cur) :
        LET e == s.cur[k]
        IN  (e.on /\ ~e.left /\ (~e.fresh \/ Sat(cs.sc.modes[s.mode].inv, e.p) = "yes"))
              => \E j \in 1..Len(cs.nodes) : InNode(cs.sc, cs.nodes[j], s.mode, e)

------------------------------------------------------------------------------
(* The lines handed out as the result: for each view, the coordinates of   *)
(* the points.  A coordinate is f = <<a, b, c, t>>: aX + bY + c + t * time. *)

Coord(sc, f, d) == DAdd(DDot(f[1], d.p[1], f[2], d.p[2]), DAdd(f[3], DMul(f[4], DMul(sc.h, DInt(d.steps)))))
LineBad(sc, v, want, got) ==
    \/ Len(want) # Len(got)
    \/ \E k \in 1..Len(want) :
         \/ ~DNear(Coord(sc, v[1], want[k]), got[k][1], SetTol)
         \/ ~DNear(Coord(sc, v[2], want[k]), got[k][2], SetTol)
LinesBad(cs, s) ==
    \/ Len(cs.lines) # Len(cs.views)
    \/ \E v \in 1..Len(cs.views) :
         \/ Len(cs.lines[v]) # Len(s.lines)
         \/ \E b \in 1..Len(s.lines) :
              \/ Len(cs.lines[v][b]) # Len(s.lines[b])
              \/ \E k \in 1..Len(s.lines[b]) : LineBad(cs.sc, cs.views[v], s.lines[b][k], cs.lines[v][b][k])

\* the paths on the canvas of each view: the lines of all batches, one after the other
RECURSIVE AllLines(_)
AllLines(bs) == IF bs = <<>> THEN <<>> ELSE Head(bs) \o AllLines(Tail(bs))
DrawnBad(cs, s) ==
    LET all == AllLines(s.lines)
    IN  \/ Len(cs.drawn) # Len(cs.views)
        \/ \E v \in 1..Len(cs.views) :
             \/ Len(cs.drawn[v]) # Len(all)
             \/ \E k \in 1..Len(all) : LineBad(cs.sc, cs.views[v], all[k], cs.drawn[v][k])

------------------------------------------------------------------------------

Say(cs, cl, det) == PrintT("VERDICT|" \o cs.id \o "|" \o cl \o "|" \o det)

Huge(p) == DLt(DInt(2000), DAbs(p[1])) \/ DLt(DInt(2000), DAbs(p[2]))
TooBig(s) == (\E k \in 1..Len(s.cur) : Huge(s.cur[k].p)) \/ \E k \in 1..Len(s.wait) : Huge(s.wait[k].p)

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ pre = Pre(Cases[c].sc)
        /\ st = Start(Cases[c])
        /\ bad = ""

Next ==
    /\ bad = ""
    /\ LET cs == Cases[c]
       IN  IF i > 0 /\ TooBig(st) THEN bad' = "range" /\ Say(cs, "ok", "range " \o ToString(i)) /\ UNCHANGED <<c, i, pre, st>>
           ELSE IF i = Len(cs.log)
           THEN /\ bad' = "done"
                /\ IF cs.status = "limit" THEN Say(cs, "ok", "limit " \o ToString(i))
                   ELSE IF cs.status # "ok" THEN Say(cs, cs.status, cs.exc)
                   ELSE IF st.cur # <<>> \/ st.wait # <<>> THEN Say(cs, "sim.stop.early", "log ended")
                   ELSE IF LinesBad(cs, st) THEN Say(cs, "sim.lines", "lines of the result")
                   ELSE IF DrawnBad(cs, st) THEN Say(cs, "sim.drawn", "lines on the canvas")
                   ELSE Say(cs, "ok", ToString(i))
                /\ UNCHANGED <<c, i, pre, st>>
           ELSE LET ev == cs.log[i + 1]
                    r == IF i = 0 THEN First(cs, ev)
                         ELSE IF st.cur # <<>> THEN Move(cs, pre, st, ev)
                         ELSE IF st.wait # <<>> THEN Take(cs, st, ev)
                         ELSE [st |-> st, bad |-> "sim.stop.late"]
                    b == IF r.bad # "" THEN r.bad
                         ELSE IF cs.cover /\ ~Covered(cs, r.st) THEN "sim.uncovered" ELSE ""
                IN  /\ i' = i + 1
                    /\ st' = r.st
                    /\ bad' = b
                    /\ (b # "" => Say(cs, b, "event " \o ToString(i + 1)))
                    /\ UNCHANGED <<c, pre>>

Spec == Init /\ [][Next]_<<c, i, pre, st, bad>>
==============================================================================
