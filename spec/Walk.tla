-------------------------------- MODULE Walk --------------------------------
(***************************************************************************)
(* Executions (Exec.tla) against computed sets: every state of every       *)
(* execution is in a set that belongs to the computation, with its mode,   *)
(* its steps in the mode and its elapsed time; and no execution gets to an *)
(* error mode unless an error is reported.                                 *)
(*                                                                         *)
(* The sets are those of a finished run of the real code (Own = FALSE), or *)
(* those that Engine.tla computes itself, popping in any order it allows   *)
(* (Own = TRUE): then this is a check of the specification.                *)
(*                                                                         *)
(* Cases as in Cover.tla.  Walkers executions are followed per case, each  *)
(* by its own sequence of choices (All = FALSE); or all of them.           *)
(***************************************************************************)
EXTENDS Engine, Exec, Json, IOUtils, TLCExt, SequencesExt

CONSTANTS Own, All, Walkers
VARIABLES c, w, pre, nodes, x, bad
vars == <<c, w, pre, nodes, x, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case  == Cases[c]
Sc    == Case.sc

Tol(v) == DAdd(DRat(2, 100000), DMul(DRat(1, 1000000), DAbs(v)))

\* the choice number n of walker v
Rand(v, n) == ((v * 7919 + n * 10007 + (v % 97) * (n % 89) * 31) \div 7) % 8191

------------------------------------------------------------------------------
(* The specification's own computation: a sequence of sets it worked on.   *)

InitMeets == [k \in 1..Len(Sc.init) |-> Meet(Exact(FromH(Sc.init[k].H)), Sc.modes[Sc.init[k].mode].inv)]
Vague == LET ms == InitMeets IN \E k \in 1..Len(Sc.init) : ms[k].can /\ ~ms[k].must
NoInit == LET ms == InitMeets IN \A k \in 1..Len(Sc.init) : ~ms[k].can

OwnStart ==
    LET ms == InitMeets
        ks == SelectSeq([k \in 1..Len(Sc.init) |-> k], LAMBDA k : ms[k].can)
    IN  [wait |-> [j \in 1..Len(ks) |-> [id |-> j, mode |-> Sc.init[ks[j]].mode, lo |-> 0, hi |-> 0, conc |-> TRUE,
                                         S |-> ms[ks[j]].S, par |-> 0, tr |-> 0]],
         cur |-> NoCur, tt |-> "no", agg |-> FALSE, conc |-> FALSE, nn |-> 0]

Gone(s) == [s EXCEPT !.cur = NoCur, !.tt = "no"]

\* only what has to be taken is taken
Branch(p, s) == TakeFrom(Sc, p, s, p.out[s.cur.mode], MustTake(Sc, p, s.cur))

OwnPop(p, s, v) ==
    LET ch == PopChoices(Sc, s.wait)
        g  == IF Cardinality(ch) = 1 THEN CHOOSE y \in ch : TRUE
              ELSE LET q == SetToSeq(ch) IN q[(Rand(v, s.nn) % Len(q)) + 1]
        is == LET q == SeqOf(g) IN [j \in 1..Len(q) |-> s.wait[q[j]]]
        rest == SelectSeq([j \in 1..Len(s.wait) |-> j], LAMBDA j : j \notin g)
        m  == Merge(Sc, p, is)
        me == Meet(m.S, Sc.modes[m.mode].inv)
        s0 == [s EXCEPT !.wait = [j \in 1..Len(rest) |-> s.wait[rest[j]]], !.nn = @ + 1, !.tt = "no"]
        s1 == [s0 EXCEPT !.cur = [m EXCEPT !.S = Approx(Sc, p, m.mode, me.S)]]
    IN  IF Sc.modes[m.mode].err \/ ~me.can THEN [st |-> s0, met |-> NoCur]
        ELSE [st |-> IF Sc.set.urgent THEN Branch(p, s1) ELSE s1, met |-> s1.cur]

OwnStep(p, s, v) ==
    LET m == s.cur.mode
        me == Meet(s.cur.S, Sc.modes[m].inv)
        f(P) == StepPoly(p, m, P)
        s1 == [s EXCEPT !.cur.S = Lift(f, me.S), !.cur.k = @ + 1, !.cur.lo = @ + 1, !.cur.hi = @ + 1, !.tt = "no"]
        b  == Branch(p, s1)
        zero == Sc.set.skipzero /\ Sc.modes[m].zero /\ ~Sc.modes[m].hasU
    IN  IF s.cur.lo >= Steps(Sc) \/ s.tt = "yes" \/ (s.tt = "maybe" /\ Rand(v, s.nn + s.cur.k) % 2 = 0) \/ ~me.can
        THEN [st |-> Gone(s), met |-> NoCur]
        ELSE [st |-> IF zero THEN Gone(b) ELSE b, met |-> s1.cur]

NodeOf(cur) == [mode |-> cur.mode, lo |-> cur.lo - cur.k, hi |-> cur.hi - cur.k, alive |-> TRUE, last |-> cur.k,
                snaps |-> <<[k |-> cur.k, sup |-> IF cur.S.L = <<>> THEN <<>> ELSE Supports(cur.S.L, Sc.dirs)]>>]

Huge(P) == \E j \in 1..Len(P) : DLt(DInt(300), DAbs(P[j][1])) \/ DLt(DInt(300), DAbs(P[j][2]))

RECURSIVE OwnRun(_, _, _, _)
OwnRun(p, s, v, acc) ==
    IF Finished(Sc, s) THEN [nodes |-> acc, fin |-> TRUE, agg |-> s.agg, conc |-> s.conc]
    ELSE IF s.nn > 60 \/ Huge(s.cur.S.U) THEN [nodes |-> acc, fin |-> FALSE, agg |-> s.agg, conc |-> s.conc]
    ELSE LET r == TLCEval(IF s.cur.has THEN OwnStep(p, s, v) ELSE OwnPop(p, s, v))
         IN  OwnRun(p, r.st, v, IF r.met.has THEN TLCEval(Append(acc, NodeOf(r.met))) ELSE acc)

------------------------------------------------------------------------------

\* what has been computed: [nodes, fin, agg, conc]
Computed(p, v) == IF Own THEN OwnRun(p, OwnStart, v, <<>>)
                  ELSE [nodes |-> Case.nodes, fin |-> Case.fin, agg |-> Case.agg, conc |-> Case.conc]

Whole == nodes.fin /\ ~(Sc.set.stopconc /\ nodes.conc) /\ ~(Sc.set.stopagg /\ nodes.agg)

Holds(sup, p) == \A d \in 1..Len(Sc.dirs) : DLe(PtDot(Sc.dirs[d], p), DAdd(sup[d], Tol(sup[d])))
CoveredAt(nd, m, k, t, p) ==
    /\ nd.alive /\ nd.mode = m
    /\ nd.lo + k <= t /\ t <= nd.hi + k
    /\ \/ \E j \in 1..Len(nd.snaps) : nd.snaps[j].k = k /\ nd.snaps[j].sup # <<>> /\ Holds(nd.snaps[j].sup, p)
       \/ ~Own /\ nd.last >= k /\ \A j \in 1..Len(nd.snaps) : nd.snaps[j].k # k
Covered(m, k, t, p) == \E j \in 1..Len(nodes.nodes) : CoveredAt(nodes.nodes[j], m, k, t, p)

\* an approximation model: the set at a step stands for everything until the next one
Between(y) ==
    LET md == pre.modes[y.mode]
        at(j) == LET q == PtMap(md.fine[j].M, y.p) g == md.fine[j].G IN IF g = <<>> THEN q ELSE PtAdd(q, g[(Rand(w, y.n) % Len(g)) + 1])
        nxt == Moves(Sc, pre, y)
    IN  CASE Sc.set.approx = "lgg"   -> [j \in 1..Len(md.fine) |-> at(j)]
          [] Sc.set.approx = "chull" -> [j \in 1..Len(nxt) |-> nxt[j].p]
          [] OTHER -> <<>>

Lost(y) ==
    /\ Whole
    /\ y.k > 0 \/ Side(Sc.modes[y.mode].inv, y.p) = "yes"
    /\ \/ ~Covered(y.mode, y.k, y.t, y.p)
       \/ /\ Side(Sc.modes[y.mode].inv, y.p) = "yes" /\ y.t < Steps(Sc)
          /\ LET b == Between(y) IN \E j \in 1..Len(b) : ~Covered(y.mode, y.k, y.t, b[j])

\* the next states that walker v may choose from, jumps preferred half of the time
Options(y) ==
    LET js == TLCEval(Jumps(Sc, pre, y))
        ms == TLCEval(Moves(Sc, pre, y))
    IN  IF All THEN js \o ms
        ELSE LET o == IF js # <<>> /\ (ms = <<>> \/ Rand(w, 3 * y.n + 1) % 2 = 0) THEN js ELSE ms
             IN  IF o = <<>> THEN <<>> ELSE <<o[(Rand(w, y.n) % Len(o)) + 1]>>

Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)
Where(y) == "walker " \o ToString(w) \o " mode " \o ToString(y.mode) \o " k " \o ToString(y.k) \o " at " \o ToString(y.t)
            \o " choices " \o ToString(y.n) \o (IF bad = "" THEN "" ELSE " " \o bad)

AllStarts == LET RECURSIVE F(_) F(k) == IF k > Len(Sc.init) THEN <<>> ELSE Starts(Sc, k) \o F(k + 1) IN F(1)

Init == /\ c \in 1..Len(Cases)
        /\ w = 0
        /\ pre = <<>>
        /\ nodes = <<>>
        /\ x = [mode |-> 0]
        /\ bad = ""

Stop(b) == bad' = b /\ UNCHANGED <<c, w, pre, nodes, x>>

\* all walkers of a case set out together
Begin ==
    IF Vague \/ NoInit THEN Stop("done") /\ Say("ok", "no or vague initial states")
    ELSE IF Case.status # "ok" THEN Stop(Case.status) /\ Say(Case.status, Case.exc)
    ELSE LET p == TLCEval(Pre(Sc))
             ss == TLCEval(AllStarts)
         IN  IF ss = <<>> THEN Stop("done") /\ Say("ok", "no initial states")
             ELSE \E v \in 1..Walkers :
                  /\ w' = v
                  /\ pre' = p
                  /\ nodes' = Computed(p, v)
                  /\ IF All THEN \E j \in 1..Len(ss) : x' = ss[j] ELSE x' = ss[((v + Rand(v, 0)) % Len(ss)) + 1]
                  /\ UNCHANGED <<c, bad>>

Walk ==
    LET o == Options(x)
    IN  IF Lost(x) THEN Stop("lost") /\ Say("walk.lost", Where(x))
        ELSE IF x.n > 60 \/ DLt(DInt(300), DAbs(x.p[1])) \/ DLt(DInt(300), DAbs(x.p[2])) THEN Stop("done") /\ Say("ok", "far")
        ELSE IF o = <<>>
        THEN /\ Stop("done")
             /\ Say("ok", IF x.n > x.t THEN "jumped" ELSE ToString(x.n))
        ELSE \E j \in 1..Len(o) :
             IF Sc.modes[o[j].mode].err
             THEN /\ Stop("done")
                  /\ IF nodes.fin /\ ~nodes.agg /\ ~nodes.conc THEN Say("walk.error.missed", Where(x)) ELSE Say("ok", "error")
             ELSE x' = o[j] /\ UNCHANGED <<c, w, pre, nodes, bad>>

Next == bad = "" /\ IF x.mode = 0 THEN Begin ELSE Walk

View == <<c, w, x, bad>>

Spec == Init /\ [][Next]_vars
==============================================================================
