--------------------------------- MODULE Cex ---------------------------------
(***************************************************************************)
(* A counterexample has to be an execution of the automaton.               *)
(*                                                                         *)
(* The specification walks along the reported counterexample as the hybrid *)
(* automaton itself would move: one state per discrete step of a concrete  *)
(* execution (mode, point), starting in an initial set, until the error    *)
(* mode is entered.  The only nondeterminism of the execution (start,      *)
(* inputs, reset values, when to jump) is resolved by the report; every    *)
(* choice is checked against the automaton.                                *)
(*                                                                         *)
(* Cases: [id, sc, status, exc, kind, conc, want, has, segs, rep, chk]     *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils, TLCExt

VARIABLES c, pre, s, j, p, tot, bad
vars == <<c, pre, s, j, p, tot, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)

Eps == DRat(1, 100000)
Tol(v) == DAdd(Eps, DMul(Eps, DAbs(v)))
Close(a, b) == DLe(DAbs(DSub(a, b)), Tol(b))
CloseP(a, b) == Close(a[1], b[1]) /\ Close(a[2], b[2])

In(q, H) == \A i \in 1..Len(H) :
    DLe(DDot(H[i][1], q[1], H[i][2], q[2]), DAdd(H[i][3], Tol(H[i][3])))

MovePt(M, q) == << DAdd(DDot(M[1][1], q[1], M[1][2], q[2]), M[1][3]),
                   DAdd(DDot(M[2][1], q[1], M[2][2], q[2]), M[2][3]) >>
AddP(a, b) == << DAdd(a[1], b[1]), DAdd(a[2], b[2]) >>

Case == Cases[c]
Seg  == Case.segs[s]
NearZero(x) == DLe(DAbs(x), Eps)

\* one step of the execution, with input u
Flow(sc, m, q, u) ==
    LET x == MovePt(pre.modes[m].M, q)
    IN  IF ~sc.modes[m].hasU THEN x
        ELSE AddP(x, MovePt(InputMap(sc.modes[m].A, sc.modes[m].B, sc.h), u))

InitOk(sc, m, q) == \E k \in 1..Len(sc.init) :
    sc.init[k].mode = m /\ In(q, sc.init[k].H)

------------------------------------------------------------------------------

\* what is wrong with entering segment s at q (reported start) coming from p
EnterBad ==
    LET sc == Case.sc
    IN  IF ~Seg.shape THEN "cex.shape"
        ELSE IF Seg.mode = 0 \/ sc.modes[Seg.mode].err THEN "cex.mode"
        ELSE IF ~NearZero(Seg.soff) THEN "cex.start.off"
        ELSE IF s = 1 /\ ~InitOk(sc, Seg.mode, Seg.start) THEN "cex.start.init"
        ELSE IF ~In(Seg.start, sc.modes[Seg.mode].inv) THEN "cex.start.inv"
        ELSE IF Seg.steps < 0 THEN "cex.steps"
        ELSE IF sc.modes[Seg.mode].hasU /\ Len(Seg.inputs) # Seg.steps THEN "cex.inputs.count"
        ELSE ""

\* what is wrong with step j (counted from 1) of the segment, taken from p
StepBad ==
    LET sc == Case.sc
        m == Seg.mode
    IN  IF ~In(p, sc.modes[m].inv) THEN "cex.inv"
        ELSE IF sc.modes[m].hasU /\ ~In(Seg.inputs[j], sc.modes[m].U) THEN "cex.input"
        ELSE ""

StepTo == Flow(Case.sc, Seg.mode, p, IF Case.sc.modes[Seg.mode].hasU THEN Seg.inputs[j] ELSE <<DZero, DZero>>)

\* what is wrong with leaving segment s at p
LeaveBad ==
    LET sc == Case.sc
        t == Seg.tr
        last == s = Len(Case.segs)
    IN  IF ~NearZero(Seg.eoff) \/ ~CloseP(Seg.end, p) THEN "cex.end"
        ELSE IF tot > Steps(sc) THEN "cex.bound"
        ELSE IF t = 0 \/ sc.trans[t].src # Seg.mode THEN "cex.transition"
        ELSE IF last /\ ~sc.modes[sc.trans[t].dst].err THEN "cex.noerror"
        ELSE IF ~last /\ (sc.modes[sc.trans[t].dst].err \/ Case.segs[s + 1].mode # sc.trans[t].dst) THEN "cex.target"
        ELSE IF ~In(p, pre.trans[t].guard) THEN "cex.guard"
        ELSE IF last THEN ""
        ELSE IF sc.trans[t].mink /\ (~In(Seg.y, sc.trans[t].MC) \/ ~NearZero(Seg.yoff)) THEN "cex.resetvars"
        ELSE IF ~CloseP(Case.segs[s + 1].start,
                        AddP(IF sc.trans[t].idr THEN p ELSE MovePt(sc.trans[t].R, p),
                             IF sc.trans[t].mink THEN MovePt(Aff(sc.trans[t].MD), Seg.y) ELSE <<DZero, DZero>>))
             THEN "cex.reset"
        ELSE ""

------------------------------------------------------------------------------
(* The replay facility: its points and times must be those of the walk.    *)

RECURSIVE WalkSeg(_, _, _)
WalkSeg(m, q, k) == IF k = 0 THEN <<q>> ELSE <<q>> \o WalkSeg(m, MovePt(pre.modes[m].M, q), k - 1)

RECURSIVE WalkFrom(_)
WalkFrom(k) == IF k > Len(Case.segs) THEN <<>>
               ELSE WalkSeg(Case.segs[k].mode, Case.segs[k].start, Case.segs[k].steps) \o WalkFrom(k + 1)

RECURSIVE TimesFrom(_, _)
TimesFrom(k, t0) == IF k > Len(Case.segs) THEN <<>>
                    ELSE [i \in 1..(Case.segs[k].steps + 1) |-> DMul(DInt(t0 + i - 1), Case.sc.h)]
                         \o TimesFrom(k + 1, t0 + Case.segs[k].steps)

ReplayBad ==
    LET r == Case.rep
        w == WalkFrom(1)
        ts == TimesFrom(1, 0)
        n == Len(w)
        t == Case.segs[Len(Case.segs)].tr
        post == IF Case.sc.trans[t].idr THEN w[n] ELSE MovePt(Case.sc.trans[t].R, w[n])
    IN  IF r.status = "none" THEN ""
        ELSE IF r.status # "ok" THEN "replay.exc"
        ELSE IF Len(r.pts) \notin {n, n + 1} \/ Len(r.times) # Len(r.pts) THEN "replay.count"
        ELSE IF \E i \in 1..n : ~CloseP(r.pts[i], w[i]) \/ ~NearZero(r.offs[i]) THEN "replay.points"
        ELSE IF \E i \in 1..n : ~Close(r.times[i], ts[i]) THEN "replay.times"
        ELSE IF Len(r.pts) = n + 1 /\ (~CloseP(r.pts[n + 1], post) \/ ~NearZero(r.offs[n + 1]) \/ ~Close(r.times[n + 1], ts[n])) THEN "replay.last"
        ELSE ""

\* trace checking facility, per segment: the simulated end point and the reported error
CheckBad ==
    LET ks == {i \in 1..Len(Case.chk) : LET k == Case.chk[i]
                 IN  k.status # "ok" \/ ~CloseP(k.last, Case.segs[k.seg].end) \/ ~DLe(k.err, Eps) \/ ~Close(k.time, DMul(DInt(Case.segs[k.seg].steps), Case.sc.h))}
    IN  IF ks = {} THEN "" ELSE IF \E i \in ks : Case.chk[i].status # "ok" THEN "check.exc" ELSE "check.end"

------------------------------------------------------------------------------

Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)

Init == /\ c \in 1..Len(Cases)
        /\ pre = Pre(Cases[c].sc)
        /\ s = 0 /\ j = 0 /\ p = <<DZero, DZero>> /\ tot = 0
        /\ bad = ""

Stop(cl, det) == bad' = cl /\ Say(cl, det) /\ UNCHANGED <<c, pre, s, j, p, tot>>

Begin ==
    /\ s = 0
    /\ IF Case.status # "ok" THEN Stop(Case.status, Case.exc)
       ELSE IF ~Case.has THEN Stop(IF Case.conc /\ Case.want THEN "cex.missing" ELSE "ok", IF Case.conc THEN "not requested" ELSE "no error")
       ELSE IF ~Case.conc THEN Stop("cex.unfounded", "")
       ELSE IF Len(Case.segs) = 0 THEN Stop("cex.empty", "")
       ELSE s' = 1 /\ j' = 0 /\ UNCHANGED <<c, pre, p, tot, bad>>

Enter ==
    /\ s > 0 /\ j = 0
    /\ IF EnterBad # "" THEN Stop(EnterBad, ToString(s))
       ELSE p' = Seg.start /\ j' = 1 /\ UNCHANGED <<c, pre, s, tot, bad>>

Step ==
    /\ s > 0 /\ j > 0 /\ j <= Seg.steps
    /\ IF StepBad # "" THEN Stop(StepBad, ToString(<<s, j>>))
       ELSE p' = StepTo /\ j' = j + 1 /\ tot' = tot + 1 /\ UNCHANGED <<c, pre, s, bad>>

Leave ==
    /\ s > 0 /\ j > Seg.steps
    /\ IF LeaveBad # "" THEN Stop(LeaveBad, ToString(s))
       ELSE IF s < Len(Case.segs) THEN s' = s + 1 /\ j' = 0 /\ UNCHANGED <<c, pre, p, tot, bad>>
       ELSE IF ReplayBad # "" THEN Stop(ReplayBad, Case.rep.exc)
       ELSE IF CheckBad # "" THEN Stop(CheckBad, "")
       ELSE Stop("ok", ToString(Len(Case.segs)))

Next == bad = "" /\ (Begin \/ Enter \/ Step \/ Leave)
Spec == Init /\ [][Next]_vars
==============================================================================
