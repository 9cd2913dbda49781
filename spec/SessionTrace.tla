---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* What was seen of several analyses in one process, against what is seen  *)
(* of each of them alone.                                                  *)
(*                                                                         *)
(* A case follows a schedule of Session, operation by operation.  Each run *)
(* has a position in what is seen of it alone, which every operation moves *)
(* on: nothing but the own operations of a run may have an influence.      *)
(*                                                                         *)
(* A view is [st, d, v]: "ok" or the error, the whole numbers (steps,      *)
(* modes, identifiers of operations, verdicts), the decimals (supports,    *)
(* points).                                                                *)
(* A case is [id, kind, aut, sched, status, exc, solo, left, seen, after,  *)
(* end, given]: per run, the views alone, and of the result in the end;    *)
(* per operation, the views in the session; per run, the view of the       *)
(* result when it was over and at the end of the session; whether the      *)
(* arrays of the user are as they were given.                              *)
(***************************************************************************)
EXTENDS Session, Dec, Json, IOUtils

VARIABLES c, i, pos, bad
tvars == <<kind, aut, st, steps, prep, hist, c, i, pos, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)

Tol == DRat(2, 1000000)
Close(x, y) == DNear(x, y, DAdd(Tol, DMul(Tol, DAbs(x))))

\* how two views differ
Differ(a, b) ==
    IF a.st # b.st THEN IF a.st = "ok" \/ b.st = "ok" THEN "outcome" ELSE "error"
    ELSE IF a.d # b.d \/ Len(a.v) # Len(b.v) THEN "steps"
    ELSE IF \E j \in 1..Len(a.v) : ~Close(a.v[j], b.v[j]) THEN "sets"
    ELSE ""

\* the first difference between what is seen now and what is seen alone
RECURSIVE First(_, _, _, _)
First(seen, solo, at, j) ==
    IF j > Len(seen) THEN ""
    ELSE IF at + j > Len(solo) THEN "more"
    ELSE LET d == Differ(solo[at + j], seen[j]) IN IF d # "" THEN d ELSE First(seen, solo, at, j + 1)

Say(cs, cl, det) == PrintT("VERDICT|" \o cs.id \o "|" \o cl \o "|" \o det)

TInit == /\ c \in 1..Len(Cases)
         /\ kind = Cases[c].kind /\ aut = Cases[c].aut
         /\ st = [r \in 1..Len(kind) |-> "new"]
         /\ steps = [r \in 1..Len(kind) |-> 0]
         /\ prep = [a \in 1..Automata |-> 0]
         /\ hist = <<>>
         /\ i = 0 /\ bad = ""
         /\ pos = [r \in 1..Len(kind) |-> 0]

Act(op, r) ==
    \/ op = "make" /\ Make(r)
    \/ op = "begin" /\ Begin(r)
    \/ op \in {"run", "sim"} /\ op = kind[r] /\ Whole(r)
    \/ op = "step" /\ Step(r)
    \/ op = "finish" /\ Finish(r)
    \/ op = "drop" /\ Drop(r)

Last(cs) ==
    LET rs == 1..Len(cs.kind)
        moved == {r \in rs : Differ(cs.after[r], cs.end[r]) # ""}
        other == {r \in rs : st[r] = "done" /\ Differ(cs.left[r], cs.end[r]) # ""}
    IN  IF ~cs.given THEN "session.model"
        ELSE IF moved # {} THEN "session.disturbed"
        ELSE IF other # {} THEN "session.result"
        ELSE ""

TNext ==
    /\ bad = ""
    /\ LET cs == Cases[c]
       IN  IF cs.status # "ok"
           THEN /\ bad' = "done" /\ Say(cs, IF cs.status \in {"hang", "crash"} THEN "session." \o cs.status ELSE "ok", cs.status \o cs.exc)
                /\ UNCHANGED <<kind, aut, st, steps, prep, hist, c, i, pos>>
           ELSE IF i = Len(cs.sched)
           THEN LET b == Last(cs)
                IN  /\ bad' = "done" /\ Say(cs, IF b = "" THEN "ok" ELSE b, ToString(pos))
                    /\ UNCHANGED <<kind, aut, st, steps, prep, hist, c, i, pos>>
           ELSE LET op == cs.sched[i + 1][1]
                    r == cs.sched[i + 1][2]
                    seen == cs.seen[i + 1]
                    f == First(seen, cs.solo[r], pos[r], 1)
                    \* what has been run to its end must have shown everything
                    b == IF f # "" THEN f
                         ELSE IF op \in {"finish", "run", "sim"} /\ pos[r] + Len(seen) # Len(cs.solo[r]) THEN "less"
                         ELSE ""
                IN  /\ Act(op, r)
                    /\ i' = i + 1 /\ pos' = [pos EXCEPT ![r] = @ + Len(seen)]
                    /\ bad' = b /\ (b # "" => Say(cs, "session." \o b, op \o " " \o ToString(r) \o " at " \o ToString(i + 1)))
                    /\ UNCHANGED c

\* a run in progress works on an automaton which is prepared for it
TInv == \A r \in DOMAIN st : st[r] = "live" => prep[aut[r]] = r

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
