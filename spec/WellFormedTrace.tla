-------------------------- MODULE WellFormedTrace ---------------------------
(***************************************************************************)
(* Judges what the code did with a model (WellFormed): the operations that *)
(* construct it, "setup" (of an analysis) and "run", each with r = "" or   *)
(* the exception it raised.  When an operation was refused because of the  *)
(* only changed piece, it may have been repeated (m) with the piece of the *)
(* well-formed model: a refused operation leaves no trace.                 *)
(***************************************************************************)
EXTENDS WellFormed, Json, IOUtils

VARIABLES c, i, mended, bad
tvars == <<base, model, changed, c, i, mended, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case == Cases[c]
Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)

TraceInit == /\ c \in 1..Len(Cases)
             /\ i = 0
             /\ base = Case.base /\ model = Case.model /\ changed = {}
             /\ mended = FALSE
             /\ bad = ""

Stop(cl, det) == bad' = cl /\ Say(cl, det) /\ UNCHANGED <<base, model, changed, c, i, mended>>

Want == Verdict(model)
Reasons == ToString(Wrong(model))

Next1 ==
    LET n == Len(Case.ops)
    IN  IF Case.status \notin {"ok"} THEN Stop(Case.status, Case.exc)
        ELSE IF i = n THEN
            \* the analysis has come to its end
            IF Want = "refuse" THEN Stop("model.accepted", Reasons) ELSE Stop("ok", "accepted " \o Want)
        ELSE LET op == Case.ops[i + 1]
                 again == i + 2 <= n /\ Case.ops[i + 2].m
             IN  IF op.r = "" THEN i' = i + 1 /\ UNCHANGED <<base, model, changed, c, mended, bad>>
                 ELSE IF op.o = "run" /\ Want # "any" THEN Stop("model.failed", Want \o " " \o Reasons \o " " \o op.r)
                 ELSE IF mended THEN Stop("model.mended", op.o \o " " \o op.r)
                 ELSE IF Want = "accept" THEN Stop("model.refused", op.o \o " " \o op.r)
                 ELSE IF again THEN
                     \* the refused operation is repeated as in the well-formed model
                     i' = i + 1 /\ mended' = TRUE /\ model' = Bases[base] /\ UNCHANGED <<base, changed, c, bad>>
                 ELSE Stop("ok", "refused " \o Want)

TraceSpec == TraceInit /\ [][bad = "" /\ Next1]_tvars
=============================================================================
