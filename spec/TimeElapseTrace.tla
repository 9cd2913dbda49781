-------------------------- MODULE TimeElapseTrace ---------------------------
(***************************************************************************)
(* Histories of requests (TimeElapse) as answered by the real objects.     *)
(*                                                                         *)
(* Case: [id, status, exc, h, modes, log]                                  *)
(*   modes  [A, hasB, B] matrices of decimals                              *)
(*   log    one record per request: [m, k, bm, hasie, ie, same]            *)
(*          k = -1: the continuous-time model is switched on in mode m     *)
(*          same: matrices handed out earlier still have their old values  *)
(***************************************************************************)
EXTENDS Lin, Integers, Sequences, Json, IOUtils

VARIABLES c, one, i, wide, bad
vars == <<c, one, i, wide, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case == Cases[c]
Ev == Case.log[i]
Tol == DRat(1, 10000000)

\* of a mode: one-step matrix, one-step effect of inputs, and B h
OneStep(md) ==
    LET H == TLCEval(MScale(md.A, Case.h))
    IN  TLCEval([E |-> MExp(H),
                 G |-> IF md.hasB THEN MMul(MScale(MPhi(H), Case.h), md.B) ELSE <<>>,
                 Bh |-> IF md.hasB THEN MScale(md.B, Case.h) ELSE <<>>])

Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)

Init == /\ c \in 1..Len(Cases)
        /\ one = TLCEval([m \in 1..Len(Case.modes) |-> OneStep(Case.modes[m])])
        /\ i = 0
        /\ wide = [m \in 1..Len(Case.modes) |-> FALSE]
        /\ bad = ""

Stop(cl, det) == bad' = cl /\ Say(cl, det) /\ UNCHANGED <<c, one, i, wide>>

\* what the specification expects for step k of mode m
Basis(m, k) == MPow(one[m].E, k)
Effect(m, k) == IF wide[m] THEN MCat(MMul(MPow(one[m].E, k - 1), one[m].Bh), MPow(one[m].E, k - 1))
                ELSE MMul(MPow(one[m].E, k - 1), one[m].G)

EvBad ==
    LET md == Case.modes[Ev.m]
        wants == md.hasB /\ Ev.k > 0
    IN  IF ~Ev.same THEN "matrix.changed"
        ELSE IF ~MNear(Ev.bm, Basis(Ev.m, Ev.k), Tol) THEN "matrix.basis"
        ELSE IF Ev.hasie # wants THEN "matrix.inputs.presence"
        ELSE IF wants /\ ~MNear(Ev.ie, Effect(Ev.m, Ev.k), Tol) THEN "matrix.inputs"
        ELSE ""

Next == /\ bad = ""
        /\ IF i = 0 THEN i' = 1 /\ UNCHANGED <<c, one, wide, bad>>
           ELSE IF i > Len(Case.log) THEN
                IF Case.status # "ok" THEN Stop(Case.status, ToString(i) \o " " \o Case.exc) ELSE Stop("ok", ToString(i - 1))
           ELSE IF Ev.k = -1 THEN i' = i + 1 /\ wide' = [wide EXCEPT ![Ev.m] = TRUE] /\ UNCHANGED <<c, one, bad>>
           ELSE IF EvBad # "" THEN Stop(EvBad, "request " \o ToString(i) \o " step " \o ToString(Ev.k))
           ELSE i' = i + 1 /\ UNCHANGED <<c, one, wide, bad>>

Spec == Init /\ [][Next]_vars
=============================================================================
