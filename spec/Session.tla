------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Several analyses in one process.                                        *)
(*                                                                         *)
(* An analysis (run) is constructed (make), set up with its initial sets   *)
(* (begin), advanced step by step in bursts (step), and runs to its end    *)
(* (finish) or is given up (drop).  Some do all of it at once (run: an     *)
(* analysis, sim: a simulation), some are refused when they begin (bad).   *)
(*                                                                         *)
(* What runs share: the process, and the automata.  Setting up a run       *)
(* prepares the automaton for its settings (step size, relaxed and         *)
(* strengthened guards), so while a run is in progress no other run may    *)
(* begin on the same automaton.  Everything else may be interleaved.       *)
(*                                                                         *)
(* TLC generates the schedules; SessionTrace judges what the code does.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Runs, Automata, Bursts, Kinds

VARIABLES kind,   \* what sort of run each one is
          aut,    \* the automaton it analyses
          st,     \* "new", "made", "live", "done", "dropped", "failed"
          steps,  \* bursts done
          prep,   \* the run an automaton was last prepared for (0: none)
          hist    \* the schedule
vars == <<kind, aut, st, steps, prep, hist>>

Init == /\ kind \in [1..Runs -> Kinds]
        /\ aut \in [1..Runs -> 1..Automata]
        \* automata are numbered in the order of their first run
        /\ \A r \in 1..Runs : aut[r] <= 1 + Cardinality({aut[q] : q \in 1..(r - 1)})
        /\ st = [r \in 1..Runs |-> "new"]
        /\ steps = [r \in 1..Runs |-> 0]
        /\ prep = [a \in 1..Automata |-> 0]
        /\ hist = <<>>


Rs == DOMAIN kind

Over(r) == st[r] \in {"done", "dropped", "failed"}
Free(a) == \A r \in Rs : aut[r] = a => st[r] # "live"

CanMake(r)   == st[r] = "new"
CanBegin(r)  == st[r] = "made" /\ kind[r] \in {"step", "bad"} /\ Free(aut[r])
CanWhole(r)  == st[r] = "made" /\ kind[r] \in {"run", "sim"} /\ Free(aut[r])
CanStep(r)   == st[r] = "live" /\ steps[r] < Bursts
CanFinish(r) == st[r] = "live"
CanDrop(r)   == st[r] = "live"

Log(op, r) == hist' = Append(hist, <<op, r>>) /\ UNCHANGED <<kind, aut>>
Goes(r, s) == st' = [st EXCEPT ![r] = s]
Prepared(r) == prep' = [prep EXCEPT ![aut[r]] = r]

Make(r)   == CanMake(r) /\ Goes(r, "made") /\ Log("make", r) /\ UNCHANGED <<steps, prep>>
Begin(r)  == CanBegin(r) /\ Goes(r, IF kind[r] = "bad" THEN "failed" ELSE "live") /\ Prepared(r) /\ Log("begin", r) /\ UNCHANGED steps
Whole(r)  == CanWhole(r) /\ Goes(r, "done") /\ Prepared(r) /\ Log(kind[r], r) /\ UNCHANGED steps
Step(r)   == CanStep(r) /\ steps' = [steps EXCEPT ![r] = @ + 1] /\ Log("step", r) /\ UNCHANGED <<st, prep>>
Finish(r) == CanFinish(r) /\ Goes(r, "done") /\ Log("finish", r) /\ UNCHANGED <<steps, prep>>
Drop(r)   == CanDrop(r) /\ steps[r] > 0 /\ Goes(r, "dropped") /\ Log("drop", r) /\ UNCHANGED <<steps, prep>>

Next == /\ \E r \in Rs : Make(r) \/ Begin(r) \/ Whole(r) \/ Step(r) \/ Finish(r) \/ Drop(r)
        /\ (\A r \in Rs : st'[r] \in {"done", "dropped", "failed"}) =>
              PrintT("SCHEDULE|" \o ToString(kind) \o "|" \o ToString(aut) \o "|" \o ToString(hist'))

Spec == Init /\ [][Next]_vars

\* a run in progress works on an automaton which is prepared for it
Inv == \A r \in Rs : st[r] = "live" => prep[aut[r]] = r
=============================================================================
