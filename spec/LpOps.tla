------------------------------- MODULE LpOps --------------------------------
(***************************************************************************)
(* Sequences of operations on symbolic sets (linear programs): which       *)
(* operations are possible on which handles, in any order.  TLC generates  *)
(* the sequences; their meaning is in LpSet, which judges what the real    *)
(* objects answer after every single operation.                            *)
(*                                                                         *)
(* Two modes: 1 is linear and two-dimensional, 2 is affine and may have    *)
(* more variables.  inp[m]: mode m has time-varying inputs.                *)
(* A handle: mode, and what has been done since its last snapshot          *)
(*   cuts     number of constraints on the initial variables (0..2)        *)
(*   stepped  it has been advanced in time                                 *)
(*   bound    it can be advanced (it is the initial set of a mode)         *)
(*   late     constraints on the current variables were added              *)
(*   fat      it has been bloated                                          *)
(*   hull     0, or how deeply hulls are nested in it                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Slots, MaxLen

VARIABLES inp, h, hist
vars == <<inp, h, hist>>

None == [live |-> FALSE]
Fresh(m, d) == [live |-> TRUE, mode |-> m, cuts |-> 0, stepped |-> FALSE, bound |-> TRUE, late |-> FALSE, fat |-> FALSE, hull |-> d]

Init == inp \in [1..2 -> BOOLEAN] /\ h = [s \in 1..Slots |-> None] /\ hist = <<>>

Live == {s \in 1..Slots : h[s].live}

Do(s, v, op) == h' = [h EXCEPT ![s] = v] /\ hist' = Append(hist, op) /\ UNCHANGED inp

New(s, m, kind) == Do(s, Fresh(m, 0), <<"new", s, m, kind>>)

Clone(s, d) == s # d /\ Do(d, [h[s] EXCEPT !.bound = @ /\ ~h[s].stepped], <<"clone", s, d>>)

Map(s)   == ~h[s].fat /\ ~h[s].stepped /\ Do(s, [h[s] EXCEPT !.bound = FALSE], <<"map", s>>)
Scale(s) == ~h[s].fat /\ ~h[s].stepped /\ h[s].mode = 1 /\ Do(s, [h[s] EXCEPT !.bound = FALSE], <<"scale", s>>)
Cut(s)   == ~h[s].fat /\ Do(s, [h[s] EXCEPT !.cuts = IF @ = 2 THEN 2 ELSE @ + 1], <<"cut", s>>)
Recut(s) == ~h[s].fat /\ h[s].cuts > 0 /\ Do(s, h[s], <<"recut", s>>)
Late(s)  == Do(s, [h[s] EXCEPT !.late = TRUE], <<"late", s>>)
Bloat(s) == h[s].mode = 1 /\ ~h[s].late /\ Do(s, [h[s] EXCEPT !.fat = TRUE, !.bound = FALSE], <<"bloat", s>>)
Step(s, j) == h[s].bound /\ ~h[s].late /\ ~h[s].fat /\ Do(s, [h[s] EXCEPT !.stepped = TRUE], <<"step", s, j>>)
Reset(s, m) == Do(s, Fresh(m, h[s].hull), <<"reset", s, m>>)

Join(op, S, d) ==
    /\ Cardinality(S) >= 2
    /\ \A s \in S : h[s].mode = h[CHOOSE x \in S : TRUE].mode
    /\ op = "hull" => \A s \in S : h[s].hull = 0
    /\ op = "agg" => \A s \in S : ~h[s].fat
    /\ op = "sum" => \A s \in S : h[s].mode = 1
    /\ LET m == h[CHOOSE x \in S : TRUE].mode
           deep == IF op = "agg" THEN 0
                   ELSE IF op = "sum" /\ \A s \in S : h[s].hull = 0 THEN 0 ELSE 1
       IN  Do(d, Fresh(m, deep), <<op, S, d>>)

Kinds(m) == IF m = 1 THEN {"box", "zono", "cons", "proj", "lo", "binp"} ELSE {"box", "zono", "cons", "proj"}

Next ==
    /\ Len(hist) < MaxLen
    /\ \/ \E s \in (1..Slots) \ Live, m \in 1..2 : \E k \in Kinds(m) : New(s, m, k)
       \/ \E s \in Live :
            \/ \E d \in 1..Slots : Clone(s, d)
            \/ Map(s) \/ Scale(s) \/ Cut(s) \/ Recut(s) \/ Late(s) \/ Bloat(s)
            \/ \E j \in 1..3 : Step(s, j)
            \/ \E m \in 1..2 : Reset(s, m)
       \/ \E S \in SUBSET Live, d \in 1..Slots, op \in {"hull", "agg", "sum"} :
            /\ d \in Live => d \in S /\ \A s \in S : d <= s
            /\ Join(op, S, d)
    /\ Len(hist') = MaxLen => PrintT("SCHEDULE|" \o ToString(inp) \o "|" \o ToString(hist'))

Spec == Init /\ [][Next]_vars

Inv == \A s \in Live : /\ h[s].cuts \in 0..2 /\ h[s].hull \in 0..1
                       /\ h[s].stepped => ~h[s].fat \/ ~h[s].bound
=============================================================================
