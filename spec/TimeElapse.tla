----------------------------- MODULE TimeElapse -----------------------------
(***************************************************************************)
(* The solution matrices of several modes, as a cache that is asked for    *)
(* steps in any order.                                                     *)
(*                                                                         *)
(* Per mode the cache holds the step it was last asked for, and the powers *)
(* of the one-step matrix that it holds: e for the solution matrix, g for  *)
(* the effect of the inputs of the last step (-1: none).  What is asked    *)
(* for next is obtained in one of four ways (zero / one / quick / slow).   *)
(* The invariant says that the way does not matter.  TLC explores every    *)
(* history of requests of length MaxLen over the modes and steps, and      *)
(* prints each: the histories are replayed on the real objects             *)
(* (TimeElapseTrace).                                                      *)
(*                                                                         *)
(* wide[m]: the continuous-time approximation model has been switched on   *)
(* in mode m (which happens when a set enters the mode, right after step 1 *)
(* was asked for, and is followed by step 1).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS Modes, MaxStep, MaxLen, Widen

VARIABLES cache, hist
vars == <<cache, hist>>

Start == [last |-> 0, e |-> 0, g |-> -1, way |-> "none", wide |-> FALSE]

Init == cache = [m \in 1..Modes |-> Start] /\ hist = <<>>

Ask(c, k) ==
    IF k = 0 THEN [c EXCEPT !.last = 0, !.e = 0, !.g = -1, !.way = "zero"]
    ELSE IF k = 1 THEN [c EXCEPT !.last = 1, !.e = 1, !.g = 0, !.way = "one"]
    ELSE IF k = c.last + 1 THEN [c EXCEPT !.last = k, !.e = c.e + 1, !.g = c.g + 1, !.way = "quick"]
    ELSE [c EXCEPT !.last = k, !.e = k, !.g = k - 1, !.way = "slow"]

Request(m, k) == /\ cache' = [cache EXCEPT ![m] = Ask(cache[m], k)]
                 /\ hist' = Append(hist, <<m, k>>)

\* a set enters mode m under the continuous-time model: <<m, -1>>
Enter(m) == /\ Widen
            /\ cache' = [cache EXCEPT ![m] = [Ask(cache[m], 1) EXCEPT !.wide = TRUE]]
            /\ hist' = Append(hist, <<m, -1>>)

Next == /\ Len(hist) < MaxLen
        /\ \E m \in 1..Modes : (\E k \in 0..MaxStep : Request(m, k)) \/ Enter(m)
        /\ Len(hist') = MaxLen => PrintT("HISTORY|" \o ToString(hist'))

Spec == Init /\ [][Next]_vars

\* what is held belongs to the step that was asked for last, however it was obtained
Right == \A m \in 1..Modes : LET c == cache[m] IN c.e = c.last /\ c.g = c.last - 1
\* and a request in one mode leaves the others alone
Apart == [][\E m \in 1..Modes : \A o \in (1..Modes) \ {m} : cache'[o] = cache[o]]_vars
=============================================================================
