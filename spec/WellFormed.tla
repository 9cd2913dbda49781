----------------------------- MODULE WellFormed -----------------------------
(***************************************************************************)
(* What a well-formed model is (C18).                                      *)
(*                                                                         *)
(* A model is described by the shapes of its pieces.  Three modes, up to   *)
(* two transitions, the initial sets and the settings:                     *)
(*   dyn   <<>> (an error mode) or <<rows, columns>>                       *)
(*   inv   <<>> or <<rows, columns, length of the right side, what>>       *)
(*   inp   <<>> or <<rows and columns of B, rows and columns of the        *)
(*         constraints, length of the right side, what, allow constants>>  *)
(*   tr    <<>> or <<source, target>>; 0 is a mode of another automaton    *)
(*   gd    <<>> (none), <<0>> (always true) or like inv                    *)
(*   rs    <<>> (not given) or <<R, M, C, right side>>, each part <<>>     *)
(*         when left out                                                   *)
(*   init  a sequence of <<mode, dimensions, what>>                        *)
(*   late  <<>> or <<mode, d>>: d x d dynamics assigned after all else     *)
(*   order the piece that is given too early                               *)
(* "what" of constraints: 1 a bounded set around the initial sets, 0 no    *)
(* solution, 2 a set away from the initial sets (inv).  Inputs: 2 the first *)
(* input is a constant, 4 the last one, 3 a constant for all variables, 5   *)
(* the last one, the first one having no upper bound of its own.            *)
(*                                                                         *)
(* Starting from well-formed models (Bases), TLC takes every way of        *)
(* changing up to Changes pieces.  WellFormedTrace judges what the code    *)
(* does with the model.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Modes == 1..3
Trs == 1..2

Blank == [dyn |-> <<<<2, 2>>, <<2, 2>>, <<>>>>, inv |-> <<<<>>, <<>>, <<>>>>, inp |-> <<<<>>, <<>>, <<>>>>,
          tr |-> <<<<1, 2>>, <<2, 3>>>>, gd |-> <<<<1, 2, 1, 1>>, <<1, 2, 1, 1>>>>, rs |-> <<<<>>, <<>>>>,
          init |-> <<<<1, 2, "ok">>>>, box |-> "list", step |-> 1, time |-> 1, dup |-> FALSE, late |-> <<>>, order |-> "natural"]

Inv(d) == <<2 * d, d, 2 * d, 1>>
Inp(d, n) == <<d, n, 2 * n, n, 2 * n, 1, FALSE>>
Mink(r, c, n) == << <<r, c>>, <<r, n>>, <<2 * n, n, 1>>, <<2 * n>> >>

Bases == << Blank,
            [Blank EXCEPT !.inv = <<Inv(2), Inv(2), <<>>>>, !.inp = <<Inp(2, 1), Inp(2, 2), <<>>>>],
            [Blank EXCEPT !.dyn = <<<<3, 3>>, <<2, 2>>, <<>>>>, !.gd = <<<<2, 3, 2, 1>>, <<0>>>>, !.init = <<<<1, 3, "ok">>, <<2, 2, "ok">>>>,
                          !.rs = <<Mink(2, 3, 1), << <<2, 2>>, <<>>, <<>>, <<>> >>>>, !.inv = <<Inv(3), Inv(2), <<>>>>],
            [Blank EXCEPT !.dyn = <<<<1, 1>>, <<2, 2>>, <<2, 2>>>>, !.gd = <<<<1, 1, 1, 1>>, <<1, 2, 1, 1>>>>, !.init = <<<<1, 1, "ok">>>>,
                          !.rs = <<<< <<2, 1>>, <<>>, <<>>, <<>> >>, << <<>>, <<>>, <<4, 2, 1>>, <<4>> >> >>, !.inp = <<Inp(1, 1), <<>>, Inp(2, 1)>>,
                          !.inv = <<<<>>, <<>>, Inv(2)>>],
            [Blank EXCEPT !.dyn = <<<<2, 2>>, <<>>, <<>>>>, !.tr = <<<<1, 1>>, <<1, 2>>>>, !.inv = <<Inv(2), <<>>, <<>>>>,
                          !.rs = << <<>>, Mink(2, 2, 2) >>, !.init = <<<<1, 2, "away">>, <<1, 2, "ok">>>>],
            [Blank EXCEPT !.tr = <<<<>>, <<>>>>, !.dyn = <<<<2, 2>>, <<>>, <<>>>>, !.inp = <<Inp(2, 2), <<>>, <<>>>>,
                          !.gd = << <<>>, <<>> >>] >>

------------------------------------------------------------------------------
(* well-formedness *)

Given(x) == x # <<>>
Final(m, i) == IF Given(m.late) /\ m.late[1] = i THEN <<m.late[2], m.late[2]>> ELSE m.dyn[i]     \* the dynamics in the end
Err(m, i) == ~Given(Final(m, i))
Dim(m, i) == Final(m, i)[1]

DynOk(m, i) == Err(m, i) \/ (Final(m, i)[1] = Final(m, i)[2] /\ (Given(m.dyn[i]) => m.dyn[i][1] = m.dyn[i][2]))
ConsOk(c, d) == c[2] = d /\ c[3] = c[1] /\ c[4] # 0
InvOk(m, i) == ~Given(m.inv[i]) \/ (~Err(m, i) /\ ConsOk(m.inv[i], Dim(m, i)))
\* an input that is a constant and appears in one derivative
Constant(u) == u[6] \in {2, 4, 5} \/ (u[6] = 3 /\ u[1] = 1)
InpOk(m, i) ==
    LET u == m.inp[i]
    IN  \/ ~Given(u)
        \/ /\ ~Err(m, i)
           /\ u[1] = Dim(m, i) /\ u[2] = u[4] /\ u[2] > 0 /\ u[3] = u[5] /\ u[6] # 0
           /\ Constant(u) => u[7]

Live(m, t) == Given(m.tr[t])
TrOk(m, t) ==
    LET s == m.tr[t][1]
        d == m.tr[t][2]
    IN  ~Live(m, t) \/ (s # 0 /\ d # 0 /\ ~Err(m, s))
GuardOk(m, t) ==
    LET g == m.gd[t]
    IN  ~Live(m, t) \/ ~TrOk(m, t) \/ (Given(g) /\ (g = <<0>> \/ ConsOk(g, Dim(m, m.tr[t][1]))))
ResetOk(m, t) ==
    ~Live(m, t) \/ ~TrOk(m, t) \/
    LET s == Dim(m, m.tr[t][1])
        d == IF Err(m, m.tr[t][2]) THEN s ELSE Dim(m, m.tr[t][2])
        r == IF Given(m.rs[t]) THEN m.rs[t] ELSE << <<>>, <<>>, <<>>, <<>> >>
        n == IF Given(r[2]) THEN r[2][2] ELSE d                 \* new variables; the identity when M is left out
    IN  /\ IF Given(r[1]) THEN r[1] = <<d, s>> ELSE d = s
        /\ Given(r[2]) => r[2][1] = d /\ Given(r[3])
        /\ Given(r[3]) => /\ Given(r[4]) /\ r[3][1] = r[4][1]
                          /\ r[3][2] = n /\ r[3][3] # 0
        /\ Given(r[4]) => Given(r[3])

InitOk(m) ==
    LET one(e) == e[3] \in {"ok", "empty", "away"} /\ e[1] # 0 /\ ~Err(m, e[1]) /\ e[2] = Dim(m, e[1])
        in(e)  == LET v == m.inv[e[1]] IN ~Given(v) \/ v[1] = 0 \/ (e[3] = "ok" /\ v[4] # 2)
    IN  /\ m.box = "list"
        /\ \A i \in 1..Len(m.init) : one(m.init[i])
        /\ \E i \in 1..Len(m.init) : one(m.init[i]) /\ m.init[i][3] # "empty" /\ in(m.init[i])

Wrong(m) ==
    {n \in {"name", "dynamics", "invariant", "inputs", "transition", "guard", "reset", "initial", "settings"} :
        CASE n = "name"       -> m.dup
          [] n = "dynamics"   -> \E i \in Modes : ~DynOk(m, i)
          [] n = "invariant"  -> \E i \in Modes : ~InvOk(m, i)
          [] n = "inputs"     -> \E i \in Modes : ~InpOk(m, i)
          [] n = "transition" -> \E t \in Trs : ~TrOk(m, t)
          [] n = "guard"      -> \E t \in Trs : ~GuardOk(m, t)
          [] n = "reset"      -> \E t \in Trs : ~ResetOk(m, t)
          [] n = "initial"    -> ~InitOk(m)
          [] n = "settings"   -> m.step <= 0 \/ m.time <= 0}

(* what is left open *)

\* sets that are not bounded
Unbounded(m) ==
    \/ \E i \in Modes : Given(m.inp[i]) /\ m.inp[i][3] < 2 * m.inp[i][4]
    \/ \E t \in Trs : Live(m, t) /\ Given(m.rs[t]) /\ Given(m.rs[t][3]) /\ m.rs[t][3][1] < 2 * m.rs[t][3][2]

\* an empty list of conditions holds whatever its width, and initial sets in error modes are no states of the model
Vacuous(m) ==
    \/ \E i \in Modes : Given(m.inv[i]) /\ m.inv[i][1] = 0
    \/ \E t \in Trs : Live(m, t) /\ Len(m.gd[t]) = 4 /\ m.gd[t][1] = 0
    \/ \E i \in 1..Len(m.init) : m.init[i][1] # 0 /\ Err(m, m.init[i][1])

\* when all initial sets belong to another automaton, that one is analysed
Elsewhere(m) == m.init # <<>> /\ \A i \in 1..Len(m.init) : m.init[i][1] = 0

\* pieces given in an unusual order may be refused, and so may dynamics that were something else when other pieces were given,
\* and empty initial sets
Unusual(m) == m.order # "natural" \/ Given(m.late) \/ \E i \in 1..Len(m.init) : m.init[i][3] = "empty"

\* the code says so: "refuse", "accept", "either" (refused, or run to the end), "any"
Verdict(m) ==
    LET w == Wrong(m)
        v == Vacuous(m) /\ w \subseteq {"invariant", "guard", "initial"}
    IN  IF (Unbounded(m) /\ w = {}) \/ Elsewhere(m) THEN "any"
        ELSE IF v THEN (IF w = {} /\ ~Unusual(m) /\ (\A i \in 1..Len(m.init) : ~Err(m, m.init[i][1])) THEN "accept" ELSE "any")
        ELSE IF w # {} THEN "refuse"
        ELSE IF Unusual(m) THEN "either" ELSE "accept"

------------------------------------------------------------------------------
(* the models: up to Changes pieces changed *)

CONSTANTS Changes, From

VARIABLES base, model, changed
vars == <<base, model, changed>>

\* a tuple with one entry from number lo on replaced by another value
Near(t, k) == {[t EXCEPT ![k] = t[k] + 1]} \cup (IF t[k] > 0 THEN {[t EXCEPT ![k] = t[k] - 1]} ELSE {})
NearAny(t, ks) == UNION {Near(t, k) : k \in ks}
Size(m, i) == IF Given(m.dyn[i]) THEN m.dyn[i][1] ELSE 2

DynAlts(x) == IF ~Given(x) THEN {<<2, 2>>, <<3, 3>>} ELSE {<<>>, <<x[1] + 1, x[2] + 1>>} \cup {y \in NearAny(x, {1, 2}) : y[1] > 0 /\ y[2] > 0}
ConsAlts(x, d, other) == IF Len(x) < 4 THEN {Inv(d), <<1, d, 1, 1>>} \ {x}
                  ELSE {<<>>, [x EXCEPT ![4] = 0]} \cup other \cup NearAny(x, {1, 2, 3})
InpAlts(x, d) == IF ~Given(x) THEN {Inp(d, 1)}
                 ELSE {<<>>, [x EXCEPT ![6] = 0], [x EXCEPT ![7] = TRUE]} \cup {[x EXCEPT ![6] = w, ![7] = a] : w \in {2, 3, 4, 5}, a \in BOOLEAN} \cup NearAny(x, {1, 2, 3, 4, 5})
GdAlts(x, d) == ConsAlts(x, d, {<<0>>})
RsPart(r, p) == IF Given(r[p]) THEN {[r EXCEPT ![p] = y] : y \in {<<>>} \cup NearAny(r[p], 1..(IF p = 3 THEN 2 ELSE Len(r[p])))} ELSE {}
RsAlts(r, d) == IF ~Given(r) THEN {<< <<>>, <<>>, <<>>, <<>> >>, << <<d, d>>, <<>>, <<>>, <<>> >>, Mink(d, d, 1),
                                   << <<>>, <<d, 1>>, <<>>, <<>> >>, << <<>>, <<>>, <<2, 1, 1>>, <<>> >>, << <<>>, <<>>, <<>>, <<2>> >>}
                ELSE {<<>>} \cup UNION {RsPart(r, p) : p \in 1..4} \cup (IF Given(r[3]) THEN {[r EXCEPT ![3][3] = 0]} ELSE {})
TrAlts(x) == {<<>>} \cup (IF Given(x) THEN {<<x[1], j>> : j \in 0..3} \cup {<<j, x[2]>> : j \in 0..3} ELSE {<<1, 2>>, <<1, 3>>})
InitAlts(x) ==
    {<<>>}
    \cup {[x EXCEPT ![1][3] = w] : w \in {"ok", "empty", "away", "used", "lpi"}}
    \cup {[x EXCEPT ![1][2] = x[1][2] + 1]}
    \cup {[x EXCEPT ![1][1] = j] : j \in 0..3}
    \cup {Append(x, <<x[1][1], x[1][2], w>>) : w \in {"ok", "twice", "empty", "used", "lpi"}}
    \cup {Append(x, <<0, x[1][2], "ok">>), Append(x, <<2, 2, "ok">>), Append(x, <<2, 3, "ok">>)}

Alts(m, f) ==
    CASE f[1] = "dyn"   -> {[m EXCEPT !.dyn[f[2]] = y] : y \in DynAlts(m.dyn[f[2]])}
      [] f[1] = "inv"   -> {[m EXCEPT !.inv[f[2]] = y] : y \in ConsAlts(m.inv[f[2]], Size(m, f[2]), IF Given(m.inv[f[2]]) THEN {[m.inv[f[2]] EXCEPT ![4] = 2]} ELSE {})}
      [] f[1] = "inp"   -> {[m EXCEPT !.inp[f[2]] = y] : y \in InpAlts(m.inp[f[2]], Size(m, f[2]))}
      [] f[1] = "tr"    -> {[m EXCEPT !.tr[f[2]] = y] : y \in TrAlts(m.tr[f[2]])}
      [] f[1] = "gd"    -> {[m EXCEPT !.gd[f[2]] = y] : y \in GdAlts(m.gd[f[2]], IF Live(m, f[2]) /\ m.tr[f[2]][1] # 0 THEN Size(m, m.tr[f[2]][1]) ELSE 2)}
      [] f[1] = "rs"    -> {[m EXCEPT !.rs[f[2]] = y] : y \in RsAlts(m.rs[f[2]], IF Live(m, f[2]) /\ m.tr[f[2]][2] # 0 THEN Size(m, m.tr[f[2]][2]) ELSE 2)}
      [] f[1] = "init"  -> IF m.init = <<>> THEN {} ELSE {[m EXCEPT !.init = y] : y \in InitAlts(m.init)}
      [] f[1] = "box"   -> {[m EXCEPT !.box = "tuple"]}
      [] f[1] = "step"  -> {[m EXCEPT !.step = y] : y \in {-1, 0}}
      [] f[1] = "time"  -> {[m EXCEPT !.time = y] : y \in {-1, 0}}
      [] f[1] = "dup"   -> {[m EXCEPT !.dup = TRUE]}
      [] f[1] = "late"  -> {[m EXCEPT !.late = <<i, d>>] : i \in Modes, d \in 1..3}
      [] f[1] = "order" -> {[m EXCEPT !.order = y] : y \in {"inv", "inp", "gd", "rs"}}

Pieces == {<<n, i>> : n \in {"dyn", "inv", "inp"}, i \in Modes} \cup {<<n, t>> : n \in {"tr", "gd", "rs"}, t \in Trs}
          \cup {<<n, 0>> : n \in {"init", "box", "step", "time", "dup", "late", "order"}}

Shown(b, m, c) == PrintT("MODEL|" \o ToString(b) \o "|" \o ToString(Cardinality(c)) \o "|" \o ToString(m))

Init == /\ base \in From
        /\ model = Bases[base]
        /\ changed = {}
        /\ Shown(base, model, changed)

Change(f) == /\ Cardinality(changed) < Changes
             /\ f \notin changed
             /\ \E m \in Alts(model, f) : m # model /\ model' = m
             /\ changed' = changed \cup {f}
             /\ UNCHANGED base
             /\ Shown(base, model', changed')

Next == \E f \in Pieces : Change(f)
Spec == Init /\ [][Next]_vars

\* the bases are well-formed, and the verdict is defined for every model
TypeInv == /\ changed = {} => Wrong(model) = {} /\ Verdict(model) = "accept"
           /\ Verdict(model) \in {"refuse", "accept", "either", "any"}
=============================================================================
