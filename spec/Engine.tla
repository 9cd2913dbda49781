------------------------------- MODULE Engine -------------------------------
(***************************************************************************)
(* The reachability engine: a worklist of state sets, one current set that *)
(* is stepped through its mode, discrete successors, aggregation on pop,   *)
(* the error verdict and the stopping rules.                               *)
(*                                                                         *)
(* An engine state is a record                                             *)
(*   wait   sequence of waiting items                                      *)
(*   cur    the current set (cur.has = FALSE: none)                        *)
(*   tt     "no" | "yes" | "maybe": the current set was left through a     *)
(*          time-triggered transition                                      *)
(*   agg, conc   error verdict so far                                      *)
(*   nn     number of nodes (pops) so far                                  *)
(* An item is [id, mode, lo, hi, conc, S, par, tr].                         *)
(***************************************************************************)
EXTENDS Model

NoCur == [has |-> FALSE, mode |-> 0, k |-> 0, lo |-> 0, hi |-> 0, conc |-> FALSE, S |-> Exact(<<>>)]

Finished(sc, st) == \/ sc.set.stopagg /\ st.agg
                    \/ sc.set.stopconc /\ st.conc
                    \/ ~st.cur.has /\ st.wait = <<>>

------------------------------------------------------------------------------
(* Which sets may be popped together. *)

Score(sc, it) == CASE sc.set.pop = "min" -> -it.lo
                   [] sc.set.pop = "avg" -> -(it.lo + it.hi)
                   [] sc.set.pop = "max" -> it.hi

RECURSIVE MaxScore(_, _, _)
MaxScore(sc, w, i) == IF i > Len(w) THEN -1000000
                      ELSE LET r == MaxScore(sc, w, i + 1) s == Score(sc, w[i]) IN IF s > r THEN s ELSE r

Group(sc, w, i) ==
    IF sc.modes[w[i].mode].err THEN {i}
    ELSE LET g == {j \in 1..Len(w) :
                     \/ j = i
                     \/ /\ w[j].mode = w[i].mode
                        /\ sc.set.samepath => /\ w[j].par = w[i].par
                                              /\ w[j].tr = w[i].tr}
             inits == {j \in g : w[j].par = 0}
         IN  IF inits = {} THEN g ELSE {CHOOSE j \in inits : \A j2 \in inits : j <= j2}

\* the set of allowed pops, each a set of positions in the waiting list; sets in error modes
\* are not analysed further, so which of them goes first is left open
PopChoices(sc, w) ==
    IF sc.set.agg = "none" THEN {{1}}
    ELSE LET best == {j \in 1..Len(w) : Score(sc, w[j]) = MaxScore(sc, w, 1)}
         IN  {Group(sc, w, i) : i \in best}
             \cup {{j} : j \in {k \in 1..Len(w) : /\ sc.modes[w[k].mode].err
                                                 /\ \E b \in best : w[b].mode = w[k].mode}}

RECURSIVE SeqOf(_)
SeqOf(P) == IF P = {} THEN <<>> ELSE LET m == CHOOSE x \in P : \A y \in P : x <= y IN <<m>> \o SeqOf(P \ {m})

MinOf(P) == CHOOSE x \in P : \A y \in P : x <= y
MaxOf(P) == CHOOSE x \in P : \A y \in P : x >= y

------------------------------------------------------------------------------
(* Aggregation of a group of items into one set. *)

AggSet(sc, pre, items) ==
    LET n  == Len(items)
        Ls == SelectSeq([i \in 1..n |-> items[i].S.L], LAMBDA p : p # <<>>)
        Us == [i \in 1..n |-> items[i].S.U]
        ax == sc.modes[items[1].mode].axes
        same == \A i \in 1..n : items[i].tr = items[1].tr
        gd == IF sc.set.addguard THEN pre.trans[items[1].tr].gdirs ELSE <<>>
        eq == \A i \in 1..n : items[i].S.L = items[i].S.U
        tmpl(Ps, D) == IF Ps = <<>> THEN <<>> ELSE Template(Ps, D)
    IN  CASE sc.set.agg = "chull" -> LET u == HullAll(Us) IN [L |-> IF eq THEN u ELSE HullAll(Ls), U |-> u]
          [] sc.set.agg = "box" ->
               IF ~same /\ sc.set.addguard
               THEN [L |-> HullAll(Ls), U |-> tmpl(Us, ax)]      \* whose guard is used is left open
               ELSE LET u == tmpl(Us, ax \o gd) IN [L |-> IF eq THEN u ELSE tmpl(Ls, ax \o gd), U |-> u]
          [] OTHER -> [L |-> HullAll(Ls), U |-> tmpl(Us, IF same THEN ax \o gd ELSE ax)]

\* the set that is worked on after popping the items
Merge(sc, pre, items) ==
    IF Len(items) = 1
    THEN [has |-> TRUE, mode |-> items[1].mode, k |-> 0, lo |-> items[1].lo, hi |-> items[1].hi,
          conc |-> items[1].conc, S |-> items[1].S]
    ELSE [has |-> TRUE, mode |-> items[1].mode, k |-> 0,
          lo |-> MinOf({items[i].lo : i \in 1..Len(items)}),
          hi |-> MaxOf({items[i].hi : i \in 1..Len(items)}),
          conc |-> FALSE, S |-> AggSet(sc, pre, items)]

------------------------------------------------------------------------------
(* Approximation models: the set at a step stands for the whole interval   *)
(* until the next one.                                                     *)

HullWith(P, Q) == IF P = <<>> THEN <<>> ELSE HullAll(<<P, Q>>)

ApproxChull(pre, m, S) == LET f(P) == HullWith(P, StepPoly(pre, m, P)) IN Lift(f, S)

\* hull of the set and the next one, which is moved by the inputs and bloated by what the flow can deviate in between
LggPoly(pre, m, P) ==
    IF P = <<>> THEN <<>>
    ELSE LET l == pre.modes[m].lgg
             alpha == IF DSign(l.a) = 0 THEN DZero ELSE DMul(l.rest, DAdd(Radius(P), DDiv(l.rv, l.a)))
             q == MapPoly(pre.modes[m].M, P)
             q2 == IF l.V = <<>> THEN q ELSE Minkowski(q, l.V)
         IN  HullWith(P, Minkowski(q2, Square(alpha)))
ApproxLgg(pre, m, S) == LET f(P) == LggPoly(pre, m, P) IN Lift(f, S)

\* the claim behind it: all states within the next step are in the set (for inputs that are constant within a step; the
\* specification is its own witness for these)
RECURSIVE SpansOver(_, _, _)
SpansOver(P, D, Q) == D = <<>> \/ (/\ DLe(Supp(Q, Head(D)), DAdd(Supp(P, Head(D)), DRat(1, 1000000000)))
                                /\ SpansOver(P, Tail(D), Q))
FineOk(sc, pre, m, S0, S1) ==
    S0.L = <<>> \/ \A j \in 1..Len(pre.modes[m].fine) :
        LET f == pre.modes[m].fine[j]
            q == MapPoly(f.M, S0.L)
        IN  SpansOver(S1.L, sc.dirs, IF f.G = <<>> THEN q ELSE Minkowski(q, f.G))

\* what the model in use makes of a set that enters mode m
Approx(sc, pre, m, S) == CASE sc.set.approx = "chull" -> ApproxChull(pre, m, S)
                           [] sc.set.approx = "lgg" -> ApproxLgg(pre, m, S)
                           [] OTHER -> S

------------------------------------------------------------------------------
(* Discrete successors of the current set.  contact[t] is the Meet of the  *)
(* set with the guard of t.                                                *)

Contact(sc, pre, cur, t) == Meet(cur.S, pre.trans[t].guard)

SuccItem(sc, pre, cur, t, S, node) ==
    LET f(P) == ResetPoly(sc, pre, t, P)
    IN  [id |-> 0, mode |-> sc.trans[t].dst, lo |-> cur.lo, hi |-> cur.hi, conc |-> cur.conc,
         S |-> Lift(f, S), par |-> node, tr |-> t]

\* was the set left through t as a time-triggered transition: "yes", "no", "maybe"
TTTaken(sc, pre, cur, t) ==
    LET rows == pre.trans[t].ttrows
        eps2 == DDiv(DMul(DInt(2), sc.h), DInt(Steps(sc) * 1000))
        md == sc.modes[sc.trans[t].src]
        n  == Len(md.cA)
        width(P, d) == DAdd(Supp(P, d), Supp(P, <<DNeg(d[1]), DNeg(d[2])>>))
        \* code variables that drive the variables of guard row g
        drv(g) == {j \in 1..n : \E i \in 1..n : DSign(sc.trans[t].cguard[g][i]) # 0 /\ DSign(md.cA[i][j]) # 0}
        hi(P, v) == DAdd(Supp(P, <<md.cT[v][1], md.cT[v][2]>>), md.cT[v][3])
        lo(P, v) == DSub(md.cT[v][3], Supp(P, <<DNeg(md.cT[v][1]), DNeg(md.cT[v][2])>>))
        gd(g) == <<pre.trans[t].guard[g][1], pre.trans[t].guard[g][2]>>
        flat(P, g, e, f) == /\ \A v \in drv(g) : /\ DLt(DSub(hi(P, v), lo(P, v)), e)
                                                 /\ DLt(f, DAbs(hi(P, v)))
                            /\ DLt(width(P, gd(g)), e)
                            /\ DLt(DNeg(Supp(P, <<DNeg(gd(g)[1]), DNeg(gd(g)[2])>>)), DAdd(pre.trans[t].guard[g][3], e))
        sure(P, g) == /\ flat(P, g, DSub(eps2, Delta), DAdd(eps2, Delta))
                      /\ DLt(DNeg(Supp(P, <<DNeg(gd(g)[1]), DNeg(gd(g)[2])>>)), DSub(pre.trans[t].guard[g][3], Delta))
        m   == sc.trans[t].src
        inv == sc.modes[m].inv
        f(P) == StepPoly(pre, m, P)
        nxt == Lift(f, Meet(cur.S, inv).S)
        stays == Meet(nxt, inv)
        \* the condition of the guard only gets satisfied by more: the opposite invariant is left for good
        out(g) == nxt.U = <<>> \/ DLt(Supp(nxt.U, gd(g)), DSub(sc.trans[t].guard[g][3], DMul(DInt(2), eps2)))
    IN  IF rows = {} THEN "no"
        ELSE IF stays.must THEN "no"       \* something would go on inside the invariant
        ELSE IF cur.S.L = cur.S.U /\ ~stays.can /\ \E g \in rows : sure(cur.S.U, g) /\ out(g) THEN "yes"
        ELSE IF cur.S.L = <<>> \/ \E g \in rows : flat(cur.S.L, g, DAdd(eps2, Delta), DSub(eps2, Delta)) THEN "maybe"
        ELSE "no"

(* Take the transitions in en (a set), in the order of the mode's list.     *)
(* Stops as soon as the analysis is finished by an error verdict.           *)
RECURSIVE TakeFrom(_, _, _, _, _)
TakeFrom(sc, pre, st, ts, en) ==
    IF ts = <<>> THEN st
    ELSE LET t == Head(ts)
         IN  IF t \notin en THEN TakeFrom(sc, pre, st, Tail(ts), en)
             ELSE LET c == Contact(sc, pre, st.cur, t)
                      err == sc.modes[sc.trans[t].dst].err
                      s1 == [st EXCEPT !.agg = @ \/ (err /\ ~st.cur.conc), !.conc = @ \/ (err /\ st.cur.conc)]
                  IN  IF err /\ Finished(sc, s1) THEN s1
                      ELSE LET it == SuccItem(sc, pre, st.cur, t, c.S, st.nn)
                               tk == TTTaken(sc, pre, st.cur, t)
                               s2 == [s1 EXCEPT !.wait = Append(@, it),
                                                !.tt = IF tk = "yes" \/ @ = "yes" THEN "yes"
                                                       ELSE IF tk = "maybe" THEN "maybe" ELSE @]
                           IN  TakeFrom(sc, pre, s2, Tail(ts), en)

Outgoing(pre, m) == pre.out[m]
MustTake(sc, pre, cur) == {t \in {pre.out[cur.mode][i] : i \in 1..Len(pre.out[cur.mode])} : Contact(sc, pre, cur, t).must}
MayTake(sc, pre, cur)  == {t \in {pre.out[cur.mode][i] : i \in 1..Len(pre.out[cur.mode])} : Contact(sc, pre, cur, t).can}
==============================================================================
