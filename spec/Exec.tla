-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* Executions of single states.                                            *)
(*                                                                         *)
(* What the automaton does to one state: it starts somewhere in an initial *)
(* set, moves on from step to step while it is in the invariant, under an  *)
(* input out of the input set, and may jump when it is in a guard, if the  *)
(* state it gets to is allowed there.  No sets of states in here: this is  *)
(* the meaning that the computed sets, and every shortcut and              *)
(* over-approximation on the way to them, have to keep up with.            *)
(*                                                                         *)
(* A state of an execution is [mode, p, k, t, n]: k steps in the mode, t   *)
(* steps since the start, n choices made so far.  States that are close to *)
(* a border are not followed any further: which side they are on is open.  *)
(***************************************************************************)
EXTENDS Model

\* p satisfies the half-planes: "yes", "no", or "open" if it is too close to a border
Side(H, p) ==
    LET v(h) == DSub(PtDot(<<h[1], h[2]>>, p), h[3])
        e(h) == DMul(DAdd(Delta, Delta), DAdd(DAbs(h[1]), DAbs(h[2])))
    IN  IF \E j \in 1..Len(H) : DLt(e(H[j]), v(H[j])) THEN "no"
        ELSE IF \E j \in 1..Len(H) : DLe(DNeg(e(H[j])), v(H[j])) THEN "open"
        ELSE "yes"

\* the guard as the user wrote it; the ones that are recognised as time-triggered are relaxed a little, so that rounding does
\* not decide about them
GuardSide(sc, pr, t, p) ==
    LET tr == sc.trans[t]
        eps == DDiv(sc.h, DInt(Steps(sc) * 1000))
    IN  Side([j \in 1..Len(tr.guard) |-> IF j \in pr.trans[t].ttrows
                                         THEN <<tr.guard[j][1], tr.guard[j][2], DAdd(tr.guard[j][3], eps)>>
                                         ELSE tr.guard[j]], p)

------------------------------------------------------------------------------
(* Where executions start: corners, a little inside, and points between.   *)

Centre(P) == LET n == Len(P)
                 sum == [j \in 1..2 |-> LET RECURSIVE S(_) S(i) == IF i > n THEN DZero ELSE DAdd(P[i][j], S(i + 1)) IN S(1)]
             IN  <<DDiv(sum[1], DInt(n)), DDiv(sum[2], DInt(n))>>
Pull(c, q, f) == <<DAdd(c[1], DMul(f, DSub(q[1], c[1]))), DAdd(c[2], DMul(f, DSub(q[2], c[2])))>>
PointsOf(P) ==
    IF P = <<>> THEN <<>>
    ELSE LET c == TLCEval(Centre(P)) n == Len(P)
         IN  [j \in 1..n |-> Pull(c, P[j], DRat(99, 100))] \o <<c>> \o [j \in 1..n |-> Pull(c, P[j], DRat(1, 2))]

Starts(sc, k) ==
    LET i == sc.init[k]
        ps == PointsOf(ClipAll(FromH(i.H), sc.modes[i.mode].inv))
    IN  [j \in 1..Len(ps) |-> [mode |-> i.mode, p |-> ps[j], k |-> 0, t |-> 0, n |-> 0]]

------------------------------------------------------------------------------
(* What may happen next. *)

\* the states after a jump through t, one for each corner of what the reset adds; none if t cannot be taken for sure
Landings(sc, pr, t, x) ==
    LET tr == sc.trans[t]
        q  == IF tr.idr THEN x.p ELSE PtMap(tr.R, x.p)
        g  == pr.trans[t].mink
        ps == IF g = <<>> THEN <<q>> ELSE [j \in 1..Len(g) |-> PtAdd(q, g[j])]
        di == sc.modes[tr.dst].inv
    IN  IF GuardSide(sc, pr, t, x.p) # "yes" THEN <<>> ELSE SelectSeq(ps, LAMBDA p : Side(di, p) = "yes")

MayJump(sc, x) == x.k > 0 \/ (sc.set.urgent /\ Side(sc.modes[x.mode].inv, x.p) = "yes")

RECURSIVE JumpsFrom(_, _, _, _)
JumpsFrom(sc, pr, x, ts) ==
    IF ts = <<>> THEN <<>>
    ELSE LET t == Head(ts) ps == TLCEval(Landings(sc, pr, t, x))
         IN  [j \in 1..Len(ps) |-> [mode |-> sc.trans[t].dst, p |-> ps[j], k |-> 0, t |-> x.t, n |-> x.n + 1]]
             \o JumpsFrom(sc, pr, x, Tail(ts))
Jumps(sc, pr, x) == IF MayJump(sc, x) THEN JumpsFrom(sc, pr, x, pr.out[x.mode]) ELSE <<>>

\* a mode in which nothing moves needs only one step
Still(sc, x) == sc.set.skipzero /\ sc.modes[x.mode].zero /\ ~sc.modes[x.mode].hasU /\ x.k > 0

Moves(sc, pr, x) ==
    LET g == pr.modes[x.mode].G
        q == PtMap(pr.modes[x.mode].M, x.p)
        ps == IF g = <<>> THEN <<q>> ELSE [j \in 1..Len(g) |-> PtAdd(q, g[j])] \o <<PtAdd(q, Centre(g))>>
    IN  IF x.t >= Steps(sc) \/ Side(sc.modes[x.mode].inv, x.p) # "yes" \/ Still(sc, x) THEN <<>>
        ELSE [j \in 1..Len(ps) |-> [mode |-> x.mode, p |-> ps[j], k |-> x.k + 1, t |-> x.t + 1, n |-> x.n + 1]]
==============================================================================
