------------------------------- MODULE LpSet --------------------------------
(***************************************************************************)
(* The meaning of the operations of LpOps on sets in the plane, and the    *)
(* comparison with the real objects.                                       *)
(*                                                                         *)
(* A handle denotes the set  (M I (+) B) cut by C :                        *)
(*   I  polygon of initial points       M  affine map (basis matrix)       *)
(*   B  polygon that was added          C  half-planes on current points   *)
(* A handle that is advanced in time keeps M = identity, and I is the set  *)
(* of its current points (the future depends on nothing else).             *)
(*                                                                         *)
(* Case: [id, status, exc, h, modes, log], one log record per operation:   *)
(*   op, s (handle that is changed), src (handles it is made from), m, and *)
(*   the data of the operation; st: what is seen afterwards, for every     *)
(*   live handle: [s, feas, sup, off]; qs: answers to queries              *)
(***************************************************************************)
EXTENDS Model, Json, IOUtils

VARIABLES c, pre, i, h, bad
vars == <<c, pre, i, h, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case == Cases[c]
Ev == Case.log[i]

Tol == DRat(2, 100000)
TolOf(v) == DMul(Tol, DAdd(DOne, DAbs(v)))
Same(a, b) == DNear(a, b, TolOf(b))

PM(md) == TLCEval([M |-> FlowMap(md.A, Case.h),
                   G |-> IF md.hasU THEN MapPoly(InputMap(md.A, md.B, Case.h), FromH(md.U)) ELSE <<>>])

Handle(m, I) == [live |-> TRUE, m |-> m, I |-> I, M |-> IdMap, B |-> <<>>, C |-> <<>>, fat |-> FALSE]
Dead == [live |-> FALSE, m |-> 1, I |-> <<>>, M |-> IdMap, B |-> <<>>, C |-> <<>>, fat |-> FALSE]

Before(v) == LET q == MapPoly(v.M, v.I) IN IF v.B = <<>> THEN q ELSE Minkowski(q, v.B)
Val(v) == ClipAll(Before(v), v.C)

\* half-planes on current points, as half-planes on initial points
Pull(M, H) == TLCEval([k \in 1..Len(H) |->
    <<DDot(H[k][1], M[1][1], H[k][2], M[2][1]), DDot(H[k][1], M[1][2], H[k][2], M[2][2]),
      DSub(H[k][3], DDot(H[k][1], M[1][3], H[k][2], M[2][3]))>>])

\* certainly empty / possibly empty
MustBe(v) == ClipAll(Before(v), Relax(v.C, DNeg(Delta))) # <<>>
CanBe(v)  == ClipAll(Before(v), Relax(v.C, Delta)) # <<>>

RECURSIVE Segs(_, _, _)
Segs(cols, a, k) ==   \* Minkowski sum of the segments [-a c, a c]
    IF k > Len(cols) THEN <<PZero>>
    ELSE Minkowski(Segs(cols, a, k + 1),
                   Hull(<< <<DMul(a, cols[k][1]), DMul(a, cols[k][2])>>, <<DNeg(DMul(a, cols[k][1])), DNeg(DMul(a, cols[k][2]))>> >>))

RECURSIVE Advance(_, _, _)
Advance(P, m, k) ==
    IF k = 0 \/ P = <<>> THEN P
    ELSE LET q == MapPoly(pre[m].M, P)
             n == IF pre[m].G = <<>> THEN q ELSE Minkowski(q, pre[m].G)
         IN  Advance(TLCEval(n), m, k - 1)

RECURSIVE SumAll(_, _)
SumAll(Ps, k) == IF k = Len(Ps) THEN Ps[k] ELSE Minkowski(Ps[k], SumAll(Ps, k + 1))

Srcs == [k \in 1..Len(Ev.src) |-> Val(h[Ev.src[k]])]

After ==    \* the handle Ev.s after the operation
    LET v == h[Ev.s] IN
    CASE Ev.op = "new"   -> Handle(Ev.m, MapPoly(Ev.F, FromH(Ev.H)))
      [] Ev.op = "zono"  -> Handle(Ev.m, LET S == Segs(Ev.cols, DOne, 1) IN TLCEval([k \in 1..Len(S) |-> PtAdd(S[k], Ev.pt)]))
      [] Ev.op = "clone" -> h[Ev.src[1]]
      [] Ev.op = "map"   -> [v EXCEPT !.M = Ev.F]
      [] Ev.op = "scale" -> [v EXCEPT !.M = << <<DMul(Ev.a, v.M[1][1]), DMul(Ev.a, v.M[1][2]), DMul(Ev.a, v.M[1][3])>>,
                                               <<DMul(Ev.a, v.M[2][1]), DMul(Ev.a, v.M[2][2]), DMul(Ev.a, v.M[2][3])>> >>]
      [] Ev.op \in {"cut", "recut"} -> [v EXCEPT !.I = ClipAll(v.I, Pull(v.M, Ev.H))]
      [] Ev.op = "late"  -> [v EXCEPT !.C = v.C \o Ev.H]
      [] Ev.op = "bloat" -> [v EXCEPT !.B = LET z == Segs(Ev.cols, Ev.a, 1) IN IF v.B = <<>> THEN z ELSE Minkowski(v.B, z), !.fat = TRUE]
      [] Ev.op = "step"  -> [v EXCEPT !.I = Advance(v.I, v.m, Ev.j)]
      [] Ev.op = "reset" -> Handle(Ev.m, LET q == MapPoly(Ev.F, Val(v))
                                         IN  IF Ev.mink THEN Minkowski(q, MapPoly(Aff(Ev.MD), FromH(Ev.MC))) ELSE q)
      [] Ev.op = "hull"  -> Handle(Ev.m, HullAll(Srcs))
      [] Ev.op = "agg"   -> Handle(Ev.m, Template(Srcs, Ev.D))
      [] Ev.op = "sum"   -> Handle(Ev.m, SumAll(Srcs, 1))
      [] OTHER -> v

------------------------------------------------------------------------------
\* what is wrong with what is seen of one handle
SeenBad(o, hs) ==
    LET v == hs[o.s]
        must == MustBe(v)
        can == CanBe(v)
        P == TLCEval(Val(v))
    IN  IF ~o.feas THEN (IF must THEN "set.infeasible" ELSE "")
        ELSE IF ~can THEN "set.feasible"
        ELSE IF ~must THEN ""
        ELSE IF \E k \in 1..Len(o.sup) : ~Same(o.sup[k], Supp(P, Case.dirs[k]))
             THEN (IF o.s = Ev.s THEN "set.support" ELSE "set.other")
        ELSE IF ~v.fat /\ ~DLe(o.off, DMul(Tol, DInt(20))) THEN "set.off"
        ELSE ""

\* extreme values of an affine form over a polygon
High(P, r) == DAdd(Supp(P, <<r[1], r[2]>>), r[3])
Low(P, r)  == DSub(r[3], Supp(P, <<DNeg(r[1]), DNeg(r[2])>>))

RECURSIVE Largest(_, _, _)
Largest(P, rows, k) ==
    IF k > Len(rows) THEN DZero
    ELSE DMax(DMax(DAbs(High(P, rows[k])), DAbs(Low(P, rows[k]))), Largest(P, rows, k + 1))

Half == DRat(1, 2)
QueryBad(q, hs) ==
    LET v == hs[q.s]
        P == TLCEval(Val(v))
        rows == Case.modes[v.m].T
    IN  CASE q.q = "meets" ->      \* is a.x < b for some point?
               LET lo == DNeg(Supp(P, <<DNeg(q.H[1]), DNeg(q.H[2])>>))
               IN  IF DLt(lo, DSub(q.H[3], Delta)) /\ q.ans # "yes" THEN "query.meets"
                   ELSE IF DLt(DAdd(q.H[3], Delta), lo) /\ q.ans # "no" THEN "query.meets" ELSE ""
          [] q.q = "point" ->
               LET box == << <<DOne, DZero, q.pt[1]>>, <<DNeg(DOne), DZero, DNeg(q.pt[1])>>, <<DZero, DOne, q.pt[2]>>, <<DZero, DNeg(DOne), DNeg(q.pt[2])>> >>
                   \* some point of P nearby / the whole neighbourhood in P
                   some == ClipAll(P, Relax(box, Delta)) # <<>>
                   hit == \A e \in {<<1, 1>>, <<1, -1>>, <<-1, 1>>, <<-1, -1>>} :
                            LET w == << DAdd(q.pt[1], DMul(DInt(e[1]), DMul(Delta, DInt(4)))), DAdd(q.pt[2], DMul(DInt(e[2]), DMul(Delta, DInt(4)))) >>
                            IN  Len(P) > 2 /\ \A k \in 1..Len(P) : DOrient(P[k], P[IF k = Len(P) THEN 1 ELSE k + 1], w) >= 0
               IN  IF hit /\ q.ans # "yes" THEN "query.point" ELSE IF ~some /\ q.ans # "no" THEN "query.point" ELSE ""
          [] q.q = "centre" ->
               IF v.fat /\ Len(rows) > 2 THEN ""
               ELSE IF Len(q.vec) # Len(rows) THEN "query.centre"
               ELSE IF \E k \in 1..Len(rows) : ~Same(q.vec[k], DMul(Half, DAdd(High(P, rows[k]), Low(P, rows[k])))) THEN "query.centre" ELSE ""
          [] q.q = "radius" ->
               IF v.fat /\ Len(rows) > 2 THEN "" ELSE IF Same(q.a, Largest(P, rows, 1)) THEN "" ELSE "query.radius"
          [] OTHER -> "query.unknown"

EvBad(hs) ==
    LET sb == {k \in 1..Len(Ev.st) : SeenBad(Ev.st[k], hs) # ""}
        qb == {k \in 1..Len(Ev.qs) : MustBe(hs[Ev.qs[k].s]) /\ QueryBad(Ev.qs[k], hs) # ""}
    IN  IF sb # {} THEN SeenBad(Ev.st[CHOOSE k \in sb : TRUE], hs)
        ELSE IF qb # {} THEN QueryBad(Ev.qs[CHOOSE k \in qb : TRUE], hs)
        ELSE ""

\* a set that is too close to being empty is left open: the case ends
Open(hs) == \/ \E k \in 1..Len(Ev.st) : LET v == hs[Ev.st[k].s] IN ~MustBe(v) /\ CanBe(v)
            \/ /\ Ev.op \in {"cut", "recut"}
               /\ LET v == h[Ev.s] IN /\ ClipAll(v.I, Relax(Pull(v.M, Ev.H), DNeg(Delta))) = <<>>
                                      /\ ClipAll(v.I, Relax(Pull(v.M, Ev.H), Delta)) # <<>>

------------------------------------------------------------------------------
Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)

Init == /\ c \in 1..Len(Cases)
        /\ pre = TLCEval([m \in 1..2 |-> PM(Case.modes[m])])
        /\ i = 0
        /\ h = [s \in 1..3 |-> Dead]
        /\ bad = ""

Stop(cl, det) == bad' = cl /\ Say(cl, det) /\ UNCHANGED <<c, pre, i, h>>

Next ==
    /\ bad = ""
    /\ IF i = 0 THEN i' = 1 /\ UNCHANGED <<c, pre, h, bad>>
       ELSE IF i > Len(Case.log) THEN
            IF Case.status # "ok" THEN Stop(Case.status, Case.exc) ELSE Stop("ok", ToString(i - 1))
       ELSE LET hs == TLCEval([h EXCEPT ![Ev.s] = TLCEval(After)])
                b == EvBad(hs)
            IN  IF Open(hs) THEN Stop("ok", "open " \o ToString(i))
                ELSE IF b # "" THEN Stop(b, ToString(i) \o " " \o Ev.op)
                ELSE i' = i + 1 /\ h' = hs /\ UNCHANGED <<c, pre, bad>>

Spec == Init /\ [][Next]_vars
=============================================================================
