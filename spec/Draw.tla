-------------------------------- MODULE Draw --------------------------------
(***************************************************************************)
(* What the polygon drawn for a set has to look like.                      *)
(*                                                                         *)
(* A view has two axes.  An axis is [t |-> TRUE, f |-> ...] for time, or   *)
(* [t |-> FALSE, f |-> <<a, b, c>>] for the value a*x + b*y + c.           *)
(* The drawn corners are a closed sequence: the first one comes again at   *)
(* the end.                                                                *)
(***************************************************************************)
EXTENDS Model

LOCAL Ext(P, k) == LET RECURSIVE Hi(_, _)
                       Hi(j, m) == IF j > Len(P) THEN m ELSE Hi(j + 1, TLCEval(DMax(m, P[j][k])))
                       RECURSIVE Lo(_, _)
                       Lo(j, m) == IF j > Len(P) THEN m ELSE Lo(j + 1, TLCEval(DMin(m, P[j][k])))
                   IN  <<Lo(2, P[1][k]), Hi(2, P[1][k])>>

LOCAL AxisOf(f) == <<f[1], f[2], f[3]>>

\* the picture of P, for the steps lo..hi of length h
Shadow(view, P, t0, t1) ==
    LET x == view[1] y == view[2]
        val(f, p) == DAdd(DDot(f[1], p[1], f[2], p[2]), f[3])
        both(ts) == [k \in 1..(Len(P) * Len(ts)) |->
                        LET p == P[((k - 1) \div Len(ts)) + 1]
                            t == ts[((k - 1) % Len(ts)) + 1]
                        IN  <<IF x.t THEN t ELSE val(x.f, p), IF y.t THEN t ELSE val(y.f, p)>>]
    IN  Hull(TLCEval(both(IF t0 = t1 \/ ~(x.t \/ y.t) THEN <<t0>> ELSE <<t0, t1>>)))

------------------------------------------------------------------------------

LOCAL UnitDirs == <<<<DOne, DZero>>, <<DNeg(DOne), DZero>>, <<DZero, DOne>>, <<DZero, DNeg(DOne)>>>>

\* the directions in which a polygon is checked: the normals of its edges, of length 1 (sum of both coordinates), and the
\* axes for a point or a segment; edges too short to have a direction are left out.
\* (The axes are left out otherwise: the sampling bounds how far the set may reach over an edge drawn, and by that over the
\* edges only, so at a sharp corner the extent along an axis may fall short by more.)
Normals(P) ==
    LET n == Len(P)
        e(k) == PtSub(P[IF k = n THEN 1 ELSE k + 1], P[k])
        len(v) == DAdd(DAbs(v[1]), DAbs(v[2]))
        nrm(k) == LET v == e(k) l == len(v) IN <<DDiv(v[2], l), DDiv(DNeg(v[1]), l)>>
        use == IF n < 2 THEN <<>> ELSE SelectSeq([k \in 1..n |-> k], LAMBDA k : DLt(DRat(1, 100000), len(e(k))))
    IN  TLCEval((IF n < 3 THEN UnitDirs ELSE <<>>) \o [j \in 1..Len(use) |-> nrm(use[j])])

\* the largest coordinate
LOCAL Size(P) == LET x == Ext(P, 1) y == Ext(P, 2)
                 IN  DMax(DMax(DAbs(x[1]), DAbs(x[2])), DMax(DAbs(y[1]), DAbs(y[2])))

\* P reaches beyond Q by more than tol in one of the directions D
LOCAL Beyond(P, Q, D, tol) == \E k \in 1..Len(D) : DLt(DAdd(Supp(Q, D[k]), tol), Supp(P, D[k]))

\* twice the area inside a closed sequence of corners
RECURSIVE AreaFrom(_, _, _)
AreaFrom(V, k, a) == IF k >= Len(V) THEN a
                     ELSE AreaFrom(V, k + 1, TLCEval(DAdd(a, DSub(DMul(V[k][1], V[k + 1][2]), DMul(V[k + 1][1], V[k][2])))))
Area2(V) == DAbs(AreaFrom(V, 1, DZero))

\* what is wrong with the corners V drawn for a set between L (if known) and U
DrawBad(view, V, L, U, t0, t1) ==
    IF Len(V) < 2 \/ V[1] # V[Len(V)] THEN "plot.open"
    ELSE LET PU == Shadow(view, U, t0, t1)
             PL == Shadow(view, L, t0, t1)
             H  == Hull(V)
             tol == DMul(DRat(2, 100000), DAdd(DOne, Size(PU)))
             ex == Ext(PU, 1) ey == Ext(PU, 2)
             \* directions are sampled until the error is below a thousandth of the smaller extent
             eps == DMul(DRat(1, 1000), DMin(DSub(ex[2], ex[1]), DSub(ey[2], ey[1])))
         IN  IF Beyond(V, PU, Normals(PU), tol) THEN "plot.outside"
             ELSE IF L # <<>> /\ Beyond(PL, H, Normals(H), DAdd(tol, eps)) THEN "plot.cut"
             ELSE IF DLt(DAdd(Area2(V), DMul(tol, DAdd(DOne, Size(PU)))), Area2(H \o <<H[1]>>)) THEN "plot.order"
             ELSE ""

\* is p strictly inside the closed corner sequence V, by at least m: "yes", "no" (at least m outside), or "open"
Within(V, p, m) ==
    LET H == Hull(V)
        D == Normals(H)
        over == [k \in 1..Len(D) |-> DSub(PtDot(D[k], p), Supp(H, D[k]))]
    IN  IF \E k \in 1..Len(D) : DLt(m, over[k]) THEN "no"
        ELSE IF Len(V) < 4 THEN "open"
        ELSE IF \A k \in 1..Len(D) : DLt(over[k], DNeg(m)) THEN "yes"
        ELSE "open"
==============================================================================
