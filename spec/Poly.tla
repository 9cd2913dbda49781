-------------------------------- MODULE Poly --------------------------------
(***************************************************************************)
(* Convex polygons in the plane, over Dec decimals.                        *)
(*                                                                         *)
(* A polygon is the sequence of its corners, counter-clockwise, no three   *)
(* of them collinear; <<>> is the empty set, <<p>> a point, <<p, q>> a     *)
(* segment.  A half-plane is <<a, b, c>>: all <<x, y>> with ax + by <= c.  *)
(* An affine map is <<<<a, b, e>>, <<c, d, f>>>>: x' = ax + by + e, ...    *)
(***************************************************************************)
EXTENDS Dec, FiniteSets, TLC

PZero == <<DZero, DZero>>
IdMap == <<<<DOne, DZero, DZero>>, <<DZero, DOne, DZero>>>>

PtAdd(p, q) == <<DAdd(p[1], q[1]), DAdd(p[2], q[2])>>
PtSub(p, q) == <<DSub(p[1], q[1]), DSub(p[2], q[2])>>
PtMap(M, p) == <<DAdd(DDot(M[1][1], p[1], M[1][2], p[2]), M[1][3]),
                 DAdd(DDot(M[2][1], p[1], M[2][2], p[2]), M[2][3])>>
PtDot(d, p) == DDot(d[1], p[1], d[2], p[2])

LOCAL LexLess(p, q) == \/ DLt(p[1], q[1])
                       \/ p[1] = q[1] /\ DLt(p[2], q[2])

RECURSIVE Push(_, _)      \* push p on a strictly left-turning chain
Push(st, p) ==
    LET n == Len(st)
    IN  IF n >= 2 /\ DOrient(st[n-1], st[n], p) <= 0
        THEN Push(TLCEval(SubSeq(st, 1, n-1)), p)
        ELSE IF n >= 1 /\ st[n] = p THEN st ELSE Append(st, p)

RECURSIVE ChainUp(_, _, _)
ChainUp(s, i, st) == IF i > Len(s) THEN st ELSE ChainUp(s, i+1, TLCEval(Push(st, s[i])))

RECURSIVE ChainDown(_, _, _)
ChainDown(s, i, st) == IF i < 1 THEN st ELSE ChainDown(s, i-1, TLCEval(Push(st, s[i])))

\* the convex hull of a sequence of points
Hull(pts) ==
    IF Len(pts) <= 1 THEN pts
    ELSE LET s  == TLCEval(SortSeq(pts, LexLess))
             lo == TLCEval(ChainUp(s, 1, <<>>))
             up == TLCEval(ChainDown(s, Len(s), <<>>))
         IN  IF Len(lo) = 1 THEN lo
             ELSE SubSeq(lo, 1, Len(lo)-1) \o SubSeq(up, 1, Len(up)-1)

MapPoly(M, P)  == Hull(TLCEval([i \in 1..Len(P) |-> PtMap(M, P[i])]))

RECURSIVE Flat(_, _)
Flat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Flat(ss, i+1)

\* convex hull of the union of a sequence of polygons
HullAll(Ps) == Hull(Flat(Ps, 1))

Minkowski(P, Q) ==
    IF P = <<>> \/ Q = <<>> THEN <<>>
    ELSE Hull(TLCEval([k \in 1..(Len(P) * Len(Q)) |->
                 PtAdd(P[((k-1) \div Len(Q)) + 1], Q[((k-1) % Len(Q)) + 1])]))

LOCAL Lhs(h, p) == DSub(PtDot(<<h[1], h[2]>>, p), h[3])

LOCAL Cross(p, q, vp, vq) == <<DLerp(p[1], vp, q[1], vq), DLerp(p[2], vp, q[2], vq)>>

Clip(P, h) ==
    LET n == Len(P)
        v == TLCEval([i \in 1..n |-> Lhs(h, P[i])])
        sg == TLCEval([i \in 1..n |-> DSign(v[i])])
    IN  IF \A i \in 1..n : sg[i] <= 0 THEN P
        ELSE IF \A i \in 1..n : sg[i] > 0 THEN <<>>
        ELSE Hull(Flat(TLCEval([i \in 1..n |->
               LET j == IF i = n THEN 1 ELSE i+1
               IN  (IF sg[i] <= 0 THEN <<P[i]>> ELSE <<>>)
                   \o (IF sg[i] * sg[j] < 0 THEN <<Cross(P[i], P[j], v[i], v[j])>> ELSE <<>>)]), 1))

RECURSIVE ClipFrom(_, _, _)
ClipFrom(P, H, i) == IF i > Len(H) \/ P = <<>> THEN P ELSE ClipFrom(TLCEval(Clip(P, H[i])), H, i+1)
ClipAll(P, H) == ClipFrom(P, H, 1)

\* half-planes moved outwards by e (inwards if e < 0); every row is scaled by |a|+|b|
Relax(H, e) == TLCEval([i \in 1..Len(H) |->
                  <<H[i][1], H[i][2],
                    DAdd(H[i][3], DMul(e, DAdd(DAbs(H[i][1]), DAbs(H[i][2]))))>>])

RECURSIVE SuppFrom(_, _, _, _)
SuppFrom(P, d, i, m) == IF i > Len(P) THEN m ELSE SuppFrom(P, d, i+1, TLCEval(DMax(m, PtDot(d, P[i]))))
\* the support value max { d.p : p in P } of a non-empty polygon
Supp(P, d) == SuppFrom(P, d, 2, PtDot(d, P[1]))

Supports(P, D) == TLCEval([i \in 1..Len(D) |-> Supp(P, D[i])])

BigBox == LET b == DInt(1000) nb == DInt(-1000)
          IN  <<<<nb, nb>>, <<b, nb>>, <<b, b>>, <<nb, b>>>>

\* corners closer than 1e-8 are one corner
Snap == DRat(1, 100000000)
LOCAL Close(p, q) == DNear(p[1], q[1], Snap) /\ DNear(p[2], q[2], Snap)
Tidy(P) ==
    LET n == Len(P)
        keep == {i \in 1..n : \A j \in 1..(i-1) : ~Close(P[i], P[j])}
        at == SelectSeq([i \in 1..n |-> i], LAMBDA i : i \in keep)
    IN  IF Len(at) = n THEN P ELSE Hull(TLCEval([k \in 1..Len(at) |-> P[at[k]]]))

\* the polygon given by half-planes.  They are moved outwards by 1e-9, because a set without
\* interior would otherwise depend on how its corners are rounded.
FromH(H) == Tidy(ClipAll(BigBox, Relax(H, DRat(1, 1000000000))))

\* smallest polygon with the directions in D (and their opposites) that contains all of Ps;
\* D has to contain two independent directions
Template(Ps, D) ==
    LET P == HullAll(Ps)
        H == TLCEval([i \in 1..(2 * Len(D)) |->
                LET d == IF i % 2 = 1 THEN D[(i+1) \div 2]
                         ELSE <<DNeg(D[i \div 2][1]), DNeg(D[i \div 2][2])>>
                IN  <<d[1], d[2], Supp(P, d)>>])
    IN  FromH(H)
=============================================================================
