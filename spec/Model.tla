------------------------------- MODULE Model -------------------------------
(***************************************************************************)
(* The mathematical semantics of a scenario: a hybrid automaton whose      *)
(* modes have affine dynamics (X, Y)' = A (X, Y, 1) + B u, u in U, run in   *)
(* discrete time with a fixed step h.  Scenarios are records written by    *)
(* harness/model.py (to_json); nothing in here looks at the code.          *)
(*                                                                         *)
(* State sets are pairs [L, U] of polygons, an inner and an outer bound;   *)
(* L = U means the set is known exactly.                                   *)
(***************************************************************************)
EXTENDS Poly, Integers, Sequences

Delta == DRat(2, 1000000)       \* closer than this, contact with a boundary is left open

Taylor == 30                    \* number of terms of the matrix exponential

\* a run computes the steps up to the first one at or after the time bound T
Steps(sc) == CHOOSE n \in 1..1000 : /\ DLe(sc.T, DMul(DInt(n), sc.h))
                                    /\ DLt(DMul(DInt(n - 1), sc.h), sc.T)

------------------------------------------------------------------------------
(* The one-step maps.  Homogeneous matrices are 3 x 3, rows of 3 decimals. *)

I3 == << <<DOne, DZero, DZero>>, <<DZero, DOne, DZero>>, <<DZero, DZero, DOne>> >>
Hom(A) == << A[1], A[2], <<DZero, DZero, DZero>> >>

Dot3(r, M, j) == DAdd(DDot(r[1], M[1][j], r[2], M[2][j]), DMul(r[3], M[3][j]))
MulMM(P, Q) == TLCEval([i \in 1..3 |-> <<Dot3(P[i], Q, 1), Dot3(P[i], Q, 2), Dot3(P[i], Q, 3)>>])
AddMM(P, Q) == TLCEval([i \in 1..3 |-> <<DAdd(P[i][1], Q[i][1]), DAdd(P[i][2], Q[i][2]), DAdd(P[i][3], Q[i][3])>>])
ScaleM(P, s) == TLCEval([i \in 1..3 |-> <<DMul(P[i][1], s), DMul(P[i][2], s), DMul(P[i][3], s)>>])

\* sum of T_k, k = 0.. with T_0 = T, T_k = T_(k-1) * H / (k + off)
RECURSIVE SeriesFrom(_, _, _, _, _)
SeriesFrom(T, H, k, off, acc) ==
    IF k > Taylor THEN acc
    ELSE LET T2 == ScaleM(MulMM(T, H), DRat(1, k + off))
         IN  SeriesFrom(T2, H, k + 1, off, AddMM(acc, T2))

ExpM(H)  == SeriesFrom(I3, H, 1, 0, I3)                 \* e^H
PhiM(H)  == SeriesFrom(I3, H, 1, 1, I3)                 \* I + H/2! + H^2/3! + ...

\* e^{A t} as an affine map of the plane
FlowMap(A, t) == LET E == ExpM(ScaleM(Hom(A), t)) IN <<E[1], E[2]>>

\* the effect of an input held constant for time t: (integral of e^{As} ds, 0 <= s <= t) B
InputMap(A, B, t) ==
    LET P == ScaleM(PhiM(ScaleM(Hom(A), t)), t)
        e(i, j) == DDot(P[i][1], B[1][j], P[i][2], B[2][j])
    IN  << <<e(1,1), e(1,2), DZero>>, <<e(2,1), e(2,2), DZero>> >>

Aff(B)   == << <<B[1][1], B[1][2], DZero>>, <<B[2][1], B[2][2], DZero>> >>

------------------------------------------------------------------------------
(* Time-triggered transitions, recognised on the data of the automaton as  *)
(* it is given to the tool (cA, cinv, cguard: matrices over code variables) *)

RowZero(r) == \A j \in 1..Len(r) : DSign(r[j]) = 0
ConstVars(cA) == {i \in 1..Len(cA) : RowZero(cA[i])}
TTVars(cA) == {i \in 1..Len(cA) : /\ ~RowZero(cA[i])
                                  /\ \A j \in 1..Len(cA) : DSign(cA[i][j]) # 0 => j \in ConstVars(cA)}
OnlyVars(row, n, V) == \A j \in 1..n : DSign(row[j]) # 0 => j \in V
Opposite(r1, r2) == \A j \in 1..Len(r1) : r1[j] = DNeg(r2[j])

\* the rows of the guard of t that make it time-triggered
TTRows(sc, t) ==
    LET tr == sc.trans[t]
        m  == sc.modes[tr.src]
        n  == Len(m.cA)
        V  == TTVars(m.cA)
    IN  IF V # {} /\ \A i \in 1..Len(m.cinv) : OnlyVars(m.cinv[i], n, V)
        THEN {g \in 1..Len(tr.cguard) :
                /\ OnlyVars(tr.cguard[g], n, V)
                /\ \E i \in 1..Len(m.cinv) : Opposite(tr.cguard[g], m.cinv[i])}
        ELSE {}

------------------------------------------------------------------------------
(* Everything about a scenario that does not change during a run. *)

(* The continuous-time model (Le Guernic and Girard) works in the maximum   *)
(* norm, and only for modes whose code variables are X and Y.               *)

RECURSIVE ExpTail(_, _, _)      \* sum of x^j / j!, j >= k, where t = x^k / k!
ExpTail(x, t, k) == IF k > Taylor THEN DZero ELSE DAdd(t, ExpTail(x, TLCEval(DDiv(DMul(t, x), DInt(k + 1))), k + 1))
ExpRest(x) == ExpTail(x, DDiv(DMul(x, x), DInt(2)), 2)                 \* e^x - 1 - x

NormInf(A) == DMax(DAdd(DAbs(A[1][1]), DAbs(A[1][2])), DAdd(DAbs(A[2][1]), DAbs(A[2][2])))
Square(r) == <<<<DNeg(r), DNeg(r)>>, <<r, DNeg(r)>>, <<r, r>>, <<DNeg(r), r>>>>
RECURSIVE RadiusFrom(_, _, _)
RadiusFrom(P, i, m) == IF i > Len(P) THEN m ELSE RadiusFrom(P, i + 1, TLCEval(DMax(m, DMax(DAbs(P[i][1]), DAbs(P[i][2])))))
Radius(P) == RadiusFrom(P, 1, DZero)                                   \* largest norm in a polygon

\* what an interval of length h adds: V = B U h, the rest of the exponential, and the bloating of each step
PreLgg(md, h) ==
    LET V0 == IF md.hasU THEN MapPoly(Aff(md.B), FromH(md.U)) ELSE <<>>
        a  == NormInf(md.A)
        rv == Radius(V0)
        hm == << <<h, DZero, DZero>>, <<DZero, h, DZero>> >>
    IN  [a |-> a, rest |-> ExpRest(DMul(a, h)), rv |-> rv,
         V |-> IF md.hasU THEN MapPoly(hm, V0) ELSE <<>>]
NoLgg == [a |-> DZero, rest |-> DZero, rv |-> DZero, V |-> <<>>]
Bloat(l) == IF DSign(l.a) = 0 THEN DZero ELSE DDiv(DMul(l.rest, l.rv), l.a)

FineParts == 4

PreMode(sc, m) == TLCEval(
    LET md == sc.modes[m]
        h  == sc.h
        l  == IF sc.set.approx = "lgg" /\ ~md.err THEN PreLgg(md, h) ELSE NoLgg
        part(j) == DDiv(DMul(h, DInt(j)), DInt(FineParts))
        eff(t) == IF md.hasU THEN MapPoly(InputMap(md.A, md.B, t), FromH(md.U)) ELSE <<>>
    IN  IF md.err THEN [M |-> IdMap, G |-> <<>>, lgg |-> l, fine |-> <<>>]
        ELSE [M |-> FlowMap(md.A, h),
              G |-> IF ~md.hasU THEN <<>>
                    ELSE IF DSign(l.a) # 0 THEN Minkowski(l.V, Square(Bloat(l)))
                    ELSE eff(h),
              lgg |-> l,
              \* the flow at times within a step, for the claim that the continuous-time model covers them
              fine |-> IF sc.set.approx # "lgg" THEN <<>>
                       ELSE [j \in 1..FineParts |-> [M |-> FlowMap(md.A, part(j)), G |-> eff(part(j))]]])

PreTrans(sc, t) == TLCEval(
    LET tr  == sc.trans[t]
        rows == IF sc.set.tt THEN TTRows(sc, t) ELSE {}
        eps == DDiv(sc.h, DInt(Steps(sc) * 1000))
        g1  == [i \in 1..Len(tr.guard) |->
                  IF i \in rows THEN <<tr.guard[i][1], tr.guard[i][2], DAdd(tr.guard[i][3], eps)>>
                  ELSE tr.guard[i]]
        strong == sc.set.strengthen /\ rows = {} /\ tr.idr /\ tr.src # tr.dst
        di  == sc.modes[tr.dst].inv
        proj(H) == SelectSeq([i \in 1..Len(H) |-> <<H[i][1], H[i][2]>>],
                             LAMBDA d : DSign(d[1]) # 0 \/ DSign(d[2]) # 0)
    IN  [guard |-> IF strong THEN g1 \o di ELSE g1,
         ttrows |-> rows,
         gdirs |-> IF strong THEN tr.gdirs \o proj(di) ELSE tr.gdirs,
         mink |-> IF tr.mink THEN MapPoly(Aff(tr.MD), FromH(tr.MC)) ELSE <<>>])

Pre(sc) == [modes |-> [m \in 1..Len(sc.modes) |-> PreMode(sc, m)],
            trans |-> [t \in 1..Len(sc.trans) |-> PreTrans(sc, t)],
            out |-> [m \in 1..Len(sc.modes) |->
                       SelectSeq([t \in 1..Len(sc.trans) |-> t], LAMBDA t : sc.trans[t].src = m)]]

------------------------------------------------------------------------------
(* Operations on bounds. *)

Exact(P) == [L |-> P, U |-> P]
Lift(f(_), S) == LET l == TLCEval(f(S.L)) IN [L |-> l, U |-> IF S.L = S.U THEN l ELSE TLCEval(f(S.U))]

StepPoly(pre, m, P) ==
    IF P = <<>> THEN <<>>
    ELSE LET q == MapPoly(pre.modes[m].M, P)
             g == pre.modes[m].G
         IN  IF g = <<>> THEN q ELSE Minkowski(q, g)

ResetPoly(sc, pre, t, P) ==
    IF P = <<>> THEN <<>>
    ELSE LET q == IF sc.trans[t].idr THEN P ELSE MapPoly(sc.trans[t].R, P)
             g == pre.trans[t].mink
         IN  IF g = <<>> THEN q ELSE Minkowski(q, g)

\* intersection with half-planes. must: certainly non-empty; can: possibly non-empty
Meet(S, H) ==
    IF Len(H) = 0 THEN [must |-> S.L # <<>>, can |-> S.U # <<>>, S |-> S]
    ELSE LET must == ClipAll(S.L, Relax(H, DNeg(Delta))) # <<>>
             loose == ClipAll(S.U, Relax(H, Delta))
             l == ClipAll(S.L, H)
         IN  IF must THEN [must |-> TRUE, can |-> TRUE,
                           S |-> [L |-> l, U |-> IF S.L = S.U THEN l ELSE ClipAll(S.U, H)]]
             ELSE [must |-> FALSE, can |-> loose # <<>>, S |-> [L |-> <<>>, U |-> loose]]

\* S certainly / possibly inside H
Inside(P, H) == \A i \in 1..Len(H) : P = <<>> \/ DLe(Supp(P, <<H[i][1], H[i][2]>>), H[i][3])
==============================================================================
