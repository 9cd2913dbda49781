-------------------------------- MODULE Lin ---------------------------------
(***************************************************************************)
(* Matrices of any size over Dec decimals (sequences of rows), and the     *)
(* matrix exponential by its Taylor series.                                *)
(***************************************************************************)
EXTENDS Dec, TLC

LOCAL Terms == 34

Ident(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> IF i = j THEN DOne ELSE DZero])])

RECURSIVE DotFrom(_, _, _, _, _)
DotFrom(r, Q, j, k, acc) ==
    IF k > Len(r) THEN acc
    ELSE IF k = Len(r) THEN DAdd(acc, DMul(r[k], Q[k][j]))
    ELSE DotFrom(r, Q, j, k + 2, TLCEval(DAdd(acc, DDot(r[k], Q[k][j], r[k+1], Q[k+1][j]))))

LOCAL RowMul(r, Q) == TLCEval([j \in 1..Len(Q[1]) |-> DotFrom(r, Q, j, 1, DZero)])
MMul(P, Q) == LET R == TLCEval(Q) IN TLCEval([i \in 1..Len(P) |-> RowMul(TLCEval(P[i]), R)])
MAdd(P, Q) == TLCEval([i \in 1..Len(P) |-> TLCEval([j \in 1..Len(P[i]) |-> DAdd(P[i][j], Q[i][j])])])
MScale(P, s) == TLCEval([i \in 1..Len(P) |-> TLCEval([j \in 1..Len(P[i]) |-> DMul(P[i][j], s)])])
MCat(P, Q) == TLCEval([i \in 1..Len(P) |-> P[i] \o Q[i]])       \* side by side

RECURSIVE Series(_, _, _, _, _)
Series(T, H, k, off, acc) ==
    IF k > Terms THEN acc
    ELSE LET T2 == TLCEval(MScale(MMul(T, H), DRat(1, k + off)))
         IN  Series(T2, H, k + 1, off, TLCEval(MAdd(acc, T2)))

MExp(H) == Series(Ident(Len(H)), TLCEval(H), 1, 0, Ident(Len(H)))        \* e^H
MPhi(H) == Series(Ident(Len(H)), TLCEval(H), 1, 1, Ident(Len(H)))        \* integral of e^{Hs} ds, 0 <= s <= 1

RECURSIVE MPow(_, _)
MPow(P, k) == IF k = 0 THEN Ident(Len(P)) ELSE TLCEval(MMul(TLCEval(MPow(P, k - 1)), P))

\* entries agree up to tol * (1 + |expected|)
MNear(P, Q, tol) == /\ Len(P) = Len(Q)
                    /\ \A i \in 1..Len(P) : /\ Len(P[i]) = Len(Q[i])
                                            /\ \A j \in 1..Len(P[i]) : DNear(P[i][j], Q[i][j], DAdd(tol, DMul(tol, DAbs(Q[i][j]))))
=============================================================================
