------------------------------ MODULE TextTrace -----------------------------
(***************************************************************************)
(* Descriptions given as text (spellings of TextWrite) as translated by    *)
(* the code.                                                               *)
(*                                                                         *)
(* Case: [id, kind, vars, consts, aff, rows, status, exc, wild, big, mat,   *)
(*        rhs]                                                             *)
(*   kind    "dyn" (derivatives), "reset", "cond"                          *)
(*   vars    names of the variables, in order                              *)
(*   consts  [n, v] names and values of the constants                      *)
(*   aff     there is an affine variable (always 1) after the variables    *)
(*   rows    [l, op, r]: the expression l; or the condition "l op r"       *)
(*   status  "ok", or "exc": it was refused                                *)
(*   wild    the answer has numbers that are infinite, or no numbers       *)
(*   big     the answer has numbers out of the range of the decimals       *)
(*   mat, rhs  the answer                                                  *)
(***************************************************************************)
EXTENDS Text, Json, IOUtils

VARIABLES c, i, want, bad
vars == <<c, i, want, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)
Case == Cases[c]
Say(cl, det) == PrintT("VERDICT|" \o Case.id \o "|" \o cl \o "|" \o det)

N == Len(Case.vars)
VS == {Case.vars[k] : k \in 1..N}
CS == {Case.consts[k].n : k \in 1..Len(Case.consts)}
AllNames == UNION {Names(Case.rows[k].l) \cup Names(Case.rows[k].r) : k \in 1..Len(Case.rows)} \cup VS \cup CS
Consts == [s \in CS |-> Case.consts[CHOOSE k \in 1..Len(Case.consts) : Case.consts[k].n = s].v]
Index(s) == CHOOSE k \in 1..N : Case.vars[k] = s

\* points: s = 0 is the origin; the value of unknown names is u
Coord(s, j) == IF s = 0 THEN DZero
               ELSE LET m == ((j * 37 + s * 53 + j * j * s * 11) % 18) - 9 IN DRat(IF m >= 0 THEN m + 1 ELSE m, 4)
S == 1..8
Env(val(_), u) == [s \in AllNames |-> IF s \in CS THEN Consts[s] ELSE IF s \in VS THEN val(Index(s)) ELSE u]

\* the value of row r there: of a condition, what has to be <= 0
F(r, env) ==
    LET x == Val(r.l, env) y == Val(r.r, env)
    IN  [d |-> x.d /\ y.d, v |-> IF r.op = ">=" THEN DSub(y.v, x.v) ELSE DSub(x.v, y.v)]
At(r, s, u) == LET val(j) == Coord(s, j) IN F(r, Env(val, u))
Mid(r, s, t, u) == LET val(j) == DMul(DRat(1, 2), DAdd(Coord(s, j), Coord(t, j))) IN F(r, Env(val, u))

U1 == DRat(5, 4)
U2 == DRat(-7, 4)

Far(a, b) == ~DNear(a, b, DRat(1, 1000))
Strange(r) == \E s \in {0} \cup S : LET x == At(r, s, U1) y == At(r, s, U2) IN x.d /\ y.d /\ Far(x.v, y.v)
Bent(r) == \E s, t \in {0} \cup S : s < t /\ LET x == At(r, s, U1) y == At(r, t, U1) z == Mid(r, s, t, U1)
                                             IN  x.d /\ y.d /\ z.d /\ Far(DAdd(z.v, z.v), DAdd(x.v, y.v))
Ops == IF Case.kind = "cond" THEN {"<=", ">="} ELSE {""}
Shifted(r) == Case.kind # "cond" /\ ~Case.aff /\ ~Calls(r.l) /\ LET x == At(r, 0, U1) IN x.d /\ Far(x.v, DZero)

\* it has to be refused
Refuse(r) == IF r.op \notin Ops THEN "op" ELSE IF Strange(r) THEN "unknown" ELSE IF Bent(r) THEN "nonlinear" ELSE IF Shifted(r) THEN "shifted" ELSE ""
\* it has to be accepted
Accept(r) == /\ r.op \in Ops
             /\ Names(r.l) \cup Names(r.r) \subseteq VS \cup CS
             /\ Linear(r.l, VS, Consts) /\ Linear(r.r, VS, Consts)
             /\ \A s \in {0} \cup S : At(r, s, U1).d
             /\ Case.kind = "cond" \/ Case.aff \/ Pure(r.l, VS, Consts)

Want == LET R == {k \in 1..Len(Case.rows) : Refuse(Case.rows[k]) # ""}
        IN  IF R # {} THEN [w |-> "refuse", why |-> Refuse(Case.rows[CHOOSE k \in R : \A m \in R : k <= m])]
            ELSE IF \A k \in 1..Len(Case.rows) : Accept(Case.rows[k]) THEN [w |-> "accept", why |-> ""]
            ELSE [w |-> "open", why |-> ""]

------------------------------------------------------------------------------
Cols == N + (IF Case.aff THEN 1 ELSE 0)
Rows == Len(Case.rows) + (IF Case.aff /\ Case.kind # "cond" THEN 1 ELSE 0)
Shape == /\ Len(Case.mat) = Rows
         /\ \A k \in 1..Rows : Len(Case.mat[k]) = Cols
         /\ Case.kind = "cond" => Len(Case.rhs) = Rows

\* the last row of the affine variable
Last == ~Case.aff \/ Case.kind = "cond" \/
        Case.mat[Rows] = [k \in 1..Cols |-> IF Case.kind = "reset" /\ k = Cols THEN DOne ELSE DZero]

RECURSIVE RowSum(_, _, _)
RowSum(row, s, k) == IF k > N THEN IF Case.aff THEN row[N + 1] ELSE DZero
                     ELSE DAdd(DMul(row[k], Coord(s, k)), RowSum(row, s, k + 1))
\* what the answer makes of row k there
G(k, s) == DSub(RowSum(Case.mat[k], s, 1), IF Case.kind = "cond" THEN Case.rhs[k] ELSE DZero)

Close(a, b) == DNear(a, b, DMul(DRat(1, 100000000), DAdd(DInt(10), DAdd(DAbs(a), DAbs(b)))))
Means(k) ==
    LET r == Case.rows[k]
        D == {s \in {0} \cup S : At(r, s, U1).d}
        f == TLCEval([s \in D |-> At(r, s, U1).v])
        g == TLCEval([s \in D |-> G(k, s)])
        big == CHOOSE s \in D : \A t \in D : DLe(DAbs(f[t]), DAbs(f[s]))
        \* a condition may be scaled by a positive factor
        q == IF Case.kind # "cond" THEN DOne ELSE DDiv(g[big], f[big])
    IN  IF D = {} \/ Calls(r.l) \/ Calls(r.r) THEN TRUE
        ELSE IF Case.kind = "cond" /\ DLt(DAbs(f[big]), DRat(1, 10000)) THEN \A s \in D : Close(g[s], f[s])
        ELSE /\ Case.kind = "cond" => DLt(DDiv(DAbs(g[big]), DInt(1000)), DAbs(f[big])) /\ DLt(DRat(1, 1000), q)
             /\ \A s \in D : Close(g[s], DMul(q, f[s]))

------------------------------------------------------------------------------
Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ want = Want
        /\ bad = ""

Stop(cl, det) == bad' = cl /\ Say(cl, det) /\ UNCHANGED <<c, i, want>>

Next == /\ bad = ""
        /\ IF Case.status = "exc" THEN
              IF want.w = "accept" THEN Stop("text.refused", Case.exc) ELSE Stop("ok", "refused " \o want.w \o " " \o want.why)
           ELSE IF Case.status # "ok" THEN Stop(Case.status, Case.exc)
           ELSE IF want.w = "refuse" THEN Stop("text.accepted", want.why)
           ELSE IF Case.wild THEN Stop("text.wild", "")
           ELSE IF Case.big THEN Stop("ok", "big")
           ELSE IF ~Shape THEN Stop("text.shape", "")
           ELSE IF ~Last THEN Stop("text.last", "")
           ELSE IF i < Len(Case.rows) THEN
                IF Means(i + 1) THEN i' = i + 1 /\ UNCHANGED <<c, want, bad>> ELSE Stop("text.meaning", "row " \o ToString(i + 1))
           ELSE Stop("ok", "accepted " \o want.w)

Spec == Init /\ [][Next]_vars
=============================================================================
