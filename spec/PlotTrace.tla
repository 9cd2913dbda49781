------------------------------ MODULE PlotTrace ------------------------------
(***************************************************************************)
(* The stored plot of a run whose aggregated sets are split again.         *)
(*                                                                         *)
(* The state is, per view, what is shown: pairs <<node, step>>.  A step of *)
(* the analysis either shows the current set at its step, or (in a replay) *)
(* replaces a split set at one step by its pieces, or shows nothing new.   *)
(*                                                                         *)
(* A case is [id, status, exc, h, nodes, ops, log, final]:                 *)
(*   nodes  [mode, ops, alive, seen]: parent operations, whether the node  *)
(*          is part of the finished computation, the steps it was seen at  *)
(*   ops    [tr, step, par]: transition, step and node it was taken from   *)
(*   log    [cur, k, adds, dels]: the current node (0: none) and its step, *)
(*          and what was added and removed, per view; an addition is       *)
(*          [n, k, verts, box, ext]                                        *)
(*   final  per view, <<node, step>> in the end                            *)
(***************************************************************************)
EXTENDS Draw, Json, IOUtils, TLCExt

CONSTANT Dummy
VARIABLES c, i, shown, bad
vars == <<c, i, shown, bad>>

Cases == JsonDeserialize(IOEnv.BATCH)

\* is p a piece of d: they share an operation, or come through the same transition at the same step, from a node and a piece of it
RECURSIVE Piece(_, _, _)
Piece(cs, p, d) ==
    \E a \in 1..Len(cs.nodes[p].ops) : \E b \in 1..Len(cs.nodes[d].ops) :
        LET x == cs.nodes[p].ops[a]
            y == cs.nodes[d].ops[b]
        IN  \/ x = y
            \/ /\ cs.ops[x].par # 0 /\ cs.ops[y].par # 0 /\ cs.ops[x].par # cs.ops[y].par
               /\ cs.ops[x].tr = cs.ops[y].tr /\ cs.ops[x].step = cs.ops[y].step
               /\ Piece(cs, cs.ops[x].par, cs.ops[y].par)

At(a) == <<a.n, a.k>>
Ats(as) == {At(as[j]) : j \in 1..Len(as)}

\* the drawn corners reach as far as the set, on both axes; a time axis has ext <<lo, hi>> = the times
BoxBad(a) ==
    LET ext(k) == LET RECURSIVE Hi(_, _)
                      Hi(j, m) == IF j > Len(a.verts) THEN m ELSE Hi(j + 1, TLCEval(DMax(m, a.verts[j][k])))
                      RECURSIVE Lo(_, _)
                      Lo(j, m) == IF j > Len(a.verts) THEN m ELSE Lo(j + 1, TLCEval(DMin(m, a.verts[j][k])))
                  IN  <<Lo(2, a.verts[1][k]), Hi(2, a.verts[1][k])>>
        width(k) == DSub(a.ext[k][2], a.ext[k][1])
        \* corners are found up to a distance from the edges, which may be further along an axis where the corner is sharp
        eps(k) == DMul(DRat(1, IF k = 1 THEN 1000 ELSE 5), width(k))
        tol(v) == DAdd(DRat(2, 100000), DMul(DRat(2, 100000), DAbs(v)))
    IN  \/ Len(a.verts) < 2 \/ a.verts[1] # a.verts[Len(a.verts)]
        \/ \E k \in 1..2 : \E j \in 1..2 : ~DNear(ext(k)[j], a.ext[k][j], DAdd(tol(a.ext[k][j]), eps(k)))
       \/ \E k \in 1..2 : DLt(ext(k)[1], DSub(a.ext[k][1], tol(a.ext[k][1]))) \/ DLt(DAdd(a.ext[k][2], tol(a.ext[k][2])), ext(k)[2])

EventBad(cs, sh, ev) ==
    LET nv == Len(sh)
        adds(v) == Ats(ev.adds[v])
        dels(v) == {ev.dels[v][j] : j \in 1..Len(ev.dels[v])}
        all == UNION {adds(v) : v \in 1..nv}
        gone == UNION {dels(v) : v \in 1..nv}
    IN  IF \E v \in 1..nv : adds(v) # all THEN "plot.views"
        ELSE IF \E v \in 1..nv : dels(v) # gone THEN "plot.views.removed"
        ELSE IF \E v \in 1..nv : Len(ev.adds[v]) # Cardinality(all) \/ all \cap (sh[v] \ gone) # {} THEN "plot.twice"
        ELSE IF ev.cur # 0 THEN
             IF all # {<<ev.cur, ev.k>>} THEN "plot.missing"
             ELSE IF gone # {} THEN "plot.lost" ELSE ""
        ELSE IF \E g \in gone : cs.nodes[g[1]].alive \/ \E h \in gone : h # g THEN "plot.lost"
        ELSE IF \E a \in all : \E b \in all : a[2] # b[2] THEN "plot.steps"
        ELSE IF \E g \in gone : \E a \in all : a[2] # g[2] \/ ~Piece(cs, a[1], g[1]) THEN "plot.pieces"
        ELSE ""

Shapes(ev) == \A v \in 1..Len(ev.adds) : \A j \in 1..Len(ev.adds[v]) : ev.adds[v][j].box => ~BoxBad(ev.adds[v][j])

\* in the end: no split set next to its pieces (at step 0, nothing is replayed unless a transition was taken there), and
\* every set of the finished computation is shown, or a set it is a piece of (where a replay went over a step at which nothing happened)
EndBad(cs, sh) ==
    LET nn == 1..Len(cs.nodes)
        dead == {d \in nn : ~cs.nodes[d].alive}
        s1 == IF sh = <<>> THEN {} ELSE sh[1]
    IN  IF \E v \in 1..Len(sh) : {cs.final[v][j] : j \in 1..Len(cs.final[v])} # sh[v] \/ Len(cs.final[v]) # Cardinality(sh[v]) THEN "plot.final"
        ELSE IF \E x \in s1 : x[1] \in dead /\ x[2] > 0 /\ \E y \in s1 : y[1] # x[1] /\ y[2] = x[2] /\ Piece(cs, y[1], x[1]) THEN "plot.stale"
        ELSE IF \E n \in nn \ dead : \E j \in 1..Len(cs.nodes[n].seen) : 
                LET k == cs.nodes[n].seen[j]
                IN  /\ k > 0 /\ <<n, k>> \notin s1
                    /\ ~\E d \in dead : <<d, k>> \in s1 /\ Piece(cs, n, d) THEN "plot.unseen"
        ELSE ""

Say(cs, cl, det) == PrintT("VERDICT|" \o cs.id \o "|" \o cl \o "|" \o det)

Init == /\ c \in 1..Len(Cases)
        /\ i = 0
        /\ shown = [v \in 1..Cases[c].nv |-> {}]
        /\ bad = ""

Next ==
    /\ bad = ""
    /\ LET cs == Cases[c]
       IN  IF cs.status # "ok"
           THEN bad' = "done" /\ Say(cs, IF cs.status = "limit" THEN "ok" ELSE cs.status, cs.exc) /\ UNCHANGED <<c, i, shown>>
           ELSE IF i = Len(cs.log)
           THEN LET b == EndBad(cs, shown)
                IN  bad' = "done" /\ Say(cs, IF b = "" THEN "ok" ELSE b, IF b = "" THEN ToString(i) ELSE "end") /\ UNCHANGED <<c, i, shown>>
           ELSE LET ev == cs.log[i + 1]
                    b0 == EventBad(cs, shown, ev)
                    b == IF b0 # "" THEN b0 ELSE IF Shapes(ev) THEN "" ELSE "plot.shape"
                IN  /\ i' = i + 1
                    /\ shown' = [v \in 1..Len(shown) |-> (shown[v] \ {ev.dels[v][j] : j \in 1..Len(ev.dels[v])}) \cup Ats(ev.adds[v])]
                    /\ bad' = b
                    /\ (b # "" => Say(cs, b, ToString(i + 1)))
                    /\ UNCHANGED c

Spec == Init /\ [][Next]_vars
==============================================================================
