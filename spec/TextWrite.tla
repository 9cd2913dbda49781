------------------------------ MODULE TextWrite -----------------------------
(***************************************************************************)
(* All the ways to write a linear expression: the state is an expression,  *)
(* and every step writes some part of it in a different way that means     *)
(* the same.  TLC checks that the meaning stays (Same), and prints the     *)
(* spellings that are given to the code (TextTrace).                       *)
(*                                                                         *)
(* Harm: the last step breaks the expression: a product of variables, an   *)
(* unknown name, a power, a function, ...  Lucky: one way, by chance.      *)
(***************************************************************************)
EXTENDS Text, TLC, Json

CONSTANTS MaxLen, Harm, Few, Lucky

VARIABLES e0, e, n
vars == <<e0, e, n>>

V == <<"v1", "v2", "v3">>
Consts == [k0 |-> DZero, k1 |-> DInt(2), k2 |-> DRat(-1, 2)]

Coefs == IF Few THEN {DZero, DRat(-3, 2)} ELSE {DZero, DOne, DInt(-2), DRat(1, 2)}

Two == DInt(2)
Term(c, j) == IF c = DOne THEN Name(V[j]) ELSE Op2("mul", Num(c), Name(V[j]))
RECURSIVE Sum(_)
Sum(ts) == IF Len(ts) = 0 THEN Num(DZero) ELSE IF Len(ts) = 1 THEN ts[1] ELSE Op2("add", Sum(SubSeq(ts, 1, Len(ts) - 1)), ts[Len(ts)])
Start(c, c0) == Sum(SelectSeq([j \in 1..3 |-> Term(c[j], j)], LAMBDA t : ~(t.o = "mul" /\ t.a[1].v = DZero))
                    \o (IF c0 = DZero THEN <<>> ELSE <<Num(c0)>>))

Init == /\ e0 \in {Start(c, c0) : c \in [1..3 -> Coefs], c0 \in Coefs}
        /\ e = e0
        /\ n = 0

\* factors used
Facs == {Num(Two), Num(DRat(-1, 2)), Name("k1"), Name("k2"), Op1("neg", Name("k1")), Op2("add", Name("k1"), Num(DOne))}
Is(x, o) == x.o = o

VS == {"v1", "v2", "v3"}
\* other ways to write x itself; lin: it is no factor, so that variables may appear
Here(x, lin) ==
    \* operands in the other order, other brackets
    (IF x.o \in {"add", "mul"} THEN {Op2(x.o, x.a[2], x.a[1])} ELSE {})
    \cup (IF x.o = "add" /\ Is(x.a[2], "add") THEN {Op2("add", Op2("add", x.a[1], x.a[2].a[1]), x.a[2].a[2])} ELSE {})
    \cup (IF x.o = "add" /\ Is(x.a[1], "add") THEN {Op2("add", x.a[1].a[1], Op2("add", x.a[1].a[2], x.a[2]))} ELSE {})
    \* signs
    \cup {Op1("neg", Op1("neg", x)), Op1("pos", x), Op1("neg", Op2("mul", Num(DInt(-1)), x))}
    \cup (IF x.o = "add" THEN {Op2("sub", x.a[1], Op1("neg", x.a[2])), Op1("neg", Op2("sub", Op1("neg", x.a[1]), x.a[2]))} ELSE {})
    \cup (IF x.o = "sub" THEN {Op2("add", x.a[1], Op1("neg", x.a[2])), Op1("neg", Op2("sub", x.a[2], x.a[1]))} ELSE {})
    \cup (IF x.o = "neg" /\ Is(x.a[1], "add") THEN {Op2("sub", Op1("neg", x.a[1].a[1]), x.a[1].a[2])} ELSE {})
    \cup (IF x.o = "num" /\ DSign(x.v) < 0 THEN {Op1("neg", Num(DNeg(x.v)))} ELSE {})
    \* distribute, factor out
    \cup (IF x.o = "mul" /\ x.a[2].o \in {"add", "sub"} THEN {Op2(x.a[2].o, Op2("mul", x.a[1], x.a[2].a[1]), Op2("mul", x.a[1], x.a[2].a[2]))} ELSE {})
    \cup (IF x.o \in {"add", "sub"} /\ Is(x.a[1], "mul") /\ Is(x.a[2], "mul") /\ x.a[1].a[1] = x.a[2].a[1]
          THEN {Op2("mul", x.a[1].a[1], Op2(x.o, x.a[1].a[2], x.a[2].a[2]))} ELSE {})
    \* something that does nothing
    \cup {Op2("add", x, Num(DZero)), Op2("mul", Num(DOne), x), Op2("pow", x, Num(DOne)), Op2("add", Op2("sub", x, Name("k2")), Name("k2"))}
    \cup (IF lin THEN {Op2("add", Op2("mul", Name("k0"), Name("v2")), x)} \cup {Op2("sub", Op2("add", x, Name(V[j])), Name(V[j])) : j \in 1..3} ELSE {})
    \cup {Op2("add", Op2("sub", Name("k1"), x), Op2("mul", Two2, Op2("sub", x, Num(DOne)))) : Two2 \in IF x.o \in {"num", "name"} THEN {Num(Two)} ELSE {}}
    \* factors
    \cup {Op2("div", Op2("mul", f, x), f) : f \in Facs}
    \cup {Op2("mul", Op2("div", x, f), f) : f \in Facs}
    \* numbers, and names for them
    \cup (IF x.o = "num" THEN {Op2("add", Num(DSub(x.v, DOne)), Num(DOne)), Op2("mul", Num(Two), Num(DDiv(x.v, Two))),
                               Op2("sub", Op2("add", Name("k2"), Num(x.v)), Name("k2"))} ELSE {})
    \cup (IF x.o = "num" /\ x.v = Two THEN {Name("k1")} ELSE {})
    \cup (IF x.o = "num" /\ x.v = DRat(-1, 2) THEN {Name("k2"), Op2("div", Num(DInt(-1)), Name("k1"))} ELSE {})

\* is operand k of x a factor?
Factor(x, k) == \/ x.o = "div" /\ k = 2
                \/ x.o = "pow"
                \/ x.o = "mul" /\ Names(x.a[k]) \cap VS = {} /\ (Names(x.a[3 - k]) \cap VS # {} \/ k = 1)

RECURSIVE Ways(_, _)
Ways(x, lin) == Here(x, lin) \cup UNION {{[x EXCEPT !.a[k] = y] : y \in Ways(x.a[k], lin /\ ~Factor(x, k))} : k \in 1..Len(x.a)}

\* ways to break x itself
Hurt0(x) ==
    {Op2("mul", x, Name("v1")), Op2("mul", Name("v2"), x), Op2("mul", x, Name("u1")), Op2("add", x, Name("u1")), Op2("sub", Name("u1"), x),
     Op2("add", x, Op2("pow", Name("v3"), Num(Two))), Op2("pow", x, Num(Two)), Op1("call", x), Op2("add", Op1("call", Name("v1")), x),
     Op2("div", x, Name("v2")), Op2("div", x, Name("k0")), Op2("add", x, Op2("div", Num(DOne), Name("v3"))), Op2("div", x, Name("u1"))}
    \cup (IF x.o = "name" THEN {Name("u1")} ELSE {})
RECURSIVE Hurt(_)
Hurt(x) == Hurt0(x) \cup UNION {{[x EXCEPT !.a[k] = y] : y \in Hurt(x.a[k])} : k \in 1..Len(x.a)}

\* one of the ways, by chance (for simulation): mostly not at the root
RECURSIVE Chance(_, _)
Chance(x, lin) == IF Len(x.a) > 0 /\ RandomElement(1..4) > 1
                  THEN LET k == RandomElement(1..Len(x.a)) IN [x EXCEPT !.a[k] = Chance(x.a[k], lin /\ ~Factor(x, k))]
                  ELSE RandomElement(Here(x, lin))
RECURSIVE HurtChance(_)
HurtChance(x) == IF Len(x.a) > 0 /\ RandomElement(1..4) > 1
                 THEN LET k == RandomElement(1..Len(x.a)) IN [x EXCEPT !.a[k] = HurtChance(x.a[k])]
                 ELSE RandomElement(Hurt0(x))

Next == \/ n < MaxLen /\ n' = n + 1 /\ (IF Lucky THEN e' = TLCEval(Chance(e, TRUE)) ELSE e' \in Ways(e, TRUE)) /\ UNCHANGED e0
        \/ n = MaxLen /\ n' = n + 1 /\ (IF ~Harm THEN e' = e ELSE IF Lucky THEN e' = TLCEval(HurtChance(e)) ELSE e' \in Hurt(e)) /\ UNCHANGED e0
        \/ n = MaxLen + 1 /\ PrintT("SPELL|" \o ToJson(e)) /\ n' = n + 1 /\ UNCHANGED <<e0, e>>

Spec == Init /\ [][Next]_vars

\* the meaning stays, at points that determine an affine function and some more
Points == {<<1, 2, 3>>, <<-2, 1, 4>>, <<3, -3, 1>>, <<2, 5, -1>>, <<-1, -2, 2>>}
Env(p) == [s \in {"v1", "v2", "v3"} \cup DOMAIN Consts |->
              IF s = "v1" THEN DInt(p[1]) ELSE IF s = "v2" THEN DInt(p[2]) ELSE IF s = "v3" THEN DInt(p[3]) ELSE Consts[s]]
Same == ~Harm \/ n <= MaxLen =>
            \A p \in Points : LET x == Val(e0, Env(p)) y == Val(e, Env(p)) IN y.d => DNear(x.v, y.v, DRat(1, 1000000))
\* and so does the form: all of them are linear as they stand (but for powers)
RECURSIVE NoPow(_)
NoPow(x) == x.o # "pow" /\ \A k \in 1..Len(x.a) : NoPow(x.a[k])
Form == ~Harm \/ n <= MaxLen => (NoPow(e) /\ Val(e, Env(<<1, 2, 3>>)).d => Linear(e, {"v1", "v2", "v3"}, Consts))
=============================================================================
