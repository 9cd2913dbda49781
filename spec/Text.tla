-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Expressions written as text, and what they mean.                        *)
(*                                                                         *)
(* An expression is a tree of records [o, a, v, n]:                        *)
(*   o  "num" (value v), "name" (of a variable, a constant, or anything    *)
(*      else: n), "add", "sub", "mul", "div", "neg", "pos", "pow", "call"  *)
(*   a  the operands                                                       *)
(* The meaning is a function of the values of the names.                   *)
(***************************************************************************)
EXTENDS Dec, Integers, Sequences, FiniteSets, TLC

Num(v)     == [o |-> "num", a |-> <<>>, v |-> v, n |-> ""]
Name(s)    == [o |-> "name", a |-> <<>>, v |-> DZero, n |-> s]
Op1(o, x)  == [o |-> o, a |-> <<x>>, v |-> DZero, n |-> ""]
Op2(o, x, y) == [o |-> o, a |-> <<x, y>>, v |-> DZero, n |-> ""]

LOCAL Def(v) == [d |-> TRUE, v |-> v]
LOCAL Undef  == [d |-> FALSE, v |-> DZero]

LOCAL Small(v) == DLt(DAbs(v), DInt(300))
RECURSIVE PowOf(_, _)
PowOf(v, k) == IF k <= 0 THEN DOne ELSE DMul(v, PowOf(v, k - 1))

\* the value of e where the names have the values env (a function; other names: none).
\* No value: division by zero, a name without a value, or out of the range of the decimals.
\* A call of a function stands for some function that is not affine: the third power.
RECURSIVE Val(_, _)
Val(e, env) ==
    IF e.o = "num" THEN Def(e.v)
    ELSE IF e.o = "name" THEN IF e.n \in DOMAIN env THEN Def(env[e.n]) ELSE Undef
    ELSE LET x == TLCEval(Val(e.a[1], env))
             y == TLCEval(IF Len(e.a) = 2 THEN Val(e.a[2], env) ELSE x)
         IN  IF ~(x.d /\ y.d) THEN Undef
             ELSE CASE e.o = "add" -> Def(DAdd(x.v, y.v))
                    [] e.o = "sub" -> Def(DSub(x.v, y.v))
                    [] e.o = "neg" -> Def(DNeg(x.v))
                    [] e.o = "pos" -> x
                    [] e.o = "mul" -> IF Small(x.v) /\ Small(y.v) THEN Def(DMul(x.v, y.v)) ELSE Undef
                    [] e.o = "div" -> IF DLt(DAbs(y.v), DRat(1, 1000)) \/ ~Small(x.v) THEN Undef ELSE Def(DDiv(x.v, y.v))
                    [] e.o = "pow" -> IF DLt(DInt(20), DAbs(x.v)) \/ y.v \notin {DZero, DOne, DInt(2), DInt(3)} THEN Undef
                                      ELSE Def(PowOf(x.v, IF y.v = DZero THEN 0 ELSE IF y.v = DOne THEN 1 ELSE IF y.v = DInt(2) THEN 2 ELSE 3))
                    [] e.o = "call" -> IF DLt(DInt(20), DAbs(x.v)) THEN Undef ELSE Def(PowOf(x.v, 3))

\* the names in e
RECURSIVE Names(_)
Names(e) == IF e.o = "name" THEN {e.n} ELSE UNION {Names(e.a[k]) : k \in 1..Len(e.a)}

------------------------------------------------------------------------------
(* Spellings that are linear as they stand: sums, differences and signs of  *)
(* linear ones; products with, and quotients by, an expression without      *)
(* variables.                                                               *)

RECURSIVE Calls(_)
Calls(e) == e.o = "call" \/ \E k \in 1..Len(e.a) : Calls(e.a[k])

\* without variables, and with a value that is known
Plain(e, V, env) == Names(e) \cap V = {} /\ ~Calls(e) /\ Val(e, env).d

RECURSIVE Linear(_, _, _)
Linear(e, V, env) ==
    IF Plain(e, V, env) THEN TRUE
    ELSE IF e.o = "name" THEN e.n \in V
    ELSE IF e.o \in {"add", "sub", "neg", "pos"} THEN \A k \in 1..Len(e.a) : Linear(e.a[k], V, env)
    ELSE IF e.o = "mul" THEN \/ Plain(e.a[1], V, env) /\ Linear(e.a[2], V, env)
                             \/ Plain(e.a[2], V, env) /\ Linear(e.a[1], V, env)
    ELSE IF e.o = "div" THEN Plain(e.a[2], V, env) /\ Linear(e.a[1], V, env) /\ DLt(DRat(1, 1000), DAbs(Val(e.a[2], env).v))
    ELSE FALSE

\* no number other than 0 is ever added
RECURSIVE Pure(_, _, _)
Pure(e, V, env) ==
    IF Plain(e, V, env) THEN e.o = "num" /\ e.v = DZero
    ELSE IF e.o = "name" THEN TRUE
    ELSE IF e.o \in {"add", "sub", "neg", "pos"} THEN \A k \in 1..Len(e.a) : Pure(e.a[k], V, env)
    ELSE IF e.o = "mul" THEN (Plain(e.a[1], V, env) \/ Pure(e.a[1], V, env)) /\ (Plain(e.a[2], V, env) \/ Pure(e.a[2], V, env))
    ELSE IF e.o = "div" THEN Pure(e.a[1], V, env)
    ELSE FALSE
=============================================================================
