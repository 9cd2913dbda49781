-------------------------------- MODULE Dec --------------------------------
(***************************************************************************)
(* Fixed-point decimals with 12 fractional digits.                         *)
(*                                                                         *)
(* The decimal <<h, l>> denotes the real number (h * 10^9 + l) / 10^12,    *)
(* 0 <= l < 10^9.  The definitions below are the meaning of the operators  *)
(* over TLA+'s unbounded integers.  TLC's own integers are 32 bits wide,   *)
(* so TLC is given the Java class Dec (spec/java/Dec.java), which          *)
(* evaluates the very same definitions with arbitrary precision; an        *)
(* overflow of the result is an error, never a wrong value.                *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL E9  == 10^9
LOCAL E12 == 10^12

LOCAL Val(a) == a[1] * E9 + a[2]                    \* decimal -> units of 1e-12
LOCAL Mk(v)  == <<v \div E9, v % E9>>               \* \div is floor division
LOCAL RDiv(p, q) == IF q > 0 THEN (2*p + q) \div (2*q) ELSE (-2*p - q) \div (-2*q)   \* nearest

DInt(n)     == Mk(n * E12)                          \* the integer n
DRat(p, q)  == Mk(RDiv(p * E12, q))                 \* the rational p/q, rounded
DAdd(a, b)  == Mk(Val(a) + Val(b))
DSub(a, b)  == Mk(Val(a) - Val(b))
DNeg(a)     == Mk(-Val(a))
DMul(a, b)  == Mk(RDiv(Val(a) * Val(b), E12))
DDiv(a, b)  == Mk(RDiv(Val(a) * E12, Val(b)))
DLe(a, b)   == Val(a) <= Val(b)
DLt(a, b)   == Val(a) < Val(b)
DSign(a)    == IF Val(a) > 0 THEN 1 ELSE IF Val(a) < 0 THEN -1 ELSE 0

\* a1*b1 + a2*b2, rounded once
DDot(a1, b1, a2, b2) == Mk(RDiv(Val(a1) * Val(b1) + Val(a2) * Val(b2), E12))

\* the weighted mean (a*vb - b*va) / (vb - va), rounded once: where a line that is va at a and vb at b is 0
DLerp(a, va, b, vb) == Mk(RDiv(Val(a) * Val(vb) - Val(b) * Val(va), Val(vb) - Val(va)))

\* sign of the cross product (q - p) x (r - p); exact
DOrient(p, q, r) ==
    LET c == (Val(q[1]) - Val(p[1])) * (Val(r[2]) - Val(p[2]))
             - (Val(q[2]) - Val(p[2])) * (Val(r[1]) - Val(p[1]))
    IN  IF c > 0 THEN 1 ELSE IF c < 0 THEN -1 ELSE 0

DZero == DInt(0)
DOne  == DInt(1)
DAbs(a)    == IF DSign(a) < 0 THEN DNeg(a) ELSE a
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
DNear(a, b, tol) == DLe(DAbs(DSub(a, b)), tol)
=============================================================================
