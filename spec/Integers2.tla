----------------------------- MODULE Integers2 -----------------------------
(***************************************************************************)
(* Integral types and the boundary values of their ranges.  TLC's integers *)
(* have 32 bits, hence a value is the triple [s, e, d], which denotes the  *)
(* number s * 2^e + d with s in {-1,0,1} (s = 0: the small number d).      *)
(***************************************************************************)
EXTENDS Integers

Exps  == {7, 8, 15, 16, 31, 32, 63, 64}
Small == {[s |-> 0, e |-> 0, d |-> k] : k \in {-2, -1, 0, 1, 2, 42}}
Big   == {[s |-> s, e |-> e, d |-> d] : s \in {-1, 1}, e \in Exps, d \in {-1, 0, 1}}
Values == Small \cup Big

\* 2^7 - 1 > 42 + 1 and the exponents are far enough apart: the order is lexicographic.
Leq(x, y) == \/ x.s * x.e < y.s * y.e
             \/ x.s * x.e = y.s * y.e /\ x.d <= y.d

Lo(t) == IF t.sgn THEN [s |-> -1, e |-> t.bits - 1, d |-> 0] ELSE [s |-> 0, e |-> 0, d |-> 0]
Hi(t) == IF t.sgn THEN [s |-> 1, e |-> t.bits - 1, d |-> -1]
         ELSE IF t.bits = 1 THEN [s |-> 0, e |-> 0, d |-> 1]
         ELSE [s |-> 1, e |-> t.bits, d |-> -1]

InRange(v, t) == Leq(Lo(t), v) /\ Leq(v, Hi(t))
ValuesOf(t)   == {v \in Values : InRange(v, t)}

ITy(n, sgn, bits) == [n |-> n, sgn |-> sgn, bits |-> bits]
\* Linux, x86 and x64
IntTypes(arch) ==
  { ITy("bool", FALSE, 1),
    ITy("char", TRUE, 8), ITy("signed char", TRUE, 8), ITy("unsigned char", FALSE, 8),
    ITy("short", TRUE, 16), ITy("unsigned short", FALSE, 16),
    ITy("int", TRUE, 32), ITy("unsigned", FALSE, 32),
    ITy("long", TRUE, IF arch = "x64" THEN 64 ELSE 32), ITy("unsigned long", FALSE, IF arch = "x64" THEN 64 ELSE 32),
    ITy("long long", TRUE, 64), ITy("unsigned long long", FALSE, 64),
    ITy("wchar_t", TRUE, 32), ITy("char16_t", FALSE, 16), ITy("char32_t", FALSE, 32) }
=============================================================================
