------------------------------- MODULE Traits -------------------------------
(***************************************************************************)
(* Which operations an optional offers, and which of them are noexcept, as *)
(* a function of what its payload offers ([optional.ctor], [optional.      *)
(* assign], [optional.swap], [optional.specalg], [optional.hash]).         *)
(*                                                                         *)
(* A payload is described by a record:                                     *)
(*   cc, ca  copy constructor/assignment: "n" deleted, "t" may throw,      *)
(*           "x" noexcept                                                  *)
(*   mc, ma  move constructor/assignment: same, or "c" not declared        *)
(*   sw      "s" the generic std::swap, "t"/"x" its own swap, "d" deleted  *)
(*   ct      constructor from another type A: "n", "it", "ix" (implicit),  *)
(*           "et", "ex" (explicit), "d" deleted; these take A const &.     *)
(*           "il", "el": takes A &, "ir", "er": takes A && (may throw)     *)
(*           "g": implicit, from anything (like std::any)                  *)
(*   as      assignment from A: "n" none, "t", "x", "d" deleted (A const &)*)
(*           "l" from A &, "r" from A && (may throw), "g" from anything    *)
(*   il      has a constructor (initializer_list<int>, int)                *)
(*   df      default constructor                                           *)
(*   hs      std::hash: "n" disabled, "t", "x"                             *)
(*   cst     the payload is const                                          *)
(*                                                                         *)
(* Result of a query: "1" yes, "0" no, "?" the standard leaves it open,    *)
(* "d" std::optional: no; tiny::optional: left open (a payload whose own   *)
(* swap is deleted may be swapped by moving).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLE p

Base == [cc |-> "x", mc |-> "x", ca |-> "x", ma |-> "x", sw |-> "s", ct |-> "n", as |-> "n", il |-> "n", df |-> "n", hs |-> "n", cst |-> "n"]
Special == {[Base EXCEPT !.cc = a, !.mc = b, !.ca = c, !.ma = d, !.cst = k] :
              a \in {"n", "t", "x"}, b \in {"n", "t", "x", "c"}, c \in {"n", "t", "x"}, d \in {"n", "t", "x", "c"}, k \in {"n", "y"}}
Swaps == {[Base EXCEPT !.mc = b, !.ma = d, !.sw = s, !.cst = k] : b \in {"n", "t", "x", "c"}, d \in {"n", "t", "x"}, s \in {"s", "t", "x", "d"}, k \in {"n", "y"}}
Convs == {[Base EXCEPT !.mc = b, !.ca = c, !.ma = d, !.ct = x, !.as = y, !.cst = k] :
            b \in {"n", "x"}, c \in {"n", "x"}, d \in {"n", "x", "c"}, x \in {"n", "it", "ix", "et", "ex", "d"}, y \in {"n", "t", "x", "d"}, k \in {"n", "y"}}
\* the payload accepts only certain value categories of A
Cats == {[Base EXCEPT !.ca = c, !.ma = d, !.ct = x, !.as = y, !.cst = k] :
           c \in {"n", "x"}, d \in {"n", "x"}, x \in {"il", "el", "ir", "er"}, y \in {"n", "t", "l", "r", "d"}, k \in {"n", "y"}}
        \cup {[Base EXCEPT !.ct = x, !.as = y] : x \in {"n", "it", "ex"}, y \in {"l", "r"}}
Greedy == {[Base EXCEPT !.cc = a, !.mc = b, !.ca = c, !.ma = d, !.ct = "g", !.as = y, !.df = f, !.cst = k] :
             a \in {"n", "t", "x"}, b \in {"n", "x"}, c \in {"n", "x"}, d \in {"n", "x"}, y \in {"n", "g", "d"}, f \in {"n", "x"}, k \in {"n", "y"}}
Rest == {[Base EXCEPT !.il = i, !.df = f, !.hs = h, !.cst = k, !.ct = x] : i \in {"n", "y"}, f \in {"n", "t", "x"}, h \in {"n", "t", "x"}, k \in {"n", "y"}, x \in {"n", "it"}}
\* arithmetic types, pointers, enumerations
Scalars == {[Base EXCEPT !.ct = x, !.as = y, !.df = "x", !.hs = "x", !.cst = k] : x \in {"n", "ix"}, y \in {"n", "x"}, k \in {"n", "y"}}
Payloads == Special \cup Swaps \cup Convs \cup Cats \cup Greedy \cup Rest \cup Scalars

----------------------------------------------------------------------------
\* What the payload can do. "n"/"t"/"x"
PC(q) == q.cc                                             \* from P const & (and P const &&)
PM(q) == IF q.mc = "c" THEN q.cc ELSE q.mc                \* from P &&
PMself(q) == IF q.cst = "y" THEN q.cc ELSE PM(q)          \* from an rvalue of its own type
AC(q) == IF q.cst = "y" THEN "n" ELSE q.ca
AM(q) == IF q.cst = "y" THEN "n" ELSE IF q.ma = "c" THEN q.ca ELSE q.ma
Can(x) == x \notin {"n", "d"}
Weak(x, y) == IF ~Can(x) \/ ~Can(y) THEN "n" ELSE IF x = "t" \/ y = "t" THEN "t" ELSE "x"
\* Conversion of an A of category k: "r" rvalue, "c" const lvalue, "l" lvalue
ConvFrom(q, k) == CASE q.ct \in {"n", "d"} -> "n"
                    [] q.ct \in {"it", "et", "g"} -> "t"
                    [] q.ct \in {"ix", "ex"} -> "x"
                    [] q.ct \in {"il", "el"} -> IF k = "l" THEN "t" ELSE "n"
                    [] q.ct \in {"ir", "er"} -> IF k = "r" THEN "t" ELSE "n"
ImplFrom(q, k) == Can(ConvFrom(q, k)) /\ q.ct \in {"it", "ix", "il", "ir", "g"}
AsgFrom(q, k) ==
  IF q.cst = "y" \/ q.as = "d" THEN "n"
  ELSE IF q.as \in {"t", "x"} THEN q.as
  ELSE IF q.as = "g" \/ (q.as = "l" /\ k = "l") \/ (q.as = "r" /\ k = "r") THEN "t"
  ELSE IF ImplFrom(q, k) THEN Weak(ConvFrom(q, k), AM(q)) ELSE "n"   \* convert, then move assign
\* from a type the payload knows nothing about
ConvU(q) == IF q.ct = "g" THEN "t" ELSE "n"
AsgU(q) == IF q.cst = "y" THEN "n" ELSE IF q.as = "g" THEN "t" ELSE Weak(ConvU(q), AM(q))
ConvA(q) == ConvFrom(q, "r")
ImplA(q) == ImplFrom(q, "r")
PSwap(q) == IF q.cst = "y" THEN "n"
            ELSE CASE q.sw \in {"t", "x"} -> q.sw [] q.sw = "d" -> "n" [] OTHER -> Weak(PM(q), AM(q))

\* What the optional can do. "n"/"t"/"x"
OCopy(q) == PC(q)
OMove(q) == IF Can(PMself(q)) THEN PMself(q) ELSE OCopy(q)          \* without move constructor: copies
OCopyA(q) == Weak(PC(q), AC(q))
OMoveA(q) == IF Can(Weak(PMself(q), AM(q))) THEN Weak(PMself(q), AM(q)) ELSE OCopyA(q)
\* from a value: directly, or by means of a temporary optional
FromVal(q, cons, asg, impl) == IF Can(cons) /\ Can(asg) THEN Weak(cons, asg)
                               ELSE IF impl /\ Can(OMoveA(q)) THEN Weak(cons, OMoveA(q)) ELSE "n"

B(b) == IF b THEN "1" ELSE "0"
Yes(x) == B(Can(x))
\* noexcept specified by the standard as exactly "the payload's operations are noexcept"
Exact(x) == IF ~Can(x) THEN "0" ELSE B(x = "x")
\* noexcept not specified; but it must not be noexcept if the payload's operation is not
Sound(x) == IF Can(x) /\ x = "x" THEN "?" ELSE "0"

SwapQ(q) == IF Can(PMself(q)) /\ Can(PSwap(q)) THEN "1" ELSE IF Can(OMove(q)) /\ Can(OMoveA(q)) THEN "d" ELSE "0"
NSwapQ(q) == IF Can(PMself(q)) /\ Can(PSwap(q)) THEN Exact(Weak(PMself(q), PSwap(q))) ELSE IF Can(OMove(q)) /\ Can(OMoveA(q)) THEN "d" ELSE "0"

Queries(q) == [
  default_constructible |-> "1",
  nothrow_default_constructible |-> "1",
  nothrow_destructible |-> "1",
  copy_constructible |-> Yes(OCopy(q)),
  nothrow_copy_constructible |-> Sound(OCopy(q)),
  move_constructible |-> Yes(OMove(q)),
  nothrow_move_constructible |-> IF Can(PMself(q)) THEN Exact(OMove(q)) ELSE Sound(OMove(q)),
  copy_assignable |-> Yes(OCopyA(q)),
  nothrow_copy_assignable |-> Sound(OCopyA(q)),
  move_assignable |-> Yes(OMoveA(q)),
  nothrow_move_assignable |-> IF Can(Weak(PMself(q), AM(q))) THEN Exact(OMoveA(q)) ELSE Sound(OMoveA(q)),
  from_const_lvalue |-> Yes(PC(q)),
  implicit_from_const_lvalue |-> Yes(PC(q)),
  nothrow_from_const_lvalue |-> Sound(PC(q)),
  from_lvalue |-> Yes(PC(q)),
  implicit_from_lvalue |-> Yes(PC(q)),
  from_rvalue |-> Yes(PM(q)),
  implicit_from_rvalue |-> Yes(PM(q)),
  nothrow_from_rvalue |-> Sound(PM(q)),
  from_A |-> Yes(ConvA(q)),
  implicit_from_A |-> B(ImplA(q)),
  nothrow_from_A |-> Sound(ConvA(q)),
  from_A_const_lvalue |-> Yes(ConvFrom(q, "c")),
  implicit_from_A_const_lvalue |-> B(ImplFrom(q, "c")),
  from_A_lvalue |-> Yes(ConvFrom(q, "l")),
  implicit_from_A_lvalue |-> B(ImplFrom(q, "l")),
  from_unrelated |-> Yes(ConvU(q)),
  assignable_from_unrelated |-> Yes(FromVal(q, ConvU(q), AsgU(q), Can(ConvU(q)))),
  assignable_from_const_lvalue |-> Yes(FromVal(q, PC(q), AC(q), TRUE)),
  nothrow_assignable_from_const_lvalue |-> Sound(FromVal(q, PC(q), AC(q), TRUE)),
  assignable_from_rvalue |-> Yes(FromVal(q, PM(q), AM(q), Can(PM(q)))),
  nothrow_assignable_from_rvalue |-> Sound(FromVal(q, PM(q), AM(q), Can(PM(q)))),
  assignable_from_A |-> Yes(FromVal(q, ConvA(q), AsgFrom(q, "r"), ImplA(q))),
  nothrow_assignable_from_A |-> Sound(FromVal(q, ConvA(q), AsgFrom(q, "r"), ImplA(q))),
  assignable_from_A_const_lvalue |-> Yes(FromVal(q, ConvFrom(q, "c"), AsgFrom(q, "c"), ImplFrom(q, "c"))),
  assignable_from_A_lvalue |-> Yes(FromVal(q, ConvFrom(q, "l"), AsgFrom(q, "l"), ImplFrom(q, "l"))),
  in_place_A_const_lvalue |-> Yes(ConvFrom(q, "c")),
  in_place_A_lvalue |-> Yes(ConvFrom(q, "l")),
  from_nullopt |-> "1",
  implicit_from_nullopt |-> "1",
  nothrow_from_nullopt |-> "1",
  assignable_from_nullopt |-> "1",
  nothrow_assignable_from_nullopt |-> "1",
  const_assignable |-> "0",
  in_place |-> Yes(q.df),
  nothrow_in_place |-> Sound(q.df),
  in_place_A |-> Yes(ConvA(q)),
  nothrow_in_place_A |-> Sound(ConvA(q)),
  in_place_copy |-> Yes(PC(q)),
  in_place_move |-> Yes(PM(q)),
  in_place_unrelated |-> Yes(ConvU(q)),
  in_place_il |-> B(q.il = "y"),
  emplace_il |-> B(q.il = "y"),
  implicit_from_in_place |-> "0",
  in_place_named |-> Yes(q.df),
  implicit_from_braces |-> "1",
  implicit_from_in_place_args |-> "0",
  implicit_from_in_place_il |-> "0",
  swappable |-> SwapQ(q),
  nothrow_swappable |-> NSwapQ(q),
  member_swap_nothrow |-> IF Can(PMself(q)) /\ Can(PSwap(q)) THEN Exact(Weak(PMself(q), PSwap(q))) ELSE "?",
  hashable |-> B(q.hs # "n"),
  bool_explicit |-> "1",
  bool_implicit |-> "0",
  nothrow_bool |-> "1",
  nothrow_has_value |-> "1",
  nothrow_deref |-> "1",
  nothrow_arrow |-> "1",
  nothrow_value |-> "0",
  nothrow_reset |-> "1",
  nothrow_compare_nullopt |-> "1",
  or_else_l |-> Yes(Weak(PC(q), PMself(q))),
  or_else_r |-> Yes(PMself(q))]

Order == <<
  "default_constructible", "nothrow_default_constructible", "nothrow_destructible", "copy_constructible", "nothrow_copy_constructible", "move_constructible",
  "nothrow_move_constructible", "copy_assignable", "nothrow_copy_assignable", "move_assignable", "nothrow_move_assignable", "from_const_lvalue",
  "implicit_from_const_lvalue", "nothrow_from_const_lvalue", "from_lvalue", "implicit_from_lvalue", "from_rvalue", "implicit_from_rvalue",
  "nothrow_from_rvalue", "from_A", "implicit_from_A", "nothrow_from_A", "from_A_const_lvalue", "implicit_from_A_const_lvalue", "from_A_lvalue", "implicit_from_A_lvalue",
  "from_unrelated", "assignable_from_unrelated", "assignable_from_const_lvalue", "nothrow_assignable_from_const_lvalue", "assignable_from_rvalue", "nothrow_assignable_from_rvalue",
  "assignable_from_A", "nothrow_assignable_from_A", "assignable_from_A_const_lvalue", "assignable_from_A_lvalue", "in_place_A_const_lvalue", "in_place_A_lvalue", "from_nullopt", "implicit_from_nullopt", "nothrow_from_nullopt", "assignable_from_nullopt",
  "nothrow_assignable_from_nullopt", "const_assignable", "in_place", "nothrow_in_place", "in_place_A", "nothrow_in_place_A",
  "in_place_copy", "in_place_move", "in_place_unrelated", "in_place_il", "emplace_il", "implicit_from_in_place", "in_place_named",
  "implicit_from_braces", "implicit_from_in_place_args", "implicit_from_in_place_il",
  "swappable", "nothrow_swappable", "member_swap_nothrow", "hashable", "bool_explicit", "bool_implicit",
  "nothrow_bool", "nothrow_has_value", "nothrow_deref", "nothrow_arrow", "nothrow_value", "nothrow_reset",
  "nothrow_compare_nullopt", "or_else_l", "or_else_r">>

Ask(q, n) == Queries(q)[n]

Name(q) == q.cc \o "." \o q.mc \o "." \o q.ca \o "." \o q.ma \o "." \o q.sw \o "." \o q.ct \o "." \o q.as \o "." \o q.il \o "." \o q.df \o "." \o q.hs \o "." \o q.cst
RECURSIVE Results(_, _)
Results(r, i) == IF i > Len(Order) THEN "" ELSE r[Order[i]] \o Results(r, i + 1)

Init == p \in Payloads /\ PrintT("TRAIT " \o Name(p) \o " " \o Results(Queries(p), 1))
ASSUME DOMAIN Queries(Base) = {Order[i] : i \in 1..Len(Order)} /\ \A i \in 1..Len(Order) : PrintT("QUERY " \o ToString(i) \o " " \o Order[i])

\* The payload is improved: an operation that may throw becomes noexcept.
Fields == {"cc", "mc", "ca", "ma", "sw", "as", "df", "hs"}
Next == \E f \in Fields : p[f] = "t" /\ p' = [p EXCEPT ![f] = "x"]
Spec == Init /\ [][Next]_p

\* Sanity of the table itself
Has(n) == Ask(p, n) = "1"
NothrowImpliesAvailable ==
  /\ Has("nothrow_move_constructible") => Has("move_constructible")
  /\ Has("nothrow_move_assignable") => Has("move_assignable")
  /\ Has("nothrow_swappable") => Has("swappable")
ImplicitImpliesExplicit == Has("implicit_from_A") => Has("from_A")
CopyImpliesMove == (Has("copy_constructible") => Has("move_constructible")) /\ (Has("copy_assignable") => Has("move_assignable"))
ConstImmutable == p.cst = "y" => ~Has("copy_assignable") /\ ~Has("move_assignable") /\ ~Has("swappable") /\ ~Has("assignable_from_A")
Available == {"copy_constructible", "move_constructible", "copy_assignable", "move_assignable", "from_A", "assignable_from_A", "swappable", "hashable",
              "nothrow_move_constructible", "nothrow_move_assignable", "nothrow_swappable"}
\* Making an operation of the payload noexcept never takes anything away from the optional.
Monotonic == [][LET a == Queries(p) b == Queries(p') IN \A n \in Available : a[n] = "1" => b[n] = "1"]_p
=============================================================================
