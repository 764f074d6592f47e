------------------------------- MODULE Access -------------------------------
(***************************************************************************)
(* The exact type of the result of every member, and of the argument the   *)
(* monadic members give to their function, as a function of the            *)
(* qualification of the optional and of its payload ([optional.observe],   *)
(* [optional.monadic], [optional.assign], [optional.mod]).                 *)
(*                                                                         *)
(* The state is an expression built step by step: an optional of some      *)
(* payload, possibly made const, possibly turned into an rvalue, finally   *)
(* used.  A type is "T" (the payload without cv), followed by c and v if   *)
(* const and volatile, followed by &, && or *; or "O" (the optional type). *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES pay,     \* cv of the payload type given to the optional: subset of {"c", "v"}
          con,     \* the optional is const
          rv,      \* the optional is an rvalue
          use      \* the member used, "" if none yet

Cv(s) == (IF "c" \in s THEN "c" ELSE "") \o (IF "v" \in s THEN "v" ELSE "")
Access(p, c) == "T" \o Cv(p \cup (IF c THEN {"c"} ELSE {}))
Ref(r) == IF r THEN "&&" ELSE "&"

\* The monadic members call the function object with the category it was given.
FnCats == {"l", "cl", "r", "cr"}
\* Pointers to member functions are functions, too.
MemFns == {"and_then_pmf", "transform_pmf"}
Callbacks == {m \o "_fn_" \o k : m \in {"and_then", "transform", "or_else"}, k \in FnCats}
FnRef(u) == LET k == CHOOSE k \in FnCats : u \in {m \o "_fn_" \o k : m \in {"and_then", "transform", "or_else"}}
            IN CASE k = "l" -> "F&" [] k = "cl" -> "Fc&" [] k = "r" -> "F&&" [] OTHER -> "Fc&&"
Observers == {"deref", "value", "arrow", "value_or", "has_value", "bool", "and_then_arg", "transform_arg", "and_then", "transform", "or_else", "value_type", "hash",
              "cmp_eq", "cmp_lt", "cmp_null"} \cup Callbacks \cup MemFns
Mutators == {"emplace", "emplace_il", "assign_null", "assign_copy", "assign_move", "assign_value", "assign_brace", "swap", "free_swap", "reset"}
\* What may be applied to the expression. Volatile payloads: only what does not copy them. Assignment of const payloads does not exist.
Usable(p, c, r, u) ==
  /\ u \in Mutators => ~c
  /\ u \in {"emplace_il"} \cup MemFns => "v" \notin p
  /\ u \in {"assign_copy", "assign_move", "assign_value", "assign_brace", "swap", "free_swap"} => p = {}
  /\ u \in {"swap", "reset", "emplace", "emplace_il", "free_swap"} => ~r
  /\ u \in {"value_or", "or_else", "hash"} \cup {"or_else_fn_" \o k : k \in FnCats} => "v" \notin p

TypeOf(p, c, r, u) ==
  CASE u \in {"deref", "value"} -> Access(p, c) \o Ref(r)
    [] u = "arrow" -> Access(p, c) \o "*"
    [] u = "value_or" -> "T"
    [] u \in {"has_value", "bool", "cmp_eq", "cmp_lt", "cmp_null"} -> "bool"
    [] u \in Callbacks -> FnRef(u)
    [] u \in MemFns -> "pmf" \o Ref(r)          \* the overload of the member function for that category
    [] u = "hash" -> "size_t"
    [] u = "value_type" -> Access(p, FALSE)
    [] u \in {"and_then_arg", "transform_arg"} -> Access(p, c) \o Ref(r)
    [] u = "and_then" -> "R"                 \* the optional returned by the function
    [] u = "transform" -> "X"                \* optional of the function's result without cv
    [] u = "or_else" -> "O"
    [] u \in {"emplace", "emplace_il"} -> Access(p, FALSE) \o "&"
    [] u \in {"assign_null", "assign_copy", "assign_move", "assign_value", "assign_brace"} -> "O&"
    [] u \in {"swap", "free_swap", "reset"} -> "void"

Init == /\ pay \in SUBSET {"c", "v"}
        /\ con = FALSE /\ rv = FALSE /\ use = ""
AsConst == use = "" /\ con' = TRUE /\ UNCHANGED <<pay, rv, use>>
Move == use = "" /\ rv' = TRUE /\ UNCHANGED <<pay, con, use>>
Qual == (IF con THEN "c" ELSE "") \o (IF rv THEN "r" ELSE "l")
Use == /\ use = ""
       /\ \E u \in Observers \cup Mutators :
            /\ Usable(pay, con, rv, u)
            /\ use' = u
            /\ PrintT("TYPE " \o u \o " " \o Qual \o " p" \o Cv(pay) \o " " \o TypeOf(pay, con, rv, u))
       /\ UNCHANGED <<pay, con, rv>>
Next == AsConst \/ Move \/ Use
Spec == Init /\ [][Next]_<<pay, con, rv, use>>

\* No path to the payload drops a qualifier, an rvalue is only obtained from an rvalue, and nothing mutable from a const optional.
NeverMutable == {t \o s : t \in {"T", "Tv"}, s \in {"&", "&&", "*"}}
ConstStays == (con \/ "c" \in pay) /\ use # "" => TypeOf(pay, con, rv, use) \notin NeverMutable
RvalueOnlyFromRvalue == use # "" /\ ~rv => TypeOf(pay, con, rv, use) \notin {"T" \o Cv(s) \o "&&" : s \in SUBSET {"c", "v"}}
MutatorsNeedMutable == use \in Mutators => ~con
=============================================================================
