------------------------------ MODULE Forward ------------------------------
(***************************************************************************)
(* How the arguments given to an optional arrive at its payload.           *)
(*                                                                         *)
(* The state is a call built step by step: an entry point, the target      *)
(* optional (none yet, empty or engaged), possibly an initializer list,    *)
(* and arguments of some value category, one after the other.  "Call" runs *)
(* it: the payload sees a sequence of operations, recorded in log.         *)
(*   "C:" args   constructed with parentheses from the arguments           *)
(*   "L:" args   constructed from the initializer list and the arguments   *)
(*   "A:" arg    assigned from the argument                                *)
(*   "M" / "K"   move constructed / copy constructed   "D" destroyed       *)
(* An argument is its position and its value category: l, cl, r, cr.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS MaxArgs

VARIABLES entry, target, list, args, log

Cats == {"l", "cl", "r", "cr"}
Variadic == {"in_place", "emplace", "make"}
Values == {"value_impl", "value_expl", "assign", "value_or"}             \* one argument
Braced == {"brace_ctor", "brace_assign"}                                  \* one braced list, no argument type
Entries == Variadic \cup Values \cup Braced
Creates == {"in_place", "make", "value_impl", "value_expl", "brace_ctor"}

\* What the payload sees of an argument of category c: the same category.
Seen(e, c) == c
Digit(i) == CASE i = 1 -> "1" [] i = 2 -> "2" [] OTHER -> "3"
RECURSIVE Show(_, _, _)
Show(e, a, i) == IF i > Len(a) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o Digit(i) \o Seen(e, a[i]) \o Show(e, a, i + 1)

Run(e, t, l, a) ==
  CASE e \in Variadic -> (IF t = "v" THEN <<"D">> ELSE <<>>) \o <<(IF l THEN "L:" ELSE "C:") \o Show(e, a, 1)>>
    [] e \in Braced -> <<"L:", IF t = "v" THEN "A:M" ELSE "M", "D">>      \* a temporary payload is built from the braces
    [] t = "v" /\ e # "value_or" -> <<"A:" \o Show(e, a, 1)>>
    [] t = "v" -> <<"K">>
    [] OTHER -> <<"C:" \o Show(e, a, 1)>>

Init == /\ entry \in Entries /\ target \in (IF entry \in Creates THEN {"-"} ELSE {"e", "v"})
        /\ list = FALSE /\ args = <<>> /\ log = <<>>
Open == log = <<>>
GiveList == Open /\ entry \in Variadic /\ ~list /\ args = <<>> /\ list' = TRUE /\ UNCHANGED <<entry, target, args, log>>
GiveArg == /\ Open /\ entry \notin Braced
           /\ Len(args) < (IF entry \in Variadic THEN MaxArgs ELSE 1)
           /\ \E c \in Cats : args' = Append(args, c)
           /\ UNCHANGED <<entry, target, list, log>>
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE (IF i > 1 THEN ";" ELSE "") \o s[i] \o Join(s, i + 1)
RECURSIVE Cat(_, _)
Cat(a, i) == IF i > Len(a) THEN "" ELSE (IF i > 1 THEN "," ELSE "") \o a[i] \o Cat(a, i + 1)
Call == /\ Open
        /\ entry \in Values => Len(args) = 1
        /\ log' = Run(entry, target, list, args)
        /\ PrintT("FWD " \o entry \o " " \o target \o " " \o (IF list THEN "L" ELSE "-") \o " (" \o Cat(args, 1) \o ") " \o Join(log', 1))
        /\ UNCHANGED <<entry, target, list, args>>
Next == GiveList \/ GiveArg \/ Call
Spec == Init /\ [][Next]_<<entry, target, list, args, log>>

\* One operation that takes arguments, and it takes exactly those given.
Taking == {i \in 1..Len(log) : log[i] \notin {"D", "M", "K"}}
OneOperation == log # <<>> => Cardinality(Taking) = IF entry = "value_or" /\ target = "v" THEN 0 ELSE IF entry \in Braced /\ target = "v" THEN 2 ELSE 1
\* No copies or moves of the payload except from the braced temporary.
NoExtra == log # <<>> /\ entry \notin Braced /\ ~(entry = "value_or" /\ target = "v") => \A i \in 1..Len(log) : log[i] \notin {"M", "K"}
\* A mutable rvalue arrives only where one was given, and a const argument stays const.
OnlyGivenRvalues == \A i \in 1..Len(args) : /\ Seen(entry, args[i]) = "r" => args[i] = "r"
                                            /\ args[i] \in {"cl", "cr"} => Seen(entry, args[i]) \in {"cl", "cr"}
\* The payload is destroyed exactly if the optional is engaged and gets a new one, or was the braced temporary.
Destroys == log # <<>> => (Cardinality({i \in 1..Len(log) : log[i] = "D"}) = IF entry \in Braced \/ (entry = "emplace" /\ target = "v") THEN 1 ELSE 0)
=============================================================================
