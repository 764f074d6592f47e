------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* Memory footprint of the operations, and threads.                        *)
(*                                                                         *)
(* Memory: the storage of three neighbouring optionals ("l", "t", "r"),    *)
(* guard bytes around them and static memory of the program ("g").  An     *)
(* operation is a non-atomic set of accesses.  Any number of const         *)
(* operations may run on the same optional at the same time; a mutating    *)
(* operation runs alone on its target and its source, but together with    *)
(* any operation on other optionals.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Threads

Objs  == {"l", "t", "r"}
Cells == Objs \cup {"g"}

ConstOps == {"has", "bool", "star_cl", "star_cr", "arrow_c", "value_cl", "value_cr", "value_or_cl", "value_or_rv",
             "and_then_cl", "and_then_cr", "transform_cl", "transform_cr", "or_else_cl",
             "eq_opt", "ne_opt", "lt_opt", "le_opt", "gt_opt", "ge_opt", "cmp3_opt",
             "eq_null", "ne_null", "lt_null", "gt_null", "null_eq", "null_lt", "cmp3_null",
             "eq_val", "ne_val", "lt_val", "le_val", "val_eq", "val_lt", "cmp3_val",
             "eq_std", "std_eq", "lt_std", "std_lt", "hash", "copy_from", "assign_from"}
\* One target only.
MutOps == {"reset", "assign_null", "assign_braces", "emplace", "emplace_throw", "emplace_il", "assign_rv", "assign_lv", "assign_self",
           "modify", "construct", "construct_value", "destroy", "value_or_r", "transform_r", "and_then_r", "or_else_r"}
\* Target and source written.
PairOps == {"swap", "swap_free", "move_assign", "move_construct"}
\* Target written, source read.
CopyOps == {"copy_assign", "copy_construct", "assign_from_value_of"}

Reads(op, x, y)  == IF op \in PairOps \cup CopyOps THEN {x, y} ELSE {x}
Writes(op, x, y) == CASE op \in ConstOps -> {} [] op \in PairOps -> {x, y} [] OTHER -> {x}

VARIABLES running       \* thread -> <<>> or <<op class, target, source>>
Rep == {"const", "mut", "pair", "copy"}
RepOp(c) == CASE c = "const" -> "has" [] c = "mut" -> "reset" [] c = "pair" -> "swap" [] OTHER -> "copy_assign"
Idle == <<"none", "l", "r">>
Init == running = [t \in Threads |-> Idle]
R(a) == IF a = Idle THEN {} ELSE Reads(RepOp(a[1]), a[2], a[3])
W(a) == IF a = Idle THEN {} ELSE Writes(RepOp(a[1]), a[2], a[3])
\* What the user may do concurrently: the C++ rule for const and non-const operations of standard library types.
Exclusive(a) == IF a = Idle THEN {} ELSE CASE a[1] = "const" -> {} [] a[1] = "mut" -> {a[2]} [] a[1] = "pair" -> {a[2], a[3]} [] OTHER -> {a[2]}
Uses(a) == IF a = Idle THEN {} ELSE IF a[1] \in {"pair", "copy"} THEN {a[2], a[3]} ELSE {a[2]}
Permitted(a, b) == Exclusive(a) \cap Uses(b) = {} /\ Exclusive(b) \cap Uses(a) = {}
Start(t) == /\ running[t] = Idle
            /\ \E c \in Rep, x, y \in Objs :
                 /\ x # y
                 /\ \A u \in Threads : Permitted(<<c, x, y>>, running[u])
                 /\ running' = [running EXCEPT ![t] = <<c, x, y>>]
Finish(t) == running[t] # Idle /\ running' = [running EXCEPT ![t] = Idle]
Next == \E t \in Threads : Start(t) \/ Finish(t)
Spec == Init /\ [][Next]_running

\* Whatever users may run concurrently does not race, and static memory is never written.
NoRace == \A t, u \in Threads : t # u => W(running[t]) \cap (R(running[u]) \cup W(running[u])) = {}
NoStatic == \A t \in Threads : "g" \notin W(running[t])

St == {"E", "V"}
S(set) == IF set = {} THEN "-" ELSE IF "t" \in set /\ "r" \in set THEN "tr" ELSE IF "t" \in set THEN "t" ELSE "r"
\* Rows: operation, states of t and r (l is in the state opposite to t), cells which may change.
ASSUME \A op \in ConstOps \cup MutOps \cup PairOps \cup CopyOps, a, b \in St :
         PrintT("MEM " \o op \o " " \o a \o " " \o b \o " " \o S(Writes(op, "t", "r")))
ASSUME \A a, b \in Rep : PrintT("PAR " \o a \o " " \o b)
=============================================================================
