------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* Comparison of optionals ([optional.relops], [optional.nullops],         *)
(* [optional.comp.with.t]).  One side of a comparison is an empty optional *)
(* "E", an engaged one "V", std::nullopt "N" or a plain value "P".         *)
(* If both sides hold a value, the payload's own operator decides: it is   *)
(* an arbitrary function of operator and operand order (rel), called       *)
(* exactly once.  Otherwise it must not be called at all.                  *)
(*                                                                         *)
(* Payload classes (pc):                                                   *)
(*   six    has the six relational operators, unrelated to each other      *)
(*   three  has only == and <=> (C++20); the others are rewritten in terms *)
(*          of these by the language                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES pc, l, r, rel, done  \* payload class, the two sides, the payload's relation, last comparison

Sides == {"E", "V", "N", "P"}
RelOps == {"==", "!=", "<", "<=", ">", ">="}
Ops == RelOps \cup {"<=>"}
Orders == {"lt", "eq", "gt", "un"}

HasValue(x) == x \in {"V", "P"}
Both(x, y)  == HasValue(x) /\ HasValue(y)
IsOpt(x)    == x \in {"E", "V"}

\* At least one side is an optional (std::nullopt never meets a plain value).
Comparable(x, y) == IsOpt(x) \/ IsOpt(y)

B(b) == IF b THEN "T" ELSE "F"
Rank(x) == IF HasValue(x) THEN 1 ELSE 0

RankRes(op, a, b) ==
  CASE op = "==" -> B(a = b) [] op = "!=" -> B(a # b)
    [] op = "<" -> B(a < b)  [] op = "<=" -> B(a <= b)
    [] op = ">" -> B(a > b)  [] op = ">=" -> B(a >= b)
    [] op = "<=>" -> (IF a < b THEN "lt" ELSE IF a > b THEN "gt" ELSE "eq")

\* rel[op]: what the payload operator returns for (left value, right value).
Result(op, x, y, f) == IF Both(x, y) THEN f[op] ELSE RankRes(op, Rank(x), Rank(y))
Calls(x, y) == IF Both(x, y) THEN 1 ELSE 0

Rels == {f \in [Ops -> {"T", "F"} \cup Orders] :
           (\A o \in RelOps : f[o] \in {"T", "F"}) /\ f["<=>"] \in Orders}

\* The payload operator that answers op.
Asked(c, op) == IF c = "six" THEN op
                ELSE IF op \in {"==", "!="} THEN "==" ELSE "<=>"
Derived(f) == /\ f["!="] = B(f["=="] = "F")
              /\ f["<"] = B(f["<=>"] = "lt") /\ f[">"] = B(f["<=>"] = "gt")
              /\ f["<="] = B(f["<=>"] \in {"lt", "eq"}) /\ f[">="] = B(f["<=>"] \in {"gt", "eq"})

OpsOf(c) == IF c = "six" THEN RelOps ELSE Ops

Init == /\ pc \in {"six", "three"}
        /\ l \in Sides /\ r \in Sides /\ Comparable(l, r)
        /\ rel \in Rels /\ (pc = "three" => Derived(rel)) /\ (pc = "six" => rel["<=>"] = "eq")
        /\ done = <<>>
Compare(op) == done' = <<op, Result(op, l, r, rel), Calls(l, r)>> /\ UNCHANGED <<pc, l, r, rel>>
Next == \E op \in OpsOf(pc) : Compare(op)
Spec == Init /\ [][Next]_<<pc, l, r, rel, done>>
View == <<pc, l, r, rel>>

----------------------------------------------------------------------------
(* Consequences users rely on.                                             *)
Coherent(f) == /\ f["!="] # f["=="]
               /\ f["<=>"] = "eq" <=> f["=="] = "T"
               /\ f["<"]  = B(f["<=>"] = "lt") /\ f[">"] = B(f["<=>"] = "gt")
               /\ f["<="] = B(f["<=>"] \in {"lt", "eq"}) /\ f[">="] = B(f["<=>"] \in {"gt", "eq"})
R(op) == Result(op, l, r, rel)
\* A coherent payload gives coherent optionals.
CoherenceLifted == Coherent(rel) =>
   /\ R("!=") # R("==")
   /\ (R("<=>") = "eq") <=> (R("==") = "T")
   /\ R("<") = B(R("<=>") = "lt") /\ R(">") = B(R("<=>") = "gt")
   /\ R("<=") = B(R("<=>") \in {"lt", "eq"}) /\ R(">=") = B(R("<=>") \in {"gt", "eq"})
\* nullopt is indistinguishable from an empty optional, a value from an engaged one.
AsOpt(x) == CASE x = "N" -> "E" [] x = "P" -> "V" [] OTHER -> x
NulloptIsEmpty == \A op \in Ops : R(op) = Result(op, AsOpt(l), AsOpt(r), rel)
\* Empty is the least element.
EmptyLeast == /\ (~HasValue(l) => R("<=") = "T" /\ R(">") = "F")
              /\ (~HasValue(r) => R(">=") = "T" /\ R("<") = "F")
              /\ (HasValue(l) # HasValue(r) => R("==") = "F" /\ R("!=") = "T")
PayloadUsedOnce == [][done'[3] = (IF HasValue(l) /\ HasValue(r) THEN 1 ELSE 0)]_<<pc, l, r, rel, done>>

\* Transitions for the replay, with the payload's answer for the operator in question only.
Emit == LET d == done' IN
        PrintT("ROW " \o pc \o " " \o d[1] \o " " \o l \o " " \o r \o " " \o (IF Both(l, r) THEN rel[d[1]] ELSE "-") \o " " \o d[2]
               \o " " \o ToString(d[3]) \o " " \o Asked(pc, d[1]))
=============================================================================
