------------------------------- MODULE Misuse -------------------------------
(***************************************************************************)
(* Uses of an optional that have to compile and uses that have to be       *)
(* rejected, besides the choice of payload, member and sentinel (Scheme,   *)
(* Sentinel): functions given to the monadic members, defaults given to    *)
(* value_or, and flag manipulators.                                        *)
(*                                                                         *)
(* The state is a use written down step by step: what it is about, its     *)
(* object, the qualification of the object, and the ingredient.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES topic,   \* and_then, transform, or_else, value_or, swap, manip, compare
          obj,     \* the flavour of the optional or the kind of its payload
          qual,    \* l, cl, r, cr
          what,    \* ingredient
          verdict  \* "", accept or reject

Monadic == {"and_then", "transform", "or_else"}
Topics == Monadic \cup {"value_or", "swap", "manip", "flagtype", "incomplete"}

\* What the function returns.
TinyOpts == {"tiny", "tiny_sentinel", "tiny_via", "tiny_inplace", "tiny_aip"}
AnyOpts == TinyOpts \cup {"std", "same", "const_tiny", "const_std"}
OptRefs == {"tiny_ref", "std_ref", "same_ref", "tiny_cref"}
Objects == {"int", "const_int", "pointer", "enum", "class", "moveonly", "float", "vector"}
NotObjects == {"void", "int_ref", "int_cref", "int_rref", "class_ref", "array_ref", "func_ref"}
Tags == {"nullopt", "const_nullopt", "in_place", "const_in_place"}
Returns == AnyOpts \cup OptRefs \cup Objects \cup NotObjects \cup Tags
\* Functions that cannot be called with the payload (or_else: without argument)
NotCallable == {"wrong_argument", "no_function"}

MonadicVerdict(m, r) ==
  IF r \in NotCallable THEN "reject"
  ELSE CASE m = "and_then" -> IF r \in AnyOpts \cup OptRefs THEN "accept" ELSE "reject"     \* some optional
         [] m = "transform" -> IF r \in AnyOpts \cup Objects THEN "accept" ELSE "reject"    \* something an optional can hold
         [] m = "or_else" -> IF r \in {"same", "same_ref"} THEN "accept" ELSE "reject"      \* this optional

\* value_or copies from everything but a mutable rvalue.
PayKinds == {"copyable", "moveonly", "immovable", "copyonly"}
Defaults == {"itself", "convertible", "explicit", "unrelated"}
Copyable(k) == k \in {"copyable", "copyonly"}
Movable(k) == k \in {"copyable", "moveonly"}
ValueOrVerdict(k, q, d) ==
  IF (IF q = "r" THEN Movable(k) ELSE Copyable(k)) /\ d \in {"itself", "convertible"} /\ (d = "itself" => Movable(k)) THEN "accept" ELSE "reject"

\* Flag manipulators: complete and nothing may throw, because the optional has to be able to become empty at any time.
Functions == {"is_empty", "init_empty_flag", "invalidate_empty_flag"}
Flaws == {"none"} \cup {f \o "_throws" : f \in Functions} \cup {f \o "_missing" : f \in Functions} \cup {f \o "_wrong_type" : f \in Functions}
ManipKinds == {"passed", "registered", "registered_member"}
ManipVerdict(w) == IF w = "none" THEN "accept" ELSE "reject"

\* Flag variables with a sentinel are compared and assigned at any time, too.
FlagFlaws == {"none", "compare_throws", "assign_throws", "no_compare"}
FlagKinds == {"value", "member"}

\* An optional of a type that is only declared may be named, but not be created.
Namings == {"parameter", "result", "reference", "pointer", "alias", "static_member"}
Creations == {"object", "size", "member", "base"}

Objs(t) == CASE t \in Monadic -> {"optional", "sentinel", "via", "inplace", "class"}
             [] t = "value_or" -> PayKinds
             [] t = "swap" -> PayKinds \ {"copyonly"}
             [] t = "manip" -> ManipKinds
             [] t = "flagtype" -> FlagKinds
             [] t = "incomplete" -> {"optional", "via", "inplace"}
Quals(t) == IF t \in Monadic \cup {"value_or"} THEN {"l", "cl", "r", "cr"} ELSE {"l"}
Whats(t) == CASE t \in Monadic -> Returns \cup NotCallable
              [] t = "value_or" -> Defaults
              [] t = "swap" -> {"member", "free"}
              [] t = "manip" -> Flaws
              [] t = "flagtype" -> FlagFlaws
              [] t = "incomplete" -> Namings \cup Creations
Verdict(t, o, q, w) ==
  CASE t \in Monadic -> MonadicVerdict(t, w)
    [] t = "value_or" -> ValueOrVerdict(o, q, w)
    [] t = "swap" -> IF Movable(o) THEN "accept" ELSE "reject"
    [] t = "manip" -> ManipVerdict(w)
    [] t = "flagtype" -> IF w = "none" THEN "accept" ELSE "reject"
    [] t = "incomplete" -> IF w \in Namings THEN "accept" ELSE "reject"
\* or_else is for C++20; it copies from everything but a mutable rvalue. All payloads used with it can be copied.

Init == topic \in Topics /\ obj = "" /\ qual = "" /\ what = "" /\ verdict = ""
PickObj == obj = "" /\ obj' \in Objs(topic) /\ UNCHANGED <<topic, qual, what, verdict>>
Qualify == obj # "" /\ qual = "" /\ qual' \in Quals(topic) /\ UNCHANGED <<topic, obj, what, verdict>>
PickWhat == qual # "" /\ what = "" /\ what' \in Whats(topic) /\ UNCHANGED <<topic, obj, qual, verdict>>
Compile == /\ what # "" /\ verdict = ""
           /\ verdict' = Verdict(topic, obj, qual, what)
           /\ PrintT("USE " \o topic \o " " \o obj \o " " \o qual \o " " \o what \o " " \o verdict')
           /\ UNCHANGED <<topic, obj, qual, what>>
Next == PickObj \/ Qualify \/ PickWhat \/ Compile
Spec == Init /\ [][Next]_<<topic, obj, qual, what, verdict>>

\* The qualification of the object never decides whether a function is acceptable.
QualIrrelevant == topic \in Monadic /\ verdict # "" => \A q \in Quals(topic) : Verdict(topic, obj, q, what) = verdict
\* Every flaw of a manipulator is an error.
FlawsRejected == topic = "manip" /\ verdict = "accept" => what = "none"
\* Nothing that is no optional comes out of and_then, and no reference out of transform.
OnlyOptionals == topic = "and_then" /\ verdict = "accept" => what \in AnyOpts \cup OptRefs
NamingIsFree == topic = "incomplete" => (what \in Namings => verdict \in {"", "accept"})
NoReferences == topic = "transform" /\ verdict = "accept" => what \notin OptRefs \cup NotObjects \cup Tags
=============================================================================
