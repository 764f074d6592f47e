------------------------------ MODULE Factory ------------------------------
(***************************************************************************)
(* Which optional type the factories, class template argument deduction    *)
(* and transform() produce, and which types the type query recognises.     *)
(*                                                                         *)
(* An expression has an (unqualified) type and a category.  A produced     *)
(* optional is <<payload, options>>.                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* Types of argument expressions.
Objects == {"int", "double", "bool", "string", "cls", "enum", "regenum", "ptr", "mptr", "fptr", "vec"}
Special == {"lit", "arr", "fn"}                  \* string literal, array, function: they decay
MoveOnly == {"uniq"}
Optionals == {"topt", "sopt", "toptsent"}       \* tiny::optional<int>, std::optional<int>, tiny::optional<int, -7>
Types == Objects \cup Special \cup MoveOnly \cup Optionals
Cats == {"rv", "lv", "clv", "crv"}
Decay(t) == CASE t = "lit" -> "cstr" [] t = "arr" -> "ptr" [] t = "fn" -> "fptr" [] OTHER -> t
CatsOf(t) == IF t \in Special THEN {"lv"} ELSE IF t \in MoveOnly THEN {"rv"} ELSE Cats

\* Options given explicitly.  "sent": a sentinel, "memsent": member pointer and sentinel, "mem": member pointer only
OptionsOf(p) == CASE p \in {"int", "enum"} -> {"none", "sent"}
                  [] p = "cls" -> {"none", "memsent", "mem"}
                  [] OTHER -> {"none"}

\* make_optional(expr): the payload is the decayed type and the options are those given.
Make1(t, o) == <<Decay(t), o>>
\* make_optional<P, options>(args...) and make_optional<P, options>({...}, args...)
MakeP(p, o) == <<p, o>>
\* optional{expr}, optional(expr), optional x = expr: plain optional of the decayed type, or a copy of an optional given.
Ctad(t) == CASE t = "topt" -> <<"int", "none">> [] t = "toptsent" -> <<"int", "sent">> [] OTHER -> <<Decay(t), "none">>
\* transform: plain optional of the result without cv, whatever flavour it is called on.
Flavours == {"plain", "sent", "aip", "via", "inplace", "bits", "mem"}
Results == {"int", "cint", "double", "bool", "string", "regenum", "cls", "ptr", "topt", "sopt", "immov", "uniq"}
StripCv(r) == IF r = "cint" THEN "int" ELSE r
Quals == {"l", "cl", "r", "cr"}

\* The type query.
Library == {"opt_int", "opt_sent", "opt_mem", "opt_memsent", "opt_bits", "opt_class", "opt_const", "aip", "aip_sent", "aip_bits", "via", "via_mem", "inplace",
            "nested", "opt_of_std", "derived", "derived2", "const_opt", "volatile_opt", "opt_reg", "aip_reg", "opt_fn", "opt_moveonly", "opt_immovable"}
Foreign == {"std_opt", "std_opt_of_tiny", "int_", "void_", "fn_", "ref_opt", "rref_opt", "ptr_opt", "arr_opt", "class_", "incomplete_", "enum_", "union_", "nullopt_",
            "inplace_t_", "vec_opt", "has_false_marker", "lambda_", "manipulator_", "memptr_", "abstract_", "final_"}

VARIABLE done
Init == done = FALSE
Next == done' = TRUE
Spec == Init /\ [][Next]_done

Row(s) == PrintT("ROW " \o s)
ASSUME \A t \in Types : \A c \in CatsOf(t), o \in OptionsOf(Decay(t)) :
         /\ Row("make1 " \o t \o " " \o c \o " " \o o \o " -> " \o Make1(t, o)[1] \o " " \o Make1(t, o)[2])
ASSUME \A p \in Objects \cup MoveOnly \cup {"immov"} : \A o \in OptionsOf(p), n \in 0 .. 2 :
         Row("makeargs " \o p \o " " \o ToString(n) \o " " \o o \o " -> " \o MakeP(p, o)[1] \o " " \o MakeP(p, o)[2])
ASSUME \A p \in {"string", "cls", "vec"} : \A o \in OptionsOf(p), n \in 0 .. 1 :
         Row("makeil " \o p \o " " \o ToString(n) \o " " \o o \o " -> " \o MakeP(p, o)[1] \o " " \o MakeP(p, o)[2])
ASSUME \A t \in Types : \A c \in CatsOf(t), how \in {"braces", "parens", "equals", "func"} :
         Row("ctad " \o t \o " " \o c \o " " \o how \o " -> " \o Ctad(t)[1] \o " " \o Ctad(t)[2])
ASSUME \A f \in Flavours, r \in Results, q \in Quals :
         Row("transform " \o f \o " " \o q \o " " \o r \o " -> " \o StripCv(r) \o " none")
ASSUME \A l \in Library : Row("query " \o l \o " - - -> true -")
ASSUME \A l \in Foreign : Row("query " \o l \o " - - -> false -")

\* Consistency of the rules.
ASSUME \A t \in Types : t \notin Optionals => Make1(t, "none") = Ctad(t)
ASSUME Library \cap Foreign = {}
=============================================================================
