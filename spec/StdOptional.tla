---------------------------- MODULE StdOptional ----------------------------
(***************************************************************************)
(* The abstract state machine of std::optional ([optional] in the C++      *)
(* standard): what every operation does to emptiness and value of the two  *)
(* optionals a and b, written as postconditions and independently of how   *)
(* tiny::optional stores its state.  OptionalMicro refines this module.    *)
(* An abstract optional is "none" (no object), "empty" or a value.         *)
(***************************************************************************)
EXTENDS OptionalOps

VARIABLES akd, abs, done      \* payload kind, [a,b], last completed call

None  == [h |-> "none", v |-> -1]
Empty == [h |-> "empty", v |-> -1]
Val(v) == [h |-> "val", v |-> v]
Has(c) == c.h = "val"

Gone(k, how, c) == IF how = "m" /\ Has(c) /\ k.mark THEN Val(MOVED) ELSE c

\* Postcondition of a successful call.
OkPost(k, p, o) ==
  LET s == o.s  q == Other(s)  n == o.op
      To(c) == [p EXCEPT ![s] = c]
  IN
  CASE n \in {"c_def", "c_brace", "c_null", "a_null", "a_brace", "a_tmpe", "reset"} -> To(Empty)
    [] n \in {"c_in0", "e_0"} -> To(Val(0))
    [] n \in CtorNamesV \cup CtorNamesL \cup CtorNamesR \cup
             {"a_vl", "a_vcl", "a_vr", "a_ci", "a_tmp", "e_arg", "e_l", "e_r", "e_2l", "e_2r", "e_2c", "e_il",
              "m_deref", "m_arrow"} -> To(Val(o.v))
    [] n \in {"c_copy", "c_cmove", "a_copy", "a_cmove", "a_ov"} -> To(p[q])
    [] n = "c_move"            -> [To(p[q]) EXCEPT ![q] = Gone(k, k.mc, p[q])]
    \* move assignment moves either by assignment or by construction
    [] n \in {"a_move", "a_ovm"} ->
         [To(p[q]) EXCEPT ![q] = Gone(k, IF Has(p[s]) THEN k.ma ELSE k.mc, p[q])]
    [] n = "destroy"           -> To(None)
    [] n \in {"sw_m", "sw_adl", "sw_std"} -> [p EXCEPT ![s] = p[q], ![q] = p[s]]
    [] n = "m_value"           -> IF Has(p[s]) THEN To(Val(o.v)) ELSE p
    [] n \in {"t_deref", "t_value", "vo_r", "vo_rl", "vo_ci", "oe_r"} -> To(Gone(k, k.mc, p[s]))
    [] n \in {"at_r", "tr_r"}  -> IF o.w = "take" THEN To(Gone(k, k.mc, p[s])) ELSE p
    [] OTHER                   -> p

\* Postcondition of a call that ends with an exception of the payload or of a callback.
ExcPost(k, p, o) ==
  CASE o.op \in {"e_0", "e_arg", "e_l", "e_r", "e_2l", "e_2r", "e_2c", "e_il"} -> [p EXCEPT ![o.s] = Empty]
    [] OTHER -> p

\* Precondition of the standard.
AbsPre(k, p, o) ==
  /\ Available(k, o)
  /\ (p[o.s] = None) <=> IsCtor(o)

Init == /\ akd \in Kinds
        /\ abs = [a |-> None, b |-> None]
        /\ done = <<>>

Complete(o, out) ==
  /\ AbsPre(akd, abs, o)
  /\ abs' = IF out = "exc" THEN ExcPost(akd, abs, o) ELSE OkPost(akd, abs, o)
  /\ (out = "bad") <=> (o.op \in {"v_l", "v_c", "v_r", "v_cr", "t_value", "m_value"} /\ abs[o.s] = Empty)
  /\ done' = <<o, out>>
  /\ akd' = akd

Next == \E o \in AllOps, out \in {"ok", "exc", "bad"} : Complete(o, out)

\* Next for checking a refinement: the completed call is known.
NextKnown == /\ done' # <<>>
             /\ Complete(done'[1], done'[2])

Spec == Init /\ [][NextKnown]_<<akd, abs, done>>
=============================================================================
