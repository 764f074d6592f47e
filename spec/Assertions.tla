----------------------------- MODULE Assertions -----------------------------
(***************************************************************************)
(* Which calls must fail an assertion in a debug build.                    *)
(*                                                                         *)
(* truth: what std::optional would be after the call ("E"mpty, "V"alue).   *)
(* looks: what the flag variable of the tiny optional says.  The two       *)
(* differ if the value stored is the sentinel: the optional then became    *)
(* empty behind the library's back, its payload is never destroyed, and so *)
(* on.  The library cannot prevent it, but debug builds stop at the call   *)
(* which causes it.                                                        *)
(*                                                                         *)
(* The payload's copy and move may be odd:                                 *)
(*   plain    copies and moves preserve the value, the source stays legal  *)
(*   copybad  a copy is the sentinel                                       *)
(*   movebad  a moved-to object is the sentinel                            *)
(*   drain    a moved-from object is the sentinel                          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Behaviours == {"plain", "copybad", "movebad", "drain"}
St == {"E", "V"}

\* Routes which store a value given by the caller: how the value reaches the payload.
\*   "direct": built from raw material, "copy": from an lvalue payload, "move": from an rvalue payload
CtorRoutes   == [ctor_rv |-> "move", ctor_lv |-> "copy", ctor_clv |-> "copy", inpl_raw |-> "direct", inpl_rv |-> "move", inpl_lv |-> "copy",
                 inpl_il |-> "direct", ctor_conv |-> "direct", make_rv |-> "move", make_lv |-> "copy", make_raw |-> "direct", make_il |-> "direct",
                 transform |-> "direct", transform_nx |-> "direct", copy_init |-> "move", elem |-> "direct"]
StoreRoutes  == [emplace_raw |-> "direct", emplace_rv |-> "move", emplace_lv |-> "copy", emplace_il |-> "direct",
                 assign_rv |-> "move", assign_lv |-> "copy", assign_clv |-> "copy", assign_conv |-> "direct"]
\* Routes which take the value from another optional.
OptCtorRoutes == [cc |-> "copy", mc |-> "move", or_else_l |-> "copy", or_else_r |-> "move", vec_copy |-> "copy", vec_move |-> "move"]
OptRoutes     == [ca |-> "copy", ma |-> "move", swap_m |-> "move", swap_f |-> "move"]
DerefRoutes   == {"star_l", "star_cl", "star_r", "star_cr", "arrow", "arrow_c"}
\* Ways of becoming empty before the dereference, ways of becoming engaged.
EmptyWays  == {"default", "nullopt", "reset", "assign_null", "assign_braces", "copy_e", "move_e", "assign_e", "swap_e", "throw"}
EngageWays == {"ctor", "emplace", "assign", "copy_v", "move_v", "assign_v", "swap_v", "value_v"}

Vals == {"legal", "sentinel"}

\* Does the new payload look empty?
Bad(beh, how, v) == \/ v = "sentinel"
                    \/ how = "copy" /\ beh = "copybad"
                    \/ how = "move" /\ beh = "movebad"
\* Does the source optional look empty after having been engaged?
Drained(beh, how) == how = "move" /\ beh = "drain"

VARIABLES beh, truth, looks, aborted, illegal
vars == <<beh, truth, looks, aborted, illegal>>

Init == beh \in Behaviours /\ truth = [x \in {1, 2} |-> "E"] /\ looks = [x \in {1, 2} |-> "E"] /\ aborted = FALSE /\ illegal = FALSE

\* One call: new believed state t, new flag state l; debug builds stop if they differ.
Call(t, l, isIllegal) ==
  /\ ~aborted
  /\ truth' = t /\ looks' = l
  /\ aborted' = (t # l)
  /\ illegal' = (illegal \/ isIllegal)
  /\ UNCHANGED beh

Lk(bad) == IF bad THEN "E" ELSE "V"
Store(x, how, v) == Call([truth EXCEPT ![x] = "V"], [looks EXCEPT ![x] = Lk(Bad(beh, how, v))], Bad(beh, how, v))
Transfer(x, y, how) ==
  IF truth[y] = "E"
  THEN Call([truth EXCEPT ![x] = "E"], [looks EXCEPT ![x] = "E"], FALSE)
  ELSE Call([truth EXCEPT ![x] = "V"],
            [looks EXCEPT ![x] = Lk(Bad(beh, how, "legal")), ![y] = Lk(Drained(beh, how))],
            Bad(beh, how, "legal") \/ Drained(beh, how))
Reset(x) == Call([truth EXCEPT ![x] = "E"], [looks EXCEPT ![x] = "E"], FALSE)

Next == \E x, y \in {1, 2} : x # y /\
          \/ \E how \in {"direct", "copy", "move"}, v \in Vals : Store(x, how, v)
          \/ \E how \in {"copy", "move"} : Transfer(x, y, how)
          \/ Reset(x)
Spec == Init /\ [][Next]_vars

\* In a debug build execution never continues with an optional that became empty behind its back ...
NeverInconsistent == aborted \/ truth = looks
\* ... and without illegal calls nothing ever fails.
OnlyIllegalFails == aborted => illegal
IllegalFails == illegal => aborted

B(b) == IF b THEN "abort" ELSE "ok"
P(s) == PrintT("CASE " \o s)
\* The rows to execute: route, state of the target, state of the source, value, behaviour, expectation.
ASSUME \A r \in DOMAIN CtorRoutes, v \in Vals, b \in Behaviours :
         (v = "sentinel" => b = "plain") => P("new " \o r \o " - - " \o v \o " " \o b \o " " \o B(Bad(b, CtorRoutes[r], v)))
ASSUME \A r \in DOMAIN StoreRoutes, d \in St, v \in Vals, b \in Behaviours :
         (v = "sentinel" => b = "plain") => P("store " \o r \o " " \o d \o " - " \o v \o " " \o b \o " " \o B(Bad(b, StoreRoutes[r], v)))
ASSUME \A r \in DOMAIN OptCtorRoutes, s \in St, b \in Behaviours :
         \* vectors of optionals: only the copy or move of elements; or_else returns the optional itself: copy or move construction
         P("newfrom " \o r \o " - " \o s \o " legal " \o b \o " "
           \o B(s = "V" /\ (Bad(b, OptCtorRoutes[r], "legal") \/ Drained(b, OptCtorRoutes[r]))))
ASSUME \A r \in {"ca", "ma"}, d, s \in St, b \in Behaviours :
         P("from " \o r \o " " \o d \o " " \o s \o " legal " \o b \o " "
           \o B(s = "V" /\ (Bad(b, OptRoutes[r], "legal") \/ Drained(b, OptRoutes[r]))))
\* swap of one engaged and one empty optional moves the payload over and destroys the source: only the new payload matters
ASSUME \A r \in {"swap_m", "swap_f"}, d, s \in St, b \in {"plain", "copybad", "movebad"} :
         ~(d = "V" /\ s = "V" /\ b # "plain") =>
         P("from " \o r \o " " \o d \o " " \o s \o " legal " \o b \o " " \o B(d # s /\ b = "movebad"))
ASSUME \A r \in DerefRoutes, w \in EmptyWays : P("deref " \o r \o " E " \o w \o " legal plain abort")
ASSUME \A r \in DerefRoutes, w \in EngageWays : P("deref " \o r \o " V " \o w \o " legal plain ok")
=============================================================================
