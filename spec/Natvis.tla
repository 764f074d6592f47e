------------------------------- MODULE Natvis -------------------------------
(***************************************************************************)
(* What a debugger shows for an optional.                                  *)
(*                                                                         *)
(* An optional is in some state; the debugger may stop the program after   *)
(* any operation.  It selects a visualizer by the type's name and          *)
(* evaluates the visualizer's expressions on the raw storage, without      *)
(* calling functions.  The display has to show emptiness or the value.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

\* Storage schemes the visualizer file supports, with the kind of flag variable.
Direct  == {"bool", "double", "float", "ptr", "cptr", "pptr", "fptr",
            "sent_int", "sent_uint", "sent_uchar", "sent_llong", "sent_enum", "sent_bool", "aip_int", "aip_ushort", "aip_sent", "aip_double", "via_int", "via_double"}
Member  == {"mem_bool", "mem_double", "mem_float", "mem_ptr", "mem_fptr", "mem_sent_int", "mem_sent_short", "mem_via", "mem_first_double", "mem_last_sent"}
Separate == {"sep_int", "sep_string", "sep_class", "sep_enum", "sep_nested"}
Schemes == Direct \cup Member \cup Separate

\* With the platform tricks disabled the same types have a separate flag, except for explicit sentinels.
UsesTrick(s) == s \in {"bool", "double", "float", "ptr", "cptr", "pptr", "fptr", "aip_double"} \cup Member
SchemeIn(s, tricks) == IF s \in Separate \/ (~tricks /\ UsesTrick(s)) THEN "separate" ELSE IF s \in Member THEN "member" ELSE "direct"
\* aip needs a sentinel or unused bits
Exists(s, tricks) == tricks \/ s # "aip_double"

VARIABLES scheme, state, shown
vars == <<scheme, state, shown>>
Vals == {0, 1, 2}
Raw(s, v) == <<SchemeIn(s, TRUE), IF v = "E" THEN "pattern" ELSE v>>
\* The visualizer looks at raw storage only.
Display(raw) == IF raw[2] = "pattern" THEN "nullopt" ELSE raw[2]
Init == scheme \in Schemes /\ state = "E" /\ shown = "nothing"
Operate == state' \in {"E", "0", "1", "2"} /\ shown' = "nothing" /\ UNCHANGED scheme
Stop == shown' = Display(Raw(scheme, state)) /\ UNCHANGED <<scheme, state>>
Next == Operate \/ Stop
Spec == Init /\ [][Next]_vars
Truthful == shown # "nothing" => shown = (IF state = "E" THEN "nullopt" ELSE state)

\* Histories at whose every point the display is checked; the last operation leads to the state given.
Ways == {"default", "value", "reset", "assign", "copy", "move", "emplace", "swap", "assign_empty", "nullopt"}
Leads(w) == IF w \in {"value", "assign", "copy", "move", "emplace"} THEN "V" ELSE IF w = "swap" THEN "V" ELSE "E"
ASSUME \A s \in Schemes, w \in Ways, v \in Vals : (Leads(w) = "E" => v = 0) =>
         PrintT("VIS " \o s \o " " \o w \o " " \o ToString(v) \o " " \o (IF Leads(w) = "E" THEN "nullopt" ELSE "value"))
ASSUME \A s \in Schemes, t \in BOOLEAN : Exists(s, t) => PrintT("SCHEME " \o s \o " " \o (IF t THEN "tricks" ELSE "plain") \o " " \o SchemeIn(s, t))
=============================================================================
