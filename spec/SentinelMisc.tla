---------------------------- MODULE SentinelMisc ----------------------------
(***************************************************************************)
(* The automatic sentinels of optional_aip (lowest value for signed,       *)
(* largest for unsigned integers, none for characters) and the families of *)
(* sentinels that are not integers.  The flag variable is a cell over the  *)
(* abstract values 1..N of its type, one of which is the sentinel.         *)
(***************************************************************************)
EXTENDS Integers2, Sequences, TLC

VARIABLES fam, sent, cell, ghost
vars == <<fam, sent, cell, ghost>>

Auto == {t \in IntTypes("x64") : t.n \in {"short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"}}
AutoSentinel(t) == IF t.sgn THEN "min" ELSE "max"
Families == {"aip " \o t.n \o "|" \o AutoSentinel(t) : t \in Auto}
            \cup {"aip explicit|-", "registered enum|-", "enum sentinel|-", "float sentinel|-", "pointer sentinel|-", "class sentinel|-", "address-of operator|-",
                  "const payload|-", "small types|-"}
Cells == 1..4

Init == /\ fam \in Families /\ sent \in Cells /\ cell = sent /\ ghost = 0
        /\ (sent = 1 => PrintT("MISC " \o fam))
Store(w) == w # sent /\ cell' = w /\ ghost' = w /\ UNCHANGED <<fam, sent>>
Clear == cell' = sent /\ ghost' = 0 /\ UNCHANGED <<fam, sent>>
Next == Clear \/ \E w \in Cells : Store(w)
Spec == Init /\ [][Next]_vars
ExactlySentinel == (cell # sent <=> ghost # 0) /\ (ghost # 0 => cell = ghost)
=============================================================================
