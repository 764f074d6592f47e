------------------------------ MODULE Sentinel ------------------------------
(***************************************************************************)
(* Optionals with a sentinel of an integral type.  The user writes the     *)
(* sentinel 'sent' in type 'src'; the flag variable (the payload or one of *)
(* its members) has type 'flg'.                                            *)
(*                                                                         *)
(* 'mem' is the number in the flag variable, 'ghost' what the user put in  *)
(* last ("none": nothing).  Storing the sentinel itself is illegal.        *)
(*                                                                         *)
(* A row is exported per combination: accept or reject, and what the flag  *)
(* variable of an empty optional holds.                                    *)
(***************************************************************************)
EXTENDS Integers2, Sequences, TLC

CONSTANT Arch
VARIABLES src, flg, sent, st, mem, ghost

vars == <<src, flg, sent, st, mem, ghost>>
None == [s |-> 0, e |-> 0, d |-> 99]

\* The value has to fit; a bool goes only together with a bool.
Accept(s, f, v) == /\ (s.n = "bool") <=> (f.n = "bool")
                   /\ InRange(v, f)

Text(v) == ToString(v.s) \o " " \o ToString(v.e) \o " " \o ToString(v.d)
Row(s, f, v) == PrintT("SENT " \o Arch \o "|" \o s.n \o "|" \o f.n \o "|" \o Text(v) \o "|" \o
                       (IF Accept(s, f, v) THEN "accept" ELSE "reject"))

Init == /\ src \in IntTypes(Arch) /\ flg \in IntTypes(Arch) /\ sent \in ValuesOf(src)
        /\ st = (IF Accept(src, flg, sent) THEN "ok" ELSE "rejected")
        /\ mem = (IF Accept(src, flg, sent) THEN sent ELSE None)
        /\ ghost = None
        /\ Row(src, flg, sent)

Store(w) == /\ st = "ok" /\ w # sent
            /\ mem' = w /\ ghost' = w /\ UNCHANGED <<src, flg, sent, st>>
Clear    == /\ st = "ok" /\ mem' = sent /\ ghost' = None /\ UNCHANGED <<src, flg, sent, st>>
\* Any value the variable can hold, by every route (construction, emplace, assignment, write through a reference, ...)
Next == Clear \/ \E w \in ValuesOf(flg) : Store(w)
Spec == Init /\ [][Next]_vars

Engaged == mem # sent

\* Exactly the sentinel means empty and no other value is lost.
ExactlySentinel == st = "ok" => (Engaged <=> ghost # None) /\ (Engaged => mem = ghost)
\* The flag variable can hold what is put in.
Representable   == st = "ok" => InRange(mem, flg)
\* The spelling of the sentinel does not matter.
SpellingIrrelevant == \A s2 \in IntTypes(Arch) :
    (InRange(sent, s2) /\ (s2.n = "bool" <=> src.n = "bool")) => (Accept(src, flg, sent) <=> Accept(s2, flg, sent))
=============================================================================
