------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* Build configurations of the library and what may depend on them.        *)
(*                                                                         *)
(* A program consists of two translation units, each compiled with its own *)
(* macro configuration.  A function defined in one and called in the other *)
(* has an optional in its signature.  The program links only if the two    *)
(* agree on what the optional looks like.  If it links, the callee sees    *)
(* what the caller stored.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Macros == [bit : BOOLEAN, mem : BOOLEAN]
Langs  == {"17", "20", "23"}
Fwd    == {"none", "before", "after", "both"}     \* optional_flag_manipulator_fwd.h relative to optional.h
Ndebug == BOOLEAN
Opt    == {"O0", "O2"}
Comp   == {"g", "c", "g32"}                        \* gcc, clang, gcc for 32 bit

VARIABLES caller, callee, linked, stored, seen
vars == <<caller, callee, linked, stored, seen>>

B(b) == IF b THEN "1" ELSE "0"
Lbl(m) == B(m.bit) \o B(m.mem)

\* The layout an instantiation has under a macro configuration; "mangled" is part of the linkage name.
Layout(m)  == <<m.bit, m.mem>>
Mangled(m) == (IF m.bit THEN "bit" ELSE "noBit") \o "_" \o (IF m.mem THEN "mem" ELSE "noMem")

Values == {0, 1}
Empty == -1
Init == /\ caller \in Macros /\ callee \in Macros /\ linked = FALSE /\ stored = Empty /\ seen = Empty
        /\ PrintT("LINK " \o Lbl(caller) \o " " \o Lbl(callee) \o " " \o B(Mangled(caller) = Mangled(callee)))
Link == ~linked /\ Mangled(caller) = Mangled(callee) /\ linked' = TRUE /\ UNCHANGED <<caller, callee, stored, seen>>
Store == \E v \in Values \cup {Empty} : stored' = v /\ seen' = Empty /\ UNCHANGED <<caller, callee, linked>>
\* reading with a different layout yields garbage
Call == linked /\ seen' = (IF Layout(caller) = Layout(callee) THEN stored ELSE -2) /\ UNCHANGED <<caller, callee, linked, stored>>
Next == Link \/ Store \/ Call
Spec == Init /\ [][Next]_vars

\* Mixing configurations never misbehaves, it does not link.
NeverGarbage == seen # -2
MixFails == linked => caller = callee

\* Every build is meaningful: the matrix of builds whose observable results have to agree.
ASSUME \A m \in Macros, l \in Langs, f \in Fwd, n \in Ndebug, o \in Opt, c \in Comp :
  ~(c = "c" /\ l = "23") => PrintT("BUILD " \o Lbl(m) \o " " \o l \o " " \o f \o " " \o B(n) \o " " \o o \o " " \o c)
=============================================================================
