--------------------------- MODULE OptionalEdges ---------------------------
(***************************************************************************)
(* The public interface as a state machine: one transition per operation   *)
(* (and fault).  TLC enumerates all reachable states and transitions; each *)
(* transition is exported and replayed against the C++ implementation.     *)
(***************************************************************************)
EXTENDS OptionalOps, Json

VARIABLES kd, st, last
vars == <<kd, st, last>>

CONSTANTS KindNames, Ops

NoOp == [op |-> "none", s |-> "a", v |-> -1, w |-> ""]

Init == /\ kd \in {k \in Kinds : k.name \in KindNames}
        /\ st = [a |-> Dead, b |-> Dead]
        /\ last = <<>>

Do(o, f) ==
  LET r == Run(kd, st, o, f) IN
  /\ kd' = kd
  /\ st' = [a |-> r.mem.a, b |-> r.mem.b]
  /\ last' = <<o, f, r>>

Next == \E o \in Ops : Pre(kd, st, o) /\ \E f \in Faults(kd, st, o) : Do(o, f)

Spec == Init /\ [][Next]_vars

\* last only reports the transition; it is not part of the state.
View == <<kd, st>>

TypeOk == \A s \in Slots : st[s] \in {Dead, Flag} \cup {Pay(v) : v \in Vals \cup {MOVED}}

\* Operations on one optional leave the other one alone unless it is the source or swapped.
Frame == [][ \A s \in Slots :
               LET o == last'[1] IN
               (o.s # s /\ o.op \notin {"c_move", "a_move", "a_ovm", "sw_m", "sw_adl", "sw_std"}) => st'[s] = st[s] ]_vars

\* A failed operation never leaves an optional half constructed, and only emplace may lose the value.
FailSafe == [][ LET o == last'[1]  r == last'[3] IN
                r.out # "ok" =>
                  \A s \in Slots : \/ st'[s] = st[s]
                                   \/ /\ s = o.s
                                      /\ o.op \in {"e_0", "e_arg", "e_l", "e_r", "e_2l", "e_2r", "e_2c", "e_il"}
                                      /\ st'[s] = Flag
              ]_vars

MovedFromEngaged == [][ \A s \in Slots :
                          last'[1].op \in {"c_move", "a_move", "a_ovm"} /\ last'[1].s # s
                             => Engaged(st'[s]) = Engaged(st[s]) ]_vars

Emit ==
  LET o == last'[1]  f == last'[2]  r == last'[3] IN
  PrintT("EDGE " \o kd.name \o " " \o CellCode(st.a) \o CellCode(st.b) \o " " \o o.op \o " " \o o.s \o " "
         \o ToString(o.v) \o " " \o (IF o.w = "" THEN "-" ELSE o.w) \o " " \o ToString(f) \o " "
         \o CellCode(st'.a) \o CellCode(st'.b) \o " " \o r.out \o " " \o Ret(kd, st, o, r) \o " "
         \o (IF o.v >= 0 THEN CellCode(r.mem.x) ELSE "-") \o " " \o ToString(r.ev))
=============================================================================
