--------------------------- MODULE OptionalMicro ---------------------------
(***************************************************************************)
(* Step by step execution of the storage programs of OptionalOps.          *)
(* Checks that in every history, with an exception at every possible       *)
(* point:                                                                  *)
(*   - each micro operation finds the storage in the condition it needs    *)
(*     (flag/payload objects alternate, nothing is created twice, leaked   *)
(*     or destroyed twice): StorageProtocol                                *)
(*   - between calls an optional holds exactly a flag or a payload         *)
(*   - the visible behaviour is that of std::optional: Refinement          *)
(*   - every call terminates                                               *)
(***************************************************************************)
EXTENDS OptionalOps

CONSTANT KindNames

VARIABLES
  kd,      \* payload kind
  mem,     \* a, b, x, t
  cur,     \* running call: <<>> or <<op>>
  prog,    \* its remaining micro operations
  fault,   \* fallible micro operations until one throws; 0: none does
  out,     \* outcome of the running call so far
  com,     \* abstract view of a, b when the last call completed
  done     \* last completed call

vars == <<kd, mem, cur, prog, fault, out, com, done>>

AbsCell(c) == CASE c.k = "dead" -> [h |-> "none", v |-> -1]
                [] c.k = "pay"  -> [h |-> "val", v |-> c.v]
                [] OTHER        -> [h |-> "empty", v |-> -1]
AbsMem(m) == [a |-> AbsCell(m.a), b |-> AbsCell(m.b)]
St == [a |-> mem.a, b |-> mem.b]

Init == /\ kd \in {k \in Kinds : k.name \in KindNames}
        /\ mem = [a |-> Dead, b |-> Dead, x |-> Raw, t |-> Raw]
        /\ cur = <<>> /\ prog = <<>> /\ fault = 0 /\ out = "ok"
        /\ com = AbsMem(mem)
        /\ done = <<>>

CallOp(o, f) ==
  /\ cur = <<>>
  /\ Pre(kd, St, o)
  /\ f \in Faults(kd, St, o)
  /\ mem' = [mem EXCEPT !.x = IF o.v >= 0 THEN Pay(o.v) ELSE Raw, !.t = Raw]
  /\ cur' = <<o>> /\ prog' = Prog(kd, St, o) /\ fault' = f
  /\ out' = IF BadAccess(St, o) THEN "bad" ELSE "ok"
  /\ UNCHANGED <<kd, com, done>>

Micro ==
  /\ prog # <<>>
  /\ LET mo == Head(prog) IN
     IF Fallible(kd, mo) /\ fault = 1
     THEN \* throws: what is left of the program is skipped, stack unwinding cleans up
          /\ prog' = Cleanup(cur[1], mo)
          /\ fault' = 0 /\ out' = "exc"
          /\ UNCHANGED <<mem>>
     ELSE /\ mem' = Step(kd, mem, mo)
          /\ prog' = Tail(prog)
          /\ fault' = IF Fallible(kd, mo) /\ fault > 0 THEN fault - 1 ELSE fault
          /\ UNCHANGED out
  /\ UNCHANGED <<kd, cur, com, done>>

Return ==
  /\ cur # <<>> /\ prog = <<>>
  /\ cur' = <<>> /\ out' = "ok" /\ fault' = 0
  /\ mem' = [mem EXCEPT !.x = Raw, !.t = Raw]
  /\ com' = AbsMem(mem)
  /\ done' = <<cur[1], out>>
  /\ UNCHANGED <<kd, prog>>

Next == Micro \/ Return \/ \E o \in AllOps, f \in 0..3 : CallOp(o, f)
Spec == Init /\ [][Next]_vars /\ WF_vars(Micro) /\ WF_vars(Return)

View == <<kd, mem, cur, prog, fault, out, com>>

StorageProtocol == prog # <<>> => StepOk(mem, Head(prog))
Quiescent == cur = <<>> => \A s \in Slots : mem[s].k \in {"dead", "flag", "pay"} /\ mem.t = Raw
FaultUsed == cur # <<>> /\ prog = <<>> => (fault = 0)
Terminates == (cur # <<>>) ~> (cur = <<>>)

\* What a custom flag manipulator sees of the storage obeys the documented protocol.
Phase(c) == CASE c.k = "flag" -> "flag" [] c.k = "pay" -> "pay" [] OTHER -> "raw"
FP == INSTANCE FlagProtocol WITH Cells <- Slots, cell <- [s \in Slots |-> Phase(mem[s])]
FlagRefinement == FP!Spec

Std == INSTANCE StdOptional WITH akd <- kd, abs <- com, done <- done
Refinement == Std!Spec
=============================================================================
