---------------------------- MODULE OptionalOps ----------------------------
(***************************************************************************)
(* Storage level model of tiny::optional.                                  *)
(*                                                                         *)
(* Two optionals "a" and "b" of the same type live in two pieces of memory *)
(* (slots).  The memory of a slot is in one of four conditions:            *)
(*                                                                         *)
(*   dead   no optional object exists in it                                *)
(*   raw    the optional exists, but neither flag nor payload object does  *)
(*   flag   the 'IsEmpty' flag object exists         -> optional is empty  *)
(*   pay    a payload object with value v exists     -> it is engaged      *)
(*                                                                         *)
(* Every operation of the public interface is a short program of micro     *)
(* operations on the slots (StorageBase::ConstructPayload, AssignValue,    *)
(* reset, ... in include/tiny/optional.h).  Each fallible micro operation  *)
(* (payload constructor, assignment, swap, user callback) can throw; which *)
(* one does is the 'fault' of the step.                                    *)
(*                                                                         *)
(* This module has no variables: it defines operations, programs, the      *)
(* effect of a micro operation and the effect of a whole program.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Slots    == {"a", "b"}
Other(s) == IF s = "a" THEN "b" ELSE "a"

Vals  == {0, 1, 2}      \* 0 is the value of a default constructed payload
MOVED == 9              \* value of a moved-from payload

Dead    == [k |-> "dead", v |-> -1]
Raw     == [k |-> "raw",  v |-> -1]
Flag    == [k |-> "flag", v |-> -1]
Pay(v)  == [k |-> "pay",  v |-> v]
Alive(c)   == c.k # "dead"
Engaged(c) == c.k = "pay"

(***************************************************************************)
(* Payload kinds.                                                          *)
(*  cc/ca  copy construction / copy assignment exists                      *)
(*  mc/ma  what moving does: "m" moves, "c" copies, "n" impossible         *)
(*  xm     what moving from a (non-const) argument of payload type does    *)
(*  mut    payload is not const                                            *)
(*  mark   a moved-from payload is recognisable (value MOVED)              *)
(*  thr    which payload operations may throw:                             *)
(*           v value constructor, cC/cA copy construction/assignment,      *)
(*           mC/mA move construction/assignment, w value assignment,       *)
(*           s swap                                                        *)
(***************************************************************************)
Kinds == {
  [name |-> "full",     cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "cC", "cA", "mC", "mA", "w", "s"}],
  [name |-> "nothrow",  cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "cC", "cA", "w"}],
  [name |-> "plain",    cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {}],
  [name |-> "copynx",   cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "mC", "mA", "w"}],
  [name |-> "mcnx",     cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "cA", "mA", "s"}],
  [name |-> "manx",     cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"cC", "mC", "w", "s"}],
  [name |-> "scalar",   cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> FALSE,
   thr |-> {}],
  [name |-> "triv",     cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> TRUE,  ma |-> "m", mut |-> TRUE,  mark |-> FALSE,
   thr |-> {"v", "w", "s"}],                            \* trivially copyable, with its own swap
  [name |-> "copyonly", cc |-> TRUE,  mc |-> "c", xm |-> "c", ca |-> TRUE,  ma |-> "c", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "cC", "cA", "w", "s"}],
  [name |-> "moveonly", cc |-> FALSE, mc |-> "m", xm |-> "m", ca |-> FALSE, ma |-> "m", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "mC", "mA", "w", "s"}],
  [name |-> "noassign", cc |-> TRUE,  mc |-> "m", xm |-> "m", ca |-> FALSE, ma |-> "n", mut |-> TRUE,  mark |-> TRUE,
   thr |-> {"v", "cC", "cA", "mC", "mA", "w"}],
  [name |-> "immovable", cc |-> FALSE, mc |-> "n", xm |-> "n", ca |-> FALSE, ma |-> "n", mut |-> TRUE, mark |-> TRUE,
   thr |-> {"v", "w"}],
  [name |-> "const",    cc |-> TRUE,  mc |-> "c", xm |-> "m", ca |-> FALSE, ma |-> "n", mut |-> FALSE, mark |-> TRUE,
   thr |-> {"v", "cC", "mC"}],
  [name |-> "sconst",   cc |-> TRUE,  mc |-> "c", xm |-> "m", ca |-> FALSE, ma |-> "n", mut |-> FALSE, mark |-> FALSE,
   thr |-> {}],
  [name |-> "pmoveonly", cc |-> FALSE, mc |-> "m", xm |-> "m", ca |-> FALSE, ma |-> "m", mut |-> TRUE, mark |-> TRUE,
   thr |-> {}] }

----------------------------------------------------------------------------
(* Operations: [op, s (slot it is applied to), v (value argument), w (mode)] *)

NoArg(op)  == {[op |-> op, s |-> s, v |-> -1, w |-> ""] : s \in Slots}
ValArg(op) == {[op |-> op, s |-> s, v |-> v, w |-> ""] : s \in Slots, v \in Vals}
Mode(op, W) == {[op |-> op, s |-> s, v |-> -1, w |-> w] : s \in Slots, w \in W}

\* Constructors: applicable to a dead slot.
CtorNames0 == {"c_def", "c_brace", "c_null", "c_in0"}
CtorNamesV == {"c_arg", "c_in2l", "c_in2r", "c_in2c", "c_il", "c_ci", "c_cic", "c_ce", "c_mkarg", "c_mkil"}
CtorNamesL == {"c_inl", "c_vl", "c_vcl", "c_mkl"}       \* from a payload lvalue
CtorNamesR == {"c_inr", "c_vr", "c_mkr"}                \* from a payload rvalue
CtorNamesO == {"c_copy", "c_move", "c_cmove"}           \* from the other optional
CtorNames  == CtorNames0 \cup CtorNamesV \cup CtorNamesL \cup CtorNamesR \cup CtorNamesO

CtorOps == UNION ( {NoArg(n) : n \in CtorNames0 \cup CtorNamesO}
             \cup  {ValArg(n) : n \in CtorNamesV \cup CtorNamesL \cup CtorNamesR} )

\* Assignments.
AsgNamesL == {"a_vl", "a_vcl"}
AsgNamesO == {"a_copy", "a_move", "a_cmove", "a_ov", "a_ovm"}   \* other optional is (part of) the source
AsgNamesS == {"a_selfc", "a_selfm", "a_own", "a_ownm"}          \* the optional itself is (part of) the source
AsgOps == UNION ( {NoArg(n) : n \in {"a_null", "a_brace", "a_tmpe"} \cup AsgNamesO \cup AsgNamesS}
            \cup  {ValArg(n) : n \in AsgNamesL \cup {"a_vr", "a_ci", "a_tmp"}} )

EmpOps == UNION ( {NoArg("e_0")} \cup
                  {ValArg(n) : n \in {"e_arg", "e_l", "e_r", "e_2l", "e_2r", "e_2c", "e_il"}} )
SwapOps == UNION {NoArg(n) : n \in {"sw_m", "sw_self", "sw_adl", "sw_std"}}
MiscOps == UNION ( {NoArg(n) : n \in {"destroy", "reset", "t_deref", "t_value"}} \cup
                   {ValArg(n) : n \in {"m_deref", "m_arrow", "m_value"}} )

ObsNames == {"has", "bool", "d_l", "d_c", "d_r", "d_cr", "ar_m", "ar_c", "v_l", "v_c", "v_r", "v_cr", "hash"}
ObsOps == UNION ( {NoArg(n) : n \in ObsNames} \cup
                  {ValArg(n) : n \in {"vo_l", "vo_r", "vo_ll", "vo_rl", "vo_ci"}} )

\* Monadic operations; w says what the callback does:
\*   val   returns an engaged optional (and_then) / a value (transform) / the value 2 (or_else)
\*   emp   returns an empty optional
\*   take  moves the payload out of its argument, otherwise as val
MonOps == UNION { Mode("at_l", {"val", "emp"}), Mode("at_c", {"val", "emp"}), Mode("at_cr", {"val", "emp"}),
                  Mode("at_r", {"val", "emp", "take"}),
                  Mode("tr_l", {"val"}), Mode("tr_c", {"val"}), Mode("tr_cr", {"val"}),
                  Mode("tr_r", {"val", "take"}),
                  Mode("oe_c", {"val", "emp"}), Mode("oe_l", {"val", "emp"}), Mode("oe_r", {"val", "emp"}) }

CoreOps == CtorOps \cup AsgOps \cup EmpOps \cup SwapOps \cup MiscOps
AllOps  == CoreOps \cup ObsOps \cup MonOps

IsCtor(o) == o.op \in CtorNames

----------------------------------------------------------------------------
(* Availability of an operation for a payload kind.                        *)
Available(kd, o) ==
  LET n == o.op IN
  CASE n \in {"c_in0", "e_0", "c_arg", "c_in2l", "c_in2r", "c_in2c", "c_il", "c_ci", "c_cic", "c_ce", "c_mkarg",
              "c_mkil", "e_arg", "e_2l", "e_2r", "e_2c", "e_il",
              "c_def", "c_brace", "c_null", "destroy", "reset"} -> TRUE
    [] n \in CtorNamesL \cup {"e_l"}        -> kd.cc
    [] n \in CtorNamesR \cup {"e_r"}        -> kd.xm # "n"
    [] n \in {"c_copy", "c_cmove"}          -> kd.cc
    [] n = "c_move"                         -> kd.mc # "n"
    [] n \in AsgNamesL \cup {"a_copy", "a_cmove", "a_ov", "a_selfc", "a_own"} -> kd.cc /\ kd.ca
    [] n \in {"a_vr", "a_move", "a_ovm", "a_selfm", "a_ownm", "a_tmp", "a_tmpe", "a_brace"}
                                            -> kd.mc # "n" /\ kd.ma # "n"
    [] n = "a_null"                         -> TRUE
    [] n = "a_ci"                           -> kd.mut
    [] n \in {"sw_m", "sw_self"}            -> kd.mut /\ kd.mc # "n" /\ kd.ma # "n"
    [] n \in {"sw_adl", "sw_std"}           -> kd.mut /\ kd.mc # "n" /\ kd.ma # "n"
    [] n \in {"m_deref", "m_arrow", "m_value"} -> kd.mut
    [] n \in {"t_deref", "t_value"}         -> kd.mc # "n"
    [] n \in ObsNames                       -> TRUE
    [] n \in {"vo_l", "vo_ll"}              -> kd.cc
    [] n \in {"vo_r", "vo_ci"}              -> kd.mc # "n"
    [] n = "vo_rl"                          -> kd.cc /\ kd.mc # "n"
    [] n \in {"at_r", "tr_r"}               -> o.w # "take" \/ (kd.mut /\ kd.mc # "n")
    [] n \in {"at_l", "at_c", "at_cr", "tr_l", "tr_c", "tr_cr"} -> TRUE
    [] n \in {"oe_c", "oe_l"}               -> kd.cc
    [] n = "oe_r"                           -> kd.mc # "n"

(* Precondition of an operation in a state st = [a |-> .., b |-> ..].      *)
Pre(kd, st, o) ==
  /\ Available(kd, o)
  /\ IF IsCtor(o) THEN ~Alive(st[o.s]) ELSE Alive(st[o.s])
  /\ o.op \in CtorNamesO \cup AsgNamesO \cup {"sw_m", "sw_adl", "sw_std"} => Alive(st[Other(o.s)])
  \* reading the payload through * or -> requires an engaged optional
  /\ o.op \in {"a_own", "a_ownm", "m_deref", "m_arrow", "t_deref",
               "d_l", "d_c", "d_r", "d_cr", "ar_m", "ar_c"} => Engaged(st[o.s])
  /\ o.op \in {"a_ov", "a_ovm"} => Engaged(st[Other(o.s)])

----------------------------------------------------------------------------
(* Micro operations.  Locations are the slots, x (argument), t (temporary). *)
Birth(s)  == <<[m |-> "birth", s |-> s, how |-> "", src |-> ""], [m |-> "init", s |-> s, how |-> "", src |-> ""]>>
Init1(s)  == <<[m |-> "init", s |-> s, how |-> "", src |-> ""]>>
Inval(s)  == <<[m |-> "inval", s |-> s, how |-> "", src |-> ""]>>
Dtor(s)   == <<[m |-> "dtor", s |-> s, how |-> "", src |-> ""]>>
Death(s)  == <<[m |-> "death", s |-> s, how |-> "", src |-> ""]>>
Ctor(s, how, src)   == <<[m |-> "ctor", s |-> s, how |-> how, src |-> src]>>
Assign(s, how, src) == <<[m |-> "assign", s |-> s, how |-> how, src |-> src]>>
PSwap(s, o)         == <<[m |-> "pswap", s |-> s, how |-> "s", src |-> o]>>
Call(s)             == <<[m |-> "call", s |-> s, how |-> "f", src |-> ""]>>
TakeFrom(s)         == <<[m |-> "take", s |-> s, how |-> "", src |-> ""]>>
TmpV                == <<[m |-> "tmp", s |-> "t", how |-> "v", src |-> "x"]>>     \* payload built in a temporary
TmpC(s, how)        == <<[m |-> "read", s |-> s, how |-> how, src |-> s]>>        \* payload copied/moved out of s
TmpX(how)           == <<[m |-> "tmp", s |-> "t", how |-> how, src |-> "x"]>>

Engage(s, how, src) == Inval(s) \o Ctor(s, how, src)
Disengage(s)        == Dtor(s) \o Init1(s)
Reset(st, s)        == IF Engaged(st[s]) THEN Disengage(s) ELSE <<>>
\* StorageBase::AssignValue; hc: how to construct, ha: how to assign
AssignVal(st, s, hc, ha, src) == IF Engaged(st[s]) THEN Assign(s, ha, src) ELSE Engage(s, hc, src)

(* The program of an operation in a state.                                 *)
Prog(kd, st, o) ==
  LET s == o.s  p == Other(s)  n == o.op IN
  CASE n \in {"c_def", "c_brace", "c_null"} -> Birth(s)
    [] n = "c_in0"                         -> Birth(s) \o Engage(s, "v", "d")
    [] n \in CtorNamesV                    -> Birth(s) \o Engage(s, "v", "x")
    [] n \in CtorNamesL                    -> Birth(s) \o Engage(s, "c", "x")
    [] n \in CtorNamesR                    -> Birth(s) \o Engage(s, kd.xm, "x")
    [] n \in {"c_copy", "c_cmove"}         -> Birth(s) \o (IF Engaged(st[p]) THEN Engage(s, "c", p) ELSE <<>>)
    [] n = "c_move"                        -> Birth(s) \o (IF Engaged(st[p]) THEN Engage(s, kd.mc, p) ELSE <<>>)
    [] n = "destroy"                       -> (IF Engaged(st[s]) THEN Dtor(s) ELSE Inval(s)) \o Death(s)
    [] n \in {"a_null", "a_brace", "a_tmpe", "reset"} -> Reset(st, s)
    [] n \in AsgNamesL                     -> AssignVal(st, s, "c", "c", "x")
    [] n = "a_vr"                          -> AssignVal(st, s, kd.xm, kd.ma, "x")
    [] n = "a_ci"                          -> AssignVal(st, s, "v", "w", "x")
    [] n = "a_tmp"                         -> TmpV \o AssignVal(st, s, kd.mc, kd.ma, "t")
    [] n \in {"a_copy", "a_cmove"}         -> IF Engaged(st[p]) THEN AssignVal(st, s, "c", "c", p) ELSE Reset(st, s)
    [] n = "a_move"                        -> IF Engaged(st[p]) THEN AssignVal(st, s, kd.mc, kd.ma, p) ELSE Reset(st, s)
    [] n = "a_ov"                          -> AssignVal(st, s, "c", "c", p)
    [] n = "a_ovm"                         -> AssignVal(st, s, kd.mc, kd.ma, p)
    [] n = "a_selfc"                       -> IF Engaged(st[s]) THEN Assign(s, "c", s) ELSE <<>>
    [] n = "a_selfm"                       -> IF Engaged(st[s]) THEN Assign(s, kd.ma, s) ELSE <<>>
    [] n = "a_own"                         -> Assign(s, "c", s)
    [] n = "a_ownm"                        -> Assign(s, kd.ma, s)
    [] n = "e_0"                           -> Reset(st, s) \o Engage(s, "v", "d")
    [] n \in {"e_arg", "e_2l", "e_2r", "e_2c", "e_il"} -> Reset(st, s) \o Engage(s, "v", "x")
    [] n = "e_l"                           -> Reset(st, s) \o Engage(s, "c", "x")
    [] n = "e_r"                           -> Reset(st, s) \o Engage(s, kd.xm, "x")
    [] n \in {"sw_m", "sw_adl", "sw_std"}  ->
         IF Engaged(st[s]) /\ Engaged(st[p]) THEN PSwap(s, p)
         ELSE IF Engaged(st[s]) THEN Engage(p, kd.mc, s) \o Disengage(s)
         ELSE IF Engaged(st[p]) THEN Engage(s, kd.mc, p) \o Disengage(p)
         ELSE <<>>
    [] n = "sw_self"                       -> IF Engaged(st[s]) THEN PSwap(s, s) ELSE <<>>
    [] n \in {"m_deref", "m_arrow"}        -> Assign(s, "w", "x")
    [] n = "m_value"                       -> IF Engaged(st[s]) THEN Assign(s, "w", "x") ELSE <<>>
    [] n = "t_deref"                       -> TmpC(s, kd.mc)
    [] n = "t_value"                       -> IF Engaged(st[s]) THEN TmpC(s, kd.mc) ELSE <<>>
    [] n \in ObsNames                      -> <<>>
    [] n \in {"vo_l", "vo_ll"}             -> IF Engaged(st[s]) THEN TmpC(s, "c")
                                              ELSE TmpX(IF n = "vo_ll" THEN "c" ELSE kd.xm)
    [] n \in {"vo_r", "vo_rl", "vo_ci"}    -> IF Engaged(st[s]) THEN TmpC(s, kd.mc)
                                              ELSE IF n = "vo_ci" THEN TmpV
                                              ELSE TmpX(IF n = "vo_rl" THEN "c" ELSE kd.xm)
    [] n \in {"at_l", "at_c", "at_r", "at_cr", "tr_l", "tr_c", "tr_r", "tr_cr"} ->
         IF ~Engaged(st[s]) THEN <<>>
         ELSE Call(s) \o (IF o.w = "take" THEN TakeFrom(s) ELSE <<>>)
    [] n \in {"oe_c", "oe_l"}              -> IF Engaged(st[s]) THEN TmpC(s, "c") ELSE Call(s)
    [] n = "oe_r"                          -> IF Engaged(st[s]) THEN TmpC(s, kd.mc) ELSE Call(s)

(* Does an empty optional make the operation throw bad_optional_access?    *)
BadAccess(st, o) == o.op \in {"v_l", "v_c", "v_r", "v_cr", "t_value", "m_value"} /\ ~Engaged(st[o.s])

----------------------------------------------------------------------------
(* Effect of one micro operation on memory mem = [a, b, x, t].             *)
MovedVal(kd, v) == IF kd.mark THEN MOVED ELSE v

AfterMoveFrom(kd, mem, how, src) ==
  IF how = "m" /\ src \in DOMAIN mem THEN [mem EXCEPT ![src].v = MovedVal(kd, @)] ELSE mem

SrcVal(mem, src) == IF src = "d" THEN 0 ELSE mem[src].v

Step(kd, mem, mo) ==
  CASE mo.m = "birth"  -> [mem EXCEPT ![mo.s] = Raw]
    [] mo.m = "death"  -> [mem EXCEPT ![mo.s] = Dead]
    [] mo.m = "init"   -> [mem EXCEPT ![mo.s] = Flag]
    [] mo.m = "inval"  -> [mem EXCEPT ![mo.s] = Raw]
    [] mo.m = "dtor"   -> [mem EXCEPT ![mo.s] = Raw]
    [] mo.m \in {"ctor", "tmp"} ->
         [AfterMoveFrom(kd, mem, mo.how, mo.src) EXCEPT ![mo.s] = Pay(SrcVal(mem, mo.src))]
    [] mo.m = "assign" ->
         IF mo.src = mo.s THEN mem        \* self assignment keeps the value
         ELSE [AfterMoveFrom(kd, mem, mo.how, mo.src) EXCEPT ![mo.s] = Pay(SrcVal(mem, mo.src))]
    [] mo.m = "pswap"  -> [mem EXCEPT ![mo.s] = mem[mo.src], ![mo.src] = mem[mo.s]]
    [] mo.m = "read"   -> [AfterMoveFrom(kd, mem, mo.how, mo.s) EXCEPT !["t"] = Pay(mem[mo.s].v)]
    [] mo.m = "call"   -> mem
    [] mo.m = "take"   -> IF kd.mc = "m" THEN [mem EXCEPT ![mo.s].v = MovedVal(kd, @)] ELSE mem

(* The condition the storage must be in before a micro operation.          *)
StepOk(mem, mo) ==
  CASE mo.m = "birth"  -> mem[mo.s] = Dead
    [] mo.m = "death"  -> mem[mo.s] = Raw
    [] mo.m = "init"   -> mem[mo.s] = Raw
    [] mo.m = "inval"  -> mem[mo.s] = Flag
    [] mo.m = "dtor"   -> Engaged(mem[mo.s])
    [] mo.m = "ctor"   -> mem[mo.s] = Raw /\ (mo.src \in DOMAIN mem => Engaged(mem[mo.src]))
    [] mo.m = "assign" -> Engaged(mem[mo.s]) /\ Engaged(mem[mo.src])
    [] mo.m = "pswap"  -> Engaged(mem[mo.s]) /\ Engaged(mem[mo.src])
    [] mo.m \in {"read", "take"} -> Engaged(mem[mo.s])
    [] OTHER -> TRUE

Fallible(kd, mo) ==
  \/ mo.m = "call"
  \/ (IF mo.how \in {"c", "m"} THEN mo.how \o (IF mo.m = "assign" THEN "A" ELSE "C") ELSE mo.how) \in kd.thr

(* What happens when micro operation mo throws: a failed construction      *)
(* leaves raw memory, so the flag is initialised again; if the optional    *)
(* itself was under construction, its destructor then cleans up.           *)
Cleanup(o, mo) ==
  IF mo.m = "ctor"
  THEN Init1(mo.s) \o (IF IsCtor(o) /\ mo.s = o.s THEN Inval(mo.s) \o Death(mo.s) ELSE <<>>)
  ELSE <<>>

(* Observable event of a micro operation on a payload living in a slot.    *)
Event(mo) ==
  CASE mo.m = "ctor"   -> <<mo.s \o "C" \o mo.how \o mo.src>>
    [] mo.m = "assign" -> <<mo.s \o "A" \o mo.how \o mo.src>>
    [] mo.m = "dtor"   -> <<mo.s \o "D">>
    [] mo.m = "pswap"  -> <<mo.s \o "S" \o mo.src>>
    [] OTHER -> <<>>

RECURSIVE RunFrom(_, _, _, _, _, _)
(* Runs prog from position i.  f: number of fallible micro operations      *)
(* still to succeed before one throws (0: none throws).                    *)
RunFrom(kd, o, prog, i, f, r) ==
  IF i > Len(prog) THEN r
  ELSE LET mo == prog[i]
           fb == Fallible(kd, mo) /\ f > 0
       IN IF fb /\ f = 1
          THEN \* mo throws
               LET cl == Cleanup(o, mo)
                   r2 == RunFrom(kd, o, cl, 1, 0, r)
               IN [r2 EXCEPT !.out = "exc", !.thrown = mo]
          ELSE RunFrom(kd, o, prog, i + 1, IF fb THEN f - 1 ELSE f,
                       [r EXCEPT !.mem = Step(kd, @, mo), !.ev = @ \o Event(mo)])

NumFallible(kd, prog) == Cardinality({i \in 1..Len(prog) : Fallible(kd, prog[i])})
NoMicro == [m |-> "none", s |-> "", how |-> "", src |-> ""]

(* Result of operation o in state st with fault f.                         *)
Run(kd, st, o, f) ==
  LET prog == Prog(kd, st, o)
      mem0 == [a |-> st.a, b |-> st.b, x |-> IF o.v >= 0 THEN Pay(o.v) ELSE Raw, t |-> Raw]
      r0   == [mem |-> mem0, out |-> IF BadAccess(st, o) THEN "bad" ELSE "ok", ev |-> <<>>, thrown |-> NoMicro]
  IN RunFrom(kd, o, prog, 1, f, r0)

(* Operations for which no fault is injected: std::swap called with its    *)
(* qualified name consists of three moves of optionals.                    *)
Faults(kd, st, o) ==
  IF o.op = "sw_std" THEN {0}
  ELSE 0..NumFallible(kd, Prog(kd, st, o))

----------------------------------------------------------------------------
(* What the caller gets.                                                   *)
Code(v) == IF v = MOVED THEN "m" ELSE ToString(v)
CellCode(c) == CASE c.k = "dead" -> "d" [] c.k = "raw" -> "r" [] c.k = "flag" -> "e" [] OTHER -> Code(c.v)

Cat(kd, op) == CASE op \in {"at_l", "tr_l"} -> (IF kd.mut THEN "l" ELSE "c")
                 [] op \in {"at_c", "tr_c"} -> "c"
                 [] op \in {"at_r", "tr_r"} -> (IF kd.mut THEN "r" ELSE "cr")
                 [] OTHER -> "cr"

Ret(kd, st, o, r) ==
  LET n == o.op  c == st[o.s] IN
  IF r.out # "ok" THEN "-" ELSE
  CASE n \in {"has", "bool"} -> IF Engaged(c) THEN "T" ELSE "F"
    [] n \in {"d_l", "d_c", "d_r", "d_cr", "ar_m", "ar_c", "v_l", "v_c", "v_r", "v_cr"} -> Code(c.v)
    [] n = "hash" -> IF Engaged(c) THEN "h" \o Code(c.v) ELSE "he"
    [] n \in {"vo_l", "vo_r", "vo_ll", "vo_rl", "vo_ci", "t_deref", "t_value"} -> Code(r.mem.t.v)
    [] n \in {"at_l", "at_c", "at_r", "at_cr"} ->
         IF ~Engaged(c) THEN "n:e"
         ELSE Cat(kd, n) \o ":" \o (IF o.w = "emp" THEN "e" ELSE Code(c.v))
    [] n \in {"tr_l", "tr_c", "tr_r", "tr_cr"} ->
         IF ~Engaged(c) THEN "n:e" ELSE Cat(kd, n) \o ":" \o Code(c.v)
    [] n \in {"oe_c", "oe_l", "oe_r"} ->
         IF Engaged(c) THEN "n:" \o Code(r.mem.t.v) ELSE "f:" \o (IF o.w = "emp" THEN "e" ELSE "2")
    [] n \in {"c_in2l", "e_2l"} -> "pl"
    [] n \in {"c_in2r", "e_2r"} -> "pr"
    [] n \in {"c_in2c", "e_2c"} -> "pc"
    [] OTHER -> "-"
=============================================================================
