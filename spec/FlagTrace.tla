----------------------------- MODULE FlagTrace -----------------------------
(* Is a recorded sequence of manipulator and payload calls a behaviour of  *)
(* FlagProtocol?  Trace[i] = <<event, cell>>.                              *)
EXTENDS Integers, Sequences, TLC, Json, FlagProtocol

Trace == JsonDeserialize("trace.json")
VARIABLE l
tvars == <<cell, l>>

TInit == Init /\ l = 1
Is(e) == l <= Len(Trace) /\ Trace[l][1] = e /\ l' = l + 1
C == Trace[l][2]
TNext == \/ Is("init")  /\ InitFlag(C)
         \/ Is("inval") /\ Invalidate(C)
         \/ Is("ctor")  /\ Construct(C)
         \/ Is("dtor")  /\ Destroy(C)
         \/ Is("query") /\ Query(C)
         \/ Is("gone")  /\ AllGone
TSpec == TInit /\ [][TNext]_tvars

CellRange == 1..JsonDeserialize("cells.json")[1]

Accepted == LET d == TLCGet("stats").diameter IN
            IF d - 1 = Len(Trace) THEN TRUE ELSE PrintT("REJECTED at " \o ToString(d)) /\ FALSE
=============================================================================
