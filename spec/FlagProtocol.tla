---------------------------- MODULE FlagProtocol ----------------------------
(***************************************************************************)
(* The contract between tiny::optional and a user supplied flag            *)
(* manipulator (README, "Storing the empty state in a custom way"):        *)
(*   init_empty_flag       raw memory  -> the flag object exists           *)
(*   invalidate_empty_flag flag exists -> raw memory                       *)
(*   payload constructor   raw memory  -> the payload exists               *)
(*   payload destructor    payload     -> raw memory                       *)
(*   is_empty              allowed only if a flag or a payload exists      *)
(* A cell is the memory of one payload.                                    *)
(***************************************************************************)
CONSTANT Cells
VARIABLE cell

Init == cell = [c \in Cells |-> "raw"]

InitFlag(c)   == cell[c] = "raw"  /\ cell' = [cell EXCEPT ![c] = "flag"]
Invalidate(c) == cell[c] = "flag" /\ cell' = [cell EXCEPT ![c] = "raw"]
Construct(c)  == cell[c] = "raw"  /\ cell' = [cell EXCEPT ![c] = "pay"]
Destroy(c)    == cell[c] = "pay"  /\ cell' = [cell EXCEPT ![c] = "raw"]
Query(c)      == cell[c] \in {"flag", "pay"} /\ UNCHANGED cell
\* All optionals and payloads of the program are gone: nothing may be left over.
AllGone       == (\A c \in Cells : cell[c] = "raw") /\ UNCHANGED cell

Next == \E c \in Cells : InitFlag(c) \/ Invalidate(c) \/ Construct(c) \/ Destroy(c) \/ Query(c)
Spec == Init /\ [][Next]_cell

TypeOk == cell \in [Cells -> {"raw", "flag", "pay"}]
=============================================================================
