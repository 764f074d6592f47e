-------------------------------- MODULE Hash --------------------------------
(***************************************************************************)
(* std::hash of optionals.  'h' is the hash function of the payload, an    *)
(* arbitrary function from values to hash values (it may collide, and it   *)
(* may yield whatever the hash of an empty optional is).  Two optionals x  *)
(* and y of the same type are taken through arbitrary histories of the     *)
(* routes below.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Values, HashValues
VARIABLES h, x, y, how

Empty == -1
EmptyHash == 0
HashOf(o) == IF o = Empty THEN EmptyHash ELSE h[o]

\* Ways to a value and to emptiness
ToValue == {"ctor", "ctor_in_place", "assign", "assign_over", "emplace", "emplace_over", "copy", "move", "copy_assign", "move_assign", "swap", "write",
            "after_reset", "transform"}
ToEmpty == {"default", "nullopt", "reset", "assign_nullopt", "assign_empty", "copy_empty", "move_empty", "swap_away", "reset_twice"}

Init == h \in [Values -> HashValues] /\ x = Empty /\ y = Empty /\ how = "default"
Set(r) == \E v \in Values : /\ \/ x' = v /\ UNCHANGED y
                               \/ y' = v /\ UNCHANGED x
                            /\ how' = r /\ UNCHANGED h
Clear(r) == /\ \/ x' = Empty /\ UNCHANGED y
               \/ y' = Empty /\ UNCHANGED x
            /\ how' = r /\ UNCHANGED h
Next == (\E r \in ToValue : Set(r)) \/ (\E r \in ToEmpty : Clear(r))
Spec == Init /\ [][Next]_<<h, x, y, how>>

EqualHashEqual == x = y => HashOf(x) = HashOf(y)
Agrees == (x # Empty => HashOf(x) = h[x]) /\ (x = Empty => HashOf(x) = EmptyHash)
ASSUME \A r \in ToValue : PrintT("VALUE " \o r)
ASSUME \A r \in ToEmpty : PrintT("EMPTY " \o r)
=============================================================================
