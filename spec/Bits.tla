-------------------------------- MODULE Bits --------------------------------
(***************************************************************************)
(* Bit level model of the optionals that exploit unused bit patterns       *)
(* (README, "How the library exploits platform specific behavior").        *)
(*                                                                         *)
(* A bit pattern is a tuple of 16 bit limbs, most significant first.  An   *)
(* optional is a memory cell 'mem' holding one pattern.  'ghost' is what   *)
(* the user stored: a pattern or None.  The documented pattern of the type *)
(* and nothing else means empty.                                           *)
(*                                                                         *)
(* Patterns are enumerated by class: sign, exponent and mantissa classes   *)
(* of IEEE numbers (zeros, subnormals, ordinary numbers, infinities, quiet *)
(* and signaling NaNs), and everything near the documented pattern         *)
(* (Hamming distance 1 and 2, byte and limb permutations, +-d).            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES t, pat, mem, ghost, route
vars == <<t, pat, mem, ghost, route>>

Pow == [k \in 0..15 |-> 2^k]
Flip(x, k) == IF (x \div Pow[k]) % 2 = 1 THEN x - Pow[k] ELSE x + Pow[k]
Swap8(x) == (x % 256) * 256 + (x \div 256)
Positions(e) == {<<i, k>> : i \in 1..Len(e), k \in 0..15}
FlipAt(e, q) == [e EXCEPT ![q[1]] = Flip(@, q[2])]
Near1(e) == {FlipAt(e, q) : q \in Positions(e)}
Near2(e) == {FlipAt(FlipAt(e, q[1]), q[2]) : q \in {x \in Positions(e) \X Positions(e) : x[1] # x[2]}}
NearSum(e) == {[e EXCEPT ![Len(e)] = (@ + d + 65536) % 65536] : d \in -9..9}
Perms(e) == {[i \in 1..Len(e) |-> e[((i + k) % Len(e)) + 1]] : k \in 0..(Len(e) - 1)}
            \cup {[i \in 1..Len(e) |-> Swap8(e[i])], [i \in 1..Len(e) |-> e[Len(e) + 1 - i]],
                  [i \in 1..Len(e) |-> Swap8(e[Len(e) + 1 - i])], [i \in 1..Len(e) |-> 65535 - e[i]]}
Mixes(e) == [1..Len(e) -> {0, 65535}] \cup UNION {{[e EXCEPT ![i] = x] : x \in {0, 1, 32767, 32768, 65535}} : i \in 1..Len(e)}

\* Documented patterns
EFloat  == <<32749, 52137>>                      \* 0x7fed cba9
EDouble == <<32760, 65244, 47768, 30292>>        \* 0x7ff8 fedc ba98 7654
EPtr64  == <<65535, 32767, 65535, 65535>>        \* 0xffff 8000 0000 0000 - 1
EPtr32  == <<65535, 65527>>                      \* 0xffff ffff - 8
EBool   == <<254>>                               \* 0xfe

FloatClasses  == {<<s * 32768 + e * 128 + m, l>> : s \in {0, 1}, e \in {0, 1, 126, 127, 128, 254, 255},
                  m \in {0, 1, 32, 63, 64, 65, 96, 109, 127}, l \in {0, 1, 32768, 65535, 52137, 52136, 52138}}
DoubleClasses == {<<s * 32768 + e * 16 + m, a, b, c>> : s \in {0, 1}, e \in {0, 1, 1022, 1023, 2046, 2047}, m \in {0, 1, 4, 7, 8, 9, 12, 15},
                  a \in {0, 1, 65535, 65244}, b \in {0, 65535, 47768}, c \in {0, 1, 65535, 30292}}
\* canonical user and kernel addresses, the gap between, pseudo handles, null
Ptr64Classes == {<<a, b, c, d>> : a \in {0, 1, 32767, 32768, 65534, 65535}, b \in {0, 1, 32766, 32767, 32768, 65535}, c \in {0, 1, 65535},
                 d \in {0, 1, 2, 4096, 65526, 65527, 65530, 65534, 65535}}
Ptr32Classes == {<<a, b>> : a \in {0, 1, 32767, 32768, 65534, 65535}, b \in {0, 1, 2, 4096, 65520} \cup 65521..65535}

Types == {"bool", "float", "double", "ptr64", "ptr32"}
Empty(x) == CASE x = "bool" -> EBool [] x = "float" -> EFloat [] x = "double" -> EDouble [] x = "ptr64" -> EPtr64 [] x = "ptr32" -> EPtr32
Around(e) == Near1(e) \cup Near2(e) \cup NearSum(e) \cup Perms(e) \cup Mixes(e)
\* a bool has two values, every pattern is a value of the other types
Patterns(x) == CASE x = "bool"   -> {<<0>>, <<1>>}
                 [] x = "float"  -> FloatClasses \cup Around(EFloat)
                 [] x = "double" -> DoubleClasses \cup Around(EDouble)
                 [] x = "ptr64"  -> Ptr64Classes \cup Around(EPtr64)
                 [] x = "ptr32"  -> Ptr32Classes \cup Around(EPtr32)
Storable(x) == Patterns(x) \ {Empty(x)}

\* Ways to put a value in / to become empty
StoreRoutes == {"ctor_l", "ctor_r", "ctor_in_place", "ctor_in_place_r", "copy_ctor", "move_ctor", "assign_empty", "assign_engaged", "assign_r_empty",
                "assign_r_engaged", "emplace_empty", "emplace_engaged", "copy_assign_empty", "copy_assign_engaged", "move_assign_empty",
                "move_assign_engaged", "write_deref", "write_value", "swap_engaged", "swap_empty", "swap_empty_other", "swap_std", "make_optional",
                "make_optional_args", "value_or", "transform", "and_then", "or_else", "or_else_empty", "self_assign"}
EmptyRoutes == {"def", "brace", "null_ctor", "reset", "reset_twice", "assign_null", "assign_brace", "copy_empty", "move_empty", "copy_assign_of_empty",
                "move_assign_of_empty", "swap_away", "swap_std_away", "and_then_of_empty", "transform_of_empty", "assign_temp"}

None == <<>>
RECURSIVE Join(_, _)
Join(s, i) == IF i > Len(s) THEN "" ELSE " " \o ToString(s[i]) \o Join(s, i + 1)

Init == /\ t \in Types /\ pat \in Storable(t) /\ mem = Empty(t) /\ ghost = None /\ route = "init"
        /\ PrintT("BITS " \o t \o Join(pat, 1))
StoreBy(r) == mem' = pat /\ ghost' = pat /\ route' = r /\ UNCHANGED <<t, pat>>
EmptyBy(r) == mem' = Empty(t) /\ ghost' = None /\ route' = r /\ UNCHANGED <<t, pat>>
\* the routes do not differ in their effect: one of each kind is explored here, all of them are replayed
Next == StoreBy("ctor_l") \/ EmptyBy("def")
Spec == Init /\ [][Next]_vars

\* Only the documented pattern means empty, and nothing stored is lost or changed.
NoValueLost == (mem = Empty(t) <=> ghost = None) /\ (ghost # None => mem = ghost)
ASSUME PrintT("EMPTY bool" \o Join(EBool, 1)) /\ PrintT("EMPTY float" \o Join(EFloat, 1)) /\ PrintT("EMPTY double" \o Join(EDouble, 1))
       /\ PrintT("EMPTY ptr64" \o Join(EPtr64, 1)) /\ PrintT("EMPTY ptr32" \o Join(EPtr32, 1))
ASSUME \A r \in StoreRoutes : PrintT("STORE " \o r)
ASSUME \A r \in EmptyRoutes : PrintT("CLEAR " \o r)
=============================================================================
