------------------------------- MODULE Scheme -------------------------------
(***************************************************************************)
(* How tiny::optional stores the emptiness, as a function of what the user *)
(* wrote and of the configuration (README: "Using tiny::optional as        *)
(* std::optional replacement" ... "Disabling platform specific tricks").   *)
(*                                                                         *)
(*   fl   flavour: "opt"  tiny::optional<P, [member,] [sentinel]>          *)
(*                 "via"  optional_sentinel_via_type<P, S [, member]>      *)
(*                 "aip"  optional_aip<P [, sentinel]>                     *)
(*                 "inp"  optional_inplace<P, Manipulator>                 *)
(*   p    kind of the payload, mm kind of the member, sn kind of sentinel  *)
(*   bit, mem   platform tricks enabled                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES fl, p, mm, sn, bit, mem, res
vars == <<fl, p, mm, sn, bit, mem, res>>

\* Types with known unused bits
Bits     == {"bool", "float", "double", "ptr", "cptr", "vptr", "fptr", "pptr"}
\* ... which keep this property with const and volatile
Cv       == {"const ", "volatile ", "const volatile "}
BitsCv   == {c \o b : c \in Cv, b \in Bits}
\* Types for which the user registered a flag manipulator
Reg      == {"regenum", "regclass"}
\* Automatic sentinels of optional_aip
AutoInt  == {"short", "ushort", "int", "unsigned", "long", "ulong", "llong", "ullong", "const int", "volatile ushort", "const volatile llong"}
\* Nothing known
Plain    == {"char", "schar", "uchar", "wchar", "ldouble", "enum", "uenum", "class", "string", "vector", "memptr", "memfptr", "nullptr",
             "empty", "aligned", "poly", "moveonly", "sclass", "tinyopt", "stdopt", "const class", "constreg", "const enum", "const regenum", "volatile char", "array3", "pair"}
\* Rejected payloads
Invalid  == {"ref", "rref", "cref", "array", "uarray", "nullopt", "cnullopt", "inplace", "cinplace", "void", "func", "nodtor"}
Payloads == Bits \cup BitsCv \cup Reg \cup AutoInt \cup Plain \cup Invalid

\* Members: of known unused bits, registered, plain, or not a member of the payload at all.
MemBits == {"m_bool", "m_float", "m_double", "m_ptr", "m_fptr", "m_first_ptr", "m_last_bool", "m_cbool"}
MemReg  == {"m_reg"}
MemPlain == {"m_int", "m_string", "m_enum", "m_ldouble", "m_uchar"}
MemForeign == {"m_foreign", "m_foreign_int"}
Members == MemBits \cup MemReg \cup MemPlain \cup MemForeign \cup {"none"}

\* Sentinels: "ok" fits the variable; the others do not go with the variable.
WithOkSentinel == {"bool", "ptr", "cptr", "regenum", "char", "schar", "uchar", "wchar", "enum", "uenum", "const bool", "const ptr", "const enum",
                   "const regenum"} \cup AutoInt
OkViaType      == WithOkSentinel \cup {"float", "double", "ldouble", "sclass"}
MemOk          == {"m_bool", "m_ptr", "m_int", "m_enum", "m_uchar", "m_first_ptr", "m_last_bool"}
MemOkVia       == MemOk \cup {"m_float", "m_double", "m_ldouble"}
\* payload/sentinel pairs that have to be rejected (the range of integers is the subject of Sentinel.tla)
Mixed == {<<"bool", "s_int">>, <<"bool", "s_char">>, <<"int", "s_bool">>, <<"uchar", "s_bool">>, <<"float", "s_double">>, <<"float", "s_int">>,
          <<"double", "s_float">>, <<"double", "s_int">>, <<"int", "s_double">>, <<"ldouble", "s_double">>, <<"unsigned", "s_enumneg">>,
          <<"uchar", "s_enumbig">>, <<"int", "s_scoped">>, <<"enum", "s_int">>, <<"ptr", "s_int">>,
          <<"m_bool", "s_int">>, <<"m_int", "s_bool">>, <<"m_uchar", "s_int">>, <<"m_float", "s_double">>, <<"m_double", "s_int">>}
SentKinds == {"none", "ok"} \cup {x[2] : x \in Mixed}

Payload0 == "class"   \* members are members of this payload

\* What can be written down
Written ==
  \/ fl = "inp" /\ p \in {"int", "class", "string", "double", "moveonly", "poly", "aligned"} /\ mm = "none" /\ sn = "none"
  \/ fl = "aip" /\ mm = "none" /\ (\/ sn = "none" /\ p \in Bits \cup BitsCv \cup Reg \cup AutoInt \cup {"char", "schar", "uchar", "wchar", "enum", "class", "ldouble", "string"}
                                   \/ sn = "ok" /\ p \in WithOkSentinel)
  \/ fl = "opt" /\ mm = "none" /\ (\/ sn = "none"
                                   \/ sn = "ok" /\ p \in WithOkSentinel
                                   \/ <<p, sn>> \in Mixed /\ sn \notin {"s_double", "s_float"})
  \/ fl = "opt" /\ mm # "none" /\ p = Payload0 /\ (\/ sn = "none"
                                                   \/ sn = "ok" /\ mm \in MemOk \cup {"m_foreign_int"}
                                                   \/ <<mm, sn>> \in Mixed /\ sn \notin {"s_double", "s_float"})
  \/ fl = "via" /\ mm = "none" /\ ((sn = "ok" /\ p \in OkViaType) \/ <<p, sn>> \in Mixed)
  \/ fl = "via" /\ mm # "none" /\ p = Payload0 /\ ((sn = "ok" /\ mm \in MemOkVia \cup {"m_foreign_int"}) \/ <<mm, sn>> \in Mixed)

\* The combination of disabled bits and enabled members is not an officially supported configuration; a member without a
\* sentinel is then of unknown use.
Unspecified == \/ fl = "aip" /\ ~bit /\ sn = "none" /\ p \in Bits \cup BitsCv
               \/ ~bit /\ mem /\ mm \in MemBits /\ sn = "none"

\* Where the emptiness is stored
Choose ==
  IF p \in Invalid THEN "reject"
  ELSE IF fl = "inp" THEN "manip"
  ELSE IF mm \in MemForeign THEN "reject"
  ELSE IF mm # "none" /\ ~mem THEN "separate"                                      \* member pointer ignored
  ELSE IF sn \notin {"none", "ok"} THEN "reject"
  ELSE IF mm # "none" THEN
         IF sn = "ok" THEN "member-sentinel"
         ELSE IF mm \in MemBits /\ bit THEN "member-bits"
         ELSE IF mm \in MemReg THEN "member-manip"
         ELSE "reject"
  ELSE IF sn = "ok" THEN "sentinel"                                                \* precedence over everything else
  ELSE IF p \in Bits \cup BitsCv /\ bit THEN "bits"
  ELSE IF p \in Reg THEN "manip"
  ELSE IF fl = "aip" THEN (IF p \in AutoInt THEN "auto" ELSE "reject")
  ELSE "separate"

InPlace == {"manip", "member-sentinel", "member-bits", "member-manip", "sentinel", "bits", "auto"}
\* Size: that of the payload or that of std::optional
Size(r) == IF r \in InPlace THEN "payload" ELSE IF r = "separate" THEN "std" ELSE "-"

B(b) == IF b THEN "1" ELSE "0"
Init == /\ fl \in {"opt", "via", "aip", "inp"} /\ p \in Payloads /\ mm \in Members /\ sn \in SentKinds
        /\ bit \in BOOLEAN /\ mem \in BOOLEAN
        /\ Written /\ ~Unspecified
        /\ res = Choose
        /\ PrintT("SCHEME " \o fl \o "|" \o p \o "|" \o mm \o "|" \o sn \o "|" \o B(bit) \o B(mem) \o "|" \o res \o "|" \o Size(res))

\* The only change possible is that of the configuration.
Next == \E b \in BOOLEAN, m \in BOOLEAN :
          /\ <<b, m>> # <<bit, mem>>
          /\ bit' = b /\ mem' = m /\ UNCHANGED <<fl, p, mm, sn>>
          /\ ~Unspecified' /\ res' = Choose'
Spec == Init /\ [][Next]_vars

TypeOK == res \in InPlace \cup {"separate", "reject"}
\* an explicit sentinel wins over unused bits and registered manipulators and does not depend on the configuration
SentinelWins == (mm = "none" /\ sn = "ok" /\ p \notin Invalid /\ fl # "inp") => res = "sentinel"
\* always in-place means always in-place
AipInPlace == fl = "aip" => res # "separate"
\* Without a reason there is no compression; with one there is.
Reasons == \/ sn = "ok" /\ mm = "none"
           \/ p \in Reg /\ mm = "none"
           \/ fl \in {"inp", "aip"}
           \/ bit /\ mm = "none" /\ p \in Bits \cup BitsCv
           \/ mem /\ mm # "none"
SizeGuarantee == res # "reject" => (Size(res) = "payload" <=> Reasons)
\* Disabling tricks turns bit- and member-based schemes, and only those, into separate flags; nothing else changes.
OnlyTricks == [][ (res # res' /\ bit /\ mem) => \/ res \in {"bits", "member-bits", "member-sentinel", "member-manip"} /\ res' = "separate"
                                                \/ mm # "none" /\ res = "reject" /\ res' = "separate" ]_vars
=============================================================================
