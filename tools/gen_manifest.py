#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = " Trusted: TLC, the compilers, the harness (validated by replaying the same specification into std::optional)."
REPLAY = ("TLA+ specification checked by TLC; every transition TLC finds is replayed into the real headers (transition tour per payload type and "
          "value binding, plus seeded random walks) and the observed state, result and payload events are compared with the specification. ")
CHECKS = {
 "C01": ("TLA+/TLC model, refinement of std::optional, exhaustive transition replay", REPLAY + "Bounds: two optionals, three payload values per binding, 14 payload kinds, ~108 optional types."),
 "C02": ("TLA+/TLC storage protocol model, replay with instrumented payloads", REPLAY + "Payload constructions/assignments/destructions are compared event by event and a census of living payloads is taken after each call."),
 "C03": ("TLA+/TLC fault model, every throw point of every transition replayed", REPLAY + "Faults: one per call, at every payload operation or callback of the call."),
 "C09": ("TLA+/TLC model of the observers, transition replay", REPLAY),
 "C10": ("TLA+/TLC model of the monadic operations, transition replay", REPLAY),
 "C12": ("TLA+/TLC model of swap, refinement, transition replay", REPLAY + "Free swap: only the resulting state is compared (std::swap may be selected)."),
 "C13": ("TLA+/TLC event model of construction and assignment, transition replay", REPLAY + "Source and kind of each payload operation, argument state afterwards and temporaries are compared."),
 "C04": ("TLA+/TLC flag protocol: recorded manipulator traces validated against the specification, transition replay", REPLAY + "In addition the calls of logging, resource-owning flag manipulators are recorded and each trace is checked by TLC to be a behaviour of FlagProtocol.tla."),
 "C05": ("TLA+/TLC bit pattern model, exported patterns and routes replayed into real optionals", "Bits.tla enumerates the bit pattern classes of each type and every route of storing and emptying; all are executed on the real headers and object bytes are compared. All 2^32 floats (and 32 bit pointers) are executed; doubles and 64 bit pointers: pattern classes, all patterns at distance <= 2 of the empty pattern, all values of each 16 bit limb around chosen and random bases."),
 "C06": ("TLA+/TLC model of sentinel conversion, exported table executed", "Sentinel.tla: all pairs of integral types x all boundary values, which values mean empty; every accepted row is compiled and executed on the real headers: all boundary values (all values for 8 and 16 bit types) are stored by every route."),
 "C07": ("TLA+/TLC model of the storage selection, exported table compiled and executed", "Scheme.tla decides for every payload/sentinel/member/cv combination and macro configuration which storage is used; sizes, alignment, is_compressed, position and content of the flag are compared on the real types."),
 "C11": ("TLA+/TLC model of hashing, exported routes executed, transition replay", "Hash.tla enumerates the routes to a value and to emptiness; each is executed for every flavour and value set, hash of the optional compared with the payload's; availability from Traits.tla."),
 "C14": ("TLA+/TLC model of std::optional's declared constraints, exported table compiled", "Traits.tla enumerates payload properties (986 payloads) and 63 queries; each answer is checked on tiny optionals of all flavours and, to validate the table, on std::optional."),
 "C15": ("TLA+/TLC model of build configurations and linking; the same histories executed in each build; transition replay per macro configuration", "Config.tla enumerates the builds (macros x language x header order x NDEBUG x optimisation x compiler/architecture); quick: all pairs of settings, thorough: all 448 builds; digests of long pseudo-random histories on 21 optional types are compared; linkage names of all macro configurations are compared and linked."),
 "C08": ("TLA+/TLC decision table of the comparison operators, executed for every flavour pair", "Compare.tla defines result and evaluated payload operator for every operand combination including inconsistent payloads; each row is executed on real optionals of every flavour and std::optional."),
 "C17": ("TLA+/TLC model of the selection and range rules, exported table compiled", "Sentinel.tla and Scheme.tla decide which types have to be rejected; every row is compiled with the real headers (batches; a deviation is confirmed by compiling the row on its own)."),
 "C16": ("TLA+/TLC model of permitted memory accesses, exported rows executed in guarded memory and under the thread sanitizer", "Memory.tla enumerates operation x storage scheme x placement and the pairs of concurrent accesses the standard permits; rows are executed with the optional at page borders, between guard bytes, in read-only pages and with arbitrary initial content; permitted concurrent uses run under the thread sanitizer."),
 "C18": ("TLA+/TLC table of programmer errors, exported cases executed in forked processes; transition replay", "Assertions.tla enumerates the conditions the library promises to report and the neighbouring legal uses; each case is executed in a process of its own, with and without NDEBUG."),
 "C19": ("TLA+/TLC table of factories, deduction and queries, exported rows compiled and executed", "Factory.tla enumerates make_optional, deduction guides, transform result types and type queries; result type and value of each row are checked on the real headers."),
 "C20": ("TLA+/TLC model of what a debugger shows; the visualizers are selected by type name and their expressions evaluated on live objects", "Natvis.tla enumerates storage scheme x history; the natvis file is parsed, the visualizer selected per type by its demangled name, its expressions compiled against the real headers (access control off) and evaluated on the raw storage. The selection and expression semantics of Visual Studio are modelled, not run."),
}
NA = {}
def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "python3 tools/check.py %s --thorough" % p,
                                "technique": t, "level": "model_checking", "level_note": n.strip() + TRUST})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
main()
