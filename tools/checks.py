"""One function per property."""
from vlib import *
from replay import *
from scheme import *
from traits import *

CTOR = "c_"
def is_(j, *prefixes):
    return any(j.get("op", "").startswith(p) for p in prefixes)

def flag(j):
    return j.get("detail", "").startswith("FLAG")

CORE = ("c_", "a_", "e_", "sw_", "destroy", "reset", "t_", "m_")


THOROUGH_CONFIGS = ("g23", "c17n", "c20", "g20n", "g17", "m32", "noub", "nobit", "nomem", "asan")

def run_replay(ctx, want, quick, obs=True, mon=True, only=None, groups=None, configs=THOROUGH_CONFIGS, micro=None, walks=2):
    """quick: list of (config, groups); thorough: the same groups in all configurations, longer walks."""
    if not ctx.thorough:
        return replay_check(ctx, quick, want, obs=obs, mon=mon, only=only, walks=walks, walk=1500, micro=micro)
    g = groups or sorted({x for _, gs in quick for x in gs})
    ctx_micro = (micro[0], True) if micro else None
    edges = None
    # one configuration after the other: bounded disk and memory
    mic = ctx.pool.submit(micro_model, ctx, *ctx_micro) if ctx_micro else None
    for c in configs:
        edges, exes = replay_check(ctx, [(c, g)], want, obs=obs, mon=mon, only=only, walks=40, walk=4000, edges=edges)
        shutil.rmtree(os.path.join(ctx.tmp, "build_" + c), ignore_errors=True)
    if mic:
        mic.result()
    return edges, []

def c01(ctx):
    def want(j):
        return is_(j, *CORE, "has", "bool") and j["aspect"] in ("state", "out", "ident", "crash", "ret", "compile") and not flag(j)
    run_replay(ctx, want, [("g23", GROUPS_ALL), ("c17n", [2, 4, 5, 8, 9, 11, 12])], obs=False, mon=False, micro=(None, False))
    return "model_checking"

def c02(ctx):
    def want(j):
        return is_(j, *CORE) and j["aspect"] in ("events", "life", "crash") and not flag(j)
    run_replay(ctx, want, [("g23", [0] + GROUPS_TRACKED), ("c17n", [2, 4, 5, 6, 14, 17])], obs=False, mon=False, micro=(None, False))
    return "model_checking"

def c03(ctx):
    def want(j):
        return (j.get("fault", 0) > 0 and j["aspect"] in ("out", "state", "life", "events", "crash")) \
            or j["aspect"] == "crash" or (j["aspect"] == "life" and not flag(j)) or (j["aspect"] == "out")
    run_replay(ctx, want, [("g23", [0] + GROUPS_TRACKED), ("c17n", [2, 4, 5, 6, 14, 17])],
               micro=(["full", "nothrow", "copynx", "mcnx", "manx", "copyonly", "moveonly", "noassign", "immovable", "const"], False))
    return "model_checking"

def c09(ctx):
    def want(j):
        return is_(j, "d_", "ar_", "v_", "vo_", "t_", "m_", "has", "bool")
    run_replay(ctx, want, [("g23", GROUPS_ALL), ("c17n", [2, 5, 9, 11])], mon=False)
    access_rows(ctx, lambda use: not use.startswith(MONADIC))
    misuse_rows(ctx, lambda t: t == "value_or", ("g23",), ("g23", "c17n"))
    return "model_checking"

MONADIC = ("and_then", "transform", "or_else")

def access_rows(ctx, which):
    """Rows of Access.tla about the members selected by which."""
    out = ctx.tlc("Access", workers=1)
    rows = sorted(set(re.findall(r'"TYPE ([^"]*)"', out)))
    if len(rows) < 200:
        raise ToolError("table of result types too small")
    f = os.path.join(ctx.tmp, "access.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    cfgs = ("g23", "c17n") if not ctx.thorough else ("g23", "g20", "g17", "c20", "c17n", "m32", "noub", "nobit", "nomem", "fwd", "asan")
    rowsJudge = judge_rows(ctx, "Access.tla")
    def judge(it, out):
        def mine(l):
            m = re.search(r"\] (\w+) on ", l)
            return not l.startswith("BAD") or m is None or which(m.group(1))
        rowsJudge(it, "\n".join(l for l in out.splitlines() if mine(l)))
    run_parts(ctx, [("access", "access.cpp", c, []) for c in cfgs], lambda it: [f], judge)

def forward_rows(ctx, which):
    """Rows of Forward.tla about the entry points selected by which."""
    out = ctx.tlc("Forward", workers=1)
    rows = sorted(set(re.findall(r'"FWD ([^"]*)"', out)))
    if len(rows) < 700:
        raise ToolError("table of forwarded arguments too small")
    f = os.path.join(ctx.tmp, "forward.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    cfgs = ("g23", "c17n") if not ctx.thorough else ("g23", "g20", "g17", "c20", "c17n", "m32", "noub", "nobit", "nomem", "asan")
    rowsJudge = judge_rows(ctx, "Forward.tla")
    def judge(it, out):
        def mine(l):
            m = re.search(r"\[fwd\] (\w+) ", l)
            return not l.startswith("BAD") or m is None or which(m.group(1))
        rowsJudge(it, "\n".join(l for l in out.splitlines() if mine(l)))
    run_parts(ctx, [("forward%d" % p, "forward.cpp", c, ["PART=%d" % p]) for c in cfgs for p in (0, 1)], lambda it: [f], judge)

def misuse_rows(ctx, want, quick, thorough):
    """Uses of Misuse.tla of the wanted topics: exactly the ones marked so are accepted by the compiler."""
    uses = sorted(set(re.findall(r'"USE ([^"]*)"', ctx.tlc("Misuse", workers=1))))
    if len(uses) < 2000:
        raise ToolError("table of uses too small")
    uses = [u for u in uses if want(u.split()[0])]
    for cfg in thorough if ctx.thorough else quick:
        ls = misuse_lines([u for u in uses if not ("17" in cfg and u.startswith("or_else"))])
        judge_rejects(ctx, "misuse", cfg, MISUSE_HDR, ls)
        ctx.sample("misuse/%s: %d uses compiled, %d of them have to be rejected" % (cfg, len(ls), sum(not l[2] for l in ls)), 40)

def c10(ctx):
    def want(j):
        return is_(j, "at_", "tr_", "oe_")
    run_replay(ctx, want, [("g23", GROUPS_ALL), ("c17n", [2, 5, 9, 11])], obs=False)
    access_rows(ctx, lambda use: use.startswith(MONADIC))
    misuse_rows(ctx, lambda t: t in MONADIC, ("g23",), ("g23", "c20", "c17n"))
    return "model_checking"

def c12(ctx):
    def want(j):
        return is_(j, "sw_")
    run_replay(ctx, want, [("g23", GROUPS_ALL), ("c17n", [2, 4, 5, 9, 11])], obs=False, mon=False, micro=(None, False))
    misuse_rows(ctx, lambda t: t == "swap", ("g23",), ("g23", "c17n"))
    return "model_checking"

def c13(ctx):
    def want(j):
        return is_(j, "c_", "a_", "e_") and j["aspect"] in ("arg", "events", "temps", "ret", "crash", "state") and j.get("fault", 0) == 0
    run_replay(ctx, want, [("g23", [0] + GROUPS_TRACKED + [11]), ("c17n", [2, 4, 5, 6, 15])], obs=False, mon=False)
    forward_rows(ctx, lambda e: True)
    return "model_checking"

FLAGGED = ("full_inplace", "nothrow_custom", "full_heap", "full_memopq", "immovable_inplace", "amp_inplace", "greedy_inplace", "copynx_inplace")

FLAG_GROUPS = [4, 6, 7, 15, 17, 18]

def read_flag_trace(path):
    """Splits a recorded micro event trace at world resets; addresses become small cell numbers."""
    parts, cur, ids = [], [], {}
    for line in open(path):
        ev, at = line.split()
        if ev == "reset":
            if cur:
                parts.append((cur, len(ids)))
            cur, ids = [], {}
            continue
        cur.append([ev, 0 if ev == "gone" else ids.setdefault(at, len(ids) + 1)])
    if cur:
        parts.append((cur, len(ids)))
    return parts

def flag_trace_ok(ctx, tr, ncells, self_test=False):
    out = ctx.tlc("FlagTrace", workers=1, expect_violation=True,
                  files={"trace.json": json.dumps(tr), "cells.json": json.dumps([max(ncells, 1)])})
    m = re.search(r"REJECTED at (\d+)", out)
    if m:
        return int(m.group(1))
    if "Model checking completed. No error has been found" not in out:
        raise ToolError("FlagTrace: " + out[-1500:])
    if not self_test:
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        ctx.add(states=int(m.group(2)), transitions=int(m.group(1)), trace_events=len(tr))
    return 0

def c04(ctx):
    def want(j):
        return flag(j) or ((j["profile"] in FLAGGED or j["profile"].endswith(("_inplace", "_custom"))) and j["aspect"] in ("crash", "state", "out"))
    edges, exes = run_replay(ctx, want, [("g23", FLAG_GROUPS), ("c17n", FLAG_GROUPS)], micro=(["full", "nothrow", "immovable", "copynx", "plain", "triv"], False))
    if ctx.thorough:
        exes = [("g23", build(ctx, "g23", FLAG_GROUPS))]
    d = ctx.dir("flagtraces")
    first = None
    for cfg, exe in exes:
        if not exe:
            continue
        def one(name):
            f = os.path.join(d, cfg + name)
            kind = {"nothrow_custom": "nothrow", "immovable_inplace": "immovable", "copynx_inplace": "copynx"}.get(name, "full")
            run_profile(ctx, exe, edges, name, kind, 6 if ctx.thorough else 1, 4000 if ctx.thorough else 700, ctx.seed, ["--trace", f])
            res = []
            parts = read_flag_trace(f)
            for tr, n in parts[:2] if ctx.findings else parts[:200 if ctx.thorough else 25]:
                bad = flag_trace_ok(ctx, tr, n)
                res.append((tr, n, bad))
                if bad:
                    break
            return name, res
        for name, res in ctx.pool.map(one, FLAGGED):
            for tr, n, bad in res:
                ctx.add(traces_validated_against_impl=1)
                first = first or (tr, n)
                ctx.sample("%s/%s: trace of %d manipulator and payload events accepted by FlagTrace" % (cfg, name, len(tr)), 30)
                if bad:
                    ctx.violation("%s/%s: recorded calls of the flag manipulator violate FlagProtocol at event %d: %s" %
                                  (cfg, name, bad, tr[bad - 1] if bad <= len(tr) else "end"), config=cfg, trace=tr[max(0, bad - 40):bad + 1])
    # binding demonstration: a trace with one event removed has to be rejected
    if first and not ctx.findings:
        tr, n = first
        for ev in ("inval", "init", "ctor", "dtor"):
            k = next((i for i, e in enumerate(tr) if e[0] == ev), None)
            if k is None or not flag_trace_ok(ctx, tr[:k] + tr[k + 1:], n, True):
                raise ToolError("a corrupted trace (without its first %s) was accepted" % ev)
        ctx.add(corrupted_traces_rejected=4)
    misuse_rows(ctx, lambda t: t in ("manip", "flagtype"), ("g23",), ("g23", "c17n"))
    return "model_checking"

def compare_rows(ctx):
    out = ctx.tlc("Compare", workers=2)
    rows = sorted(set(re.findall(r'"ROW ([^"]*)"', out)))
    if len(rows) < 100:
        raise ToolError("comparison table too small")
    f = os.path.join(ctx.tmp, "rows.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    return f, rows

def run_parts(ctx, items, args_of, judge):
    """items: (name, source, config, defs); builds and runs each program in parallel."""
    def one(it):
        name, src, cfg, defs = it
        exe = ctx.build_program(name, os.path.join(HARNESS, src), cfg, defs)
        if not exe:
            return it, None
        rc, out, err = ctx.sh([exe] + args_of(it), timeout=600)
        if rc != 0 or "DONE" not in out:  # has to repeat
            rc, out, err = ctx.sh([exe] + args_of(it), timeout=600)
        return it, (rc, out, err)
    for it, res in ctx.pool.map(one, items):
        if res is None:
            continue
        rc, out, err = res
        if rc != 0 or "DONE" not in out:
            ctx.violation("%s (%s): program ended abnormally, rc=%s" % (it[0], it[2], rc), stdout=out[-2000:], stderr=err[-2000:], item=list(map(str, it)))
            continue
        judge(it, out)

def c08(ctx):
    f, rows = compare_rows(ctx)
    cfgs = ["g23", "c17n"] if not ctx.thorough else ["g23", "g20", "g17", "c20", "c17", "g20n", "c20n", "c17n", "m32", "noub", "nobit", "nomem", "asan", "g20f"]
    items = [("compare%d" % k, "compare.cpp", c, ["PART=%d" % k]) for c in cfgs for k in (4, 2, 3, 0, 7, 1, 5, 6)
             if not (c == "g20f" and k in (5, 6))]  # -ffast-math: NaNs are not compared
    used = {}
    def judge(it, out):
        for l in out.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s/%s %s" % (it[2], it[0], l[4:]), config=it[2], defs=it[3])
            elif l.startswith("ROW "):
                used.setdefault(it[2], set()).add(l[4:])
            elif l.startswith("DONE"):
                n = int(re.search(r"cases=(\d+)", l).group(1))
                ctx.add(comparisons_executed=n, traces_validated_against_impl=n)
    run_parts(ctx, items, lambda it: [f], judge)
    for c, u in used.items():
        ctx.sample("%s: %d of %d rows of the table exercised, e.g. %s" % (c, len(u), len(rows), sorted(u)[:3]))
        if c == "g23" and len(u) != len(rows) and not ctx.findings:
            raise ToolError("rows never exercised: %s" % sorted({" ".join(r.split()[:5]) for r in rows} - u)[:5])
    return "model_checking"

def c17(ctx):
    sch = scheme_rows(ctx)
    rows = sentinel_rows(ctx)
    rows32 = sentinel_rows(ctx, "x86") if ctx.thorough else []
    def go(name, cfg, lines):
        n = judge_rejects(ctx, name, cfg, HDR, lines)
        ctx.sample("%s/%s: %d uses compiled, %d of them have to be rejected, e.g. %s" %
                   (name, cfg, len(lines), sum(not l[2] for l in lines), next((l[0] for l in lines if not l[2]), "-")), 40)
    k = ctx.seed
    if not ctx.thorough:
        go("scheme", "g20", scheme_lines(sch, "11"))
        go("scheme", "c17n", scheme_lines(sch, "11"))
        go("scheme", "noub", scheme_lines(sch, "00"))
        go("sent", "g20", sentinel_lines(rows, "opt"))
        go("mem", "g17", sentinel_lines([r for i, r in enumerate(rows) if i % 7 == k % 7], "mem"))
        go("via", "c17n", sentinel_lines([r for i, r in enumerate(rows) if i % 7 == (k + 3) % 7], "via"))
        go("sent", "c17n", sentinel_lines([r for i, r in enumerate(rows) if i % 5 == k % 5], "opt"))
    else:
        for cfg in ("g23", "g20", "g17", "c17", "c20", "m32"):
            go("scheme", cfg, scheme_lines(sch, "11"))
        for cfg, bm in BITMEM.items():
            go("scheme", cfg, scheme_lines(sch, bm))
        for cfg in ("g23", "g17", "c20", "c17n"):
            for how in ("opt", "via", "mem", "aip"):
                go(how, cfg, sentinel_lines(rows, how))
        for how in ("opt", "mem"):
            go(how, "m32", sentinel_lines(rows32, how))
    misuse_rows(ctx, lambda t: True, ("g23", "c17n"), ("g23", "g20", "g17", "c20", "c17n", "m32"))
    go("xfloat", "g23", [("tiny::optional<std::%s>" % t, "void f%d(tiny::optional<std::%s> & o){ o.reset(); }" % (i, t), True)
                         for i, t in enumerate(("float16_t", "float32_t", "float64_t", "bfloat16_t"))])
    go("enum", "g17", [("%s, %s" % (t, e), "namespace n%d { enum E { v = %s }; } void f%d(tiny::optional<%s, n%d::v> & o){ o.reset(); }" % (i, e, i, t, i), ok)
                       for i, (t, e, ok) in enumerate((("unsigned char", "255", True), ("unsigned char", "256", False), ("signed char", "127", True),
                        ("signed char", "128", False), ("unsigned", "-1", False), ("short", "-32768", True), ("short", "-32769", False), ("long long", "1u<<31", True),
                        ("int", "~0u", False), ("unsigned", "~0u", True), ("bool", "1", False), ("double", "1", False)))])
    return "model_checking"

def c06(ctx):
    misc = ctx.pool.submit(ctx.tlc, "SentinelMisc", None, None, 300, 1)
    rows = sentinel_rows(ctx)
    fams = sorted(set(re.findall(r'"MISC ([^"]*)"', misc.result())))
    f = os.path.join(ctx.tmp, "misc.txt")
    open(f, "w").write("\n".join(fams) + "\n")
    same = lambda S, T: S == T
    every = lambda S, T: True
    own = [r for r in rows if r[0] == r[1]]
    items = []
    def add(cfg, rows_, tag, full, how, chunks):
        for p, n in gen_sentinel_programs(ctx, rows_, cfg + tag, full, how, chunks):
            items.append((os.path.basename(p)[:-4], p, cfg, []))
    if not ctx.thorough:
        add("g20", rows, "", same, "opt", 7)
        add("g17", own, "m", lambda S, T: T in ("short", "unsigned", "long long", "unsigned char"), "mem", 3)
        add("c17n", own, "v", lambda S, T: T in ("unsigned short", "int", "unsigned long", "bool"), "via", 3)
        add("c17n", [r for i, r in enumerate(rows) if i % 6 == ctx.seed % 6], "", lambda S, T: False, "opt", 2)
        x86 = [r for r in sentinel_rows(ctx, "x86") if r[0] == r[1]]
        add("m32n", x86, "o", same, "opt", 2)
        mc = ("g23", "c17n", "noub", "m32n")
    else:
        for cfg in ("g23", "c17n", "c20", "g17n", "noub"):
            add(cfg, rows, "t", every if cfg == "g23" else same, "opt", 16 if cfg == "g23" else 8)
            for how in ("mem", "via", "vmem"):
                add(cfg, rows, "t", same, how, 8)
        add("m32n", sentinel_rows(ctx, "x86"), "t", same, "opt", 8)
        mc = ("g23", "g20", "g17", "c17", "c20", "c17n", "g20n", "m32n", "noub", "nobit", "nomem", "asan")
    items += [("special", os.path.join(HARNESS, "sentinel_special.cpp"), c, []) for c in mc]
    def judge(it, out):
        for l in out.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s/%s %s" % (it[2], it[0], l[4:]), config=it[2])
            elif l.startswith("MISSING"):
                raise ToolError(l)
            elif l.startswith("ROWS"):
                ctx.add(rows_executed=int(l.split()[1]))
                ctx.sample("%s/%s: %s rows of Sentinel.tla executed" % (it[2], it[0], l.split()[1]), 20)
            elif l.startswith("ROW "):
                ctx.add(rows_executed=1)
            elif l.startswith("DONE"):
                n = int(re.search(r"cases=(\d+)", l).group(1))
                ctx.add(stores_and_reads_checked=n, traces_validated_against_impl=n)
    run_parts(ctx, items, lambda it: [f], judge)
    return "model_checking"

def c05(ctx):
    out = ctx.tlc("Bits", workers=4)
    rows = sorted(set(re.findall(r'"((?:BITS|EMPTY|STORE|CLEAR) [^"]*)"', out)))
    if len(rows) < 5000:
        raise ToolError("pattern table too small")
    f = os.path.join(ctx.tmp, "bits.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    if not ctx.thorough:
        cfgs = [("g20n", "full"), ("c17", "rows"), ("g20f", "rows"), ("noub", "rows"), ("m32n", "full"), ("c20n", "rows")]
    else:
        cfgs = [(c, "full") for c in ("g20n", "c20n", "c17n", "g20f", "m32n", "g17n")] + [(c, "rows") for c in ("g23", "g17", "c17", "c20", "m32", "noub", "nobit", "nomem", "fwd", "asan")]
    items = [("bits%d" % k, os.path.join(HARNESS, "bits.cpp"), c, ["PART=%d" % k]) for c, m in cfgs for k in (2, 1, 0)]
    mode = dict(cfgs)
    def judge(it, out):
        for l in out.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s/%s %s" % (it[2], it[0], l[4:]), config=it[2])
            elif l.startswith("MISSING"):
                raise ToolError(l)
            elif l.startswith("DONE"):
                n = int(re.search(r"cases=(\d+)", l).group(1))
                ctx.add(patterns_stored_and_read=n, traces_validated_against_impl=n)
                ctx.sample("%s/%s (%s): %d (pattern, route) pairs" % (it[2], it[0], mode[it[2]], n), 40)
    ctx.add(patterns_in_specification=sum(r.startswith("BITS") for r in rows))
    run_parts(ctx, items, lambda it: [f, mode[it[2]], str(ctx.seed), "1" if ctx.thorough else "0"], judge)
    return "model_checking"

def judge_rows(ctx, what):
    def judge(it, out):
        for l in out.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s/%s %s" % (it[2], it[0], l[4:]), config=it[2])
            elif l.startswith("MISSING"):
                raise ToolError(l)
            elif l.startswith("ROWS"):
                ctx.add(rows_executed=int(l.split()[1]))
                ctx.sample("%s/%s: %s rows of %s executed" % (it[2], it[0], l.split()[1], what), 20)
            elif l.startswith("DONE"):
                n = int(re.search(r"cases=(\d+)", l).group(1))
                ctx.add(cases_executed=n, traces_validated_against_impl=n)
    return judge

def c07(ctx):
    sch = scheme_rows(ctx)
    cfgs = ["g20", "c17n", "m32", "noub", "nobit", "nomem"]
    if ctx.thorough:
        cfgs = [c for c in CONFIGS if c not in ("tsan",)]
    items = []
    for c in cfgs:
        for p, n in gen_scheme_programs(ctx, sch, BITMEM.get(c, "11"), c):
            items.append((os.path.basename(p)[:-4], p, c, []))
    run_parts(ctx, items, lambda it: [], judge_rows(ctx, "Scheme.tla"))
    return "model_checking"

def c14(ctx):
    rows, names = trait_rows(ctx)
    items = []
    def add(cfg, flav):
        for p in gen_trait_programs(ctx, rows, names, cfg, flav):
            items.append((os.path.basename(p)[:-4], p, cfg, []))
    other = ["inp", "mem", "via"]
    if not ctx.thorough:
        add("g23", lambda i, d: ["std", "opt"] + ([other[i % 3]] if d.endswith("n") else []))
        add("c17n", lambda i, d: (["opt"] if (i + ctx.seed) % 3 else ["opt", "std"]) if i % 2 else [])
    else:
        for c in ("g23", "g20", "g17", "c20", "c17n", "m32", "noub", "nomem", "nobit", "fwd"):
            add(c, lambda i, d: ["std", "opt"] + (other if d.endswith("n") and c != "nobit" else []))
    run_parts(ctx, items, lambda it: [], judge_rows(ctx, "Traits.tla"))
    return "model_checking"

def c11(ctx):
    out = ctx.tlc("Hash", workers=2)
    routes = sorted(set(re.findall(r'"((?:VALUE|EMPTY) \w+)"', out)))
    f = os.path.join(ctx.tmp, "routes.txt")
    open(f, "w").write("\n".join(routes) + "\n")
    trows, names = trait_rows(ctx)
    trows = [r for r in trows if r[0].split(".")[9] != "n" or r[0].startswith("x.x.x.x.s")]
    cfgs = ("g20", "c17n", "noub") if not ctx.thorough else ("g23", "g20", "g17", "c20", "c17n", "m32", "noub", "nobit", "nomem", "asan", "g20n")
    items = [("hash", os.path.join(HARNESS, "hash.cpp"), c, []) for c in cfgs]
    for c in cfgs[:1] if not ctx.thorough else cfgs:
        for p in gen_trait_programs(ctx, trows, names, c, lambda i, d: ["std", "opt"] + (["inp", "mem", "via"] if d.endswith("n") else []), 2):
            items.append((os.path.basename(p)[:-4], p, c, []))
    judge = judge_rows(ctx, "Traits.tla (hashable)")
    def filt(it, out):
        judge(it, "\n".join(l for l in out.splitlines() if not (it[0].startswith("traits") and l.startswith("BAD") and " hashable " not in l)))
    run_parts(ctx, items, lambda it: [f, str(ctx.seed)], filt)
    def want(j):
        return is_(j, "hash")
    run_replay(ctx, want, [("g23", [1, 2, 4, 8, 9, 10, 11, 13])], mon=False)
    return "model_checking"

CHECKS = {"C11": c11, "C14": c14, "C07": c07, "C05": c05, "C06": c06, "C17": c17, "C08": c08, "C04": c04, "C01": c01, "C02": c02, "C03": c03, "C09": c09, "C10": c10, "C12": c12, "C13": c13}

PUBLIC_TYPES = ["tiny::optional<int>", "tiny::optional<double>", "tiny::optional<bool>", "tiny::optional<int*>", "tiny::optional<int, -7>",
                "tiny::optional<S>", "tiny::optional<S, &S::v, -7>", "tiny::optional<S, &S::d, SV>", "tiny::optional_aip<int>", "tiny::optional_aip<int, 5>",
                "tiny::optional_sentinel_via_type<int, V7>", "tiny::optional_sentinel_via_type<S, V7, &S::v>", "tiny::optional_inplace<int, IM>"]

def bitmem_flags(bm):
    return {"11": [], "00": ["-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS"], "01": ["-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS"],
            "10": ["-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER"]}[bm]

def pairwise(rows, rng, extra):
    """A subset of the rows in which every pair of settings that occurs in the rows occurs, plus some more."""
    need = {(i, a, j, b) for r in rows for i, a in enumerate(r) for j, b in enumerate(r) if i < j}
    res = []
    while need:
        cand = rng.sample(rows, min(40, len(rows)))
        best = max(cand, key=lambda r: sum((i, a, j, b) in need for i, a in enumerate(r) for j, b in enumerate(r) if i < j))
        got = {(i, a, j, b) for i, a in enumerate(best) for j, b in enumerate(best) if i < j}
        if got & need:
            res.append(best)
            need -= got
    rest = [r for r in rows if r not in res]
    return res + rng.sample(rest, min(extra, len(rest)))

def link_check(ctx, links):
    """Functions with an optional in their signature: linkage names per macro configuration, and real links."""
    d = ctx.dir("link")
    pre = ('#include "tiny/optional.h"\nstruct S { double d = 0; int v = 0; };\nstruct V7 { static constexpr int value = -7; };\nstruct IM { static bool is_empty(int const & r) noexcept { return r == -7; }'
           'static void init_empty_flag(int & r) noexcept { r = -7; } static void invalidate_empty_flag(int & r) noexcept { r = 0; } };\n')
    types = [t for t in PUBLIC_TYPES if "SV" not in t]
    common = "".join("int f%d(%s & o)%%s\nint t%d(%s const * o)%%s\n" % (k, t, k, t) for k, t in enumerate(types))
    defs = pre + common % ((" { bool const b = o.has_value(); o.reset(); return b + 2 * o.has_value(); }", " { return o->has_value(); }") * len(types))
    use = pre + common % ((";", ";") * len(types)) + "int main() { int r = 0;\n" + "".join(
        "{ %s o; r |= f%d(o); r |= t%d(&o) ; o.emplace(); r |= f%d(o) != 1; r |= o.has_value(); }\n" % (t, k, k, k) for k, t in enumerate(types)) + "return r; }\n"
    open(os.path.join(d, "def.cpp"), "w").write(defs)
    open(os.path.join(d, "use.cpp"), "w").write(use)
    macro = {"11": [], "00": bitmem_flags("00"), "01": bitmem_flags("01"), "10": bitmem_flags("10")}
    names = {}
    def comp(args):
        bm, what, cc = args
        o = os.path.join(d, "%s_%s_%s.o" % (what, bm, cc))
        c = GXX if cc == "g" else CLANGXX
        rc, out, err = ctx.sh([c, "-std=c++17", "-w", "-O0", "-I" + INC] + macro[bm] + ["-c", os.path.join(d, what + ".cpp"), "-o", o])
        return args, rc, err, o
    objs = {}
    for (bm, what, cc), rc, err, o in ctx.pool.map(comp, [(bm, w, cc) for bm in macro for w in ("def", "use") for cc in "gc"]):
        if rc != 0:
            ctx.require_toolchain("g17" if cc == "g" else "c17")
            ctx.violation("link/%s: functions with optionals in their signature do not compile: macros %s, compiler %s" % (what, bm, cc), stderr=err[:4000])
            return
        objs[bm, what, cc] = o
    for bm in macro:
        for cc in "gc":
            rc, out, err = ctx.sh(["nm", objs[bm, "def", cc]])
            syms = [l.split()[-1] for l in out.splitlines() if " T " in l]
            m = {}
            for s_ in syms:
                n = re.match(r"_Z(\d+)(.*)", s_)
                fn = n.group(2)[:int(n.group(1))]
                m[fn] = s_
            if len(m) != 2 * len(types):
                raise ToolError("symbols not found: %s" % sorted(m))
            names[bm, cc] = m
    n = 0
    for c1, c2, same in links:
        for cc in "gc":
            for fn in names[c1, cc]:
                n += 1
                eq = names[c1, cc][fn] == names[c2, cc][fn]
                if eq != (same == "1"):
                    ctx.violation("linkage name of a function taking %s: macro configurations %s and %s %s" %
                                  (types[int(fn[1:])], c1, c2, "have the same name although they differ" if eq else "have different names"), names=[names[c1, cc][fn], names[c2, cc][fn]])
    ctx.add(linkage_names_compared=n)
    # compilers agree
    for bm in macro:
        for fn in names[bm, "g"]:
            if names[bm, "g"][fn] != names[bm, "c"][fn]:
                ctx.notes.append("gcc and clang mangle %s differently" % fn)
    def lnk(args):
        c1, c2, same = args
        exe = os.path.join(d, "x%s_%s" % (c1, c2))
        rc, out, err = ctx.sh([GXX, objs[c1, "use", "g"], objs[c2, "def", "c" if c1 == c2 else "g"], "-o", exe])
        und = len(set(re.findall(r"undefined reference to `([ft]\d+)\(", err)))
        run = ctx.sh([exe])[0] if rc == 0 else None
        return args, rc, und, run
    for (c1, c2, same), rc, und, run in ctx.pool.map(lnk, links):
        ctx.add(programs_linked=1)
        ctx.sample("link %s with %s: %s" % (c1, c2, "links and runs" if rc == 0 else "%d undefined references" % und), 40)
        if same == "1" and (rc != 0 or run != 0):
            ctx.violation("two translation units of macro configuration %s: link rc=%s, run rc=%s" % (c1, rc, run))
        if same == "0" and und != 2 * len(types):
            ctx.violation("translation units of macro configurations %s and %s: only %d of %d functions fail to link" % (c1, c2, und, 2 * len(types)))

def c15(ctx):
    out = ctx.tlc("Config", workers=2)
    links = sorted(set(tuple(r.split()) for r in re.findall(r'"LINK ([^"]*)"', out)))
    builds = sorted(set(tuple(r.split()) for r in re.findall(r'"BUILD ([^"]*)"', out)))
    if len(links) != 16 or len(builds) < 300:
        raise ToolError("configuration table")
    link_check(ctx, links)
    import random
    rng = random.Random(ctx.seed)
    chosen = builds if ctx.thorough else pairwise(builds, rng, 8)
    steps = "20000" if ctx.thorough else "4000"
    d = ctx.dir("cfg")
    def one(b):
        bm, lang, fwd, nd, opt, cc = b
        exe = os.path.join(d, "_".join(b))
        cmd = [CLANGXX if cc == "c" else GXX, "-std=c++" + lang, "-" + opt, "-w", "-I" + INC, "-DFWD=%d" % ("none", "before", "after", "both").index(fwd)]
        cmd += bitmem_flags(bm) + (["-DNDEBUG"] if nd == "1" else []) + (["-m32"] if cc == "g32" else []) + [os.path.join(HARNESS, "config.cpp"), "-o", exe]
        rc, o, e = ctx.sh(cmd)
        if rc != 0:
            return b, None, " ".join(cmd) + "\n" + e[:4000]
        rc, o, e = ctx.sh([exe, str(ctx.seed), steps])
        os.remove(exe)
        if rc != 0 or "DONE" not in o:
            return b, {}, "rc=%s %s" % (rc, e[-2000:])
        return b, {l.split()[1]: tuple(l.split()[2:]) for l in o.splitlines() if l.startswith("DIGEST")}, ""
    res, failed = {}, []
    for b, r, e in ctx.pool.map(one, chosen):
        if not r:
            failed.append((b, r, e))
        else:
            res[b] = r
    if failed:
        ctx.require_toolchain("g20"), ctx.require_toolchain("c20"), ctx.require_toolchain("m32")
        for b, r, e in failed:
            ctx.violation("build %s: histories %s" % (" ".join(b), "do not compile" if r is None else "end abnormally"), error=e)
    types = sorted({t for r in res.values() for t in r})
    for t in types:
        digs = {}
        for b, r in res.items():
            digs.setdefault(r[t][0], []).append(b)
        if len(digs) > 1:
            std = {r[t][1] for r in res.values()}
            if len(std) > 1:
                raise ToolError("std::optional digests differ between builds: " + t)
            for dg, bs in digs.items():
                if dg not in std:
                    ctx.violation("%s: the same histories give a different result in %d of %d builds, e.g. %s" % (t, len(bs), len(res), " ".join(bs[0])), builds=[" ".join(x) for x in bs])
    ctx.add(builds_compared=len(res), optional_types=len(types), histories_compared=len(res) * len(types), traces_validated_against_impl=len(res) * len(types))
    ctx.sample("builds: " + "; ".join(" ".join(b) for b in chosen[:12]), 40)
    # the transitions of the specification under each macro configuration, compared with the default configuration
    pend = []
    ctx_v, ctx.violation = ctx.violation, lambda s, **kw: pend.append((s, kw))
    quick = [("noub", [2, 4, 5, 8, 9, 11, 12]), ("nobit", [5, 9, 11]), ("nomem", [5, 7, 11, 12]), ("fwd", [8, 12])]
    def want(j):
        return True
    if not ctx.thorough:
        edges, _ = replay_check(ctx, quick, want, walks=1, walk=1000)
    else:
        edges = None
        for c in ("noub", "nobit", "nomem", "fwd", "g17", "c17n", "g20n", "c20n", "m32"):
            edges, _ = replay_check(ctx, [(c, GROUPS_ALL)], want, walks=20, walk=3000, edges=edges)
            shutil.rmtree(os.path.join(ctx.tmp, "build_" + c), ignore_errors=True)
    if pend:
        own, pend = pend, []
        replay_check(ctx, [("g20", GROUPS_ALL)], want, walks=1, walk=1000, edges=edges)
        ref = {(kw.get("profile"), kw.get("aspect"), kw.get("op")) for s, kw in pend}
        ctx.violation = ctx_v
        for s, kw in own:
            if (kw.get("profile"), kw.get("aspect"), kw.get("op")) not in ref:
                ctx.violation("differs from the default configuration: " + s, **kw)
    ctx.violation = ctx_v
    return "model_checking"

CHECKS["C15"] = c15

def c18(ctx):
    out = ctx.tlc("Assertions", workers=2)
    rows = sorted(set(re.findall(r'"CASE ([^"]*)"', out)))
    if len(rows) < 300:
        raise ToolError("assertion table too small")
    f = os.path.join(ctx.tmp, "asserts.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    cfgs = ("g20", "c17", "noub", "m32", "g20n") if not ctx.thorough else \
           ("g23", "g20", "g17", "c17", "c20", "m32", "noub", "nobit", "nomem", "fwd", "g20n", "c17n", "c20n", "m32n", "asan")
    items = [("asserts%d" % k, os.path.join(HARNESS, "asserts.cpp"), c, ["PART=%d" % k]) for c in cfgs for k in range(5)]
    unused = {}
    inner = judge_rows(ctx, "Assertions.tla")
    def judge(it, o):
        inner(it, o)
        unused.setdefault(it[2], []).append({l[7:] for l in o.splitlines() if l.startswith("UNUSED ")})
    run_parts(ctx, items, lambda it: [f], judge)
    if "g20" in unused and not ctx.findings:
        never = set.intersection(*unused["g20"])
        if never:
            raise ToolError("rows never executed: %s" % sorted(never)[:5])
    # no assertion fails in any legal history
    def want(j):
        return j["aspect"] == "crash" and j.get("sig") in (6, 1077)
    run_replay(ctx, want, [("g23", GROUPS_ALL)], configs=("g23", "g20", "g17", "c17", "c20", "m32", "noub", "nobit", "nomem", "fwd"), walks=3)
    return "model_checking"

CHECKS["C18"] = c18

def c16(ctx):
    out = ctx.tlc("Memory", workers=2)
    rows = sorted(set(re.findall(r'"MEM ([^"]*)"', out)))
    if len(rows) < 200:
        raise ToolError("memory table too small")
    f = os.path.join(ctx.tmp, "mem.txt")
    open(f, "w").write("\n".join(rows) + "\n")
    cfgs = ("g20", "c17n", "noub", "m32") if not ctx.thorough else \
           ("g23", "g20", "g17", "c17", "c20", "m32", "m32n", "noub", "nobit", "nomem", "g20n", "c17n", "c20n", "g20f")
    items = [("memory%d" % k, "memory.cpp", c, ["PART=%d" % k]) for c in cfgs for k in range(4)]
    def one(it):
        name, src, cfg, defs = it
        exe = ctx.build_program(name, os.path.join(HARNESS, src), cfg, defs, ["-Wl,-z,now"])
        return it, exe and ctx.sh([exe, f], timeout=600)
    def thr(k):
        exe = ctx.build_program("threads%d" % k, os.path.join(HARNESS, "threads.cpp"), "tsan", ["PART=%d" % k])
        if not exe:
            return k, None
        for attempt in range(3):
            rc, o, e = ctx.sh([exe, "3000" if ctx.thorough else "300"], timeout=600)
            if rc == 0 or "data race" in e:
                break
        return k, (rc, o, e)
    futs = [ctx.pool.submit(one, it) for it in items]
    tfuts = [ctx.pool.submit(thr, k) for k in range(4)]
    used = set()
    for fu in futs:
        it, res = fu.result()
        if not res:
            continue
        rc, o, e = res
        if rc != 0 or "DONE" not in o:
            ctx.violation("%s (%s): program ended abnormally, rc=%s" % (it[0], it[2], rc), stdout=o[-1500:], stderr=e[-1500:])
            continue
        n = 0
        for l in o.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s/%s %s" % (it[2], it[0], l[4:]), config=it[2])
            elif l.startswith("ROWS "):
                n += int(l.split()[1])
            elif l.startswith("ROW ") and it[2] in ("g20", "g23"):
                used.add(l[4:])
        ctx.add(rows_executed=n, traces_validated_against_impl=n)
        ctx.sample("%s/%s: %d executions of rows of Memory.tla between inaccessible pages and with read-only static memory" % (it[2], it[0], n), 20)
    if used and not ctx.findings and len(used) < len(rows) - 10:
        raise ToolError("rows never executed: %s" % sorted(set(rows) - used)[:8])
    for fu in tfuts:
        k, res = fu.result()
        if not res:
            continue
        rc, o, e = res
        if "data race" in e or "BAD " in o:
            ctx.violation("threads%d: concurrent use that is permitted races" % k, stdout=o[-1500:], stderr=e[:5000])
        elif rc != 0 or "DONE" not in o:
            if "FATAL: ThreadSanitizer" in e:
                ctx.assumptions.append("the thread sanitizer does not run here: the thread part was skipped")
            else:
                ctx.violation("threads%d ended abnormally, rc=%s" % (k, rc), stdout=o[-1500:], stderr=e[:5000])
        else:
            n = sum(int(l.split()[1]) for l in o.splitlines() if l.startswith("ROWS "))
            ctx.add(concurrent_rounds=n)
            ctx.sample("threads%d: %d rounds of concurrent readers and neighbouring writers under the thread sanitizer" % (k, n), 30)
    def want(j):
        return j["aspect"] == "guard"
    run_replay(ctx, want, [("g23", GROUPS_ALL)], configs=("g23", "c17n", "m32", "noub", "nomem", "asan"))
    return "model_checking"

CHECKS["C16"] = c16

from factory import *

def c19(ctx):
    out = ctx.tlc("Factory", workers=1)
    rows = sorted(set(re.findall(r'"ROW ([^"]*)"', out)))
    if len(rows) < 400:
        raise ToolError("factory table too small")
    cfgs = ("g20", "c17n", "noub") if not ctx.thorough else ("g23", "g20", "g17", "c17", "c20", "c17n", "c20n", "g20n", "m32", "noub", "nobit", "nomem", "fwd", "asan")
    items = []
    for c in cfgs:
        for p in gen_factory_programs(ctx, rows, c, BITMEM.get(c, "11")):
            items.append((os.path.basename(p)[:-4], p, c, []))
    run_parts(ctx, items, lambda it: [], judge_rows(ctx, "Factory.tla"))
    forward_rows(ctx, lambda e: e == "make")
    misuse_rows(ctx, lambda t: t == "transform", ("g20",), ("g23", "g17", "c20", "c17n"))
    return "model_checking"

CHECKS["C19"] = c19

from natvis import natvis_check

def c20(ctx):
    out = ctx.tlc("Natvis", workers=1)
    rows = sorted(set(re.findall(r'"VIS ([^"]*)"', out)))
    sch = sorted(set(re.findall(r'"SCHEME ([^"]*)"', out)))
    if len(rows) < 500:
        raise ToolError("visualizer table too small")
    for cfg in ("g20", "m32", "noub") if not ctx.thorough else ("g20", "g23", "g20n", "m32", "noub", "noub32"):
        natvis_check(ctx, rows, sch, cfg)
    return "model_checking"

CHECKS["C20"] = c20
