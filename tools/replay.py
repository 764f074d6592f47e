"""Replay of the transitions exported by TLC from OptionalEdges.tla into real optionals."""
import concurrent.futures as cf, json, os, re
from vlib import *

GROUPS_STD = [0, 1]
GROUPS_TRACKED = [2, 3, 4, 5, 6, 7, 14, 15, 16, 17, 18]
GROUPS_SCALAR = [8, 9, 10, 13]
GROUPS_CLASS = [11, 12]
GROUPS_ALL = GROUPS_STD + GROUPS_TRACKED + GROUPS_SCALAR + GROUPS_CLASS


def export_edges(ctx, workers=4):
    """All transitions of the specification, one file per payload kind."""
    out = ctx.tlc("OptionalEdges", workers=workers)
    d = ctx.dir("edges")
    files, n = {}, 0
    for line in out.splitlines():
        if not line.startswith('"EDGE '):
            continue
        m = re.match(r'"EDGE (.*) <<(.*)>>"$', line.strip())
        if not m:
            raise ToolError("unreadable edge: " + line)
        kind = m.group(1).split(" ", 1)[0]
        ev = re.findall(r'\\?"(\w+)\\?"', m.group(2))
        files.setdefault(kind, set()).add(m.group(1) + (" " + " ".join(ev) if ev else ""))
        n += 1
    if n == 0:
        raise ToolError("no transitions exported")
    for k, v in files.items():
        with open(os.path.join(d, k), "w") as f:
            f.write("\n".join(sorted(v)) + "\n")
    ctx.log("TLC exported %d transitions for %d payload kinds" % (sum(len(v) for v in files.values()), len(files)))
    return d


def build(ctx, config, groups, obs=True, mon=True):
    """Compiles the profile groups. Returns list of driver executables (one per group)."""
    d = ctx.dir("build_" + config)
    defs = ["VH_G_OBS=%d" % obs, "VH_G_MON=%d" % mon]

    def one(item):
        name, src, dd = item
        o = os.path.join(d, name + ".o")
        rc, err, cmd = ctx.compile(os.path.join(HARNESS, src), o, config, defs + dd)
        return name, o, rc, err, cmd
    items = [("driver", "driver.cpp", []), ("flags", "flags.cpp", [])]
    # the instrumented payloads are the expensive ones: start them first
    items = [("u%d" % g, "unit.cpp", ["VH_GROUP=%d" % g]) for g in groups] + items
    objs = {}
    for name, o, rc, err, cmd in ctx.pool.map(one, items):
        if rc == -999:
            raise ToolError("compile timeout " + cmd)
        if rc != 0:
            ctx.require_toolchain(config)
            if name in ("driver", "flags", "u0", "u1"):
                # these do not depend on tiny::optional's operations, except that profiles.hpp includes it
                ctx.violation("%s: harness does not compile any more (%s)" % (config, name), command=cmd, stderr=err[:6000], aspect="compile")
            else:
                ctx.violation("%s: profiles %s do not compile any more" % (config, name), command=cmd, stderr=err[:6000], aspect="compile")
            continue
        objs[name] = o
    if "driver" not in objs or "flags" not in objs:
        return None
    exe = os.path.join(d, "drv")
    rc, o, e, cmd = ctx.link(list(objs.values()), exe, config)
    if rc != 0:
        ctx.require_toolchain(config)
        ctx.violation("%s: harness does not link any more" % config, command=cmd, stderr=e[:6000], aspect="compile")
        return None
    return exe


def run_profile(ctx, exe, edges, name, kind, walks, walk, seed, extra=()):
    rc, out, err = ctx.sh([exe, "--edges", os.path.join(edges, kind), "--only", name, "--walks", str(walks), "--walk", str(walk),
                           "--seed", str(seed)] + list(extra), timeout=800)
    res = []
    done = False
    for line in out.splitlines():
        if not line.startswith("{"):
            continue
        try:
            j = json.loads(line)
        except ValueError:
            continue
        if j["type"] == "done":
            done = True
        res.append(j)
    if not done:
        raise ToolError("driver failed for %s rc=%s: %s" % (name, rc, (out[-500:] + err[-500:])))
    return res


def key(j):
    return (j.get("profile"), j.get("aspect"), j.get("op"), j.get("fault"), j.get("edge"))


def replay(ctx, config, exe, edges, want, walks=2, walk=1500, only=None):
    """Tours + random walks over all profiles. want(j) -> does this mismatch concern the property?"""
    rc, out, err = ctx.sh([exe, "--list"])
    profs = [l.split() for l in out.splitlines()]
    if only:
        profs = [p for p in profs if only(p[0])]

    def one(p):
        name, kind, isstd = p
        res = run_profile(ctx, exe, edges, name, kind, walks, walk, ctx.seed)
        bad = [j for j in res if j["type"] in ("mismatch", "crash")]
        if bad:  # a rejection has to repeat
            again = set()
            for k in range(2):
                again |= {key(j)[:4] for j in run_profile(ctx, exe, edges, name, kind, walks, walk, ctx.seed) if j["type"] in ("mismatch", "crash")}
            bad = [j for j in bad if key(j)[:4] in again]
        return p, res, bad
    n = 0
    for p, res, bad in ctx.pool.map(one, profs):
        for j in res:
            if j["type"] == "error":
                raise ToolError(str(j))
            if j["type"] == "summary":
                ctx.add(steps_replayed=j["steps"], edges_replayed=j["edges_covered"], profiles=1,
                        traces_validated_against_impl=j["bindings"] * (1 + walks))
                ctx.sample("%s/%s: %d calls, %d of %d transitions of kind %s" % (config, j["profile"], j["steps"], j["edges_covered"],
                                                                                  j["edges_total"], j["kind"]))
                n += j["steps"]
        for j in bad:
            if j.get("std"):
                raise ToolError("std::optional itself disagrees with the specification: %s" % json.dumps(j)[:1500])
            if want(j):
                ctx.violation("%s/%s: %s [%s] %s" % (config, j["profile"], j.get("detail", "crash, signal %s" % j.get("sig")), j["aspect"],
                                                     j.get("edge")), config=config, **{k: v for k, v in j.items() if k != "type"})
    ctx.log("%s: replayed %d calls on %d profiles" % (config, n, len(profs)))


def replay_check(ctx, configs, want, obs=True, mon=True, walks=2, walk=1500, only=None, micro=None, edges=None):
    """configs: list of (config, groups)."""
    fut = ctx.pool.submit(export_edges, ctx) if edges is None else None
    mic = ctx.pool.submit(micro_model, ctx, *micro) if micro else None
    exes = [(c, build(ctx, c, g, obs, mon)) for c, g in configs]
    if fut:
        edges = fut.result()
    for c, exe in exes:
        if exe:
            replay(ctx, c, exe, edges, want, walks, walk, only)
    if mic:
        mic.result()
    return edges, exes


def micro_model(ctx, kinds=None, liveness=False):
    cfg = open(os.path.join(SPEC, "OptionalMicro.cfg")).read()
    if kinds:
        cfg = re.sub(r"KindNames = \{.*?\}", "KindNames = {%s}" % ", ".join('"%s"' % k for k in kinds), cfg)
    if liveness:
        cfg = cfg.replace("PROPERTIES Refinement", "PROPERTIES Refinement Terminates").replace("VIEW View\n", "")
    out = ctx.tlc("OptionalMicro", cfg_text=cfg, workers=4 if not liveness else JOBS, timeout=800 if not liveness else 3000)
    ctx.log("TLC: storage protocol and refinement of std::optional hold (%s)" % ", ".join(kinds or ["all kinds"]))
    return out
