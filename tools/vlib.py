"""Shared machinery: TLC runs, builds of the harness against /repo, violations, evidence."""
import atexit, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
INC = os.path.join(REPO, "include")
GXX = "/usr/bin/g++-13" if os.path.exists("/usr/bin/g++-13") else "g++"
CLANGXX = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
JOBS = os.cpu_count() or 8


class ToolError(Exception):
    """The check itself is broken (not the code under test)."""


CONFIGS = {
    # name: (compiler, flags)
    "g23":   (GXX, ["-std=c++23", "-O0"]),
    "g20":   (GXX, ["-std=c++20", "-O0"]),
    "g17":   (GXX, ["-std=c++17", "-O0"]),
    "g20n":  (GXX, ["-std=c++20", "-O2", "-DNDEBUG"]),
    "g17n":  (GXX, ["-std=c++17", "-O1", "-DNDEBUG"]),
    "g20f":  (GXX, ["-std=c++20", "-O3", "-ffast-math", "-DNDEBUG"]),
    "c17n":  (CLANGXX, ["-std=c++17", "-O1", "-DNDEBUG"]),
    "c17":   (CLANGXX, ["-std=c++17", "-O0"]),
    "c20":   (CLANGXX, ["-std=c++20", "-O0"]),
    "c20n":  (CLANGXX, ["-std=c++20", "-O2", "-DNDEBUG"]),
    "m32":   (GXX, ["-m32", "-std=c++20", "-O0"]),
    "m32n":  (GXX, ["-m32", "-msse2", "-mfpmath=sse", "-std=c++17", "-O2", "-DNDEBUG"]),
    "noub":  (GXX, ["-std=c++20", "-O0", "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS"]),
    "noub32": (GXX, ["-m32", "-std=c++20", "-O0", "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS"]),
    "nobit": (GXX, ["-std=c++20", "-O0", "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS"]),
    "nomem": (GXX, ["-std=c++17", "-O0", "-DTINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER"]),
    "fwd":   (GXX, ["-std=c++20", "-O0", "-DVH_FWD_FIRST"]),
    "asan":  (CLANGXX, ["-std=c++20", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=vptr,bool,enum,alignment,null,function",
                        "-fno-sanitize-recover=all"]),
    "tsan":  (CLANGXX, ["-std=c++20", "-O1", "-g", "-fsanitize=thread"]),
}


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif_%s_" % prop)
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.findings = []   # violations: (summary, details)
        self.notes = []
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.lock = threading.Lock()

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def add(self, **kw):
        with self.lock:
            for k, v in kw.items():
                self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, limit=12):
        with self.lock:
            if len(self.samples) < limit:
                self.samples.append(s)

    def violation(self, summary, **details):
        with self.lock:
            self.findings.append((summary, details))

    def sh(self, cmd, timeout=600, cwd=None, env=None, stdin=None):
        if cmd[0] not in (GXX, CLANGXX):
            return self.sh_(cmd, timeout, cwd, env, stdin)
        for last in (False, True):  # a compiler that is ended from outside tells nothing about the code
            r = self.sh_(cmd, timeout, cwd, env, stdin)
            if r[0] == -999 or r[0] < 0 or re.search(r"Killed signal|terminated program|unable to execute command|cannot allocate memory|No space left|out of memory", r[2], re.I):
                if last or r[0] == -999:
                    raise ToolError("compiler did not finish (%s): %s\n%s" % (r[0], " ".join(cmd), r[2][-1500:]))
                continue
            return r

    def sh_(self, cmd, timeout=600, cwd=None, env=None, stdin=None):
        try:
            p = subprocess.run(cmd, cwd=cwd, env=env, input=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                               text=True, errors="replace")
            return p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as ex:
            def dec(x):
                return x.decode(errors="replace") if isinstance(x, bytes) else (x or "")
            return -999, dec(ex.stdout), dec(ex.stderr)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg=None, cfg_text=None, timeout=600, workers=4, extra=(), files=None, expect_violation=False, dump=False,
            props=()):
        """Runs TLC on spec/<module>.tla in a scratch directory; returns stdout. Raises ToolError if it does not finish."""
        with self.lock:
            self._n = getattr(self, "_n", 0) + 1
            d = self.dir("tlc%d_%s" % (self._n, module))
        for f in glob.glob(os.path.join(SPEC, "*.tla")):
            shutil.copy(f, d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), "w") as fh:
                fh.write(text)
        c = os.path.join(d, "run.cfg")
        with open(c, "w") as fh:
            fh.write(cfg_text if cfg_text is not None else open(os.path.join(SPEC, cfg or module + ".cfg")).read())
        cmd = ["tlc", "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", "-config", c] + list(extra) + [module + ".tla"]
        env = dict(os.environ)
        env["JAVA_TOOL_OPTIONS"] = " ".join(["-Xmx6g", "-XX:+UseParallelGC"] + list(props))
        rc, out, err = self.sh(cmd, timeout=timeout, cwd=d, env=env)
        ok = "Model checking completed. No error has been found" in out or "Finished in" in out and rc == 0
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        if m and not expect_violation:
            self.add(states=int(m.group(2)), transitions=int(m.group(1)))
        if not ok and not expect_violation:
            tail = "\n".join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]
            raise ToolError("TLC failed on %s (rc=%s):\n%s\n%s" % (module, rc, tail, err[-800:]))
        shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
        return out

    # ------------------------------------------------------------------ builds
    def compile(self, src, out, config, defs=(), flags=(), timeout=600, syntax_only=False):
        comp, cf_ = CONFIGS[config]
        cmd = [comp] + cf_ + ["-w", "-I" + INC, "-I" + HARNESS] + ["-D" + d for d in defs] + list(flags)
        cmd += ["-fsyntax-only", src] if syntax_only else ["-c", src, "-o", out]
        rc, o, e = self.sh(cmd, timeout=timeout)
        return rc, e, " ".join(cmd)

    def link(self, objs, out, config, flags=()):
        comp, cf_ = CONFIGS[config]
        cmd = [comp] + cf_ + list(flags) + objs + ["-o", out, "-pthread"]
        return self.sh(cmd, timeout=300) + (" ".join(cmd),)

    def build_program(self, name, src, config, defs=(), flags=()):
        """Compiles one harness source to a program. Returns path or None after recording a violation."""
        out = os.path.join(self.dir("bin"), "%s_%s" % (name, config))
        comp, cf_ = CONFIGS[config]
        cmd = [comp] + cf_ + ["-w", "-I" + INC, "-I" + HARNESS] + ["-D" + d for d in defs] + list(flags) + [src, "-o", out, "-pthread"]
        rc, o, e = self.sh(cmd, timeout=600)
        if rc != 0:
            self.require_toolchain(config)
            self.violation("does not compile any more: %s (%s)" % (name, config), command=" ".join(cmd), stderr=e[:6000])
            return None
        return out

    def require_toolchain(self, config):
        """A compile failure counts against the code only if the toolchain works."""
        with self.lock:
            d = self.dir("probe")
        src = os.path.join(d, "probe_%s_%d.cpp" % (config, threading.get_ident()))
        with open(src, "w") as f:
            f.write("#include <optional>\n#include <string>\n#include <vector>\n#include <functional>\n#include <map>\n"
                    "int main(){ std::optional<std::string> o(std::in_place, 3, 'x'); return o->size() == 3 ? 0 : 1; }\n")
        comp, cf_ = CONFIGS[config]
        rc, o, e = self.sh([comp] + cf_ + [src, "-o", src + ".exe"], timeout=200)
        if rc != 0:
            raise ToolError("compiler does not work: %s %s\n%s" % (comp, cf_, e[-2000:]))

    # ------------------------------------------------------------------ end
    def finish(self, level):
        findings = self.findings
        known = load_known(self.prop)
        new = []
        for s, d in findings:
            k = next((k for k in known if k in s), None)
            if k:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
            else:
                new.append((s, d))
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["none"]
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not new:
            self.log("held; %s" % {k: v for k, v in cov.items() if isinstance(v, int)})
            return 0
        path = os.path.join(VERIF, "evidence", "replay_%s.json" % self.prop)
        with open(path, "w") as f:
            json.dump([{"what": s, **d} for s, d in new[:40]], f, indent=1)
        for s, d in new[:8]:
            self.log("violated: " + s)
        print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
        return 1


def load_known(prop):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res
