"""Evaluates the visualizers of tiny_optional.natvis: selects the visualizer of a type by name like the debugger does and generates C++ which
evaluates its expressions on the raw storage of real optionals."""
import os, re
import xml.etree.ElementTree as ET
from vlib import *

NATVIS = os.path.join(INC, "tiny_optional.natvis")
NS = "{http://schemas.microsoft.com/vstudio/debugger/natvis/2010}"

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- type names
def parse_name(s):
    """'a::b<c, d<e>>' -> (name, [args]); a plain text is (text, None)."""
    s = s.strip()
    i = s.find("<")
    if i < 0 or s.startswith("&") or s.startswith("("):
        return (norm(s), None)
    depth, args, cur = 0, [], ""
    par = 0
    for k in range(i, len(s)):
        c = s[k]
        if c in "([":
            par += 1
        elif c in ")]":
            par -= 1
        if c == "<" and not par:
            depth += 1
            if depth == 1:
                continue
        elif c == ">" and not par:
            depth -= 1
            if depth == 0:
                if s[k + 1:].strip():
                    return (norm(s), None)  # 'a<b>*', 'a<b>::c'
                break
        elif c == "," and depth == 1 and not par:
            args.append(cur)
            cur = ""
            continue
        cur += c
    else:
        return (norm(s), None)
    if cur.strip():
        args.append(cur)
    return (norm(s[:i]), [parse_name(a) for a in args])

def norm(s):
    return re.sub(r"\s+", " ", s.strip())

def match(pat, typ, path, caps):
    """Wildcard match; appends (path, text) for every wildcard. A trailing wildcard matches the remaining arguments."""
    if pat == ("*", None):
        caps.append(path)
        return True
    if pat[0] != typ[0]:
        return False
    if pat[1] is None or typ[1] is None:
        return pat[1] is None and typ[1] is None
    p, t = pat[1], typ[1]
    if len(p) != len(t) and not (p and p[-1] == ("*", None) and len(t) >= len(p)):
        return False
    return all(match(a, b, path + [k], caps) for k, (a, b) in enumerate(zip(p, t)))

def specificity(pat):
    if pat == ("*", None):
        return 0
    return 1 + sum(specificity(a) for a in pat[1] or [])

PRIO = {"High": 0, "MediumHigh": 1, "Medium": 2, None: 2, "MediumLow": 3, "Low": 4}

class File:
    def __init__(self, text):
        root = ET.fromstring(text)
        self.types = []
        for n, t in enumerate(root.iter(NS + "Type")):
            names = [t.get("Name")] + [a.get("Name") for a in t.iter(NS + "AlternativeType")]
            for nm in names:
                self.types.append((parse_name(nm), t, n))
        self.roots = sorted({t[0][0] for t in self.types if t[0][0].startswith("tiny::")})
    def select(self, name, view=None):
        typ = parse_name(name)
        best = None
        for pat, t, n in self.types:
            inc, exc = t.get("IncludeView"), t.get("ExcludeView")
            if (inc and view not in re.split("[;, ]+", inc)) or (view and not inc) or (exc and view in re.split("[;, ]+", exc)):
                continue
            caps = []
            if match(pat, typ, [], caps):
                key = (PRIO[t.get("Priority")], -specificity(pat), n)
                if best is None or key < best[0]:
                    best = (key, t, caps, pat)
        return best

# ---------------------------------------------------------------- expressions
def strip_format(e):
    """Removes a trailing format specifier ',sb' and returns (expression, view or None)."""
    depth = 0
    cut = None
    q = None
    for k, c in enumerate(e):
        if q:
            if c == q and e[k - 1] != "\\":
                q = None
        elif c in "\"'":
            q = c
        elif c in "([{<" and c != "<":
            depth += 1
        elif c in ")]}":
            depth -= 1
        elif c == "," and depth == 0:
            cut = k
    if cut is None:
        return e.strip(), None
    spec = e[cut + 1:].strip()
    m = re.match(r"view\((.*)\)$", spec)
    return e[:cut].strip(), m.group(1).strip() if m else None

def subst(e, caps, nontype):
    def rep(m):
        k = int(m.group(1)) - 1
        if k >= len(caps):
            raise Unsupported("$T%d without wildcard" % (k + 1))
        path = caps[k]
        x = "NvBase_"
        for p in path[:-1]:
            x = "nv::arg_t<%s, %d>" % (x, p)
        if nontype(path):
            return "nv::offset(nv::args<%s>::template value<%d>)" % (x, path[-1])
        return "nv::arg_t<%s, %d>" % (x, path[-1])
    return re.sub(r"\$T(\d+)", rep, e)

def pieces(text):
    """DisplayString -> list of ('text', s) / ('expr', e)"""
    out, k, cur = [], 0, ""
    while k < len(text):
        if text.startswith("{{", k):
            cur += "{"; k += 2
        elif text.startswith("}}", k):
            cur += "}"; k += 2
        elif text[k] == "{":
            if cur:
                out.append(("text", cur)); cur = ""
            depth, j = 1, k + 1
            while depth and j < len(text):
                depth += {"{": 1, "}": -1}.get(text[j], 0)
                j += 1
            out.append(("expr", text[k + 1:j - 1])); k = j
        else:
            cur += text[k]; k += 1
    if cur:
        out.append(("text", cur))
    return out

def lit(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", " ") + '"'

class Gen:
    """C++ for one optional type."""
    def __init__(self, f, ident, opt, root, name, strict):
        self.f, self.ident, self.opt, self.root, self.name, self.strict = f, ident, opt, root, name, strict
        tree = parse_name(name)
        def nontype(path):
            x = tree
            for p in path:
                x = x[1][p]
            return x[1] is None and (x[0].startswith("&") or x[0].startswith("(") or re.match(r"-?\d", x[0]) is not None)
        self.nontype = nontype
    def ex(self, e, caps):
        return subst(e, caps, self.nontype)
    def gen(self):
        best = self.f.select(self.name)
        if not best:
            raise Unsupported("no visualizer for " + self.name)
        _, t, caps, pat = best
        self.intr = "".join("  auto %s() const { return (%s); }\n" % (i.get("Name"), self.ex(i.get("Expression"), caps)) for i in t.findall(NS + "Intrinsic"))
        disp = self.display(t, caps, 0)
        items = self.items(t, caps, 0)
        return ("namespace n_%s { using Opt = NV_TYPE(%s);\nusing NvBase_ = decltype(pr_%s(static_cast<Opt const *>(nullptr)));\n"
                "struct NvView_ : NvBase_ {\n%s  nv::Shown display() const { nv::Shown r; %s return r; }\n"
                "  std::vector<nv::ShownItem> items() const { std::vector<nv::ShownItem> r; %s return r; }\n};\n"
                "static_assert(sizeof(NvView_) == sizeof(NvBase_));\n"
                "inline void look(Opt const & o, std::string const & row, bool empty) { NvView_ const & v = static_cast<NvView_ const &>(static_cast<NvBase_ const &>(o));"
                " nv::judge(o, row, empty, v.display(), v.items()); } }\n") % (
                    self.ident, self.opt, re.sub(r"\W", "_", self.root), self.intr, disp, items)
    def display(self, t, caps, depth):
        out = []
        for d in t.findall(NS + "DisplayString"):
            cond = d.get("Condition")
            if d.get("Optional") == "true" and not self.strict:
                continue
            body = ""
            for kind, s in pieces(d.text or ""):
                if kind == "text":
                    body += "r.text += %s; " % lit(s)
                    continue
                e, view = strip_format(s)
                if view:
                    body += self.follow(e, view, depth, "display")
                else:
                    body += "r.text += \"<object>\"; r.objects.push_back(nv::address(%s)); " % self.ex(e, caps)
            out.append("if (%s) { %s return r; } " % (self.ex(cond, caps) if cond else "true", body))
        return "".join(out)
    def follow(self, e, view, depth, what):
        if re.sub(r"[\s()]", "", e) not in ("*this", "this") or depth > 3:
            raise Unsupported("view of " + e)
        b = self.f.select(self.name, view)
        if not b:
            raise Unsupported("no view " + view)
        if what == "display":
            return "{ %s }" % self.display(b[1], b[2], depth + 1)
        return self.items(b[1], b[2], depth + 1)
    def items(self, t, caps, depth):
        out = ""
        exp = t.find(NS + "Expand")
        if exp is None:
            return out
        for it in exp:
            if it.get("Optional") == "true" and not self.strict:
                continue
            cond = self.ex(it.get("Condition") or "true", caps)
            e, view = strip_format(it.text or "")
            if it.tag == NS + "ExpandedItem" and view:
                out += "if (%s) { %s } " % (cond, self.follow(e, view, depth, "items"))
            elif it.tag == NS + "Item":
                if re.match(r'^".*"$', e):
                    out += "if (%s) r.push_back({%s, %s}); " % (cond, lit(it.get("Name")), e)
                elif e.endswith("is_compressed"):
                    out += "if (%s) r.push_back({%s, \"\", nullptr, true, %s}); " % (cond, lit(it.get("Name")), self.ex(e, caps))
                else:
                    out += "if (%s) r.push_back({%s, \"\", nv::address(%s)}); " % (cond, lit(it.get("Name")), self.ex(e, caps))
            else:
                raise Unsupported("element " + it.tag)
        return out

def schemes():
    src = open(os.path.join(HARNESS, "natvis.hpp")).read()
    block = re.search(r"#define NV_SCHEMES\(X\).*?\n\n", src, re.S).group(0)
    res = {}
    for l in block.splitlines():
        m = re.match(r"\s*X\((\w+), (\(.*?>\)|[^(]*?), (.*)\)\s*\\?$", l)
        if m:
            res[m.group(1)] = (m.group(2)[1:-1] if m.group(2).startswith("(") else m.group(2), m.group(3))
    return res

PROBE = ("template <class... A> %(root)s<A...> pr_%(id)s(%(root)s<A...> const *);\n")

def namespace_of(text, plain):
    """The comment of the file tells which name to use if the tricks are disabled."""
    if not plain:
        return text
    used = sorted(set(re.findall(r"\btiny::(tiny\d+_\w+)::", "".join(re.split(r"<!--.*?-->", text, flags=re.S)))))
    comments = "".join(re.findall(r"<!--.*?-->", text, re.S))
    m = re.search(r"becomes\s+(tiny\d+_\w+)", comments)
    told = [m.group(1)] if m else sorted(set(re.findall(r"\btiny\d+_\w+", comments)) - set(used))
    if len(told) != 1:
        return None
    for u in used:
        text = text.replace(u, told[0])
    return text

def read_file():
    """The text of the visualizer file; comment lines in the style of other languages behind its end are ignored."""
    text = open(NATVIS, encoding="utf-8-sig").read()
    k = text.rfind("</AutoVisualizer>")
    if k >= 0:
        k += len("</AutoVisualizer>")
        if all(not l.strip() or l.strip().startswith(("//", "#", "/*", ";", "--")) for l in text[k:].splitlines()):
            text = text[:k] + "\n"
    return text

def natvis_check(ctx, rows, schemerows, cfg):
    """Evaluates all rows in one configuration."""
    plain = cfg in ("noub", "noub32", "noubc")
    text = read_file()
    text = namespace_of(text, plain)
    if text is None:
        ctx.sample("%s: not evaluated, the file does not tell the name of the namespace" % cfg, 12)
        return
    try:
        f = File(text)
    except (ET.ParseError, Unsupported) as ex:
        ctx.violation("%s: the visualizer file cannot be read: %s" % (cfg, ex), config=cfg)
        return
    allsch = schemes()
    kinds = {}
    for r in schemerows:
        s, t, k = r.split()
        if t == ("plain" if plain else "tricks"):
            kinds[s] = k
    if set(kinds) - set(allsch) or {r.split()[0] for r in rows} != set(allsch):
        raise ToolError("schemes of specification and harness differ")
    d = ctx.dir("natvis_" + cfg)
    flags = ["-fno-access-control", "-fpermissive", "-fno-strict-aliasing"]
    # 1. names of the types
    probe = '#include "natvis.hpp"\nusing namespace nv;\n' + "".join(PROBE % {"root": r, "id": re.sub(r"\W", "_", r)} for r in f.roots)
    probe += "template <class O> void name(char const * n) {\n"
    probe += "".join("  if constexpr (requires(O const * o) { pr_%s(o); }) std::printf(\"NAME %%s %s %%s\\n\", n, demangle(typeid(decltype(pr_%s(static_cast<O const *>(nullptr)))).name()).c_str());\n"
                     % (re.sub(r"\W", "_", r), r, re.sub(r"\W", "_", r)) for r in f.roots)
    probe += "}\nint main() {\n" + "".join('  name<NV_TYPE(%s)>("%s");\n' % (allsch[s][0], s) for s in kinds) + '  std::puts("DONE"); }\n'
    p = os.path.join(d, "names.cpp")
    open(p, "w").write(probe)
    exe = ctx.build_program("natvis_names", p, cfg, flags=flags)
    if not exe:
        return
    rc, out, err = ctx.sh([exe], timeout=60)
    if "DONE" not in out:
        raise ToolError("names: %s %s" % (rc, err[-500:]))
    names = {}
    for l in out.splitlines():
        if l.startswith("NAME "):
            _, s, r, n = l.split(" ", 3)
            names.setdefault(s, []).append((r, n))
    # 2. evaluation
    progs = []
    for s in kinds:
        if s not in names:
            ctx.violation("%s: %s: no visualizer matches the type or one of its bases" % (cfg, s), config=cfg)
            continue
        r, n = names[s][0]
        body, why = None, None
        for strict in (True, False):
            try:
                body = Gen(f, s, allsch[s][0], r, n, strict).gen()
            except Unsupported as ex:
                ctx.violation("%s: %s: %s" % (cfg, s, ex), config=cfg, type=n)
                body = None
                break
            src = '#include "natvis.hpp"\nusing namespace nv;\n' + PROBE % {"root": r, "id": re.sub(r"\W", "_", r)} + body
            src += "int main() {\n"
            for row in rows:
                sc, way, v, expect = row.split()
                if sc == s:
                    src += '  history<n_%s::Opt>("%s", "%s", %s, %s, [](int v) { (void)v; return %s; }, n_%s::look);\n' % (
                        s, s, way, v, "true" if expect == "nullopt" else "false", allsch[s][1], s)
            src += '  std::printf("ROWS %d\\nDONE cases=%d\\n", g_cases, g_cases);\n}\n'
            progs.append((s, strict, n, src))
    def one(g):
        s, vs = g
        for strict, n, src in vs:
            p = os.path.join(d, "%s_%d.cpp" % (s, strict))
            open(p, "w").write(src)
            exe = p[:-4]
            comp, cf_ = CONFIGS[cfg]
            rc, o, e = ctx.sh([comp] + cf_ + ["-w", "-I" + INC, "-I" + HARNESS] + flags + [p, "-o", exe], timeout=300)
            if rc == 0:
                rc, o, e = ctx.sh([exe], timeout=60)
                if rc != 0 or "DONE" not in o:
                    return s, n, "abnormal end rc=%s" % rc, o, e
                return s, n, None, o, e
        return s, n, "the visualizer's expressions are invalid for the type", "", e
    groups = {}
    for s, strict, n, src in progs:
        groups.setdefault(s, []).append((strict, n, src))
    for s, n, why, o, e in ctx.pool.map(one, sorted(groups.items())):
        if why:
            if "invalid" in why:
                ctx.require_toolchain(cfg)
            ctx.violation("%s: %s: %s" % (cfg, s, why), config=cfg, type=n, stdout=o[-1500:], stderr=e[:3000])
            continue
        for l in o.splitlines():
            if l.startswith("BAD "):
                ctx.violation("%s: %s" % (cfg, l[4:]), config=cfg, type=n)
            elif l.startswith("MISSING"):
                raise ToolError(l)
        k = int(re.search(r"ROWS (\d+)", o).group(1))
        ctx.add(rows_executed=k, cases_executed=k, traces_validated_against_impl=k)
        ctx.sample("%s: %d rows of Natvis.tla evaluated for %s" % (cfg, k, n), 12)
