"""C++ for the rows of spec/Scheme.tla and spec/Sentinel.tla."""
from vlib import *

PAY = {
 "bool": "bool", "float": "float", "double": "double", "ptr": "int *", "cptr": "char const *", "vptr": "void *", "fptr": "void (*)(int)", "pptr": "int **",
 "regenum": "st::RegEnum", "regclass": "st::RegClass",
 "short": "short", "ushort": "unsigned short", "int": "int", "unsigned": "unsigned", "long": "long", "ulong": "unsigned long", "llong": "long long",
 "ullong": "unsigned long long",
 "char": "char", "schar": "signed char", "uchar": "unsigned char", "wchar": "wchar_t", "ldouble": "long double", "enum": "st::Enum", "uenum": "st::UEnum",
 "class": "st::Class", "string": "std::string", "vector": "std::vector<int>", "memptr": "int st::Foreign::*", "memfptr": "void (st::Foreign::*)()",
 "nullptr": "std::nullptr_t", "empty": "st::Empty", "aligned": "st::Aligned", "poly": "st::Poly", "moveonly": "st::MoveOnly", "sclass": "st::SmallClass",
 "tinyopt": "tiny::optional<double>", "stdopt": "std::optional<int>", "constreg": "st::RegClass const",
 "array3": "std::array<char, 3>", "pair": "std::pair<int, char>",
 "ref": "int &", "rref": "int &&", "cref": "int const &", "array": "int[3]", "uarray": "int[]", "nullopt": "std::nullopt_t", "cnullopt": "std::nullopt_t const",
 "inplace": "std::in_place_t", "cinplace": "std::in_place_t const", "void": "void", "func": "int(int)", "nodtor": "st::NoDtor"}
for _b in list(PAY):
    for _cv in ("const", "volatile", "const volatile"):
        PAY["%s %s" % (_cv, _b)] = PAY[_b].replace("(*)", "(* %s)" % _cv) if "(*)" in PAY[_b] else "%s %s" % (PAY[_b], _cv)
# sentinel: (type, constant), for optional<P, constant> and optional_sentinel_via_type<P, SV<type, constant>>
OK = {"bool": ("bool", "false"), "ptr": ("int *", "nullptr"), "cptr": ("char const *", "nullptr"), "regenum": ("st::RegEnum", "st::RegEnum::b"),
 "const int": ("int", "5"), "const bool": ("bool", "true"), "const ptr": ("int *", "nullptr"), "const enum": ("st::Enum", "st::Enum::invalid"),
 "const regenum": ("st::RegEnum", "st::RegEnum::b"), "volatile ushort": ("int", "65534"), "const volatile llong": ("int", "3"), "char": ("char", "'a'"), "schar": ("int", "-7"), "uchar": ("int", "200"), "wchar": ("int", "0"), "enum": ("st::Enum", "st::Enum::invalid"),
 "uenum": ("st::UEnum", "st::uinvalid"), "short": ("int", "-1"), "ushort": ("int", "65535"), "int": ("int", "42"), "unsigned": ("int", "0"),
 "long": ("int", "-9"), "ulong": ("unsigned", "9u"), "llong": ("long long", "-1"), "ullong": ("int", "1"),
 "m_bool": ("bool", "true"), "m_last_bool": ("bool", "true"), "m_ptr": ("int *", "nullptr"), "m_first_ptr": ("int *", "nullptr"), "m_int": ("int", "-1"),
 "m_enum": ("st::Enum", "st::Enum::invalid"), "m_uchar": ("int", "255"), "m_foreign_int": ("int", "1")}
OKVIA = {"float": "st::SFloat", "double": "st::SDouble", "ldouble": "st::SLDouble", "sclass": "st::SClass", "m_float": "st::SFloat", "m_double": "st::SDouble",
 "m_ldouble": "st::SLDouble"}
BAD = {"s_int": ("int", "1000"), "s_char": ("char", "'\\1'"), "s_bool": ("bool", "true"), "s_enumneg": ("st::EnumNeg", "st::eneg"),
 "s_enumbig": ("st::EnumBig", "st::ebig"), "s_scoped": ("st::Scoped", "st::Scoped::x")}
BADVIA = {"s_double": "st::SDouble", "s_float": "st::SFloat"}
MEM = {"m_bool": "&st::Class::b", "m_float": "&st::Class::f", "m_double": "&st::Class::d", "m_ptr": "&st::Class::p", "m_fptr": "&st::Class::fp",
 "m_first_ptr": "&st::Class::firstPtr", "m_last_bool": "&st::Class::lastB", "m_cbool": "&st::Class::cb", "m_reg": "&st::Class::r", "m_int": "&st::Class::i",
 "m_string": "&st::Class::s", "m_enum": "&st::Class::e", "m_ldouble": "&st::Class::ld", "m_uchar": "&st::Class::uc", "m_foreign": "&st::Foreign::d",
 "m_foreign_int": "&st::Foreign::i"}


def scheme_rows(ctx):
    out = ctx.tlc("Scheme", workers=2)
    rows = sorted({tuple(x.split("|")) for x in re.findall(r'"SCHEME ([^"]*)"', out)})
    if len(rows) < 500:
        raise ToolError("scheme table too small")
    return rows


def scheme_type(row):
    """The C++ type a row speaks about."""
    fl, p, mm, sn = row[:4]
    P = PAY[p]
    key = p if mm == "none" else mm
    if fl == "inp":
        return "tiny::optional_inplace<%s, st::Manip<%s>>" % (P, P)
    if fl == "via":
        if sn == "ok":
            s = OKVIA.get(key) or "st::SV<%s, %s>" % OK[key]
        else:
            s = BADVIA.get(sn) or "st::SV<%s, %s>" % BAD[sn]
        return "tiny::optional_sentinel_via_type<%s, %s%s>" % (P, s, "" if mm == "none" else ", " + MEM[mm])
    args = [P]
    if mm != "none":
        args.append(MEM[mm])
    if sn == "ok":
        args.append("static_cast<%s>(%s)" % OK[key])
    elif sn != "none":
        args.append("static_cast<%s>(%s)" % BAD[sn])
    return "tiny::optional%s<%s>" % ("_aip" if fl == "aip" else "", ", ".join(args))


def number(t):
    s, e, d = map(int, t.split())
    return s * 2 ** e + d if s else d


def literal(S, v):
    if S == "bool":
        return "true" if v else "false"
    t = "(-%dLL-1)" % (-v - 1) if v < 0 else "%dULL" % v if v >= 2 ** 63 else "%dLL" % v
    return "static_cast<%s>(%s)" % (S, t)


def sentinel_rows(ctx, arch="x64"):
    """[(source type, flag type, value, accept?)]"""
    out = ctx.tlc("Sentinel", workers=4, cfg_text=open(os.path.join(SPEC, "Sentinel.cfg")).read().replace('"x64"', '"%s"' % arch))
    rows = []
    for x in sorted(set(re.findall(r'"SENT ([^"]*)"', out))):
        a, S, T, v, r = x.split("|")
        rows.append((S, T, number(v), r == "accept"))
    if len(rows) < 1000:
        raise ToolError("sentinel table too small")
    return rows


BITMEM = {"noub": "00", "nobit": "01", "nomem": "10"}


def judge_rejects(ctx, name, config, header, rows):
    """rows: (id, text of one line without newline, accept?). Every line is used like a user would; decides which lines the compiler rejects.
    A batch is compiled first; a line whose verdict differs from the expectation is compiled on its own before it is believed."""
    comp, flags = CONFIGS[config]
    d = ctx.dir("rej_%s_%s" % (name, config))
    n = max(1, min(JOBS, len(rows) // 40 + 1))
    chunks = [rows[k::n] for k in range(n)]
    def compile_text(fn, lines):
        f = os.path.join(d, fn)
        with open(f, "w") as fh:
            fh.write(header.rstrip("\n") + "\n")
            fh.write("\n".join(lines) + "\n")
        extra = ["-ferror-limit=0", "-ftemplate-backtrace-limit=0"] if comp == CLANGXX else ["-fmax-errors=0", "-ftemplate-backtrace-limit=0"]
        rc, o, e = ctx.sh([comp] + flags + ["-w", "-fsyntax-only", "-I" + INC, "-I" + HARNESS] + extra + [f], timeout=600)
        if rc == -999:
            raise ToolError("compile timeout " + f)
        return rc, e
    base = header.rstrip("\n").count("\n") + 1
    def batch(k):
        rc, err = compile_text("b%d.cpp" % k, [r[1] for r in chunks[k]])
        hit = {int(x) for x in re.findall(r"b%d\.cpp:(\d+)" % k, err)}
        doubtful = []
        for i, r in enumerate(chunks[k]):
            if ((base + 1 + i) in hit) == r[2]:
                doubtful.append(r)
        return doubtful
    doubtful = [r for x in ctx.pool.map(batch, range(n)) for r in x]
    ctx.add(rows_compiled=len(rows), traces_validated_against_impl=len(rows))
    if not doubtful:
        return 0
    ctx.log("%s/%s: %d rows compiled on their own" % (name, config, len(doubtful)))
    ctx.require_toolchain(config)
    def single(ir):
        i, r = ir
        rc, err = compile_text("s%d.cpp" % i, [r[1]])
        return r, rc, err
    nbad = 0
    for r, rc, err in ctx.pool.map(single, list(enumerate(doubtful))[:120]):
        if r[2] and rc != 0:
            nbad += 1
            ctx.violation("%s: has to compile but does not: %s" % (config, r[0]), config=config, code=r[1], stderr=err[:3000])
        elif not r[2] and rc == 0:
            nbad += 1
            ctx.violation("%s: has to be rejected but compiles: %s" % (config, r[0]), config=config, code=r[1])
    return nbad


NOREFPARAM = ("void", "func", "ref", "rref", "cref", "array", "uarray")
def scheme_lines(rows, bm):
    res = []
    for i, r in enumerate(rows):
        if r[4] != bm:
            continue
        t = scheme_type(r)
        line = "void f%d(){ using O = %s; O o; o.reset(); }" % (i, t) if r[1] in NOREFPARAM else "void f%d(%s & o){ o.reset(); }" % (i, t)
        res.append(("%s (%s)" % (t, "|".join(r[:5])), line, r[5] != "reject"))
    return res


def sentinel_lines(rows, how):
    """how: opt, via, mem, aip"""
    res = []
    for i, (S, T, v, acc) in enumerate(rows):
        l = literal(S, v)
        t = {"opt": "tiny::optional<%s, %s>" % (T, l), "via": "tiny::optional_sentinel_via_type<%s, st::SV<%s, %s>>" % (T, S, l),
             "mem": "tiny::optional<H<%s>, &H<%s>::m, %s>" % (T, T, l), "aip": "tiny::optional_aip<%s, %s>" % (T, l)}[how]
        res.append(("%s with sentinel %d given as %s (%s)" % (T, v, S, how), "void f%d(%s & o){ o.reset(); }" % (i, t), acc))
    return res

HDR = '#if __has_include(<stdfloat>)\n#include <stdfloat>\n#endif\n#include "schemetypes.hpp"\ntemplate <class T> struct H { char pre; T m; short post; H(); };\n'


def gen_sentinel_programs(ctx, rows, tag, full, how="opt", chunks=8):
    """C++ programs for the accepted rows; full(S, T): long or short test. Returns paths."""
    vals = {}
    for S, T, v, a in rows:
        if S == T:
            vals.setdefault(T, set()).add(v)
    acc = [r for r in rows if r[3]]
    acc.sort(key=lambda r: not full(r[0], r[1]))  # spread the expensive ones
    d = ctx.dir("sentgen")
    paths = []
    for k in range(chunks):
        part = acc[k::chunks]
        if not part:
            continue
        p = os.path.join(d, "%s_%s_%d.cpp" % (tag, how, k))
        with open(p, "w") as f:
            f.write('#include "sentinel.hpp"\n')
            for T in sorted(vals):
                f.write("static std::vector<%s> const v_%s{%s};\n" % (T, T.replace(" ", "_"), ", ".join(literal(T, x) for x in sorted(vals[T]))))
            for i, (S, T, v, a) in enumerate(part):
                l = literal(S, v)
                o = {"opt": "tiny::optional<%s, %s>" % (T, l), "via": "tiny::optional_sentinel_via_type<%s, sv::ViaType<%s, %s>>" % (T, S, l),
                     "mem": "tiny::optional<sv::Holder<%s>, &sv::Holder<%s>::m, %s>" % (T, T, l),
                     "vmem": "tiny::optional_sentinel_via_type<sv::Holder<%s>, sv::ViaType<%s, %s>, &sv::Holder<%s>::m>" % (T, S, l, T)}[how]
                acs = "sv::%s<%s>" % ("Member" if "mem" in how else "Direct", T)
                f.write('static void r%d() { sv::g_row = "%s %d as %s (%s)"; ' % (i, T, v, S, how))
                if full(S, T):
                    f.write("sv::run<%s, %s, %s>(%s, v_%s); }\n" % (o, acs, T, literal(T, v), T.replace(" ", "_")))
                else:
                    other = 1 if v == 0 else 0
                    f.write("sv::lite<%s, %s, %s>(%s, %s); }\n" % (o, acs, T, literal(T, v), literal(T, other)))
            f.write("int main() {\n" + "".join(" r%d();\n" % i for i in range(len(part))))
            f.write(' std::printf("ROWS %d\\nDONE cases=%%ld\\n", sv::g_cases);\n}\n' % len(part))
        paths.append((p, len(part)))
    return paths


PATTERN = {"bool": "(unsigned char)0xfe", "float": "0x7fedcba9u", "double": "0x7ff8fedcba987654ull",
           "ptr": "(sizeof(void *) == 8 ? std::uintptr_t(0xffff800000000000ull - 1) : std::uintptr_t(0xffffffff - 8))"}
def bits_of(name):
    n = name.split(" ")[-1]
    n = {"m_bool": "bool", "m_cbool": "bool", "m_last_bool": "bool", "m_float": "float", "m_double": "double"}.get(n, n)
    return PATTERN.get(n, PATTERN["ptr"])


def gen_scheme_programs(ctx, rows, bm, tag, chunks=4):
    """C++ programs checking size and place of the emptiness for all rows of the configuration bm that are not rejected."""
    rows = [r for r in rows if r[4] == bm and r[5] != "reject"]
    d = ctx.dir("schemegen")
    paths = []
    for k in range(chunks):
        part = rows[k::chunks]
        p = os.path.join(d, "%s_%d.cpp" % (tag, k))
        with open(p, "w") as f:
            f.write('#include "schemesize.hpp"\n#include <cstdint>\n')
            for i, r in enumerate(part):
                fl, pay, mm, sn, _, res, size = r
                t, P = scheme_type(r), PAY[pay]
                row = "|".join(r)
                f.write('static void r%d() { using O = %s; using P = %s; char const * row = "%s";' % (i, t, P, row))
                f.write(" sz::size<O, P>(row, %s);" % ("true" if size == "payload" else "false"))
                key = pay if mm == "none" else mm
                off = "0" if mm == "none" else "sz::offset(%s)" % MEM[mm]
                if res in ("sentinel", "member-sentinel"):
                    if fl == "via":
                        s = (OKVIA.get(key) or "st::SV<%s, %s>" % OK[key]) + "::value"
                    else:
                        s = "(%s)" % OK[key][1]
                    F = "std::remove_cv_t<P>" if mm == "none" else "std::remove_cv_t<std::remove_reference_t<decltype(std::declval<st::Class &>().*%s)>>" % MEM[mm]
                    f.write(" sz::holds<O, %s>(row, %s, %s);" % (F, off, s))
                elif res in ("bits", "member-bits"):
                    f.write(" sz::pattern<O>(row, %s, %s);" % (off, bits_of(key)))
                elif res == "auto":
                    f.write(" using F = std::remove_cv_t<P>; sz::holds<O, F>(row, 0, std::is_signed_v<F> ? std::numeric_limits<F>::min() : std::numeric_limits<F>::max());")
                elif res in ("manip", "member-manip") and (pay == "regenum" or mm == "m_reg"):
                    f.write(" sz::holds<O, st::RegEnum>(row, %s, st::RegEnum::invalid);" % off)
                f.write(" }\n")
            f.write("int main() {\n" + "".join(" r%d();\n" % i for i in range(len(part))))
            f.write(' std::printf("ROWS %d\\nDONE cases=%%ld\\n", sz::g_cases);\n}\n' % len(part))
        paths.append((p, len(part)))
    return paths


MISUSE_HDR = '#include "misuse.hpp"\n'

def manip_struct(kind, flag, flaw):
    """Flag manipulator of the given flag type with one flaw, '' if the whole function is missing."""
    body = []
    for f, ret, arg, code in (("is_empty", "bool", flag + " const &", "return false;"), ("init_empty_flag", "void", flag + " &", ""), ("invalidate_empty_flag", "void", flag + " &", "")):
        what = flaw[len(f) + 1:] if flaw.startswith(f + "_") else ""
        if what == "missing":
            continue
        body.append("static %s %s(%s)%s { %s }" % (ret, f, "mu::Other &" if what == "wrong_type" else arg, "" if what == "throws" else " noexcept", code))
    return "struct %s { %s };" % (kind, " ".join(body))

def misuse_lines(rows):
    res = []
    quals = {"l": "O &", "cl": "O const &", "r": "O &&", "cr": "O const &&"}
    for i, r in enumerate(rows):
        topic, obj, q, what, verdict = r.split()
        if topic in ("and_then", "transform", "or_else"):
            fn = {"wrong_argument": "mu::FnWrong<%d>" % i, "no_function": "mu::FnNone<%d>" % i, "same": "mu::Fn<O, %d>" % i,
                  "same_ref": "mu::Fn<O &, %d>" % i}.get(what, "mu::Fn<mu::R_%s, %d>" % (what, i))  # a type of its own for each line
            line = "void f%d(mu::O_%s & o) { using O = mu::O_%s; (void)static_cast<%s>(o).%s(%s{}); }" % (i, obj, obj, quals[q], topic, fn)
        elif topic == "value_or":
            t = "mu::%s<%d>" % (obj, i)
            d = {"itself": t, "convertible": "mu::To", "explicit": "mu::Exp", "unrelated": "mu::Other"}[what]
            line = "void f%d(tiny::optional<%s> & o) { using O = tiny::optional<%s>; (void)static_cast<%s>(o).value_or(mu::val<%s>()); }" % (i, t, t, quals[q], d)
        elif topic == "swap":
            line = "void f%d(tiny::optional<mu::%s<%d>> & o) { %s }" % (i, obj, i, "o.swap(o);" if what == "member" else "using std::swap; swap(o, o);")
        elif topic == "manip":
            ns = "n%d" % i
            if obj == "passed":
                line = "namespace %s { %s void f(tiny::optional_inplace<int, M> & o) { o.reset(); o.emplace(1); tiny::optional_inplace<int, M> p; } }" % (ns, manip_struct("M", "int", what))
            else:
                line = "namespace %s { struct P { int i; }; struct H { char c; P p; H(); }; } %s void g%d(tiny::optional<%s> & o) { o.reset(); o.emplace(); tiny::optional<%s> p; }" % (
                    ns, "template <> " + manip_struct("tiny::optional_flag_manipulator<%s::P>" % ns, ns + "::P", what), i,
                    *(("%s::P" % ns if obj == "registered" else "%s::H, &%s::H::p" % (ns, ns)),) * 2)
        elif topic == "incomplete":
            t = {"optional": "tiny::optional<F%d>", "via": "tiny::optional_sentinel_via_type<F%d, mu::V7>", "inplace": "tiny::optional_inplace<F%d, mu::IM>"}[obj] % i
            line = "struct F%d; " % i + {"parameter": "void f%d(%s);", "result": "%.0s", "reference": "void f%d(%s const &, %s &&);", "pointer": "%s * g%d();", "alias": "using A%d = %s;",
                "static_member": "struct S%d { static %s s; };", "object": "%s o%d;", "size": "inline int const z%d = sizeof(%s);", "member": "struct S%d { %s s; };", "base": "struct S%d : %s {};"}[what].replace(
                    "%d", str(i)).replace("%.0s", "%s f" + str(i) + "();").replace("%s", t)
        else:
            cmp = {"compare_throws": "friend bool operator==(C const &, C const &);", "no_compare": ""}.get(what, "friend bool operator==(C const &, C const &) noexcept;")
            ne = "" if what == "assign_throws" else " noexcept"
            t = "tiny::optional_sentinel_via_type<C, S>" if obj == "value" else "tiny::optional_sentinel_via_type<H, S, &H::c>"
            line = ("namespace n%d { struct C { int v; constexpr explicit C(int x) noexcept : v(x) {} C & operator=(C const &)%s; constexpr C(C const & o)%s : v(o.v) {} %s }; "
                    "struct S { static constexpr C value{-7}; }; struct H { int i; C c; H(); }; "
                    "void f(%s & o) { o.reset(); %s p; (void)p.has_value(); } }" % (i, ne, ne, cmp, t, t))
        res.append(("%s" % r, line, verdict == "accept"))
    return res
