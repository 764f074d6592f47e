"""C++ for the rows of spec/Traits.tla."""
from vlib import *


def trait_rows(ctx):
    out = ctx.tlc("Traits", workers=4)
    rows = sorted(set(re.findall(r'"TRAIT (\S+) ([01?d]+)"', out)))
    names = [n for _, n in sorted((int(i), n) for i, n in set(re.findall(r'"QUERY (\d+) (\w+)"', out)))]
    if len(rows) < 500 or any(len(r[1]) != len(names) for r in rows):
        raise ToolError("trait table: %d rows, %d queries" % (len(rows), len(names)))
    return rows, names


def trait_struct(name, desc, refq=False):
    """refq: the assignment operators can be applied to lvalues only."""
    cc, mc, ca, ma, sw, ct, as_, il, df, hs, cst = desc.split(".")
    end = {"n": " = delete;", "d": " = delete;", "t": " noexcept(false);", "x": " noexcept;"}
    s = "struct %s { double f; int id;" % name
    s += " %s(%s const &)%s" % (name, name, end[cc])
    s += " %s & operator=(%s const &)%s" % (name, name, end[ca])
    if mc != "c":
        s += " %s(%s &&)%s" % (name, name, end[mc])
    if ma != "c":
        s += " %s & operator=(%s &&)%s" % (name, name, end[ma])
    if df != "n":
        s += " %s()%s" % (name, end[df])
    if ct == "d":
        s += " %s(tr::A const &) = delete;" % name
    elif ct == "g":
        s += " template <class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, %s>>> %s(X &&);" % (name, name)
    elif ct[1:] in ("l", "r"):
        s += " %s%s(tr::A %s) noexcept(false);" % ("explicit " if ct[0] == "e" else "", name, "&" if ct[1] == "l" else "&&")
    elif ct != "n":
        s += " %s%s(tr::A const &)%s" % ("explicit " if ct[0] == "e" else "", name, end[ct[1]])
    if as_ in ("l", "r"):
        s += " %s & operator=(tr::A %s) noexcept(false);" % (name, "&" if as_ == "l" else "&&")
    elif as_ == "g":
        s += " template <class X, class = std::enable_if_t<!std::is_same_v<std::decay_t<X>, %s>>> %s & operator=(X &&);" % (name, name)
    elif as_ != "n":
        s += " %s & operator=(tr::A const &)%s" % (name, end[as_])
    if il == "y":
        s += " %s(std::initializer_list<int>, int);" % name
    if sw != "s":
        s += " friend void swap(%s &, %s &)%s" % (name, name, end[sw])
    if refq:
        s = re.sub(r"(operator=\([^()]*\))", r"\1 &", s)
    s += " };\n"
    if hs != "n":
        s += "template <> struct std::hash<%s> { std::size_t operator()(%s const &) const%s };\n" % (name, name, end[hs])
    return s


FLAVOURS = {"std": "std::optional<%(P)s>", "opt": "tiny::optional<%(P)s>", "inp": "tiny::optional_inplace<%(P)s, tr::Manip<%(P)s>>",
            "mem": "tiny::optional<%(P)s, &%(N)s::f>", "via": "tiny::optional_sentinel_via_type<%(P)s, tr::S, &%(N)s::f>"}
# payloads that are not classes: description, P, type to convert from
NOCLASS = [("x.x.x.x.s.ix.x.n.x.x.n", "int", "long"), ("x.x.x.x.s.ix.x.n.x.x.n", "double", "int"), ("x.x.x.x.s.ix.x.n.x.x.n", "int *", "std::nullptr_t"),
           ("x.x.x.x.s.n.n.n.x.x.n", "tr::Enum", "int"), ("x.x.x.x.s.ix.x.n.x.x.n", "bool", "double"), ("x.x.x.x.s.ix.x.n.x.x.n", "long long", "short"),
           ("x.x.x.x.s.ix.n.n.x.x.y", "int", "long"), ("x.x.x.x.s.ix.n.n.x.x.y", "double", "int")]
NCFLAV = ["std::optional<%s>", "tiny::optional<%s>", "tiny::optional_inplace<%s, tr::Manip<%s>>"]


def gen_trait_programs(ctx, rows, names, tag, flavours, chunks=8):
    """flavours(i, desc) -> list of flavours to instantiate for row i."""
    d = ctx.dir("traitgen")
    paths = []
    for k in range(chunks):
        p = os.path.join(d, "traits_%s_%d.cpp" % (tag, k))
        n = 0
        with open(p, "w") as f:
            f.write('#include "traits.hpp"\nnamespace tr { char const * const g_names[] = {%s}; enum class Enum : short { a }; }\n' % ", ".join('"%s"' % x for x in names))
            body = []
            for i, (desc, want) in list(enumerate(rows))[k::chunks]:
                N = "P%d" % i
                P = N + (" const" if desc.endswith("y") else "")
                f.write(trait_struct(N, desc, i % 2 == 0))
                for fl in flavours(i, desc):
                    body.append('static void r%d() { tr::check<%s, %s, tr::A>("payload %s", "%s", "%s", %s); }\n' %
                                (n, FLAVOURS[fl] % {"P": P, "N": N}, N, desc, fl, want, "true" if fl == "std" else "false"))
                    n += 1
            if k == 0:
                table = dict(rows)
                for desc, P, A in NOCLASS:
                    if desc not in table:  # described by the same operators, only the row may not be among the exported ones
                        continue
                    c = P + (" const" if desc.endswith("y") else "")
                    for t in NCFLAV[:2 if desc.endswith("y") else 3]:
                        body.append('static void r%d() { tr::check<%s, %s, %s>("payload %s", "%s", "%s", %s); }\n' %
                                    (n, t.replace("%s", c), P, A, P, t, table[desc], "true" if t.startswith("std") else "false"))
                        n += 1
            f.write("".join(body))
            f.write("int main() {\n" + "".join(" r%d();\n" % i for i in range(n)))
            f.write(' std::printf("ROWS %d\\nDONE cases=%%ld\\n", tr::g_cases);\n}\n' % n)
        paths.append(p)
    return paths
