"""Generates the programs which execute the rows of Factory.tla."""
import os
from vlib import *

CPP = {"int": "int", "double": "double", "bool": "bool", "string": "std::string", "cls": "Cls", "enum": "Enum", "regenum": "RegEnum", "ptr": "int*",
       "mptr": "int HasMem::*", "fptr": "int(*)(int)", "cstr": "char const *", "uniq": "std::unique_ptr<int>", "topt": "tiny::optional<int>",
       "sopt": "std::optional<int>", "toptsent": "tiny::optional<int, -7>", "vec": "std::vector<int>", "immov": "Immov", "cint": "int const"}
VALUE = {"int": "5", "double": "2.5", "bool": "true", "string": 'std::string("hello, a long string for the heap")', "cls": "Cls(5)", "enum": "Enum::b", "regenum": "RegEnum::b",
         "ptr": "(&g_int)", "mptr": "(&HasMem::m)", "fptr": "(&function)", "uniq": "std::make_unique<int>(5)", "topt": "tiny::optional<int>(5)",
         "sopt": "std::optional<int>(5)", "toptsent": "tiny::optional<int, -7>(5)", "vec": "std::vector<int>{5, 6}"}
EQUAL = {"int": "X == 5", "double": "X == 2.5", "bool": "X == true", "string": 'X == "hello, a long string for the heap"', "cls": "X.v == 5", "enum": "X == Enum::b",
         "regenum": "X == RegEnum::b", "ptr": "X == g_arr", "mptr": "X == &HasMem::m", "fptr": "X(4) == 5", "uniq": "*X == 5", "topt": "X.has_value() && *X == 5",
         "sopt": "X.has_value() && *X == 5", "toptsent": "X.has_value() && *X == 5", "vec": "X == (std::vector<int>{5, 6})", "cstr": 'std::strcmp(X, "lit") == 0'}

def opts(p, o):
    if o == "none":
        return ""
    if o == "sent":
        return ", -7" if p == "int" else ", Enum::c"
    return {"memsent": ", &Cls::v, -7", "mem": ", &Cls::d"}[o]

def opt_type(p, o):
    return "tiny::optional<%s%s>" % (CPP[p], opts(p, o))

def arg(t, c):
    """(setup, expression, text of a check of the source after the call)"""
    if t == "lit":
        return "", '"lit"', ""
    if t == "arr":
        return "", "g_arr", ""
    if t == "fn":
        return "", "function", ""
    con = " const" if c in ("clv", "crv") else ""
    setup = "%s%s src(%s);" % (CPP[t] if t not in ("mptr", "fptr", "ptr") else "std::decay_t<decltype(%s)>" % VALUE[t], con, VALUE[t] if t != "ptr" else "g_arr")
    expr = "std::move(src)" if c in ("rv", "crv") else "src"
    return setup, expr, ""

ARGS = {"int": ["", "5", None], "double": ["", "2.5", None], "bool": ["", "true", None], "string": ["", '"abc"', "3, 'x'"], "cls": ["", "5", "5, 2.5"], "enum": ["", "Enum::b", None],
        "regenum": ["", "RegEnum::b", None], "ptr": ["", "g_arr", None], "mptr": ["", "&HasMem::m", None], "fptr": ["", "function", None], "vec": ["", "5", "5, 6"],
        "uniq": ["", "new int(5)", None], "immov": ["", "5", "5, 6"]}
FLAV = {"plain": "tiny::optional<int>", "sent": "tiny::optional<int, -7>", "aip": "tiny::optional_aip<int>", "via": "tiny::optional_sentinel_via_type<int, S7>",
        "inplace": "tiny::optional_inplace<int, IManip>", "bits": "tiny::optional<double>", "mem": "tiny::optional<HasMem, &HasMem::m, -7>"}
QUERY = {"opt_int": "tiny::optional<int>", "opt_sent": "tiny::optional<int, -7>", "opt_mem": "tiny::optional<Cls, &Cls::d>", "opt_memsent": "tiny::optional<Cls, &Cls::v, -7>",
         "opt_bits": "tiny::optional<double>", "opt_class": "tiny::optional<Cls>", "opt_const": "tiny::optional<int const>", "aip": "tiny::optional_aip<int>",
         "aip_sent": "tiny::optional_aip<int, 5>", "aip_bits": "tiny::optional_aip<double>", "via": "tiny::optional_sentinel_via_type<int, S7>",
         "via_mem": "tiny::optional_sentinel_via_type<Cls, S7, &Cls::v>", "inplace": "tiny::optional_inplace<int, IManip>", "nested": "tiny::optional<tiny::optional<int>>",
         "opt_of_std": "tiny::optional<std::optional<int>>", "derived": "Derived", "derived2": "Derived2", "const_opt": "tiny::optional<int> const",
         "volatile_opt": "tiny::optional<int> volatile", "opt_reg": "tiny::optional<RegEnum>", "aip_reg": "tiny::optional_aip<RegEnum>", "opt_fn": "tiny::optional<void(*)()>",
         "opt_moveonly": "tiny::optional<MoveOnly>", "opt_immovable": "tiny::optional<Immov>",
         "std_opt": "std::optional<int>", "std_opt_of_tiny": "std::optional<tiny::optional<int>>", "int_": "int", "void_": "void", "fn_": "int(int)", "ref_opt": "tiny::optional<int>&",
         "rref_opt": "tiny::optional<int>&&", "ptr_opt": "tiny::optional<int>*", "arr_opt": "tiny::optional<int>[2]", "class_": "Cls", "incomplete_": "Incomplete", "enum_": "Enum",
         "union_": "Union", "nullopt_": "std::nullopt_t", "inplace_t_": "std::in_place_t", "vec_opt": "std::vector<tiny::optional<int>>", "has_false_marker": "FalseMarker",
         "lambda_": "decltype(lambda)", "manipulator_": "tiny::optional_flag_manipulator<RegEnum>", "memptr_": "tiny::optional<int> HasMem::*", "abstract_": "Abstract",
         "final_": "Final", "private_base": "PrivateBase"}
RESULT = {"int": "return 5;", "cint": "return 5;", "double": "return 2.5;", "bool": "return true;", "string": 'return std::string("hello, a long string for the heap");', "regenum": "return RegEnum::b;",
          "cls": "return Cls(5);", "ptr": "return g_arr;", "topt": "return tiny::optional<int>(5);", "sopt": "return std::optional<int>(5);", "immov": "return Immov(5);",
          "uniq": "return std::make_unique<int>(5);"}

def code(row, bitmem):
    """C++ text for one row, or None if the row does not exist in this configuration."""
    kind, a, b, c, _, p, o = row.split()
    T = None if kind == "query" else opt_type(p, o)
    if o == "mem" and bitmem == "01":
        return None
    r = '"%s"' % row
    if kind == "make1":
        setup, expr, _ = arg(a, b)
        call = "tiny::make_optional(%s)" % expr if c == "none" else None
        if call is None:
            # options require the payload to be named; it is deduced as forwarding reference otherwise
            P = CPP[p]
            con = " const" if b in ("clv", "crv") else ""
            ref = "&" if b in ("lv", "clv") else ""
            call = "tiny::make_optional<%s%s%s%s>(%s)" % (P, con, ref, opts(p, c), expr)
        chk = EQUAL[p].replace("X", "(*o)")
        extra = ""
        if a == "cls":
            extra = 'val(o->cat == \'%s\', %s, "copied instead of moved or the other way round"); val(src.n == %s, %s, "source");' % (
                "m" if b == "rv" else "c", r, "-1" if b == "rv" else "1", r)
        return "{ %s auto o = %s; same<decltype(o), %s>(%s); val(o.has_value() && (%s), %s); %s row(); }" % (setup, call, T, r, chk, r, extra)
    if kind == "makeargs":
        args = ARGS[a][int(b)]
        if args is None:
            return None
        call = "tiny::make_optional<%s%s>(%s)" % (CPP[a], opts(a, c), args)
        ref = CPP[a]
        cmp = {"cls": "o->v == ref.v && o->n == ref.n && o->cat == ref.cat && o->d == ref.d", "immov": "o->v == ref.v", "uniq": "bool(*o) == bool(ref) && (!ref || **o == *ref)",
               }.get(a, "*o == ref")
        R = "std::decay_t<decltype(%s)>" % VALUE[a] if a in ("mptr", "fptr", "ptr") else ref
        init = "(%s)" % args if args else "{}"
        if a == "cls" and not args:
            init = " = Cls()"
        return "{ auto o = %s; same<decltype(o), %s>(%s); %s ref%s; val(o.has_value() && (%s), %s); row(); }" % (call, T, r, R, init, cmp, r)
    if kind == "makeil":
        il = {"string": "{'a', 'b'}", "cls": "{5, 6}", "vec": "{5, 6}"}[a]
        more = ["", {"string": ", std::allocator<char>()", "cls": ", 7", "vec": ", std::allocator<int>()"}[a]][int(b)]
        chk = {"string": '*o == "ab"', "cls": "o->v == 5 && o->cat == 'i' && o->n == %s" % ("207" if b == "1" else "2"), "vec": "*o == (std::vector<int>{5, 6})"}[a]
        return "{ auto o = tiny::make_optional<%s%s>(%s%s); same<decltype(o), %s>(%s); val(o.has_value() && (%s), %s); row(); }" % (CPP[a], opts(a, c), il, more, T, r, chk, r)
    if kind == "ctad":
        setup, expr, _ = arg(a, b)
        decl = {"braces": "tiny::optional o{%s};", "parens": "tiny::optional o(%s);", "equals": "tiny::optional o = %s;", "func": "auto o = tiny::optional(%s);"}[c] % expr
        chk = "o.has_value() && (%s)" % EQUAL[p].replace("X", "(*o)")
        if a == "cls" and c == "equals":
            pass
        return "{ %s %s same<decltype(o), %s>(%s); val(%s, %s); row(); }" % (setup, decl, T, r, chk, r)
    if kind == "transform":
        F = FLAV[a]
        q = {"l": "x", "cl": "std::as_const(x)", "r": "std::move(x)", "cr": "std::move(std::as_const(x))"}[b]
        rt = {"cint": "int const"}.get(c, CPP[c])
        lam = "[](auto &&) -> %s { %s }" % (rt, RESULT[c])
        chk = EQUAL[p].replace("X", "(*o)") if p != "immov" else "o->v == 5"
        return ("{ %s x(3), e; auto o = %s.transform(%s); same<decltype(o), %s>(%s); val(o.has_value() && (%s), %s);"
                " { auto && x = e; val(!%s.transform(%s).has_value(), %s, \"engaged\"); } row(); }") % (F, q, lam, T, r, chk, r, q, lam, r)
    if kind == "query":
        t = QUERY[a]
        if bitmem == "01" and a == "opt_mem" or bitmem[0] == "0" and a == "aip_bits":
            return None
        extra = ""
        if p == "true" and a not in ("volatile_opt",):
            extra = 'val(std::remove_cv_t<%s>::is_tiny_optional, %s, "member");' % (t, r)
        return "{ using T = %s; val(tiny::is_tiny_optional_v<T> == %s, %s); %s row(); }" % (t, p, r, extra)
    raise ToolError("row " + row)

def gen_factory_programs(ctx, rows, cfg, bitmem, chunks=4):
    d = ctx.dir("factory_" + cfg)
    res = []
    cs = [x for x in (code(r, bitmem) for r in rows) if x]
    for k in range(chunks):
        p = os.path.join(d, "factory%d_%s.cpp" % (k, cfg))
        part = cs[k::chunks]
        with open(p, "w") as f:
            f.write('#include "factory.hpp"\nusing namespace ft;\nint g_arr[3]; int & g_int = g_arr[0];\n')
            for i, c in enumerate(part):
                f.write("void f%d() %s\n" % (i, c))
            f.write("int main() {\n" + "".join("f%d();\n" % i for i in range(len(part))))
            f.write('std::printf("ROWS %d\\nDONE cases=%d\\n", g_rows, g_rows); }\n')
        res.append(p)
    return res
