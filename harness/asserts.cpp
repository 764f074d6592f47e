// Executes the rows of spec/Assertions.tla, each in a child process. Arguments: file with the rows.
#include "tiny/optional.h"
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  #define NOMEM true
#else
  #define NOMEM false
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define NOBIT true
#else
  #define NOBIT false
#endif

extern "C" void __assert_fail(char const *, char const *, unsigned, char const *) noexcept
{
  _exit(77);
}

namespace as
{
struct Row { std::string group, route, dst, src, val, beh, expect, text; };

inline char g_beh = 'p'; // behaviour of Odd's copies and moves: p(lain), c(opybad), m(ovebad), d(rain)

// NX: copies and moves are noexcept.
template <bool NX>
struct Odd
{
  double d = 0.25;
  int v = 1;
  explicit Odd(int v) noexcept(NX) : v(v) {}
  Odd(std::initializer_list<int> l, int = 0) noexcept(NX) : v(*l.begin()) {}
  Odd(Odd const & o) noexcept(NX) : v(g_beh == 'c' ? -7 : o.v) {}
  Odd(Odd && o) noexcept(NX) : v(g_beh == 'm' ? -7 : o.v) { o.drain(); }
  Odd & operator=(Odd const & o) noexcept(NX) { v = g_beh == 'c' ? -7 : o.v; return *this; }
  Odd & operator=(Odd && o) noexcept(NX) { v = g_beh == 'm' ? -7 : o.v; o.drain(); return *this; }
  Odd & operator=(int x) noexcept(NX) { v = x; return *this; }
  ~Odd() {}
  void drain() { if (g_beh == 'd') v = -7; }
};
// Payload with a registered manipulator.
struct RegOdd : Odd<true> { using Odd::Odd; using Odd::operator=; };
struct RegOddT : Odd<false> { using Odd::Odd; using Odd::operator=; };
template <class P>
struct OddManip
{
  static bool is_empty(P const & p) noexcept { return p.v == -7; }
  static void init_empty_flag(P & p) noexcept { ::new (&p.v) int(-7); }
  static void invalidate_empty_flag(P & p) noexcept { p.v = -6; }
};
struct S7 { static constexpr int value = -7; };
struct SD { static constexpr double value = -2.5; };
struct Sm { int v; bool operator==(Sm const & o) const noexcept { return v == o.v; } };
struct SSm { static constexpr Sm value{-7}; };
enum class RegE : short { a = 1, b = 2, none = -9 };
enum E2 { e0, e1, e2 };

template <class P> struct Conv { P p; operator P() const noexcept { return p; } };
template <class P> struct ConvT { P p; operator P() const { return p; } };
struct Thrown {};
template <class P> struct ConvThrow { operator P() const { throw Thrown(); } };

template <class T, class B> T bits(B b) { T t; static_assert(sizeof(t) == sizeof(b)); std::memcpy(&t, &b, sizeof(t)); return t; }
} // namespace as
template <> struct tiny::optional_flag_manipulator<as::RegOdd> : as::OddManip<as::RegOdd> {};
template <> struct tiny::optional_flag_manipulator<as::RegOddT> : as::OddManip<as::RegOddT> {};
template <> struct tiny::optional_flag_manipulator<as::RegE> : tiny::sentinel_flag_manipulator<as::RegE, as::RegE::none> {};

namespace as
{
// Values per scheme: raw(s) is what the payload is built from (s: the sentinel).
template <class P, class = void> struct Vals { static P raw(bool s, P l, P e) { return s ? e : l; } };

struct Fam
{
  char const * name;
  bool sep; // separate flag: any value may be stored
  bool odd; // payload with odd copies
};

inline int g_cases = 0, g_rows = 0;
inline std::set<std::string> g_used;

template <class F>
std::string child(F && f)
{
  ++g_cases;
  std::fflush(stdout);
  pid_t const pid = fork();
  if (pid == 0) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    alarm(20);
    std::set_terminate([] { _exit(3); });
    _exit(f() ? 0 : 4);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  if (WIFEXITED(st)) {
    switch (WEXITSTATUS(st)) {
    case 0: return "ok";
    case 77: return "abort";
    case 3: return "terminate";
    case 4: return "wrong-state";
    case 78: return "n/a";
    }
    return "exit";
  }
  if (WTERMSIG(st) == SIGABRT) return "abort";
  return "signal" + std::to_string(WTERMSIG(st));
}

// 1: ok, 0: wrong state, -1: route does not exist for this type
template <class O, class P, class R>
int perform(Row const & r, R const & rawLegal, R const & rawSent, bool plainType)
{
  R const & raw = r.val == "legal" ? rawLegal : rawSent;
  auto has = [](auto const & o) { return o.has_value() ? 1 : 0; };
  constexpr bool isConst = std::is_const_v<typename O::value_type>;
  constexpr bool il = std::is_constructible_v<P, std::initializer_list<int>, int>;
  auto build = [&](R const & x) { return P(x); }; // guaranteed elision: no copy
  auto fill = [&](O & o, std::string const & s) { if (s == "V") o.emplace(rawLegal); };
  std::string const & q = r.route;
  if (r.group == "new") {
    if (q == "ctor_rv") { P p = build(raw); O o(std::move(p)); return has(o); }
    if (q == "ctor_lv") { P p = build(raw); O o(p); return has(o); }
    if (q == "ctor_clv") { P const p = build(raw); O o(p); return has(o); }
    if (q == "inpl_raw") { O o(std::in_place, raw); return has(o); }
    if (q == "inpl_rv") { P p = build(raw); O o(std::in_place, std::move(p)); return has(o); }
    if (q == "inpl_lv") { P p = build(raw); O o(std::in_place, p); return has(o); }
    if (q == "inpl_il") { if constexpr (il) { O o(std::in_place, {r.val == "legal" ? 1 : -7, 2}, 3); return has(o); } }
    if (q == "ctor_conv") { if constexpr (std::is_same_v<R, P>) { { Conv<P> c{raw}; O o(c); if (!has(o)) return 0; } ConvT<P> t{raw}; O o2(t); return has(o2); } else { O o(raw); return has(o); } }
    if (q == "make_rv") { if constexpr (std::is_same_v<O, tiny::optional<P>>) { P p = build(raw); auto o = tiny::make_optional(std::move(p)); return has(o); } }
    if (q == "make_lv") { if constexpr (std::is_same_v<O, tiny::optional<P>>) { P p = build(raw); auto o = tiny::make_optional(p); return has(o); } }
    if (q == "make_raw") { if constexpr (std::is_same_v<O, tiny::optional<P>>) { auto o = tiny::make_optional<P>(raw); return has(o); } }
    if (q == "make_il") { if constexpr (il && std::is_same_v<O, tiny::optional<P>>) { auto o = tiny::make_optional<P>({r.val == "legal" ? 1 : -7, 2}, 3); return has(o); } }
    if (q == "transform" || q == "transform_nx") {
      if constexpr (std::is_same_v<O, tiny::optional<P>>) {
        tiny::optional<long> src(5);
        if (q == "transform") { auto o = src.transform([&](long) { return P(raw); }); return has(o); }
        auto o = src.transform([&](long) noexcept { return P(raw); });
        return has(o);
      }
    }
    if (q == "copy_init") { if constexpr (std::is_convertible_v<P, O>) { O o = build(raw); return has(o); } }
    if (q == "elem") { std::vector<O> v; v.reserve(2); v.emplace_back(std::in_place, raw); return has(v[0]); }
    return -1;
  }
  if (r.group == "store") {
    O o;
    fill(o, r.dst);
    if (q == "emplace_raw") { o.emplace(raw); return has(o); }
    if (q == "emplace_rv") { P p = build(raw); o.emplace(std::move(p)); return has(o); }
    if (q == "emplace_lv") { P p = build(raw); o.emplace(p); return has(o); }
    if (q == "emplace_il") { if constexpr (il) { o.emplace({r.val == "legal" ? 1 : -7, 2}, 3); return has(o); } return -1; }
    if constexpr (!isConst) {
      if (q == "assign_rv") { P p = build(raw); o = std::move(p); return has(o); }
      if (q == "assign_lv") { P p = build(raw); o = p; return has(o); }
      if (q == "assign_clv") { P const p = build(raw); o = p; return has(o); }
      if (q == "assign_conv") { if constexpr (std::is_same_v<R, P>) { o = Conv<P>{raw}; if (!has(o)) return 0; o.reset(); fill(o, r.dst); o = ConvT<P>{raw}; return has(o); } else { o = raw; return has(o); } }
    }
    return -1;
  }
  if (r.group == "newfrom" || r.group == "from") {
    if constexpr (!isConst) {
      O s, o;
      fill(s, r.src);
      fill(o, r.dst);
      bool const e = r.src == "V";
      auto both = [&](bool a, bool b, O const & x, O const & y) { return x.has_value() == a && y.has_value() == b ? 1 : 0; };
      if (q == "cc") { O n(s); return both(e, e, n, s); }
      if (q == "mc") { O n(std::move(s)); return both(e, e, n, s); }
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
      if (q == "or_else_l") { O n = s.or_else([] { return O(); }); return both(e, e, n, s); }
      if (q == "or_else_r") { O n = std::move(s).or_else([] { return O(); }); return both(e, e, n, s); }
#endif
      if (q == "vec_copy") { std::vector<O> a(1); fill(a[0], r.src); std::vector<O> b(a); return both(e, e, a[0], b[0]); }
      if (q == "vec_move") { // growing moves (if noexcept) the elements
        if constexpr (std::is_nothrow_move_constructible_v<P>) { std::vector<O> a(1); fill(a[0], r.src); a.reserve(a.capacity() * 2); return has(a[0]) == e ? 1 : 0; }
      }
      if (q == "ca") { o = s; return both(e, e, o, s); }
      if (q == "ma") { o = std::move(s); return both(e, e, o, s); }
      bool const d = r.dst == "V";
      if (q == "swap_m") { o.swap(s); return both(e, d, o, s); }
      if (q == "swap_f") { using std::swap; swap(o, s); return both(e, d, o, s); }
    }
    return -1;
  }
  if (r.group == "deref") {
    O o, h;
    std::string const & w = r.src;
    if (w == "default") ;
    else if (w == "nullopt") { O n(std::nullopt); if constexpr (!isConst) o = std::move(n); }
    else if (w == "reset") { o.emplace(rawLegal); o.reset(); }
    else if (w == "assign_null") { o.emplace(rawLegal); o = std::nullopt; }
    else if (w == "assign_braces") { if constexpr (isConst) return -1; else { o.emplace(rawLegal); o = {}; } }
    else if (w == "copy_e") { O c(h); return perform<O, P, R>(Row{r.group, r.route, r.dst, "default", r.val, r.beh, r.expect, r.text}, rawLegal, rawSent, plainType); }
    else if (w == "move_e") { if constexpr (isConst) return -1; else { O c(std::move(h)); o.emplace(rawLegal); o = std::move(c); } }
    else if (w == "assign_e") { if constexpr (isConst) return -1; else { o.emplace(rawLegal); o = h; } }
    else if (w == "swap_e") { if constexpr (isConst) return -1; else { o.emplace(rawLegal); o.swap(h); } }
    else if (w == "throw") { o.emplace(rawLegal); try { o.emplace(ConvThrow<R>{}); return 0; } catch (Thrown const &) {} }
    else if (w == "ctor") { if constexpr (isConst) return -1; else { O c(std::in_place, rawLegal); o = c; } }
    else if (w == "emplace") o.emplace(rawLegal);
    else if (w == "assign") { if constexpr (isConst) return -1; else { o = build(rawLegal); } }
    else if (w == "copy_v") { if constexpr (isConst) return -1; else { h.emplace(rawLegal); O c(h); o = c; } }
    else if (w == "move_v") { if constexpr (isConst) return -1; else { h.emplace(rawLegal); O c(std::move(h)); o = std::move(c); } }
    else if (w == "assign_v") { if constexpr (isConst) return -1; else { h.emplace(rawLegal); o = h; } }
    else if (w == "swap_v") { if constexpr (isConst) return -1; else { h.emplace(rawLegal); o.swap(h); } }
    else if (w == "value_v") { o.emplace(rawLegal); (void)o.value(); }
    else return -1;
    O const & c = o;
    void const volatile * a = nullptr;
    if (q == "star_l") a = std::addressof(*o);
    else if (q == "star_cl") a = std::addressof(*c);
    else if (q == "star_r") { auto && x = *std::move(o); a = std::addressof(x); }
    else if (q == "star_cr") { auto && x = *std::move(c); a = std::addressof(x); }
    else if (q == "arrow") a = o.operator->();
    else if (q == "arrow_c") a = c.operator->();
    else return -1;
    return a != nullptr && o.has_value() ? 1 : 0;
  }
  return -1;
}

inline std::vector<Row> g_rowsV;
template <class R> struct Same { using type = R; };

template <class O, class P, class R = P>
void family(Fam f, typename Same<R>::type legal, typename Same<R>::type sent)
{
  for (Row const & r : g_rowsV) {
    if (r.beh != "plain" && !f.odd) continue;
    std::string expect = r.expect;
    if (f.sep && r.group != "deref") expect = "ok";
#ifdef NDEBUG
    if (expect == "abort") continue;
#endif
    g_beh = r.beh[0];
    std::string const got = child([&] {
      int const x = perform<O, P, R>(r, legal, sent, !f.odd);
      if (x < 0) _exit(78);
      return x != 0;
    });
    g_beh = 'p';
    if (got == "n/a") continue;
    ++g_rows;
    g_used.insert(r.text);
    if (got != expect) {
      std::printf("BAD %s: %s -> %s, expected %s\n", f.name, r.text.c_str(), got.c_str(), expect.c_str());
    }
  }
}
} // namespace as

int main(int, char ** argv)
{
  using namespace as;
  std::ifstream in(argv[1]);
  for (std::string line; std::getline(in, line);) {
    std::istringstream is(line);
    Row r;
    is >> r.group >> r.route >> r.dst >> r.src >> r.val >> r.beh >> r.expect;
    r.text = line;
    g_rowsV.push_back(r);
  }
#if PART == 0
  family<tiny::optional<int>, int>({"int", true, false}, 4, -7);
  family<tiny::optional<int, -7>, int>({"int sentinel", false, false}, 4, -7);
  family<tiny::optional<unsigned char, 255>, unsigned char>({"uchar sentinel", false, false}, 4, 255);
  family<tiny::optional<long long, (1ll << 40)>, long long>({"llong sentinel", false, false}, 0, 1ll << 40);
  family<tiny::optional<int const, -7>, int>({"const int sentinel", false, false}, 4, -7);
  family<tiny::optional_aip<int>, int>({"aip int", false, false}, 4, INT32_MIN);
  family<tiny::optional_aip<unsigned short>, unsigned short>({"aip ushort", false, false}, 4, 65535);
  family<tiny::optional_sentinel_via_type<int, S7>, int>({"via type", false, false}, 4, -7);
  family<tiny::optional_sentinel_via_type<double, SD>, double>({"via type double", false, false}, 4, -2.5);
  family<tiny::optional_sentinel_via_type<Sm, SSm>, Sm>({"via type class", false, false}, Sm{4}, Sm{-7});
  family<tiny::optional<RegE>, RegE>({"registered enum", false, false}, RegE::a, RegE::none);
  family<tiny::optional<E2, e2>, E2>({"enum sentinel", false, false}, e0, e2);
#elif PART == 1
#if defined(__x86_64__)
  family<tiny::optional<double>, double>({"double", NOBIT, false}, 1.5, bits<double>(std::uint64_t(0x7ff8fedcba987654)));
  family<tiny::optional<float>, float>({"float", NOBIT, false}, 1.5f, bits<float>(std::uint32_t(0x7fedcba9)));
  family<tiny::optional<int *>, int *>({"pointer", NOBIT, false}, nullptr, bits<int *>(std::uint64_t(0xffff800000000000ull - 1)));
  family<tiny::optional<void (*)()>, void (*)()>({"function pointer", NOBIT, false}, nullptr, bits<void (*)()>(std::uint64_t(0xffff800000000000ull - 1)));
  family<tiny::optional<int * const>, int *>({"const pointer", NOBIT, false}, nullptr, bits<int *>(std::uint64_t(0xffff800000000000ull - 1)));
#else
  family<tiny::optional<int *>, int *>({"pointer", NOBIT, false}, nullptr, bits<int *>(std::uint32_t(0xffffffffu - 8)));
#endif
#elif PART == 2
  family<tiny::optional<Odd<true>>, Odd<true>, int>({"class", true, true}, 4, -7);
  family<tiny::optional<Odd<true>, &Odd<true>::v, -7>, Odd<true>, int>({"member", NOMEM, true}, 4, -7);
  family<tiny::optional<Odd<false>, &Odd<false>::v, -7>, Odd<false>, int>({"member, throwing", NOMEM, true}, 4, -7);
#elif PART == 3
  family<tiny::optional_sentinel_via_type<Odd<true>, S7, &Odd<true>::v>, Odd<true>, int>({"member via type", NOMEM, true}, 4, -7);
  family<tiny::optional_inplace<Odd<true>, OddManip<Odd<true>>>, Odd<true>, int>({"inplace", false, true}, 4, -7);
  family<tiny::optional_inplace<Odd<false>, OddManip<Odd<false>>>, Odd<false>, int>({"inplace, throwing", false, true}, 4, -7);
#elif PART == 4
  family<tiny::optional<RegOdd>, RegOdd, int>({"registered class", false, true}, 4, -7);
  family<tiny::optional<RegOddT>, RegOddT, int>({"registered class, throwing", false, true}, 4, -7);
#endif
  for (Row const & r : g_rowsV) {
    if (!g_used.count(r.text)) std::printf("UNUSED %s\n", r.text.c_str());
  }
  std::printf("ROWS %d\nDONE cases=%d\n", g_rows, g_cases);
}
