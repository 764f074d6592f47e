// Replays the comparison table exported by TLC from spec/Compare.tla on all pairs of optional flavours.
#include "tiny/optional.h"
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#if defined(__cpp_lib_three_way_comparison) && defined(__cpp_lib_concepts)
  #define HAVE_3WAY 1
  #include <compare>
#else
  #define HAVE_3WAY 0
#endif

static std::map<std::string, std::string> g_rows; // "op l r oracle" -> "result calls"
static long g_cases = 0, g_bad = 0;
static std::set<std::string> g_used;

static void bad(std::string const & where, std::string const & what)
{
  if (++g_bad <= 60)
    std::cout << "BAD " << where << ": " << what << "\n";
}

//------------------------------------------------------------------------------
// Payloads that log each operator call and answer as told.
// Tags 0, 1: six unrelated operators ('six'); tag 3: only == and <=> ('three').
struct Call
{
  std::string op;
  void const * l;
  void const * r;
};
static std::vector<Call> g_calls;
static unsigned g_truth = 0; // bit per operator: what the payload operator answers
static int g_order = 0;      // what <=> answers

template <int Tag> struct V
{
  int id = 0;
  int m = 4;
  V() = default;
  explicit V(int id) : id(id) { }
};
static bool ask(int op, void const * l, void const * r)
{
  static char const * const ops[] = {"==", "!=", "<", "<=", ">", ">="};
  g_calls.push_back({ops[op], l, r});
  return (g_truth >> op) & 1;
}
#define VOP(OP, N)                                                                                                     \
  template <int A, int B> std::enable_if_t<(A < 3 && B < 3), bool> operator OP(V<A> const & l, V<B> const & r) { return ask(N, &l, &r); }
VOP(==, 0) VOP(!=, 1) VOP(<, 2) VOP(<=, 3) VOP(>, 4) VOP(>=, 5)
#if HAVE_3WAY
inline bool operator==(V<3> const & l, V<3> const & r) { return ask(0, &l, &r); }
inline std::partial_ordering operator<=>(V<3> const & l, V<3> const & r)
{
  g_calls.push_back({"<=>", &l, &r});
  // (antisymmetric, because the language may evaluate 0 <=> (r <=> l) instead)
  switch (l.id > r.id && g_order != 3 ? 2 - g_order : g_order) {
  case 0: return std::partial_ordering::less;
  case 1: return std::partial_ordering::equivalent;
  case 2: return std::partial_ordering::greater;
  default: return std::partial_ordering::unordered;
  }
}
#endif
struct Manip
{
  template <class T> static bool is_empty(T const & p) noexcept { return p.m == -1; }
  template <class T> static void init_empty_flag(T & p) noexcept { ::new (&p.m) int(-1); }
  template <class T> static void invalidate_empty_flag(T &) noexcept { }
};
// Payload without operator<=>.
struct NoSpace
{
  int v = 0;
  friend bool operator==(NoSpace a, NoSpace b) { return a.v == b.v; }
  friend bool operator!=(NoSpace a, NoSpace b) { return a.v != b.v; }
  friend bool operator<(NoSpace a, NoSpace b) { return a.v < b.v; }
  friend bool operator<=(NoSpace a, NoSpace b) { return a.v <= b.v; }
  friend bool operator>(NoSpace a, NoSpace b) { return a.v > b.v; }
  friend bool operator>=(NoSpace a, NoSpace b) { return a.v >= b.v; }
};

template <class T> struct Derived : tiny::optional<T>
{
  using tiny::optional<T>::optional;
};

//------------------------------------------------------------------------------
template <class T> constexpr bool isOpt = tiny::is_tiny_optional_v<T>;
template <class T> constexpr bool isOpt<std::optional<T>> = true;
template <class T> struct isDer : std::false_type { };
template <class T> struct isDer<Derived<T>> : std::true_type { };

template <class X> char side(X const & x)
{
  if constexpr (std::is_same_v<X, std::nullopt_t>)
    return 'N';
  else if constexpr (isOpt<X>)
    return x.has_value() ? 'V' : 'E';
  else
    return 'P';
}
template <class X> decltype(auto) val(X const & x)
{
  if constexpr (isOpt<X>)
    return (*x);
  else
    return (x);
}

struct Eq { static constexpr char const * n = "=="; template <class A, class B> auto operator()(A && a, B && b) const { return a == b; } };
struct Ne { static constexpr char const * n = "!="; template <class A, class B> auto operator()(A && a, B && b) const { return a != b; } };
struct Lt { static constexpr char const * n = "<"; template <class A, class B> auto operator()(A && a, B && b) const { return a < b; } };
struct Le { static constexpr char const * n = "<="; template <class A, class B> auto operator()(A && a, B && b) const { return a <= b; } };
struct Gt { static constexpr char const * n = ">"; template <class A, class B> auto operator()(A && a, B && b) const { return a > b; } };
struct Ge { static constexpr char const * n = ">="; template <class A, class B> auto operator()(A && a, B && b) const { return a >= b; } };
#if HAVE_3WAY
struct Sp { static constexpr char const * n = "<=>"; template <class A, class B> auto operator()(A && a, B && b) const { return a <=> b; } };
#endif

static std::string show(bool b) { return b ? "T" : "F"; }
#if HAVE_3WAY
static std::string show(std::partial_ordering o) { return o < 0 ? "lt" : (o > 0 ? "gt" : (o == 0 ? "eq" : "un")); }
#endif

static void judge(char const * where, char const * pc, char const * op, char ls, char rs, std::string const & oracle, std::string const & got,
                  bool logged, void const * la, void const * ra)
{
  std::string const key = std::string(pc) + " " + op + " " + ls + " " + rs + " " + oracle;
  auto it = g_rows.find(key);
  if (it == g_rows.end()) {
    bad(where, "no row for " + key);
    return;
  }
  g_used.insert(key);
  ++g_cases;
  std::istringstream is(it->second);
  std::string exp, asked;
  std::size_t n = 0;
  is >> exp >> n >> asked;
  if (got != exp)
    bad(where, key + ": expected " + exp + ", got " + got);
  if (logged) {
    if (g_calls.size() != n)
      bad(where, key + ": payload operator called " + std::to_string(g_calls.size()) + " times");
    else if (n == 1) {
      if (g_calls[0].op != asked)
        bad(where, key + ": another payload operator called: " + g_calls[0].op);
      // (the language may swap the operands of a rewritten == or <=>)
      bool const straight = g_calls[0].l == la && g_calls[0].r == ra;
      bool const swapped = g_calls[0].l == ra && g_calls[0].r == la;
      if (!straight && !(swapped && std::string(pc) == "three"))
        bad(where, key + ": payload operator called with other operands");
    }
  }
}

static char const * g_pc = "six";

template <class O, class A, class B> void check(char const * where, O op, A && a, B && b, bool logged)
{
  char const ls = side(a), rs = side(b);
  bool const both = (ls == 'V' || ls == 'P') && (rs == 'V' || rs == 'P');
  std::string oracle = "-";
  void const *la = nullptr, *ra = nullptr;
  constexpr bool noNull = !std::is_same_v<std::decay_t<A>, std::nullopt_t> && !std::is_same_v<std::decay_t<B>, std::nullopt_t>;
  if constexpr (noNull) {
    if (both) {
      oracle = show(op(val(std::as_const(a)), val(std::as_const(b))));
      la = std::addressof(val(a));
      ra = std::addressof(val(b));
    }
  }
  g_calls.clear();
  auto const res = op(a, b);
  bool const three = std::string(op.n) == "<=>" || std::string(g_pc) == "three";
  judge(where, three ? "three" : "six", op.n, ls, rs, oracle, show(res), logged, la, ra);
}

template <class A, class B> void six(char const * w, A && a, B && b, bool logged)
{
  check(w, Eq{}, a, b, logged);
  check(w, Ne{}, a, b, logged);
  check(w, Lt{}, a, b, logged);
  check(w, Le{}, a, b, logged);
  check(w, Gt{}, a, b, logged);
  check(w, Ge{}, a, b, logged);
}
template <bool spaceship, class A, class B> void all(std::string const & ws, A && a, B && b, bool logged, bool three = false)
{
  char const * w = ws.c_str();
  g_pc = three ? "three" : "six";
  for (unsigned t = 0; t < (logged ? 64u : 1u); ++t) {
    g_truth = t;
    for (g_order = 0; g_order < (three ? 4 : 1); ++g_order) {
      six(w, a, b, logged);
      six(w, std::as_const(a), std::as_const(b), logged);
    }
  }
#if HAVE_3WAY
  if constexpr (spaceship)
    for (g_order = 0; g_order < (three ? 4 : 1); ++g_order) {
      check(w, Sp{}, a, b, logged && three);
      check(w, Sp{}, std::as_const(a), std::as_const(b), logged && three);
    }
#endif
}

template <class T> std::string nm();
#define NAME(N, ...) template <> std::string nm<__VA_ARGS__>() { return N; }
#define FLAVOURS(T)                                                                                                    \
  using TV##T = tiny::optional<V<T>>;                                                                                  \
  using TM##T = tiny::optional<V<T>, &V<T>::m, -7>;                                                                    \
  using TS##T = tiny::optional_sentinel_via_type<V<T>, std::integral_constant<int, -9>, &V<T>::m>;                     \
  using TI##T = tiny::optional_inplace<V<T>, Manip>;                                                                   \
  using SV##T = std::optional<V<T>>;                                                                                   \
  NAME("tiny<V" #T ">", TV##T) NAME("tiny<V" #T ",mem>", TM##T) NAME("viatype<V" #T ">", TS##T) NAME("inplace<V" #T ">", TI##T) \
  NAME("std<V" #T ">", SV##T) NAME("V" #T, V<T>)
FLAVOURS(0) FLAVOURS(1)
#if HAVE_3WAY
FLAVOURS(3)
#endif
using DV0 = Derived<V<0>>;
NAME("derived<V0>", DV0)

// Values to compare of type X: an empty one and an engaged one / just the value.
template <class X> struct TagOf : std::integral_constant<int, -1> { };
template <int T> struct TagOf<V<T>> : std::integral_constant<int, T> { };
template <class X> constexpr int tagOf()
{
  if constexpr (isOpt<X>)
    return TagOf<typename X::value_type>::value;
  else
    return TagOf<X>::value;
}
template <class A, class B, bool spaceship = tagOf<A>() == 3> void pairs()
{
  constexpr bool three = tagOf<A>() == 3;
  std::string const w = nm<A>() + "|" + nm<B>();
  auto mk = [](auto tag, int k) {
    using X = typename decltype(tag)::type;
    if constexpr (isOpt<X>)
      return k == 0 ? X() : X(std::in_place, k);
    else
      return X(k);
  };
  struct TA { using type = A; };
  struct TB { using type = B; };
  for (int i = isOpt<A> ? 0 : 1; i < 2; ++i)
    for (int j = isOpt<B> ? 0 : 1; j < 2; ++j) {
      A a = mk(TA{}, i);
      B b = mk(TB{}, 2 * j);
      all<spaceship>(w, a, b, true, three);
    }
}
template <class A> void alone()
{
  constexpr bool three = tagOf<A>() == 3;
  std::string const w = nm<A>() + "|nullopt";
  A e, f(std::in_place, 1);
  auto n = std::nullopt;
  all<true>(w, e, n, true, three);
  all<true>(w, f, n, true, three);
  all<true>("~" + w, n, e, true, three);
  all<true>("~" + w, n, f, true, three);
  // the same object on both sides
  all<three>(nm<A>() + " with itself", e, e, true, three);
  all<three>(nm<A>() + " with itself", f, f, true, three);
}
template <class A, class B> void both()
{
  pairs<A, B>();
  pairs<B, A>();
}

//------------------------------------------------------------------------------
// Ordinary payloads; the oracle is the payload's own operator.
template <class A, class B> void grid(std::string const & w, std::vector<A> const & as, std::vector<B> const & bs)
{
  for (std::size_t i = 0; i < as.size(); ++i)
    for (std::size_t j = 0; j < bs.size(); ++j) {
      A a = as[i];
      B b = bs[j];
      std::string const x = w + "[" + std::to_string(i) + "," + std::to_string(j) + "]";
      all<true>(x, a, b, false);
      all<true>("~" + x, b, a, false);
    }
}
template <class A, class B> void gridNo3(std::string const & w, std::vector<A> const & as, std::vector<B> const & bs)
{
  for (auto a : as)
    for (auto b : bs) {
      all<false>(w, a, b, false);
      all<false>("~" + w, b, a, false);
    }
}
template <class A> void gridNull(std::string const & w, std::vector<A> const & as)
{
  auto n = std::nullopt;
  for (auto a : as) {
    all<true>(w + "|nullopt", a, n, false);
    all<true>("~" + w + "|nullopt", n, a, false);
  }
}

enum class E : short { a, b, c = -5 };

#if PART == 7
// Operands of different arithmetic types: neither may be converted to the type of the other one before the comparison.
template <class O> static O engaged(typename O::value_type v) { return O(v); }
template <class O> static std::vector<O> opts(std::vector<typename O::value_type> const & vs)
{
  std::vector<O> r(1);
  for (auto v : vs) {
    r.push_back(engaged<O>(v));
  }
  return r;
}
static void ordinaryC()
{
  long long const two32 = 1ll << 32;
  std::vector<int> const wide{-1, 0, 1, 44, 127, 128, 255, 256, 257, 300, -256, 65536};
  std::vector<long long> const ll{-1, 0, 1, two32, two32 + 1, -two32, two32 - 1};
  std::vector<double> const d{-0.5, 0.0, 0.1, 0.5, 1.0, 1.5, 16777217.0, 256.0, -1.0, 4294967296.0};
  auto uc = opts<tiny::optional<unsigned char>>({0, 1, 44, 255});
  auto ucs = opts<tiny::optional<unsigned char, 7>>({0, 1, 44, 255});
  auto sc = opts<tiny::optional_aip<signed char, 5>>({0, 1, 44, -1, 127});
  auto in = opts<tiny::optional<int>>({-1, 0, 1, 44, 256, 300, 16777217});
  auto ins = opts<tiny::optional<int, -77>>({-1, 0, 1, 44, 256, 300});
  auto un = opts<tiny::optional<unsigned>>({0u, 1u, 44u, ~0u});
  auto lo = opts<tiny::optional_aip<long long>>({-1, 0, 1, two32, two32 + 1, two32 - 1});
  auto fl = opts<tiny::optional<float>>({0.0f, 0.1f, 0.5f, 1.0f, 16777216.0f});
  auto db = opts<tiny::optional<double>>({0.0, 0.1, 0.5, 1.0, 1.5, 256.0, 16777217.0});
  auto ch = opts<tiny::optional<char>>({'a', 'b', '\xff'});
  std::vector<std::optional<long long>> sl{{}, -1, 0, 1, two32, two32 + 1};
  std::vector<std::optional<double>> sd{{}, 0.1, 0.5, 1.0, 1.5};
  std::vector<std::optional<unsigned>> su{{}, 0u, 1u, ~0u};
  grid("uchar/raw int", uc, wide);
  grid("uchar sent/raw int", ucs, wide);
  grid("schar/raw int", sc, wide);
  grid("char/raw int", ch, std::vector<int>{'a', 'b', -1, 255, 256 + 'a'});
  grid("int/raw ll", in, ll);
  grid("int sent/raw ll", ins, ll);
  grid("int/raw lossy", in, d);
  grid("ll/raw lossy", lo, d);
  grid("float/raw double", fl, d);
  grid("uchar/int", uc, in);
  grid("uchar sent/int sent", ucs, ins);
  grid("int/ll", in, lo);
  grid("int/std ll", in, sl);
  grid("int/double lossy", in, db);
  grid("int/std double lossy", ins, sd);
  grid("float/std double lossy", fl, sd);
  grid("float/double lossy", fl, db);
  gridNo3("unsigned/raw int", un, std::vector<int>{-1, 0, 1, 44});
  gridNo3("int/raw unsigned", in, std::vector<unsigned>{~0u, 0u, 1u});
  gridNo3("unsigned/int", un, in);
  gridNo3("int/std unsigned", ins, su);
}
#endif

#if PART == 5 || PART == 6
static void ordinaryA()
{
  using std::nullopt;
  double const nan = std::numeric_limits<double>::quiet_NaN();
  double const inf = std::numeric_limits<double>::infinity();
  std::vector<tiny::optional<double>> td{{}, 0.0, -0.0, 1.0, nan, inf, -inf};
  std::vector<tiny::optional<float>> tf{{}, 0.0f, 1.0f, std::numeric_limits<float>::quiet_NaN(), -1.0f};
  std::vector<std::optional<double>> sd{{}, 0.0, 1.0, nan, -1.0};
  std::vector<double> d{0.0, -0.0, 1.0, nan, inf};
  std::vector<int> in{-1, 0, 1};
  std::vector<tiny::optional<int>> ti{{}, -1, 0, 1};
  std::vector<tiny::optional<int, -77>> ts{{}, -1, 0, 1};
  std::vector<tiny::optional_aip<long long>> ta{{}, -1ll, 0ll, 1ll};
  std::vector<tiny::optional_aip<int>> tai{{}, -1, 0, 1};
  std::vector<std::optional<int>> si{{}, -1, 0, 1};
  std::vector<tiny::optional<bool>> tb{{}, false, true};
  std::vector<std::optional<bool>> sb{{}, false, true};
  std::vector<bool> bb{false, true};
  grid("double", td, td);
  grid("double/float", td, tf);
  grid("double/std", td, sd);
  grid("float/std double", tf, sd);
  grid("double/raw", td, d);
  grid("double/int", td, in);
  grid("int", ti, ti);
  grid("int/sent", ti, ts);
  grid("int/aip", ti, ta);
  grid("sent/aip", ts, tai);
  grid("aip/std", tai, si);
  grid("aip/raw", tai, in);
  grid("aipll/raw", ta, in);
  grid("sent/std", ts, si);
  grid("sent/raw", ts, in);
  grid("int/raw", ti, in);
  grid("int/double", ti, d);
  grid("bool", tb, tb);
  grid("bool/std", tb, sb);
  {
    std::vector<char> dummy;
    bool const raw[2] = {false, true};
    for (auto o : tb)
      for (bool v : raw) {
        all<true>("bool/raw", o, v, false);
        all<true>("~bool/raw", v, o, false);
      }
  }
  gridNull("double", td);
  gridNull("float", tf);
  gridNull("int", ti);
  gridNull("sent", ts);
  gridNull("aip", ta);
  gridNull("bool", tb);

}

static void ordinaryB()
{
  std::vector<int> in{-1, 0, 1};
  std::vector<tiny::optional<int>> ti{{}, -1, 0, 1};
  static int arr[3];
  std::vector<tiny::optional<int *>> tp{{}, nullptr, arr, arr + 1};
  std::vector<int *> p{nullptr, arr, arr + 2};
  std::vector<std::optional<int *>> sp{{}, nullptr, arr + 1};
  grid("ptr", tp, tp);
  grid("ptr/raw", tp, p);
  grid("ptr/std", tp, sp);
  gridNull("ptr", tp);

  std::vector<tiny::optional<E>> te{{}, E::a, E::b, E::c};
  std::vector<tiny::optional<E, E::b>> tes{{}, E::a, E::c};
  std::vector<E> e{E::a, E::b, E::c};
  grid("enum", te, tes);
  grid("enum/raw", tes, e);

  std::vector<tiny::optional<std::string>> tstr{{}, std::string(), std::string("a"), std::string("abc")};
  std::vector<std::optional<std::string>> sstr{{}, std::string(), std::string("b")};
  std::vector<std::string> str{"", "a", "zz"};
  std::vector<char const *> lit{"", "a", "zz"};
  grid("string", tstr, tstr);
  grid("string/std", tstr, sstr);
  grid("string/raw", tstr, str);
  grid("string/literal", tstr, lit);
  gridNull("string", tstr);

  std::vector<tiny::optional<int const>> tc{{}, tiny::optional<int const>(-1), tiny::optional<int const>(1)};
  for (auto & c : tc)
    for (auto & i : ti) {
      all<true>("const int", c, i, false);
      all<true>("~const int", i, c, false);
    }
  for (auto & c : tc)
    for (auto & i : in) {
      all<true>("const int/raw", c, i, false);
      all<true>("~const int/raw", i, c, false);
    }

  using N1 = tiny::optional<tiny::optional<int>>;
  std::vector<N1> nest{N1(), N1(std::in_place), N1(std::in_place, -1), N1(std::in_place, 1)};
  gridNull("nested", nest);
  gridNo3("nested", nest, nest);
  gridNo3("nested/inner", nest, ti);

  std::vector<tiny::optional<NoSpace>> ns{{}, NoSpace{0}, NoSpace{1}};
  std::vector<std::optional<NoSpace>> nss{{}, NoSpace{0}, NoSpace{1}};
  std::vector<NoSpace> nsr{NoSpace{0}, NoSpace{1}};
  gridNo3("no <=>", ns, ns);
  gridNo3("no <=>/std", ns, nss);
  gridNo3("no <=>/raw", ns, nsr);
  gridNull("no <=>", ns);
}
#endif

#if HAVE_3WAY && PART == 4
// The category of <=> is that of the payload.
template <class A, class B, class R> constexpr bool cat =
    std::is_same_v<decltype(std::declval<A const &>() <=> std::declval<B const &>()), R>;
static void categories()
{
  struct Item { bool ok; char const * what; };
  Item const items[] = {
      {cat<tiny::optional<int>, tiny::optional<int>, std::strong_ordering>, "int <=> int"},
      {cat<tiny::optional<int>, tiny::optional<double>, std::partial_ordering>, "int <=> double"},
      {cat<tiny::optional<double>, std::optional<double>, std::partial_ordering>, "double <=> std"},
      {cat<std::optional<int>, tiny::optional<int>, std::strong_ordering>, "std <=> int"},
      {cat<tiny::optional<int>, int, std::strong_ordering>, "int <=> raw"},
      {cat<int, tiny::optional<int>, std::strong_ordering>, "raw <=> int"},
      {cat<tiny::optional<double>, std::nullopt_t, std::strong_ordering>, "double <=> nullopt"},
      {cat<TV3, TM3, std::partial_ordering>, "V3 <=> V3"}};
  for (auto & i : items) {
    ++g_cases;
    if (!i.ok)
      bad("category", i.what);
  }
}
#endif

#define ALONE(T) alone<TV##T>(); alone<TM##T>(); alone<TS##T>(); alone<TI##T>();
#define SAME(T)                                                                                                        \
  pairs<TV##T, TV##T>(); both<TV##T, TM##T>(); both<TV##T, TS##T>(); both<TV##T, TI##T>(); both<TM##T, TS##T>();       \
  both<TM##T, TI##T>(); both<TS##T, TI##T>();
#define OTHER(X, T, U) both<T##X, U##X>();
#define VAL(A, T) both<TV##A, V<T>>(); both<TM##A, V<T>>(); both<TS##A, V<T>>(); both<TI##A, V<T>>();
#define STD(A, T) both<TV##A, SV##T>(); both<TM##A, SV##T>(); both<TS##A, SV##T>(); both<TI##A, SV##T>();

int main(int argc, char ** argv)
{
  if (argc < 2)
    return 3;
  std::ifstream in(argv[1]);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    std::string pc, op, l, r, o, rest;
    is >> pc >> op >> l >> r >> o;
    std::getline(is, rest);
    g_rows[pc + " " + op + " " + l + " " + r + " " + o] = rest;
  }
#if PART == 0
  ALONE(0) ALONE(1)
  SAME(0)
  alone<DV0>();
  both<DV0, TV0>();
  both<DV0, TI0>();
  both<DV0, V<0>>();
#elif PART == 1
  VAL(0, 0) STD(0, 0)
#elif PART == 2
  // different payload types
  VAL(0, 1) STD(0, 1) both<TV0, TV1>(); both<TM0, TV1>(); both<TI0, TM1>(); both<TS1, TV0>();
#elif PART == 3
  #if HAVE_3WAY
  ALONE(3) SAME(3)
  #endif
#elif PART == 4
  #if HAVE_3WAY
  VAL(3, 3) STD(3, 3)
  categories();
  #endif
#elif PART == 5
  ordinaryA();
#elif PART == 7
  ordinaryC();
#elif PART == 6
  ordinaryB();
#endif
  for (auto & u : g_used)
    std::cout << "ROW " << u << "\n";
  std::cout << "DONE cases=" << g_cases << " bad=" << g_bad << "\n";
  return 0;
}
