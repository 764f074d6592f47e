// Executes the rows of spec/Forward.tla: what the payload sees of the arguments given to an optional.
// usage: forward ROWS
#include "tiny/optional.h"
#include <cstdio>
#include <fstream>
#include <initializer_list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>

static std::string g_log;
static bool g_on = false;
static void note(std::string const & s)
{
  if (!g_on) return;
  if (!g_log.empty()) g_log += ';';
  g_log += s;
}
struct ArgBase
{
  int id;
  explicit ArgBase(int i) : id(i) {}
  ArgBase(ArgBase const & o) : id(o.id) { note("copied argument"); }
  ArgBase(ArgBase && o) noexcept : id(o.id) { note("moved argument"); }
  ArgBase & operator=(ArgBase const &) = default;
};
struct Arg : ArgBase { using ArgBase::ArgBase; };
struct XArg : ArgBase { using ArgBase::ArgBase; };
template <class X> using bare = std::remove_cv_t<std::remove_reference_t<X>>;
template <class X> constexpr bool isA = std::is_same_v<bare<X>, Arg>;
template <class X> constexpr bool isX = std::is_same_v<bare<X>, XArg>;
template <class A> std::string one(A && a)
{
  return std::to_string(a.id) + (std::is_const_v<std::remove_reference_t<A>> ? "c" : "") + (std::is_lvalue_reference_v<A> ? "l" : "r");
}
template <class... A> std::string show(A &&... a)
{
  std::string s;
  ((s += (s.empty() ? "" : ",") + one(std::forward<A>(a))), ...);
  return s;
}
struct Probe
{
  double d = 1;
  int v = 1;
  Probe() { note("C:"); }
  template <class A, std::enable_if_t<isA<A>, int> = 0> Probe(A && a) { note("C:" + show(std::forward<A>(a))); }
  template <class A, std::enable_if_t<isX<A>, int> = 0> explicit Probe(A && a) { note("C:" + show(std::forward<A>(a))); }
  template <class A, class B, class... Z, std::enable_if_t<isA<A> && isA<B> && (isA<Z> && ...), int> = 0>
  explicit Probe(A && a, B && b, Z &&... z) { note("C:" + show(std::forward<A>(a), std::forward<B>(b), std::forward<Z>(z)...)); }
  Probe(std::initializer_list<int> l) { note(l.size() == 2 && *l.begin() == 1 ? "L:" : "wrong list"); }
  template <class A, class... Z, std::enable_if_t<isA<A> && (isA<Z> && ...), int> = 0>
  explicit Probe(std::initializer_list<int> l, A && a, Z &&... z) { note((l.size() == 2 && *l.begin() == 1 ? "L:" : "wrong list") + show(std::forward<A>(a), std::forward<Z>(z)...)); }
  Probe(std::initializer_list<Arg>) { note("braces used"); }
  Probe(Probe const & o) : d(o.d), v(o.v) { note("K"); }
  Probe(Probe && o) : d(o.d), v(o.v) { note("M"); }
  template <class A, std::enable_if_t<isA<A> || isX<A>, int> = 0> Probe & operator=(A && a) & { note("A:" + show(std::forward<A>(a))); return *this; }
  Probe & operator=(Probe const &) & { note("A:K"); return *this; }
  Probe & operator=(Probe &&) & { note("A:M"); return *this; }
  ~Probe() { note("D"); }
};
struct V7 { static constexpr int value = -7; };
struct PManip
{
  static bool is_empty(Probe const & p) noexcept { return p.v == -9; }
  static void init_empty_flag(Probe & p) noexcept { ::new (static_cast<void *>(&p.v)) int(-9); }
  static void invalidate_empty_flag(Probe &) noexcept {}
};

static std::map<std::string, std::string> g_rows;
static std::set<std::string> g_used;
static long g_cases = 0;

struct L { using A = Arg &; using X = XArg &; static constexpr char const * n = "l"; };
struct CL { using A = Arg const &; using X = XArg const &; static constexpr char const * n = "cl"; };
struct R { using A = Arg &&; using X = XArg &&; static constexpr char const * n = "r"; };
struct CR { using A = Arg const &&; using X = XArg const &&; static constexpr char const * n = "cr"; };

enum class Kind { STD, TINY, CONST };

// Mk: how make_optional is called for that flavour
template <class O, Kind K, class Mk, int DEPTH = 2>
struct Check
{
  static constexpr bool STD = K == Kind::STD;
  char const * what;
  template <class F> void expect(std::string const & key, F const & f)
  {
    auto const it = g_rows.find(key);
    if (it == g_rows.end()) {
      std::printf("MISSING row %s\n", key.c_str());
      return;
    }
    g_used.insert(key);
    ++g_cases;
    g_log.clear();
    f();
    g_on = false;
    if (g_log != it->second)
      std::printf("%s %s [fwd] %s: payload saw [%s], should be [%s]\n", STD ? "MISSING std::optional disagrees with Forward.tla:" : "BAD", what, key.c_str(), g_log.c_str(), it->second.c_str());
  }
  template <class F> void targets(std::string const & e, std::string const & rest, F const & f)
  {
    expect(e + " e " + rest, [&] { O o; g_on = true; f(o); g_on = false; if (!o.has_value()) g_log += " but empty"; });
    expect(e + " v " + rest, [&] { O o(std::in_place); g_on = true; f(o); g_on = false; if (!o.has_value()) g_log += " but empty"; });
  }
  static constexpr bool assigns = K != Kind::CONST;

  template <class... C> void variadic()
  {
    std::string s;
    ((s += (s.empty() ? "" : ",") + std::string(C::n)), ...);
    s = "(" + s + ")";
    Arg a[] = {Arg(1), Arg(2), Arg(3)};
    fill<C...>(s, a, std::index_sequence_for<C...>{});
  }
  template <class... C, std::size_t... I> void fill(std::string const & s, Arg * a, std::index_sequence<I...>)
  {
    (void)a;
    expect("in_place - - " + s, [&] { g_on = true; O o(std::in_place, static_cast<typename C::A>(a[I])...); g_on = false; });
    targets("emplace", "- " + s, [&](O & o) { (void)o.emplace(static_cast<typename C::A>(a[I])...); });
    expect("in_place - L " + s, [&] { g_on = true; O o(std::in_place, {1, 2}, static_cast<typename C::A>(a[I])...); g_on = false; });
    targets("emplace", "L " + s, [&](O & o) { (void)o.emplace({1, 2}, static_cast<typename C::A>(a[I])...); });
    if constexpr (!std::is_void_v<Mk>) {
      expect("make - - " + s, [&] { g_on = true; O o = Mk::make(static_cast<typename C::A>(a[I])...); g_on = false; });
      expect("make - L " + s, [&] { g_on = true; O o = Mk::make({1, 2}, static_cast<typename C::A>(a[I])...); g_on = false; });
    }
  }
  template <class... C> void grow()
  {
    variadic<C...>();
    if constexpr (sizeof...(C) < DEPTH) {
      grow<C..., L>();
      grow<C..., CL>();
      grow<C..., R>();
      grow<C..., CR>();
    }
  }
  template <class C> void single()
  {
    std::string const r = std::string("- (") + C::n + ")";
    Arg a(1);
    XArg x(1);
    expect("value_impl - " + r, [&] { g_on = true; O o = static_cast<typename C::A>(a); g_on = false; });
    expect("value_impl - " + r, [&] { g_on = true; O o(static_cast<typename C::A>(a)); g_on = false; });
    expect("value_expl - " + r, [&] { g_on = true; O o(static_cast<typename C::X>(x)); g_on = false; });
    if constexpr (assigns) {
      targets("assign", r, [&](O & o) { o = static_cast<typename C::A>(a); });
      targets("assign", r, [&](O & o) { o = static_cast<typename C::X>(x); });
    }
    targets("value_or", r, [&](O & o) { O const & c = o; auto && y = c.value_or(static_cast<typename C::A>(a)); g_on = false; (void)y; o.emplace(); });
  }
  void run()
  {
    grow<>();
    single<L>();
    single<CL>();
    single<R>();
    single<CR>();
    if constexpr (assigns) {
      expect("brace_ctor - - ()", [&] { g_on = true; O o({1, 2}); g_on = false; });
      targets("brace_assign", "- ()", [&](O & o) { o = {1, 2}; });
    }
  }
};
struct MakeStd
{
  template <class... A> static auto make(A &&... a) { return std::make_optional<Probe>(std::forward<A>(a)...); }
  template <class... A> static auto make(std::initializer_list<int> l, A &&... a) { return std::make_optional<Probe>(l, std::forward<A>(a)...); }
};
template <auto... opts>
struct MakeTiny
{
  template <class... A> static auto make(A &&... a) { return tiny::make_optional<Probe, opts...>(std::forward<A>(a)...); }
  template <class... A> static auto make(std::initializer_list<int> l, A &&... a) { return tiny::make_optional<Probe, opts...>(l, std::forward<A>(a)...); }
};

int main(int argc, char ** argv)
{
  if (argc < 2) return 2;
  std::ifstream in(argv[1]);
  for (std::string l; std::getline(in, l);) {
    auto const p = l.rfind(' ');
    if (p != std::string::npos) g_rows[l.substr(0, p)] = l.substr(p + 1);
  }
#if PART == 0
  Check<std::optional<Probe>, Kind::STD, MakeStd>{"std::optional<Probe>"}.run();
  Check<tiny::optional<Probe>, Kind::TINY, MakeTiny<>, 3>{"optional<Probe>"}.run();
  for (auto const & r : g_rows)
    if (g_used.count(r.first) == 0) std::printf("MISSING row %s not executed\n", r.first.c_str());
#else
  Check<tiny::optional<Probe, &Probe::d>, Kind::TINY, MakeTiny<&Probe::d>>{"optional<Probe, &Probe::d>"}.run();
  Check<tiny::optional<Probe, &Probe::v, -7>, Kind::TINY, MakeTiny<&Probe::v, -7>>{"optional<Probe, &Probe::v, -7>"}.run();
  Check<tiny::optional<Probe const>, Kind::CONST, void>{"optional<Probe const>"}.run();
  Check<tiny::optional_sentinel_via_type<Probe, V7, &Probe::v>, Kind::TINY, void>{"optional_sentinel_via_type<Probe, V7, &Probe::v>"}.run();
  Check<tiny::optional_inplace<Probe, PManip>, Kind::TINY, void>{"optional_inplace<Probe, PManip>"}.run();
  Check<tiny::optional_aip<Probe, &Probe::d>, Kind::TINY, void>{"optional_aip<Probe, &Probe::d>"}.run();
#endif
  std::printf("ROWS %zu\nDONE cases=%ld\n", g_used.size(), g_cases);
}
