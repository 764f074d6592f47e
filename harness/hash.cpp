// std::hash of optionals (spec/Hash.tla). Arguments: file with the routes, seed.
#include "tiny/optional.h"
#include <climits>
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_set>
#include <variant>
#include <vector>

namespace h
{
enum class Enum : short { a = 0, b = 5, c = -7, none = 99 };
enum class Reg : int { a, b, none = -1 };
struct Rec // hash is whatever it says
{
  double d = 1;
  std::size_t v = 0;
  int * p = nullptr;
  int tail = 0;
  Rec() = default;
  explicit Rec(std::size_t v) : v(v) {}
  friend bool operator==(Rec const & a, Rec const & b) noexcept { return a.v == b.v; }
};
struct Throws { int v = 0; };
struct Manip
{
  static bool is_empty(Rec const & r) noexcept { return r.tail == -1; }
  static void init_empty_flag(Rec & r) noexcept { r.tail = -1; }
  static void invalidate_empty_flag(Rec & r) noexcept { r.tail = 0; }
};
struct IntManip
{
  static bool is_empty(int const & r) noexcept { return r == 77; }
  static void init_empty_flag(int & r) noexcept { r = 77; }
  static void invalidate_empty_flag(int & r) noexcept { r = 0; }
};
struct SNeg { static constexpr double value = -2.5; };
struct NoHash {};
} // namespace h
template <> struct std::hash<h::Rec> { std::size_t operator()(h::Rec const & r) const noexcept { return r.v; } };
template <> struct std::hash<h::Throws> { std::size_t operator()(h::Throws const & r) const { if (r.v == 3) throw 42; return 7; } };
template <> struct tiny::optional_flag_manipulator<h::Reg> : tiny::sentinel_flag_manipulator<h::Reg, h::Reg::none> {};

static std::vector<std::string> g_value, g_empty;
static long g_cases = 0;
static std::map<std::size_t, std::string> g_emptyHashes;

static void bad(char const * what, std::string const & route, std::size_t got, std::size_t want)
{
  std::printf("BAD %s, %s: hash is %zu, should be %zu\n", what, route.c_str(), got, want);
}

template <class O> bool constexpr isConst = std::is_const_v<typename O::value_type>;

// one hash per route; false: the route does not exist for the type
template <class O, class V>
bool value(std::string const & r, V const & v, V const & w, std::size_t & out)
{
  std::hash<O> const hs{};
  constexpr bool mut = !isConst<O>;
  if (r == "ctor") { O const o(v); out = hs(o); return true; }
  if (r == "ctor_in_place") { O const o(std::in_place, v); out = hs(o); return true; }
  if (r == "emplace") { O o; o.emplace(v); out = hs(o); return true; }
  if (r == "emplace_over") { O o(w); o.emplace(v); out = hs(o); return true; }
  if (r == "copy") { O const s(v); O o(s); out = hs(o); return true; }
  if (r == "move") { O s(v); O o(std::move(s)); out = hs(o); return true; }
  if (r == "after_reset") { O o(w); o.reset(); o.emplace(v); out = hs(o); return true; }
  if (r == "transform") {
    O o(w);
    auto t = o.transform([&](auto const &) { return std::remove_cv_t<typename O::value_type>(v); });
    out = std::hash<decltype(t)>{}(t);
    return true;
  }
  if constexpr (mut) {
    if (r == "assign") { O o; o = v; out = hs(o); return true; }
    if (r == "assign_over") { O o(w); o = v; out = hs(o); return true; }
    if (r == "copy_assign") { O const s(v); O o(w); o = s; out = hs(o); return true; }
    if (r == "move_assign") { O s(v); O o; o = std::move(s); out = hs(o); return true; }
    if (r == "swap") { O o(w), q(v); o.swap(q); out = hs(o); return true; }
    if (r == "write") { O o(w); *o = v; out = hs(o); return true; }
  }
  else if (r == "assign" || r == "assign_over" || r == "copy_assign" || r == "move_assign" || r == "swap" || r == "write") {
    return false;
  }
  std::printf("MISSING %s\n", r.c_str());
  return false;
}
template <class O, class V>
bool empty(std::string const & r, V const & w, std::size_t & out)
{
  std::hash<O> const hs{};
  constexpr bool mut = !isConst<O>;
  if (r == "default") { O const o; out = hs(o); return true; }
  if (r == "nullopt") { O const o(std::nullopt); out = hs(o); return true; }
  if (r == "reset") { O o(w); o.reset(); out = hs(o); return true; }
  if (r == "reset_twice") { O o(w); o.reset(); o.reset(); out = hs(o); return true; }
  if (r == "assign_nullopt") { O o(w); o = std::nullopt; out = hs(o); return true; }
  if (r == "copy_empty") { O const s; O o(s); out = hs(o); return true; }
  if (r == "move_empty") { O s; O o(std::move(s)); out = hs(o); return true; }
  if constexpr (mut) {
    if (r == "assign_empty") { O o(w); O const e; o = e; out = hs(o); return true; }
    if (r == "swap_away") { O o(w), e; e.swap(o); out = hs(o); return true; }
  }
  else if (r == "assign_empty" || r == "swap_away") {
    return false;
  }
  std::printf("MISSING %s\n", r.c_str());
  return false;
}

template <class O, class V>
void test(char const * name, std::vector<V> const & vs)
{
  using P = std::remove_cv_t<typename O::value_type>;
  for (std::size_t i = 0; i < vs.size(); ++i) {
    V const & v = vs[i];
    V const & w = vs[(i * 7 + 1) % vs.size()];
    std::size_t const want = std::hash<P>{}(P(v));
    for (auto const & r : g_value) {
      std::size_t got = 0;
      if (!value<O>(r, v, w, got)) continue;
      ++g_cases;
      if (got != want) bad(name, r, got, want);
    }
  }
  for (auto const & r : g_empty) {
    std::size_t got = 0;
    if (!empty<O>(r, vs[0], got)) continue;
    ++g_cases;
    if (g_emptyHashes.empty()) g_emptyHashes[got] = std::string(name) + " " + r;
    if (!g_emptyHashes.count(got)) bad(name, "empty by " + r + " (compared with " + g_emptyHashes.begin()->second + ")", got, g_emptyHashes.begin()->first);
  }
  if constexpr (!isConst<O>) {
    std::unordered_set<O> set;
    for (auto const & v : vs) set.insert(O(v));
    set.insert(O());
    set.insert(O());
    for (auto const & v : vs) {
      ++g_cases;
      if constexpr (!std::is_floating_point_v<V>) {
        if (!set.count(O(v))) std::printf("BAD %s: not found in an unordered_set\n", name);
      }
    }
    if (set.count(O()) != 1) std::printf("BAD %s: empty one not found once in an unordered_set\n", name);
  }
}

static std::uint64_t g_rng = 1;
static std::uint64_t rnd() { g_rng = g_rng * 6364136223846793005ull + 1442695040888963407ull; return g_rng ^ (g_rng >> 29); }

template <class T>
std::vector<T> ints(std::initializer_list<long long> without)
{
  std::vector<T> res;
  auto add = [&](T t) {
    for (long long x : without) if (static_cast<long long>(t) == x) return;
    res.push_back(t);
  };
  for (long long k : {0, 1, 2, 3, -1, -2, 5, 42, 127, 128, 255, 256}) add(static_cast<T>(k));
  add(std::numeric_limits<T>::max());
  add(std::numeric_limits<T>::min());
  add(std::numeric_limits<T>::max() - 1);
  for (int i = 0; i < 60; ++i) add(static_cast<T>(rnd()));
  return res;
}
template <class T>
std::vector<T> floats()
{
  std::vector<T> r{T(0), T(-0.0), T(1), T(-1), T(0.5), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min(),
                   std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()};
  for (int i = 0; i < 60; ++i) r.push_back(static_cast<T>(static_cast<double>(rnd()) / 1e15));
  return r;
}

template <class O> constexpr bool hashable = std::is_default_constructible_v<std::hash<O>>;
template <class O> void no(char const * name) { ++g_cases; if (hashable<O>) std::printf("BAD %s: hashable although the payload is not\n", name); }

#define T(type, ...) test<type>(#type, __VA_ARGS__)

int main(int, char ** argv)
{
  std::ifstream in(argv[1]);
  std::string k, n;
  while (in >> k >> n) (k == "VALUE" ? g_value : g_empty).push_back(n);
  g_rng = std::strtoull(argv[2], nullptr, 10) * 77 + 5;
  {
    using namespace h;
    using I5 = tiny::optional<int, 5>; using I0 = tiny::optional<int, 0>; using Inp = tiny::optional_inplace<int, IntManip>;
    using Via = tiny::optional_sentinel_via_type<int, std::integral_constant<int, 5>>;
    using AipS = tiny::optional_aip<short>; using AipU = tiny::optional_aip<unsigned>; using AipLL = tiny::optional_aip<long long>;
    using E99 = tiny::optional<Enum, Enum::none>;
    T(tiny::optional<int>, ints<int>({}));
    T(tiny::optional<int const>, ints<int>({}));
    T(I5, ints<int>({5})); T(I0, ints<int>({0})); T(Inp, ints<int>({77})); T(Via, ints<int>({5}));
    T(AipS, ints<short>({SHRT_MIN})); T(AipU, ints<unsigned>({UINT_MAX})); T(AipLL, ints<long long>({LLONG_MIN}));
    T(tiny::optional<unsigned char>, ints<unsigned char>({})); T(tiny::optional<char16_t>, ints<char16_t>({})); T(tiny::optional<unsigned long long>, ints<unsigned long long>({}));
    T(tiny::optional<bool>, std::vector<char>{0, 1});
    T(tiny::optional<bool const>, std::vector<char>{1, 0});
    T(tiny::optional<float>, floats<float>()); T(tiny::optional<double>, floats<double>()); T(tiny::optional<double const>, floats<double>());
    T(tiny::optional<long double>, floats<long double>());
    using ViaD = tiny::optional_sentinel_via_type<double, SNeg>;
    T(ViaD, floats<double>());
    static int arr[8];
    std::vector<int *> ptrs{nullptr, arr, arr + 1, arr + 7};
    T(tiny::optional<int *>, ptrs); T(tiny::optional<int * const>, ptrs);
    using P0 = tiny::optional<int *, nullptr>;
    T(P0, (std::vector<int *>{arr, arr + 1, arr + 3}));
    T(tiny::optional<Enum>, (std::vector<Enum>{Enum::a, Enum::b, Enum::c})); T(E99, (std::vector<Enum>{Enum::a, Enum::b, Enum::c}));
    T(tiny::optional<Reg>, (std::vector<Reg>{Reg::a, Reg::b}));
    std::vector<std::string> strs{"", "a", "abc", std::string(100, 'x'), std::string("\0b", 2)};
    for (int i = 0; i < 40; ++i) strs.push_back(std::to_string(rnd()));
    T(tiny::optional<std::string>, strs); T(tiny::optional<std::string const>, strs);
    T(tiny::optional<std::string_view>, strs);
    std::vector<std::shared_ptr<int>> sh{nullptr, std::make_shared<int>(1), std::make_shared<int>(2)};
    T(tiny::optional<std::shared_ptr<int>>, sh);
    using Var = std::variant<int, std::string>;
    T(tiny::optional<Var>, (std::vector<Var>{1, 2, "x", "y"}));
    T(tiny::optional<std::optional<int>>, (std::vector<std::optional<int>>{1, 2, 0, std::optional<int>()}));
    T(tiny::optional<std::vector<bool>>, (std::vector<std::vector<bool>>{{}, {true}, {false, true}}));
    std::vector<Rec> recs;
    for (std::size_t v : {std::size_t(0), std::size_t(1), std::size_t(2), SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 2 + 1, SIZE_MAX / 2}) recs.push_back(Rec(v));
    for (int i = 0; i < 40; ++i) recs.push_back(Rec(std::size_t(rnd())));
    using RecD = tiny::optional<Rec, &Rec::d>; using RecP = tiny::optional<Rec, &Rec::p>; using RecI = tiny::optional_inplace<Rec, Manip>;
    using RecS = tiny::optional<Rec, &Rec::tail, -4>; using RecV = tiny::optional_sentinel_via_type<Rec, SNeg, &Rec::d>;
    T(tiny::optional<Rec>, recs); T(tiny::optional<Rec const>, recs); T(RecD, recs); T(RecP, recs); T(RecI, recs); T(RecS, recs); T(RecV, recs);

    // the payload's exception reaches the caller
    tiny::optional<Throws> const t(Throws{3}), u(Throws{4}), e;
    bool thrown = false;
    try { (void)std::hash<tiny::optional<Throws>>{}(t); } catch (int x) { thrown = x == 42; }
    g_cases += 3;
    if (!thrown) std::printf("BAD exception of the payload's hash lost\n");
    if (std::hash<tiny::optional<Throws>>{}(u) != 7) std::printf("BAD hash of Throws\n");
    if (std::hash<tiny::optional<Throws>>{}(e) != g_emptyHashes.begin()->first) std::printf("BAD hash of empty Throws\n");

    no<tiny::optional<NoHash>>("optional<NoHash>"); no<tiny::optional<NoHash const>>("optional<NoHash const>");
    no<tiny::optional<std::vector<int>>>("optional<vector<int>>"); no<tiny::optional<std::optional<NoHash>>>("optional<std::optional<NoHash>>");
    no<tiny::optional<tiny::optional<NoHash>>>("optional<optional<NoHash>>");
    using NI = tiny::optional_inplace<NoHash, Manip>;
    (void)sizeof(NI *);
    using Nested = tiny::optional<tiny::optional<int>>;
    if (!hashable<Nested> || !hashable<std::optional<tiny::optional<int>>> || !hashable<tiny::optional<std::unique_ptr<int>>>)
      std::printf("BAD not hashable although the payload is\n");
    else {
      Nested const n1(tiny::optional<int>(4)), n2(std::in_place), n3;
      std::hash<Nested> hs;
      g_cases += 3;
      if (hs(n1) != std::hash<int>{}(4)) std::printf("BAD nested hash\n");
      if (hs(n2) != std::hash<tiny::optional<int>>{}(tiny::optional<int>()) || hs(n3) != g_emptyHashes.begin()->first) std::printf("BAD nested hash of empties\n");
      tiny::optional<std::unique_ptr<int>> un(std::make_unique<int>(5));
      if (std::hash<decltype(un)>{}(un) != std::hash<std::unique_ptr<int>>{}(*un)) std::printf("BAD hash of unique_ptr\n");
    }
  }
  std::printf("DONE cases=%ld\n", g_cases);
}
