// Runs the same pseudo random histories on tiny optionals and on std::optional and prints a digest of everything observable.
// -DFWD=0..3: forward header not included / before / after / both.
// The digest has to be the same in every configuration.
#ifndef FWD
  #define FWD 0
#endif
namespace cf
{
enum class Reg : short { a = 1, b = 2, c = 3, none = -9 };
struct Rec { int v; int tail; };
enum class Plain { a, b, c };
} // namespace cf
#if FWD == 1 || FWD == 3
  #include "tiny/optional_flag_manipulator_fwd.h"
template <>
struct tiny::optional_flag_manipulator<cf::Rec>
{
  static bool is_empty(cf::Rec const & r) noexcept { return r.tail == -1; }
  static void init_empty_flag(cf::Rec & r) noexcept { r.tail = -1; }
  static void invalidate_empty_flag(cf::Rec & r) noexcept { r.tail = 0; }
};
#endif
#include "tiny/optional.h"
#if FWD >= 2
  #include "tiny/optional_flag_manipulator_fwd.h"
#endif
#include "tiny/optional.h"
#if !(FWD == 1 || FWD == 3)
template <>
struct tiny::optional_flag_manipulator<cf::Rec>
{
  static bool is_empty(cf::Rec const & r) noexcept { return r.tail == -1; }
  static void init_empty_flag(cf::Rec & r) noexcept { r.tail = -1; }
  static void invalidate_empty_flag(cf::Rec & r) noexcept { r.tail = 0; }
};
#endif
template <>
struct tiny::optional_flag_manipulator<cf::Reg> : tiny::sentinel_flag_manipulator<cf::Reg, cf::Reg::none> {};

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <optional>
#include <string>
#include <vector>

namespace cf
{
inline bool operator==(Rec const & a, Rec const & b) { return a.v == b.v; }
inline bool operator!=(Rec const & a, Rec const & b) { return a.v != b.v; }
inline bool operator<(Rec const & a, Rec const & b) { return a.v < b.v; }
inline bool operator>(Rec const & a, Rec const & b) { return a.v > b.v; }
inline bool operator<=(Rec const & a, Rec const & b) { return a.v <= b.v; }
inline bool operator>=(Rec const & a, Rec const & b) { return a.v >= b.v; }
struct Big
{
  double d = 1.5;
  bool b = true;
  int * p = nullptr;
  int v = 0;
  std::string s;
  Big(int v) : v(v), s(std::to_string(v)) {}
  bool operator==(Big const & o) const { return v == o.v && s == o.s; }
  bool operator!=(Big const & o) const { return !(*this == o); }
  bool operator<(Big const & o) const { return v < o.v; }
  bool operator>(Big const & o) const { return v > o.v; }
  bool operator<=(Big const & o) const { return v <= o.v; }
  bool operator>=(Big const & o) const { return v >= o.v; }
};
struct S7 { static constexpr int value = -7; };
struct SD { static constexpr double value = -2.5; };
struct IManip
{
  static bool is_empty(int const & r) noexcept { return r == -7; }
  static void init_empty_flag(int & r) noexcept { r = -7; }
  static void invalidate_empty_flag(int & r) noexcept { r = 0; }
};
inline int g_arr[4];

template <class P> struct Val;
template <> struct Val<int> { static int get(int i) { return i; } static long key(int const & v) { return v; } };
template <> struct Val<bool> { static bool get(int i) { return (i & 1) != 0; } static long key(bool const & v) { return v; } };
template <> struct Val<double> { static double get(int i) { return i * 0.5; } static long key(double const & v) { return long(v * 2); } };
template <> struct Val<float> { static float get(int i) { return i * 0.5f; } static long key(float const & v) { return long(v * 2); } };
template <> struct Val<int *> { static int * get(int i) { return i == 0 ? nullptr : g_arr + i % 4; } static long key(int * const & v) { return v == nullptr ? -1 : v - g_arr; } };
template <> struct Val<Reg> { static Reg get(int i) { return Reg(1 + i % 3); } static long key(Reg const & v) { return long(v); } };
template <> struct Val<Plain> { static Plain get(int i) { return Plain(i % 3); } static long key(Plain const & v) { return long(v); } };
template <> struct Val<Rec> { static Rec get(int i) { return Rec{i, 5}; } static long key(Rec const & v) { return v.v; } };
template <> struct Val<Big> { static Big get(int i) { return Big(i); } static long key(Big const & v) { return v.v * 100 + long(v.s.size()) * 10 + long(v.d) + v.b + (v.p == nullptr); } };
template <> struct Val<std::string> { static std::string get(int i) { return std::string(std::size_t(i) * 5, 'x'); } static long key(std::string const & v) { return long(v.size()); } };
template <> struct Val<std::vector<int>> { static std::vector<int> get(int i) { return std::vector<int>(std::size_t(i)); } static long key(std::vector<int> const & v) { return long(v.size()); } };

template <class O, class P>
std::uint64_t digest(unsigned seed, int steps)
{
  std::uint64_t d = 14695981039346656037ull, rng = seed;
  auto mix = [&](long x) { d = (d ^ std::uint64_t(x + 77)) * 1099511628211ull; };
  auto rnd = [&](int n) { rng = rng * 6364136223846793005ull + 1442695040888963407ull; return int((rng >> 33) % std::uint64_t(n)); };
  using V = Val<P>;
  auto state = [&](O const & o) {
    mix(o.has_value());
    mix(bool(o));
    if (o) mix(V::key(*o)), mix(V::key(o.value()));
    mix(V::key(o.value_or(V::get(3))));
  };
  struct W { O o[3]; } w;
  for (int k = 0; k < steps; ++k) {
    int const i = rnd(3), j = (i + 1 + rnd(2)) % 3, v = rnd(5);
    O & a = w.o[i];
    O & b = w.o[j];
    switch (rnd(22)) {
    case 0: a.reset(); break;
    case 1: a = std::nullopt; break;
    case 2: a = {}; break;
    case 3: a = V::get(v); break;
    case 4: { P const p = V::get(v); a = p; break; }
    case 5: a.emplace(V::get(v)); break;
    case 6: a = b; break;
    case 7: a = std::move(b); if (b) b = V::get(v); break;
    case 8: a.swap(b); break;
    case 9: { using std::swap; swap(a, b); break; }
    case 10: { O c(a); state(c); O e(std::move(c)); state(e); b = e; break; }
    case 11: { O c(std::in_place, V::get(v)); state(c); a = c; break; }
    case 12: if (a) { *a = V::get(v); } break;
    case 13: try { a.value() = V::get(v); mix(1); } catch (std::bad_optional_access const &) { mix(2); } break;
    case 14: mix(a == b), mix(a != b), mix(a == std::nullopt), mix(std::nullopt != b), mix(a == V::get(v)), mix(V::get(v) != b); break;
    case 15:
      if constexpr (!std::is_same_v<P, std::vector<int>> || true) {
        mix(a < b), mix(a <= b), mix(a > b), mix(a >= b), mix(a < std::nullopt), mix(std::nullopt < a), mix(a < V::get(v)), mix(V::get(v) < a);
      }
      break;
    case 16: { O const & c = a; state(c); break; }
    case 17: { O c(V::get(v)); c.reset(); state(c); c = V::get(v + 1); state(c); break; }
    case 18: { O c = V::get(v); O e; e = c; state(e); e = O(); state(e); break; }
    case 19: { O c(std::nullopt); state(c); c.emplace(V::get(v)); c = a; state(c); break; }
    case 20: { std::vector<O> vec(3, a); vec.push_back(b); vec.erase(vec.begin()); vec.insert(vec.begin(), O(V::get(v))); for (auto & x : vec) state(x); break; }
    case 21: a = a; state(a); break;
    }
    for (auto & x : w.o) state(x);
  }
  return d;
}

template <class O, class P = typename O::value_type>
void test(char const * name, unsigned seed, int steps)
{
  std::uint64_t const t = digest<O, P>(seed, steps), s = digest<std::optional<P>, P>(seed, steps);
  std::printf("DIGEST %s %llx %llx\n", name, (unsigned long long)t, (unsigned long long)s);
}
} // namespace cf

int main(int, char ** argv)
{
  using namespace cf;
  unsigned const seed = unsigned(std::atoi(argv[1]));
  int const steps = std::atoi(argv[2]);
#define T(name, ...) test<__VA_ARGS__>(name, seed, steps)
  T("int", tiny::optional<int>);
  T("int-7", tiny::optional<int, -7>);
  T("aip", tiny::optional_aip<int>);
  T("via", tiny::optional_sentinel_via_type<int, S7>);
  T("viad", tiny::optional_sentinel_via_type<double, SD>);
  T("inplace", tiny::optional_inplace<int, IManip>);
  T("bool", tiny::optional<bool>);
  T("double", tiny::optional<double>);
  T("float", tiny::optional<float>);
  T("ptr", tiny::optional<int *>);
  T("reg", tiny::optional<Reg>);
  T("plain", tiny::optional<Plain>);
  T("rec", tiny::optional<Rec>);
  T("big", tiny::optional<Big>);
  T("bigv", tiny::optional<Big, &Big::v, -7>);
  T("bigvia", tiny::optional_sentinel_via_type<Big, S7, &Big::v>);
  T("bigb", tiny::optional<Big, &Big::b, false>);
#if !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  T("bigd", tiny::optional<Big, &Big::d>);
  T("bigp", tiny::optional<Big, &Big::p>);
#else
  T("bigd", tiny::optional<Big>); // this macro combination requires a sentinel
  T("bigp", tiny::optional<Big>);
#endif
  T("string", tiny::optional<std::string>);
  T("vector", tiny::optional<std::vector<int>>);
  std::printf("DONE\n");
}
