// Optional types which the visualizer file supports, and the ways to bring them into a state.
#pragma once
#include <tiny/optional.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <limits>
#include <memory>
#include <string>
#include <typeinfo>
#include <utility>
#include <vector>

namespace nv {
enum class E { a, b, c, z };
inline int f0() { return 0; }
inline int f1() { return 1; }
inline int f2() { return 2; }
inline int gi[3];
inline int * gp[3] = {gi, gi + 1, gi + 2};
using F = int (*)();

struct S {
  long long pad = 0x0102030405060708;
  bool b = false;
  double d = 0;
  float f = 0;
  int i = 0;
  int * p = nullptr;
  F fn = nullptr;
  short s = 0;
  char tail = 7;
  S() = default;
  explicit S(int v) : b(v == 1), d(v), f(float(v)), i(v), p(gi + v), fn(v == 0 ? f0 : v == 1 ? f1 : f2), s(short(v)) { }
};
struct FirstD { double d; char c[3]; explicit FirstD(int v) : d(v), c{1, 2, 3} { } };
struct LastS { char c[5]; unsigned u; explicit LastS(int v) : c{1, 2, 3, 4, 5}, u(unsigned(v)) { } };
struct Cls { std::string s; int i; explicit Cls(int v) : s(40, char('a' + v)), i(v) { } };
struct SI { static constexpr int value = -77; };
struct SD { static constexpr double value = -77.5; };

template <class T> T arr(T a, T b, T c, int v) { return v == 0 ? a : v == 1 ? b : c; }

#define NV_SCHEMES(X) \
  X(bool, tiny::optional<bool>, arr<bool>(false, true, true, v)) \
  X(double, tiny::optional<double>, arr<double>(0.0, -1.5, std::numeric_limits<double>::quiet_NaN(), v)) \
  X(float, tiny::optional<float>, arr<float>(0.0f, -1.5f, std::numeric_limits<float>::quiet_NaN(), v)) \
  X(ptr, tiny::optional<int *>, arr<int *>(nullptr, gi, (int *)(~std::uintptr_t(0)), v)) \
  X(cptr, tiny::optional<char const *>, arr<char const *>(nullptr, "x", (char const *)(~std::uintptr_t(0) - 7), v)) \
  X(pptr, tiny::optional<int **>, arr<int **>(nullptr, gp, gp + 1, v)) \
  X(fptr, tiny::optional<F>, arr<F>(nullptr, f0, f1, v)) \
  X(sent_int, (tiny::optional<int, -1>), arr<int>(0, 1, std::numeric_limits<int>::min(), v)) \
  X(sent_uint, (tiny::optional<unsigned, 4294967295u>), arr<unsigned>(0, 1, 4294967294u, v)) \
  X(sent_uchar, (tiny::optional<unsigned char, 200>), arr<unsigned char>(0, 255, 199, v)) \
  X(sent_llong, (tiny::optional<long long, std::numeric_limits<long long>::min()>), arr<long long>(0, -1, std::numeric_limits<long long>::min() + 1, v)) \
  X(sent_enum, (tiny::optional<E, E::z>), arr<E>(E::a, E::b, E::c, v)) \
  X(sent_bool, (tiny::optional<bool, true>), false) \
  X(aip_int, tiny::optional_aip<int>, arr<int>(0, 1, std::numeric_limits<int>::max(), v)) \
  X(aip_ushort, tiny::optional_aip<unsigned short>, arr<unsigned short>(0, 1, 65534, v)) \
  X(aip_sent, (tiny::optional_aip<int, 42>), arr<int>(0, 41, 43, v)) \
  X(aip_double, tiny::optional_aip<double>, arr<double>(0.0, 1e300, std::numeric_limits<double>::infinity(), v)) \
  X(via_int, (tiny::optional_sentinel_via_type<int, SI>), arr<int>(0, 77, -78, v)) \
  X(via_double, (tiny::optional_sentinel_via_type<double, SD>), arr<double>(0.0, 77.5, -77.25, v)) \
  X(mem_bool, (tiny::optional<S, &S::b>), S(v)) \
  X(mem_double, (tiny::optional<S, &S::d>), S(v)) \
  X(mem_float, (tiny::optional<S, &S::f>), S(v)) \
  X(mem_ptr, (tiny::optional<S, &S::p>), S(v)) \
  X(mem_fptr, (tiny::optional<S, &S::fn>), S(v)) \
  X(mem_sent_int, (tiny::optional<S, &S::i, -9>), S(v)) \
  X(mem_sent_short, (tiny::optional<S, &S::s, -9>), S(v)) \
  X(mem_via, (tiny::optional_sentinel_via_type<S, SI, &S::i>), S(v)) \
  X(mem_first_double, (tiny::optional<FirstD, &FirstD::d>), FirstD(v)) \
  X(mem_last_sent, (tiny::optional<LastS, &LastS::u, 99u>), LastS(v)) \
  X(sep_int, tiny::optional<int>, arr<int>(0, 1, -1, v)) \
  X(sep_string, tiny::optional<std::string>, std::string(40, char('a' + v))) \
  X(sep_class, tiny::optional<Cls>, Cls(v)) \
  X(sep_enum, tiny::optional<E>, arr<E>(E::a, E::b, E::c, v)) \
  X(sep_nested, (tiny::optional<tiny::optional<int>>), arr<tiny::optional<int>>(tiny::optional<int>(), tiny::optional<int>(1), tiny::optional<int>(2), v))

template <class T> struct unparen;
template <class T> struct unparen<void(T)> { using type = T; };
#define NV_TYPE(...) typename ::nv::unparen<void(__VA_ARGS__)>::type

inline std::string demangle(char const * n)
{
  int st = 0;
  std::unique_ptr<char, void (*)(void *)> p(abi::__cxa_demangle(n, nullptr, nullptr, &st), std::free);
  return st == 0 ? p.get() : n;
}

// Positions of the wildcards: arguments of class templates.
template <class X> struct args;
template <class T> struct box { using type = T; };
template <std::size_t N, class... A> struct nth;
template <class H, class... A> struct nth<0, H, A...> { using type = H; };
template <std::size_t N, class H, class... A> struct nth<N, H, A...> : nth<N - 1, A...> { };
template <template <class...> class C, class... A> struct args<C<A...>> {
  template <std::size_t N> using type = typename nth<N, A...>::type;
};
template <template <class, auto> class C, class A, auto M> struct args<C<A, M>> {
  template <std::size_t N> using type = typename nth<N, A, box<void>>::type;
  template <std::size_t N> static constexpr auto value = M;
};
template <class X, std::size_t N> using arg_t = typename args<X>::template type<N>;
template <class M> std::ptrdiff_t offset(M m)
{
  static_assert(sizeof(M) == sizeof(std::ptrdiff_t));
  std::ptrdiff_t r;
  std::memcpy(&r, &m, sizeof r);
  return r;
}

struct Shown {
  std::string text;
  std::vector<void const *> objects; // lvalues shown
};
struct ShownItem {
  std::string name, text;
  void const * object = nullptr;
  bool isBool = false, boolean = false;
};
template <class T> void const * address(T const & x) { return static_cast<void const *>(std::addressof(x)); }
inline void const * address(char const *) { return nullptr; }
template <std::size_t N> void const * address(char const (&)[N]) { return nullptr; }
template <class R> void const * address(R (*const & x)()) { return static_cast<void const *>(&x); }

inline int g_bad = 0, g_cases = 0;
inline void bad(std::string const & row, std::string const & what)
{
  if (++g_bad <= 40)
    std::printf("BAD %s: %s\n", row.c_str(), what.c_str());
}

template <class Opt, class Make, class Look> void history(std::string const & name, std::string const & way, int v, bool empty, Make make, Look look)
{
  using T = std::remove_cv_t<std::remove_reference_t<decltype(*std::declval<Opt &>())>>;
  alignas(Opt) unsigned char raw[sizeof(Opt)];
  std::memset(raw, 0xa5, sizeof raw); // padding and unused storage are arbitrary
  Opt * o = nullptr;
  auto value = [&] { return make(v); };
  if (way == "default") o = ::new (raw) Opt();
  else if (way == "value") o = ::new (raw) Opt(std::in_place, value());
  else if (way == "nullopt") o = ::new (raw) Opt(std::nullopt);
  else if (way == "reset") { o = ::new (raw) Opt(std::in_place, value()); o->reset(); }
  else if (way == "assign") { o = ::new (raw) Opt(); *o = value(); }
  else if (way == "copy") { Opt s(std::in_place, value()); o = ::new (raw) Opt(s); }
  else if (way == "move") { Opt s(std::in_place, value()); o = ::new (raw) Opt(std::move(s)); }
  else if (way == "emplace") { o = ::new (raw) Opt(); o->emplace(value()); }
  else if (way == "swap") { Opt s(std::in_place, value()); o = ::new (raw) Opt(); o->swap(s); }
  else if (way == "assign_empty") { o = ::new (raw) Opt(std::in_place, value()); Opt s; *o = s; }
  else { std::printf("MISSING %s\n", way.c_str()); std::exit(3); }
  std::string row = name + " " + way + " " + std::to_string(v);
  if (o->has_value() == empty)
    bad(row, "state after the history");
  look(*o, row, empty);
  ++g_cases;
  (void)sizeof(T);
  o->~Opt();
}

template <class Opt> void judge(Opt const & o, std::string const & row, bool empty, Shown const & d, std::vector<ShownItem> const & items)
{
  bool mentionsEmpty = d.text.find("nullopt") != std::string::npos;
  if (empty) {
    if (!mentionsEmpty || !d.objects.empty())
      bad(row, "an empty optional is shown as: " + d.text);
  }
  else {
    if (mentionsEmpty || d.objects.size() != 1 || d.objects[0] != address(*o))
      bad(row, "an optional with value is shown as: " + d.text);
  }
  int val = 0, nul = 0;
  for (auto const & it : items) {
    if (it.name.find("Raw") != std::string::npos || it.name.find("raw") != std::string::npos)
      continue;
    if (it.text == "nullopt") ++nul;
    else if (it.isBool) {
      if (it.name == "is_compressed" && it.boolean != Opt::is_compressed)
        bad(row, "is_compressed");
    }
    else {
      ++val;
      if (empty || it.object != address(*o))
        bad(row, "item " + it.name);
    }
  }
  if (!items.empty() && (nul != (empty ? 1 : 0) || val != (empty ? 0 : 1)))
    bad(row, "items shown");
}
}
