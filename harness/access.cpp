// Executes the rows of spec/Access.tla: exact result types of the members of all flavours of optionals.
// usage: access ROWS
#include "tiny/optional.h"
#include <cstdio>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

static int g_int = 0;
static std::string g_fncat; // how a function object was called
struct Cls
{
  tiny::optional<char> memt() const & { g_fncat = "pmf&"; return 'a'; }
  tiny::optional<char> memt() const && { g_fncat = "pmf&&"; return 'a'; }
  std::optional<char> mems() const & { g_fncat = "pmf&"; return 'a'; }
  std::optional<char> mems() const && { g_fncat = "pmf&&"; return 'a'; }
  double d = 1;
  int v = 3;
  Cls() = default;
  explicit Cls(int x) : v(x) {}
  Cls(std::initializer_list<int> l, int x) : v(x + static_cast<int>(l.size())) {}
  friend bool operator==(Cls const & a, Cls const & b) { return a.v == b.v; }
  friend bool operator<(Cls const & a, Cls const & b) { return a.v < b.v; }
};
template <> struct std::hash<Cls> { std::size_t operator()(Cls const & c) const { return static_cast<std::size_t>(c.v); } };
struct MoveOnly
{
  double d = 1;
  int v = 3;
  MoveOnly() = default;
  MoveOnly(MoveOnly &&) = default;
  MoveOnly & operator=(MoveOnly &&) = default;
  explicit MoveOnly(int x) : v(x) {}
  MoveOnly(std::initializer_list<int> l, int x) : v(x + static_cast<int>(l.size())) {}
  friend bool operator==(MoveOnly const & a, MoveOnly const & b) { return a.v == b.v; }
  friend bool operator<(MoveOnly const & a, MoveOnly const & b) { return a.v < b.v; }
};
template <> struct std::hash<MoveOnly> { std::size_t operator()(MoveOnly const & c) const { return static_cast<std::size_t>(c.v); } };
enum class Enum : unsigned char { a, b, c };
struct V7 { static constexpr int value = -7; };
struct VD { static constexpr double value = -7.5; };
struct IManip
{
  static bool is_empty(int const volatile & i) noexcept { return i == -9; }
  static void init_empty_flag(int & i) noexcept { ::new (&i) int(-9); }
  static void invalidate_empty_flag(int &) noexcept {}
};
struct CManip
{
  static bool is_empty(Cls const & i) noexcept { return i.v == -9; }
  static void init_empty_flag(Cls & i) noexcept { ::new (&i) Cls(-9); }
  static void invalidate_empty_flag(Cls &) noexcept {}
};

static std::map<std::string, std::string> g_rows; // "use qual pcv" -> type
static long g_cases = 0;
static std::set<std::string> g_used;

static bool pick(std::string const & w, bool const * v)
{
  static char const * const names[] = {"T",   "T&",   "T&&",   "T*",   "Tc", "Tc&", "Tc&&", "Tc*", "Tv",   "Tv&",  "Tv&&",
                                       "Tv*", "Tcv", "Tcv&", "Tcv&&", "Tcv*", "O",  "O&",  "R",    "X",   "bool", "void", "size_t"};
  int i = 0;
  for (char const * n : names) {
    if (w == n) return v[i];
    ++i;
  }
  std::printf("MISSING type %s\n", w.c_str());
  return true;
}
template <class X, class P, class O, class R, class XO>
bool is_type(std::string const & w)
{
#define CV(T) std::is_same_v<X, T>, std::is_same_v<X, T &>, std::is_same_v<X, T &&>, std::is_same_v<X, T *>
  static constexpr bool v[] = {CV(P), CV(P const), CV(P volatile), CV(P const volatile), std::is_same_v<X, O>, std::is_same_v<X, O &>, std::is_same_v<X, R>,
                               std::is_same_v<X, XO>, std::is_same_v<X, bool>, std::is_void_v<X>, std::is_same_v<X, std::size_t>};
  static_assert(sizeof v == 23);
  return pick(w, v);
}

template <class T> std::string pretty() { return __PRETTY_FUNCTION__; }

template <class P> P make() { return P(1); }
template <> int * make<int *>() { return &g_int; }
template <> Enum make<Enum>() { return Enum::a; }

static bool g_argok = false;
static std::string g_argwant;
template <class P, class R>
struct Fn
{
  template <class X>
  R operator()(X &&) const
  {
    g_argok = is_type<X &&, P, void *, void *, void *>(g_argwant);
    return R();
  }
};
template <class P>
struct FnVal
{
  template <class X>
  short const operator()(X &&) const
  {
    g_argok = is_type<X &&, P, void *, void *, void *>(g_argwant);
    return 4;
  }
};

// Records with which category it is called.
template <class R>
struct Callable
{
  template <class... X> R operator()(X &&...) & { g_fncat = "F&"; return R(); }
  template <class... X> R operator()(X &&...) const & { g_fncat = "Fc&"; return R(); }
  template <class... X> R operator()(X &&...) && { g_fncat = "F&&"; return R(); }
  template <class... X> R operator()(X &&...) const && { g_fncat = "Fc&&"; return R(); }
};

template <class P, class O, template <class...> class Opt, bool STD>
struct Check
{
  using T = typename O::value_type; // checked by the row value_type
  using R = Opt<char>;
  using XO = std::conditional_t<STD, std::optional<short>, tiny::optional<short>>;
  static constexpr bool vol = std::is_volatile_v<T>;
  char const * what;
  std::string pcv, qual;

  std::string const * row(char const * use)
  {
    std::string const key = std::string(use) + " " + qual + " p" + pcv;
    auto const it = g_rows.find(key);
    if (it == g_rows.end()) {
      return nullptr;
    }
    g_used.insert(key);
    ++g_cases;
    return &it->second;
  }
  void say(char const * use, std::string const & is, std::string const & want)
  {
    std::printf("%s %s [type] %s on %s: wrong type (%s), should be %s\n", STD ? "MISSING std::optional disagrees with Access.tla:" : "BAD", what, use, qual.c_str(), is.c_str(), want.c_str());
  }
  template <class X> void type(char const * use)
  {
    if (auto const * w = row(use)) {
      bool const open = STD && std::is_const_v<X> && std::string(use) == "value_or"; // without const only since C++26
      if (!is_type<X, P, O, R, XO>(*w) && !open) {
        say(use, pretty<X>(), *w);
      }
    }
  }
  template <class Call> void fn(char const * use, Call const & call)
  {
    if (auto const * w = row(use)) {
      g_fncat = "not called";
      call();
      if (g_fncat != *w) say(use, g_fncat, *w);
    }
  }
  template <class Q> void monadic(Q && o)
  {
#if __cplusplus < 202002L
    if constexpr (STD) {
      (void)o;
      return;
    }
    else
#else
    if constexpr (STD && __cplusplus <= 202002L) {
      (void)o;
      return;
    }
    else
#endif
    {
      type<decltype(std::forward<Q>(o).and_then(Fn<P, R>{}))>("and_then");
      type<decltype(std::forward<Q>(o).transform(FnVal<P>{}))>("transform");
      if (auto const * w = row("and_then_arg")) {
        g_argwant = *w;
        g_argok = false;
        (void)std::forward<Q>(o).and_then(Fn<P, R>{});
        if (!g_argok) say("and_then_arg", "?", *w);
      }
      if (auto const * w = row("transform_arg")) {
        g_argwant = *w;
        g_argok = false;
        (void)std::forward<Q>(o).transform(FnVal<P>{});
        if (!g_argok) say("transform_arg", "?", *w);
      }
      if constexpr (std::is_same_v<P, Cls>) {
        using Ret = std::conditional_t<STD, std::optional<char>, tiny::optional<char>>;
        if constexpr (std::is_lvalue_reference_v<Q>) {
          Ret (Cls::*f)() const & = nullptr;
          if constexpr (STD) f = &Cls::mems; else f = &Cls::memt;
          fn("and_then_pmf", [&] { (void)o.and_then(f); });
          fn("transform_pmf", [&] { (void)o.transform(f); });
        }
        else {
          Ret (Cls::*f)() const && = nullptr;
          if constexpr (STD) f = &Cls::mems; else f = &Cls::memt;
          fn("and_then_pmf", [&] { (void)std::forward<Q>(o).and_then(f); });
          fn("transform_pmf", [&] { (void)std::forward<Q>(o).transform(f); });
        }
      }
      if constexpr (std::is_copy_constructible_v<T> || std::is_same_v<Q, O>) {
        Callable<R> fa;
        Callable<short> ft;
        fn("and_then_fn_l", [&] { (void)std::forward<Q>(o).and_then(fa); });
        fn("and_then_fn_cl", [&] { (void)std::forward<Q>(o).and_then(static_cast<Callable<R> const &>(fa)); });
        fn("and_then_fn_r", [&] { (void)std::forward<Q>(o).and_then(std::move(fa)); });
        fn("and_then_fn_cr", [&] { (void)std::forward<Q>(o).and_then(static_cast<Callable<R> const &&>(fa)); });
        fn("transform_fn_l", [&] { (void)std::forward<Q>(o).transform(ft); });
        fn("transform_fn_cl", [&] { (void)std::forward<Q>(o).transform(static_cast<Callable<short> const &>(ft)); });
        fn("transform_fn_r", [&] { (void)std::forward<Q>(o).transform(std::move(ft)); });
        fn("transform_fn_cr", [&] { (void)std::forward<Q>(o).transform(static_cast<Callable<short> const &&>(ft)); });
      }
#if __cplusplus >= 202002L
      if constexpr (!vol && (std::is_copy_constructible_v<T> || std::is_same_v<Q, O>)) {
        O empty;
        using E = std::conditional_t<std::is_lvalue_reference_v<Q>, std::remove_reference_t<Q> &, Q>;
        Callable<O> fo;
        fn("or_else_fn_l", [&] { (void)static_cast<E &&>(empty).or_else(fo); });
        fn("or_else_fn_cl", [&] { (void)static_cast<E &&>(empty).or_else(static_cast<Callable<O> const &>(fo)); });
        fn("or_else_fn_r", [&] { (void)static_cast<E &&>(empty).or_else(std::move(fo)); });
        fn("or_else_fn_cr", [&] { (void)static_cast<E &&>(empty).or_else(static_cast<Callable<O> const &&>(fo)); });
      }
#endif
#if __cplusplus >= 202002L
      if constexpr (!vol && (std::is_copy_constructible_v<T> || std::is_same_v<Q, O>)) {
        type<decltype(std::forward<Q>(o).or_else(std::declval<O (*)()>()))>("or_else");
      }
#endif
    }
  }
  template <class Q> void observe(Q && o)
  {
    type<decltype(*std::forward<Q>(o))>("deref");
    type<decltype(std::forward<Q>(o).value())>("value");
    type<decltype(std::forward<Q>(o).operator->())>("arrow");
    if constexpr (!vol && (std::is_copy_constructible_v<T> || std::is_same_v<Q, O>)) {
      type<decltype(std::forward<Q>(o).value_or(std::declval<P>()))>("value_or");
      if constexpr (std::is_same_v<P, int>) {
        type<decltype(std::forward<Q>(o).value_or('a'))>("value_or");
      }
    }
    type<decltype(std::forward<Q>(o).has_value())>("has_value");
    type<decltype(std::forward<Q>(o).operator bool())>("bool");
    type<typename std::remove_reference_t<Q>::value_type>("value_type");
    if constexpr (!vol) {
      type<decltype(std::hash<O>{}(o))>("hash");
    }
    type<decltype(std::forward<Q>(o) == std::forward<Q>(o))>("cmp_eq");
    type<decltype(std::forward<Q>(o) < std::forward<Q>(o))>("cmp_lt");
    type<decltype(std::forward<Q>(o) == std::nullopt)>("cmp_null");
    monadic(std::forward<Q>(o));
  }
  template <class Q> void mutate(Q && o)
  {
    using std::swap;
    if constexpr (std::is_lvalue_reference_v<Q>) {
      if constexpr (std::is_constructible_v<T, int>) {
        type<decltype(o.emplace(1))>("emplace");
      }
      type<decltype(o.emplace())>("emplace");
      if constexpr (std::is_class_v<P>) {
        type<decltype(o.emplace({1, 2}, 1))>("emplace_il");
      }
      type<decltype(o.reset())>("reset");
    }
    type<decltype(std::forward<Q>(o) = std::nullopt)>("assign_null");
    if constexpr (std::is_same_v<T, P>) {
      if constexpr (std::is_lvalue_reference_v<Q>) {
        type<decltype(o.swap(o))>("swap");
        type<decltype(swap(o, o))>("free_swap");
      }
      if constexpr (std::is_copy_constructible_v<T>) {
        type<decltype(std::forward<Q>(o) = std::declval<O const &>())>("assign_copy");
        type<decltype(std::forward<Q>(o) = std::declval<P const &>())>("assign_value");
        type<decltype(std::forward<Q>(o) = std::declval<P &>())>("assign_value");
      }
      type<decltype(std::forward<Q>(o) = std::declval<O>())>("assign_move");
      type<decltype(std::forward<Q>(o) = std::declval<P>())>("assign_value");
      type<decltype(std::forward<Q>(o) = {})>("assign_brace");
    }
  }
  void run()
  {
    O o(std::in_place, make<P>());
    qual = "l";
    observe<O &>(o);
    mutate<O &>(o);
    qual = "cl";
    observe<O const &>(o);
    qual = "r";
    observe<O>(std::move(o));
    mutate<O>(std::move(o));
    qual = "cr";
    observe<O const>(std::move(static_cast<O const &>(o)));
  }
};
template <class... X> using TinyOptV = tiny::optional<X...>;
template <class... X> using StdOptV = std::optional<X...>;

template <class P, class O> void tinyo(char const * what)
{
  using T = typename O::value_type;
  Check<P, O, TinyOptV, false> c{what, std::string(std::is_const_v<T> ? "c" : "") + (std::is_volatile_v<T> ? "v" : ""), ""};
  c.run();
}
template <class P, class O> void stdo(char const * what)
{
  using T = typename O::value_type;
  Check<P, O, StdOptV, true> c{what, std::string(std::is_const_v<T> ? "c" : "") + (std::is_volatile_v<T> ? "v" : ""), ""};
  c.run();
}
#define TINY(P, ...) tinyo<P, __VA_ARGS__>(#__VA_ARGS__)
#define STDO(P, ...) stdo<P, __VA_ARGS__>(#__VA_ARGS__)
#ifdef TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS
  #define NOAIP
#endif

int main(int argc, char ** argv)
{
  if (argc < 2) return 2;
  std::ifstream in(argv[1]);
  for (std::string l; std::getline(in, l);) {
    std::istringstream s(l);
    std::string u, q, p, t;
    s >> u >> q >> p >> t;
    if (!t.empty()) g_rows[u + " " + q + " " + p] = t;
  }
  STDO(int, std::optional<int>);
  STDO(double, std::optional<double const>);
  STDO(Cls, std::optional<Cls>);
  STDO(Cls, std::optional<Cls const>);
  STDO(MoveOnly, std::optional<MoveOnly>);
  STDO(int *, std::optional<int *>);
  STDO(Enum, std::optional<Enum>);

  TINY(int, tiny::optional<int>);
  TINY(int, tiny::optional<int const>);
  TINY(int, tiny::optional<int volatile>);
  TINY(int, tiny::optional<int const volatile>);
  TINY(int, tiny::optional<int, -7>);
  TINY(int, tiny::optional<int const, -7>);
  TINY(int, tiny::optional<int volatile, -7>);
  TINY(int, tiny::optional<int const volatile, -7>);
  TINY(double, tiny::optional<double>);
  TINY(double, tiny::optional<double const>);
  TINY(double, tiny::optional<double volatile>);
  TINY(bool, tiny::optional<bool>);
  TINY(int *, tiny::optional<int *>);
  TINY(Enum, tiny::optional<Enum>);
  TINY(Enum, tiny::optional<Enum, Enum::c>);
  TINY(Cls, tiny::optional<Cls>);
  TINY(Cls, tiny::optional<Cls const>);
  TINY(Cls, tiny::optional<Cls, &Cls::d>);
  TINY(Cls, tiny::optional<Cls, &Cls::v, -7>);
  TINY(MoveOnly, tiny::optional<MoveOnly>);
  TINY(MoveOnly, tiny::optional<MoveOnly, &MoveOnly::d>);
  TINY(int, tiny::optional_aip<int>);
  TINY(unsigned, tiny::optional_aip<unsigned, 5>);
#ifndef NOAIP
  TINY(double, tiny::optional_aip<double>);
#endif
  TINY(int, tiny::optional_sentinel_via_type<int, V7>);
  TINY(double, tiny::optional_sentinel_via_type<double, VD>);
  TINY(Cls, tiny::optional_sentinel_via_type<Cls, V7, &Cls::v>);
  TINY(int, tiny::optional_inplace<int, IManip>);
  TINY(Cls, tiny::optional_inplace<Cls, CManip>);

  for (auto const & r : g_rows) {
#if __cplusplus < 202002L
    if (r.first.rfind("or_else", 0) == 0) continue;
#endif
    if (g_used.count(r.first) == 0) std::printf("MISSING row %s not executed\n", r.first.c_str());
  }
  std::printf("ROWS %zu\nDONE cases=%ld\n", g_used.size(), g_cases);
}
