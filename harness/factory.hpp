// Types for the generated programs of spec/Factory.tla.
#pragma once
#include "tiny/optional.h"
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

namespace ft
{
inline int g_rows = 0;
template <class Got, class Want>
bool same(char const * row)
{
  if (std::is_same_v<Got, Want>) return true;
  std::printf("BAD %s: wrong type\n", row);
  return false;
}
inline void val(bool ok, char const * row, char const * what = "wrong value")
{
  if (!ok) std::printf("BAD %s: %s\n", row, what);
}
inline void row() { ++g_rows; }

struct Cls
{
  double d = 0;
  int v = 1, n = 0;
  char cat = '?'; // how the payload was made
  Cls() : cat('0') {}
  explicit Cls(int v) : v(v), n(1), cat('a') {}
  Cls(int v, double d) : d(d), v(v), n(2), cat('a') {}
  Cls(std::initializer_list<int> l) : v(*l.begin()), n(int(l.size())), cat('i') {}
  Cls(std::initializer_list<int> l, int x) : v(*l.begin()), n(int(l.size()) * 100 + x), cat('i') {}
  Cls(Cls const & o) : d(o.d), v(o.v), n(o.n), cat('c') {}
  Cls(Cls && o) noexcept : d(o.d), v(o.v), n(o.n), cat('m') { o.n = -1; }
  Cls & operator=(Cls const &) = default;
};
struct Immov
{
  int v = 3;
  Immov() = default;
  explicit Immov(int v) : v(v) {}
  Immov(int a, int b) : v(a + b) {}
  Immov(Immov &&) = delete;
};
enum class Enum { a, b, c };
enum class RegEnum : short { a, b, c, none = 99 };
struct S7 { static constexpr int value = -7; };
struct IManip
{
  static bool is_empty(int const & r) noexcept { return r == -7; }
  static void init_empty_flag(int & r) noexcept { r = -7; }
  static void invalidate_empty_flag(int &) noexcept {}
};
struct HasMem { int m; double d = 1; HasMem(int m) : m(m) {} };
using Fn = int(int);
inline int function(int x) { return x + 1; }

struct Incomplete;
union Union { int a; float b; };
struct FalseMarker { static constexpr bool is_tiny_optional = false; };
struct Abstract { virtual void f() = 0; };
struct Final final {};
struct Derived : tiny::optional<int> { using tiny::optional<int>::optional; };
struct Derived2 : tiny::optional_aip<unsigned> { int more = 0; };
struct PrivateBase : private tiny::optional<int> {};
inline auto lambda = [](int) { return 1; };
struct MoveOnly { MoveOnly() = default; MoveOnly(MoveOnly &&) = default; };
} // namespace ft
template <> struct tiny::optional_flag_manipulator<ft::RegEnum> : tiny::sentinel_flag_manipulator<ft::RegEnum, ft::RegEnum::none> {};
