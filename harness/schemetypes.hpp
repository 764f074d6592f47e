// The types spec/Scheme.tla speaks about.
#pragma once
#include "tiny/optional.h"
#include <array>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace st
{
enum class RegEnum : short { a = 0, b = 5, invalid = -3 };
struct RegClass { int x; int y; char tail; RegClass(int x = 1) : x(x), y(2), tail(3) {} };
enum class Enum : unsigned char { a, b, c, invalid = 200 };
enum UEnum { ua, ub, uinvalid = 77 };
enum EnumNeg { eneg = -1 };
enum EnumBig { ebig = 300 };
enum class Scoped { x = 4 };
struct Empty {};
struct alignas(64) Aligned { char c; Aligned(char c = 'x') : c(c) {} };
struct Poly { virtual ~Poly() = default; int v = 0; };
struct MoveOnly { int v = 1; MoveOnly() = default; MoveOnly(MoveOnly &&) = default; MoveOnly & operator=(MoveOnly &&) = default; };
struct NoDtor { ~NoDtor() = delete; };
struct Class
{
  int * firstPtr = nullptr;
  bool b = true;
  float f = 1;
  double d = 2;
  int * p = nullptr;
  void (*fp)() = nullptr;
  int i = 3;
  std::string s = "s";
  Enum e = Enum::a;
  long double ld = 4;
  unsigned char uc = 5;
  RegEnum r = RegEnum::a;
  bool const cb = true;
  bool lastB = false;
  Class() = default;
  Class(Class const &) = default;
};
inline bool operator==(Class const & a, Class const & b) noexcept { return a.i == b.i && a.d == b.d; }
struct Foreign { bool b; int i; double d; };
struct SmallClass
{
  int x;
  short y;
  friend constexpr bool operator==(SmallClass const & a, SmallClass const & b) noexcept { return a.x == b.x && a.y == b.y; }
};

template <class P>
struct Manip
{
  static bool is_empty(P const & p) noexcept { return *reinterpret_cast<unsigned char const *>(std::addressof(p)) == 0xEE; }
  static void init_empty_flag(P & p) noexcept { *reinterpret_cast<unsigned char *>(std::addressof(p)) = 0xEE; }
  static void invalidate_empty_flag(P & p) noexcept { *reinterpret_cast<unsigned char *>(std::addressof(p)) = 0; }
};

template <class S, S v> struct SV { static constexpr S value = v; };
struct SFloat { static constexpr float value = -1.5f; };
struct SDouble { static constexpr double value = -2.5; };
struct SLDouble { static constexpr long double value = -3.5L; };
struct SClass { static constexpr SmallClass value{1, 2}; };
struct SString { static constexpr std::string_view value = "sentinel"; };
} // namespace st

template <> struct tiny::optional_flag_manipulator<st::RegEnum> : tiny::sentinel_flag_manipulator<st::RegEnum, st::RegEnum::invalid> {};
template <> struct tiny::optional_flag_manipulator<st::RegClass>
{
  static bool is_empty(st::RegClass const & p) noexcept { return p.tail == 99; }
  static void init_empty_flag(st::RegClass & p) noexcept { ::new (&p.tail) char(99); }
  static void invalidate_empty_flag(st::RegClass & p) noexcept { p.tail = 0; }
};
