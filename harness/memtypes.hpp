// Optional types and values for the memory checks.
#pragma once
#include "tiny/optional.h"
#include <climits>
#include <cstdint>
#include <cstring>
#include <functional>
#include <optional>
#include <string>
#include <tuple>
#include <vector>

namespace mt
{
#define MT_CMP(T, E)                                                                                                   \
  friend bool operator==(T const & x, T const & y) { return x.E == y.E; }                                               \
  friend bool operator!=(T const & x, T const & y) { return x.E != y.E; }                                               \
  friend bool operator<(T const & x, T const & y) { return x.E < y.E; }                                                 \
  friend bool operator>(T const & x, T const & y) { return x.E > y.E; }                                                 \
  friend bool operator<=(T const & x, T const & y) { return x.E <= y.E; }                                               \
  friend bool operator>=(T const & x, T const & y) { return x.E >= y.E; }
struct Throw {};
// The flag variable is the first, a middle, and the last member, respectively.
struct First { int v; double d = 1; char tail[3] = {1, 2, 3}; First(int v) : v(v) {} First(Throw) : v(1) { throw 1; } MT_CMP(First, v) };
struct Mid { char pre[5] = {1, 2, 3, 4, 5}; bool b = true; char v; short s = 7; Mid(int v) : v(char(v)) {} Mid(Throw) : v(1) { throw 1; } MT_CMP(Mid, v) };
struct Last { int v; std::string name = "a string longer than the small buffer"; double d = 2; Last(int v) : v(v) {} Last(Throw) : v(1) { throw 1; } MT_CMP(Last, v) };
struct PtrMem { short v; int * p = nullptr; short w = 4; PtrMem(int v) : v(short(v)) {} PtrMem(Throw) : v(1) { throw 1; } MT_CMP(PtrMem, v) };
struct FltMem { short v; float f = 0; short w = 4; FltMem(int v) : v(short(v)) {} FltMem(Throw) : v(1) { throw 1; } MT_CMP(FltMem, v) };
struct Custom { int v; int extra = 3; Custom(int v) : v(v) {} Custom(Throw) : v(1) { throw 1; } MT_CMP(Custom, v) };
enum class Reg : unsigned char { a = 1, b = 2, c = 3, none = 255 };
enum class Plain { a, b, c };
struct S7 { static constexpr int value = -7; };
struct IManip
{
  static bool is_empty(int const & r) noexcept { return r == -7; }
  static void init_empty_flag(int & r) noexcept { ::new (&r) int(-7); }
  static void invalidate_empty_flag(int &) noexcept {}
};
inline int * pointee() { static int x[4]; return x; }

template <class P> struct Val { static P get(int i) { return P(i); } };
template <> struct Val<bool> { static bool get(int i) { return (i & 1) != 0; } };
template <> struct Val<int *> { static int * get(int i) { return reinterpret_cast<int *>(std::uintptr_t(0x1000 + 8 * i)); } };
template <> struct Val<void (*)()> { static auto get(int i) { return reinterpret_cast<void (*)()>(std::uintptr_t(0x1000 + 8 * i)); } };
template <> struct Val<Reg> { static Reg get(int i) { return Reg(1 + i % 3); } };
template <> struct Val<Plain> { static Plain get(int i) { return Plain(i % 3); } };
template <> struct Val<std::string> { static std::string get(int i) { return std::string(std::size_t(i) * 12 + 1, 'x'); } };
template <> struct Val<std::vector<int>> { static std::vector<int> get(int i) { return std::vector<int>(std::size_t(i + 1)); } };
template <> struct Val<tiny::optional<double>> { static tiny::optional<double> get(int i) { return i % 3 == 0 ? tiny::optional<double>() : tiny::optional<double>(i); } };
} // namespace mt
template <> struct tiny::optional_flag_manipulator<mt::Custom>
{
  static bool is_empty(mt::Custom const & p) noexcept { return p.extra == -1; }
  static void init_empty_flag(mt::Custom & p) noexcept { ::new (&p.extra) int(-1); }
  static void invalidate_empty_flag(mt::Custom &) noexcept {}
};
template <> struct tiny::optional_flag_manipulator<mt::Reg> : tiny::sentinel_flag_manipulator<mt::Reg, mt::Reg::none> {};

#if (!defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS) && !defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)) \
    || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS)
  #define MT_MEMBITS(X) X("member double first", tiny::optional<First, &First::d>) X("member bool", tiny::optional<Mid, &Mid::b>) \
    X("member double last", tiny::optional<Last, &Last::d>) X("member pointer", tiny::optional<PtrMem, &PtrMem::p>) X("member float", tiny::optional<FltMem, &FltMem::f>)
#else
  #define MT_MEMBITS(X)
#endif

#define MT_TYPES0(X)                                                                                                    \
  X("int", tiny::optional<int>) X("int sentinel", tiny::optional<int, -7>) X("uchar sentinel", tiny::optional<unsigned char, 255>) \
  X("short sentinel", tiny::optional<short, -7>) X("llong sentinel", tiny::optional<long long, -7>) X("aip", tiny::optional_aip<unsigned>) \
  X("via type", tiny::optional_sentinel_via_type<int, S7>) X("inplace", tiny::optional_inplace<int, IManip>)
#define MT_TYPES1(X)                                                                                                    \
  X("bool", tiny::optional<bool>) X("double", tiny::optional<double>) X("float", tiny::optional<float>) X("pointer", tiny::optional<int *>) \
  X("function pointer", tiny::optional<void (*)()>) X("long double", tiny::optional<long double>) X("char", tiny::optional<char>)
#define MT_TYPES2(X)                                                                                                    \
  X("registered enum", tiny::optional<Reg>) X("plain enum", tiny::optional<Plain>) X("string", tiny::optional<std::string>) \
  X("vector", tiny::optional<std::vector<int>>) X("nested", tiny::optional<tiny::optional<double>>) X("custom", tiny::optional<Custom>) \
  X("class", tiny::optional<Mid>) X("big class", tiny::optional<Last>)
#define MT_TYPES3(X)                                                                                                    \
  X("member int", tiny::optional<First, &First::v, -7>) X("member char", tiny::optional<Mid, &Mid::v, 'x'>)             \
  X("member via type", tiny::optional_sentinel_via_type<Last, S7, &Last::v>) X("member short", tiny::optional<PtrMem, &PtrMem::w, -7>) \
  MT_MEMBITS(X)
