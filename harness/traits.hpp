// Evaluates the queries of spec/Traits.tla (same order) for one optional type.
#pragma once
#include "tiny/optional.h"
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <optional>
#include <string>
#include <type_traits>
#include <utility>

namespace tr
{
struct A {};
struct U {};

template <class P>
struct Manip
{
  static bool is_empty(P const & p) noexcept { return *reinterpret_cast<unsigned char const *>(std::addressof(p)) == 0xEE; }
  static void init_empty_flag(P & p) noexcept { *reinterpret_cast<unsigned char *>(std::addressof(p)) = 0xEE; }
  static void invalidate_empty_flag(P & p) noexcept { *reinterpret_cast<unsigned char *>(std::addressof(p)) = 0; }
};
struct S { static constexpr double value = -2.5; };

template <class O, class = void>
struct EmplaceIl : std::false_type {};
template <class O>
struct EmplaceIl<O, std::void_t<decltype(std::declval<O &>().emplace({1, 2}, 3))>> : std::true_type {};
// Copy-list-initialisation of a parameter, without and with the in place tags.
template <class O> void sink(O const &);
template <class O, class = void>
struct Braces : std::false_type {};
template <class O>
struct Braces<O, std::void_t<decltype(tr::sink<O>({}))>> : std::true_type {};
template <class O, class A, class = void>
struct BracesArgs : std::false_type {};
template <class O, class A>
struct BracesArgs<O, A, std::void_t<decltype(tr::sink<O>({std::in_place, std::declval<A>()}))>> : std::true_type {};
template <class O, class = void>
struct BracesIl : std::false_type {};
template <class O>
struct BracesIl<O, std::void_t<decltype(tr::sink<O>({std::in_place, std::declval<std::initializer_list<int> &>(), 3}))>> : std::true_type {};
template <class O, class R, class = void>
struct OrElse : std::false_type {};
template <class O, class R>
struct OrElse<O, R, std::void_t<decltype(std::declval<R>().or_else(std::declval<O (*)()>()))>> : std::true_type {};
template <class O, class = void>
struct MemberSwap : std::false_type {};
template <class O>
struct MemberSwap<O, std::enable_if_t<noexcept(std::declval<O &>().swap(std::declval<O &>()))>> : std::true_type {};

template <class O>
constexpr bool hashable = std::is_default_constructible_v<std::hash<O>> && std::is_invocable_r_v<std::size_t, std::hash<O>, O const &>;

inline long g_cases = 0;
extern char const * const g_names[];

// All comparisons with nullopt, on both sides.
template <class O> constexpr bool NullCompare()
{
#define TR_NULLCMP(OP) noexcept(std::declval<O const &>() OP std::nullopt) && noexcept(std::nullopt OP std::declval<O const &>())
  return TR_NULLCMP(==) && TR_NULLCMP(!=) && TR_NULLCMP(<) && TR_NULLCMP(<=) && TR_NULLCMP(>) && TR_NULLCMP(>=)
#ifdef __cpp_lib_three_way_comparison
      && TR_NULLCMP(<=>)
#endif
      ;
#undef TR_NULLCMP
}
// P without const; A: type for the conversions
template <class O, class P, class A>
void check(char const * row, char const * what, char const * want, bool isStd)
{
  bool const r[] = {
      std::is_default_constructible_v<O>,
      std::is_nothrow_default_constructible_v<O>,
      std::is_nothrow_destructible_v<O>,
      std::is_copy_constructible_v<O>,
      std::is_nothrow_copy_constructible_v<O>,
      std::is_move_constructible_v<O>,
      std::is_nothrow_move_constructible_v<O>,
      std::is_copy_assignable_v<O>,
      std::is_nothrow_copy_assignable_v<O>,
      std::is_move_assignable_v<O>,
      std::is_nothrow_move_assignable_v<O>,
      std::is_constructible_v<O, P const &>,
      std::is_convertible_v<P const &, O>,
      std::is_nothrow_constructible_v<O, P const &>,
      std::is_constructible_v<O, P &>,
      std::is_convertible_v<P &, O>,
      std::is_constructible_v<O, P>,
      std::is_convertible_v<P &&, O>,
      std::is_nothrow_constructible_v<O, P>,
      std::is_constructible_v<O, A>,
      std::is_convertible_v<A, O>,
      std::is_nothrow_constructible_v<O, A>,
      std::is_constructible_v<O, A const &>,
      std::is_convertible_v<A const &, O>,
      std::is_constructible_v<O, A &>,
      std::is_convertible_v<A &, O>,
      std::is_constructible_v<O, U> || std::is_constructible_v<O, U const &>,
      std::is_assignable_v<O &, U> || std::is_assignable_v<O &, U const &>,
      std::is_assignable_v<O &, P const &>,
      std::is_nothrow_assignable_v<O &, P const &>,
      std::is_assignable_v<O &, P>,
      std::is_nothrow_assignable_v<O &, P>,
      std::is_assignable_v<O &, A>,
      std::is_nothrow_assignable_v<O &, A>,
      std::is_assignable_v<O &, A const &>,
      std::is_assignable_v<O &, A &>,
      std::is_constructible_v<O, std::in_place_t, A const &>,
      std::is_constructible_v<O, std::in_place_t, A &>,
      std::is_constructible_v<O, std::nullopt_t>,
      std::is_convertible_v<std::nullopt_t, O>,
      std::is_nothrow_constructible_v<O, std::nullopt_t>,
      std::is_assignable_v<O &, std::nullopt_t>,
      std::is_nothrow_assignable_v<O &, std::nullopt_t>,
      std::is_assignable_v<O const &, std::nullopt_t> || std::is_assignable_v<O const &, P> || std::is_assignable_v<O const &, O>,
      std::is_constructible_v<O, std::in_place_t>,
      std::is_nothrow_constructible_v<O, std::in_place_t>,
      std::is_constructible_v<O, std::in_place_t, A>,
      std::is_nothrow_constructible_v<O, std::in_place_t, A>,
      std::is_constructible_v<O, std::in_place_t, P const &>,
      std::is_constructible_v<O, std::in_place_t, P>,
      std::is_constructible_v<O, std::in_place_t, U> || std::is_constructible_v<O, std::in_place_t, A, U>,
      std::is_constructible_v<O, std::in_place_t, std::initializer_list<int>, int>,
      EmplaceIl<O>::value,
      std::is_convertible_v<std::in_place_t, O> || std::is_convertible_v<std::in_place_t const &, O>,
      std::is_constructible_v<O, std::in_place_t const &>,
      Braces<O>::value,
      BracesArgs<O, A>::value || BracesArgs<O, P>::value || BracesArgs<O, P const &>::value,
      BracesIl<O>::value,
      std::is_swappable_v<O>,
      std::is_nothrow_swappable_v<O>,
      MemberSwap<O>::value,
      hashable<O>,
      std::is_constructible_v<bool, O> && std::is_constructible_v<bool, O const &>,
      std::is_convertible_v<O, bool> || std::is_convertible_v<O const &, bool>,
      std::is_nothrow_constructible_v<bool, O const &>,
      noexcept(std::declval<O const &>().has_value()),
      noexcept(*std::declval<O const &>()) && noexcept(*std::declval<O &>()) && noexcept(*std::declval<O>()) && noexcept(*std::declval<O const>()),
      noexcept(std::declval<O const &>().operator->()) && noexcept(std::declval<O &>().operator->()),
      noexcept(std::declval<O const &>().value()) || noexcept(std::declval<O &>().value()) || noexcept(std::declval<O>().value()),
      noexcept(std::declval<O &>().reset()),
      NullCompare<O>(),
      OrElse<O, O const &>::value,
      OrElse<O, O &&>::value,
  };
  constexpr std::size_t n = sizeof r / sizeof r[0];
  if (std::strlen(want) != n) {
    std::printf("MISSING %zu queries, specification has %zu\n", n, std::strlen(want));
    return;
  }
  for (std::size_t i = 0; i < n; ++i) {
#if __cplusplus < 202002L
    if (i >= n - 2) break; // no or_else
#else
    if (i >= n - 2 && isStd && __cplusplus < 202302L && !(__cplusplus > 202002L)) break;
#endif
    ++g_cases;
    char const w = want[i] == 'd' ? (isStd ? '0' : '?') : want[i];
    if (w != '?' && (w == '1') != r[i]) {
      std::printf("%s %s %s: %s is %d, should be %c\n", isStd ? "MISSING std::optional disagrees with Traits.tla:" : "BAD", row, what, g_names[i], int(r[i]), w);
    }
  }
}

} // namespace tr
