// Ingredients for the rows of spec/Misuse.tla.
#pragma once
#include "tiny/optional.h"
#include <new>
#include <optional>
#include <utility>
#include <vector>
namespace mu
{
struct V7 { static constexpr int value = -7; };
struct IM
{
  static bool is_empty(int const & i) noexcept { return i == -9; }
  static void init_empty_flag(int & i) noexcept { ::new (&i) int(-9); }
  static void invalidate_empty_flag(int &) noexcept {}
};
struct Cls { double d; int i; };
enum class En { a, b };
struct Mo { Mo(); Mo(Mo &&); };
struct Other {};
// objects of the monadic uses
using O_optional = tiny::optional<int>;
using O_sentinel = tiny::optional<int, -7>;
using O_via = tiny::optional_sentinel_via_type<int, V7>;
using O_inplace = tiny::optional_inplace<int, IM>;
using O_class = tiny::optional<Cls, &Cls::d>;
// results of functions
using R_tiny = tiny::optional<char>;
using R_tiny_sentinel = tiny::optional<unsigned, 5u>;
using R_tiny_via = tiny::optional_sentinel_via_type<long, V7>;
struct IM2 : IM {};
using R_tiny_inplace = tiny::optional_inplace<int, IM2>;
using R_tiny_aip = tiny::optional_aip<short>;
using R_std = std::optional<int>;
using R_const_tiny = tiny::optional<char> const;
using R_const_std = std::optional<int> const;
using R_tiny_ref = tiny::optional<char> &;
using R_tiny_cref = tiny::optional<char> const &;
using R_std_ref = std::optional<int> &;
using R_int = int;
using R_const_int = int const;
using R_pointer = int *;
using R_enum = En;
using R_class = Cls;
using R_moveonly = Mo;
using R_float = float;
using R_vector = std::vector<int>;
using R_void = void;
using R_int_ref = int &;
using R_int_cref = int const &;
using R_int_rref = int &&;
using R_class_ref = Cls &;
using R_array_ref = int (&)[3];
using R_func_ref = int (&)(int);
using R_nullopt = std::nullopt_t;
using R_const_nullopt = std::nullopt_t const;
using R_in_place = std::in_place_t;
using R_const_in_place = std::in_place_t const;
template <class R, int> struct Fn { template <class... A> R operator()(A &&...) const; };
template <int> struct FnWrong { tiny::optional<char> operator()(Other &, Other &) const; };
template <int> struct FnNone {};
// payloads of value_or and swap
struct To {};
struct Exp {};
template <int> struct copyable { copyable(copyable const &); copyable & operator=(copyable const &); copyable(To); explicit copyable(Exp); };
template <int> struct moveonly { moveonly(moveonly &&); moveonly & operator=(moveonly &&); moveonly(To); explicit moveonly(Exp); };
template <int> struct immovable { immovable(immovable &&) = delete; immovable & operator=(immovable &&) = delete; immovable(To); explicit immovable(Exp); };
template <int> struct copyonly { copyonly(copyonly const &); copyonly(copyonly &&) = delete; copyonly & operator=(copyonly const &); copyonly(To); explicit copyonly(Exp); };
template <class T> T && val();
}
