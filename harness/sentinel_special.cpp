// Sentinels that are not integers, and the automatic ones (names as in spec/SentinelMisc.tla).
#include "sentinel.hpp"
#include "schemetypes.hpp"
#include <cfloat>
#include <climits>
#include <cmath>
#include <limits>
#include <fstream>
#include <map>
#include <set>
#include <functional>

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  #define NOMEM 1
#else
  #define NOMEM 0
#endif

namespace
{
template <class T>
struct AtHolder
{
  using Payload = sv::Holder<T>;
  static constexpr std::size_t offset = offsetof(sv::Holder<T>, m);
  static T get(Payload const & p) { return p.m; }
  static Payload make(T v) { return Payload(v); }
  static void set(Payload & p, T v) { p.m = v; }
};

struct ClassAccess
{
  using Payload = st::SmallClass;
  static constexpr std::size_t offset = 0;
  static Payload get(Payload const & p) { return p; }
  static Payload make(Payload v) { return v; }
  static void set(Payload & p, Payload v) { p = v; }
};

template <class T>
bool isNan(T const & v)
{
  if constexpr (std::is_floating_point_v<T>) {
    return std::isnan(v);
  }
  else {
    (void)v;
    return false;
  }
}

template <class Opt, class Access, class T>
void payloadRoutes(T sentinel, std::vector<T> const & values, bool bitwise)
{
  using P = typename Access::Payload;
  auto same = [bitwise](T const & a, T const & b) { return bitwise ? std::memcmp(std::addressof(a), std::addressof(b), sizeof(T)) == 0 : (a == b || (isNan(a) && isNan(b))); };
  auto isEmpty = [&](Opt const & o, char const * what) {
    SV_CHECK(!o.has_value(), what);
    if (sizeof(Opt) == sizeof(P)) {
      T got(sentinel);
      std::memcpy(static_cast<void *>(std::addressof(got)), reinterpret_cast<unsigned char const *>(std::addressof(o)) + Access::offset, sizeof(T));
      SV_CHECK(same(got, sentinel), "flag variable");
    }
  };
  Opt e;
  isEmpty(e, "default constructed");
  for (T w : values) {
    if (w == sentinel) {
      continue;
    }
    auto is = [&](Opt const & o, char const * what) { SV_CHECK(o.has_value() && same(Access::get(*o), w), what); };
    Opt a(Access::make(w));
    is(a, "constructed");
    Opt b(std::in_place, Access::make(w));
    is(b, "in place");
    Opt c(a);
    is(c, "copied");
    Opt d(std::move(b));
    is(d, "moved");
    c.reset();
    isEmpty(c, "reset");
    c.emplace(Access::make(w));
    is(c, "emplaced");
    c.reset();
    c.swap(d);
    is(c, "swapped");
    isEmpty(d, "swapped");
    if constexpr (std::is_copy_assignable_v<P>) {
      Opt f;
      f = a;
      is(f, "assigned");
      f = Access::make(w);
      is(f, "assigned value");
      f = std::nullopt;
      isEmpty(f, "assigned nullopt");
      f = Access::make(w);
      is(f, "assigned value to empty");
      f = e;
      isEmpty(f, "assigned empty");
      Access::set(*c, w);
      is(c, "written");
    }
  }
}

template <class T>
std::vector<T> floats()
{
  using L = std::numeric_limits<T>;
  return {T(0), -T(0), T(1), -T(1), T(0.5), L::max(), L::lowest(), L::min(), L::denorm_min(), L::infinity(), -L::infinity(), L::epsilon(), T(-1.5), T(-2.5), T(-3.5), T(3.25),
          L::quiet_NaN(), -L::quiet_NaN(), static_cast<T>(std::nanf("77"))};
}

struct SF0 { static constexpr float value = 0.0f; };
struct SFInf { static constexpr float value = std::numeric_limits<float>::infinity(); };
struct SDMax { static constexpr double value = DBL_MAX; };
struct SDNeg { static constexpr double value = -1.0; };
struct SLD { static constexpr long double value = 1.0L; };

// Enumerations with wide underlying types: values that differ from the sentinel in a single bit, and the extremes.
enum class WideE : long long { invalid = -1, zero = 0, low = 5 };
enum class UWideE : unsigned long long { zero = 0, invalid = 0xffffffff00000001ull };
enum IntE : int { ie0 = 0, ieInvalid = -7 };
enum class RegWideE : long long { none = 1ll << 40, zero = 0 };
template <class En>
std::vector<En> oneBitOff(En sentinel)
{
  using U = std::make_unsigned_t<std::underlying_type_t<En>>;
  U const s = static_cast<U>(sentinel);
  std::vector<En> r;
  for (std::size_t k = 0; k < sizeof(U) * 8; ++k) {
    r.push_back(static_cast<En>(static_cast<U>(s ^ (U(1) << k))));
    r.push_back(static_cast<En>(static_cast<U>(s + (U(1) << k))));
    r.push_back(static_cast<En>(static_cast<U>(s - (U(1) << k))));
    r.push_back(static_cast<En>(static_cast<U>(U(1) << k)));
    r.push_back(static_cast<En>(static_cast<U>((U(1) << k) - 1)));
  }
  r.push_back(static_cast<En>(static_cast<U>(~s)));
  return r;
}
} // namespace
template <> struct tiny::optional_flag_manipulator<RegWideE> : tiny::sentinel_flag_manipulator<RegWideE, RegWideE::none> {};
namespace
{
// Classes whose address-of operator does something else, or is deleted.
struct AmpReg
{
  int v;
  constexpr AmpReg(int v) noexcept : v(v) {}
  constexpr bool operator==(AmpReg const & o) const noexcept { return v == o.v; }
  AmpReg * operator&() const { static AmpReg other(1234); return std::addressof(other); }
};
struct AmpDel
{
  int v;
  constexpr AmpDel(int v) noexcept : v(v) {}
  constexpr bool operator==(AmpDel const & o) const noexcept { return v == o.v; }
  void operator&() const = delete;
};
struct AmpSent { static constexpr AmpDel value{-3}; };
template <class P>
struct WholeAccess
{
  using Payload = P;
  static constexpr std::size_t offset = 0;
  static P get(P const & p) { return p; }
  static P make(P v) { return v; }
  static void set(P & p, P v) { p = v; }
};
} // namespace
template <> struct tiny::optional_flag_manipulator<AmpReg> : tiny::sentinel_flag_manipulator<AmpReg, -3> {};
namespace
{
template <auto S>
void wideEnum()
{
  using En = decltype(S);
  using Via = std::integral_constant<En, S>;
  auto const vs = oneBitOff(S);
  payloadRoutes<tiny::optional<En, S>, sv::Direct<En>>(S, vs, true);
  payloadRoutes<tiny::optional_aip<En, S>, sv::Direct<En>>(S, vs, true);
  payloadRoutes<tiny::optional_sentinel_via_type<En, Via>, sv::Direct<En>>(S, vs, true);
  payloadRoutes<tiny::optional<sv::Holder<En>, &sv::Holder<En>::m, S>, AtHolder<En>>(S, vs, true);
}

// volatile and const payloads: no assignment
template <class Opt, class T>
void constRoutes(T sentinel, std::vector<T> const & values)
{
  Opt e;
  SV_CHECK(!e.has_value() && (sv::flagIs<Opt, sv::Direct<T>>(e, sentinel)), "default constructed");
  for (T w : values) {
    if (w == sentinel) {
      continue;
    }
    Opt a(w);
    SV_CHECK(a.has_value() && *a == w, "constructed");
    Opt b(a);
    SV_CHECK(b.has_value() && *b == w, "copied");
    b.reset();
    SV_CHECK(!b.has_value() && (sv::flagIs<Opt, sv::Direct<T>>(b, sentinel)), "reset");
    b.emplace(w);
    SV_CHECK(b.has_value() && *b == w, "emplaced");
  }
}

template <class T>
void aip(T sentinel)
{
  using L = std::numeric_limits<T>;
  std::vector<T> values{L::min(), T(L::min() + 1), T(L::max() - 1), L::max(), T(0), T(1), T(-1), T(L::max() / 2), T(L::max() / 2 + 1)};
  for (int k = 1; k < L::digits; ++k) {
    for (T d : {T(-1), T(0), T(1)}) {
      values.push_back(T((T(1) << k) + d));
      if (std::is_signed_v<T>) {
        values.push_back(T(-(T(1) << k) - d));
      }
    }
  }
  static_assert(sizeof(tiny::optional_aip<T>) == sizeof(T));
  sv::run<tiny::optional_aip<T>, sv::Direct<T>, T>(sentinel, values);
  constRoutes<tiny::optional_aip<T const>, T>(sentinel, values);
  if (sizeof(T) == 2) {
    sv::run<tiny::optional_aip<T>, sv::Direct<T>, T>(sentinel, sv::all<T>());
  }
}

int g_obj[4];
int g_one;
std::map<std::string, std::function<void(bool)>> const & tests()
{
  static std::map<std::string, std::function<void(bool)>> const t{
      // automatic sentinels: the argument says whether the specification wants the maximum (or the minimum)
      {"aip short", [](bool mx) { aip<short>(mx ? SHRT_MAX : SHRT_MIN); }},
      {"aip unsigned short", [](bool mx) { aip<unsigned short>(mx ? USHRT_MAX : 0); }},
      {"aip int", [](bool mx) { aip<int>(mx ? INT_MAX : INT_MIN); }},
      {"aip unsigned", [](bool mx) { aip<unsigned>(mx ? UINT_MAX : 0); }},
      {"aip long", [](bool mx) { aip<long>(mx ? LONG_MAX : LONG_MIN); }},
      {"aip unsigned long", [](bool mx) { aip<unsigned long>(mx ? ULONG_MAX : 0); }},
      {"aip long long", [](bool mx) { aip<long long>(mx ? LLONG_MAX : LLONG_MIN); }},
      {"aip unsigned long long", [](bool mx) { aip<unsigned long long>(mx ? ULLONG_MAX : 0); }},
      {"aip explicit",
       [](bool) {
         sv::run<tiny::optional_aip<char, 'a'>, sv::Direct<char>, char>('a', sv::all<char>());
         sv::run<tiny::optional_aip<int, 7>, sv::Direct<int>, int>(7, {INT_MIN, INT_MAX, 0, 8, 6});
         sv::run<tiny::optional_aip<bool, true>, sv::Direct<bool>, bool>(true, {false, true});
       }},
      // registered for an enumeration
      {"registered enum",
       [](bool) {
         payloadRoutes<tiny::optional<st::RegEnum>, sv::Direct<st::RegEnum>>(
             st::RegEnum::invalid, [] { std::vector<st::RegEnum> v; for (int i = -32768; i < 32768; ++i) v.push_back(static_cast<st::RegEnum>(i)); return v; }(), true);
         payloadRoutes<tiny::optional_aip<st::RegEnum>, sv::Direct<st::RegEnum>>(
             st::RegEnum::invalid, {st::RegEnum::a, st::RegEnum::b, static_cast<st::RegEnum>(-4)}, true);
         payloadRoutes<tiny::optional<RegWideE>, sv::Direct<RegWideE>>(RegWideE::none, oneBitOff(RegWideE::none), true);
#if !NOMEM
         payloadRoutes<tiny::optional<sv::Holder<st::RegEnum>, &sv::Holder<st::RegEnum>::m>, AtHolder<st::RegEnum>>(
             st::RegEnum::invalid, {st::RegEnum::a, st::RegEnum::b, static_cast<st::RegEnum>(-4), static_cast<st::RegEnum>(-2)}, true);
#endif
       }},
      {"enum sentinel",
       [](bool) {
         std::vector<st::Enum> all;
         for (int i = 0; i < 256; ++i) {
           all.push_back(static_cast<st::Enum>(i));
         }
         payloadRoutes<tiny::optional<st::Enum, st::Enum::invalid>, sv::Direct<st::Enum>>(st::Enum::invalid, all, true);
         payloadRoutes<tiny::optional<st::Enum, st::Enum::a>, sv::Direct<st::Enum>>(st::Enum::a, all, true);
         payloadRoutes<tiny::optional<st::UEnum, st::uinvalid>, sv::Direct<st::UEnum>>(st::uinvalid, {st::ua, st::ub, static_cast<st::UEnum>(76)}, true);
         payloadRoutes<tiny::optional<sv::Holder<st::Enum>, &sv::Holder<st::Enum>::m, st::Enum::b>, AtHolder<st::Enum>>(st::Enum::b, all, true);
         wideEnum<WideE::invalid>();
         wideEnum<WideE::low>();
         wideEnum<UWideE::invalid>();
         wideEnum<UWideE::zero>();
         wideEnum<RegWideE::zero>();
         wideEnum<ieInvalid>();
         // explicit sentinel for a type with a registered manipulator
         payloadRoutes<tiny::optional<st::RegEnum, st::RegEnum::b>, sv::Direct<st::RegEnum>>(
             st::RegEnum::b, {st::RegEnum::a, st::RegEnum::invalid, static_cast<st::RegEnum>(4)}, true);
         // an unscoped enumerator as sentinel of an integer
         sv::run<tiny::optional<int, st::uinvalid>, sv::Direct<int>, int>(77, {0, 76, 78, -1});
       }},
      {"float sentinel",
       [](bool) {
         payloadRoutes<tiny::optional_sentinel_via_type<float, SF0>, sv::Direct<float>>(0.0f, floats<float>(), true);
         payloadRoutes<tiny::optional_sentinel_via_type<float, SFInf>, sv::Direct<float>>(SFInf::value, floats<float>(), true);
         payloadRoutes<tiny::optional_sentinel_via_type<double, SDMax>, sv::Direct<double>>(DBL_MAX, floats<double>(), true);
         payloadRoutes<tiny::optional_sentinel_via_type<double, SDNeg>, sv::Direct<double>>(-1.0, floats<double>(), true);
         payloadRoutes<tiny::optional_sentinel_via_type<long double, SLD>, sv::Direct<long double>>(1.0L, floats<long double>(), false);
         payloadRoutes<tiny::optional_sentinel_via_type<sv::Holder<double>, SDNeg, &sv::Holder<double>::m>, AtHolder<double>>(-1.0, floats<double>(), true);
#if defined(__cpp_nontype_template_args) && __cpp_nontype_template_args >= 201911L && (!defined(__clang__) || __clang_major__ >= 18)
         payloadRoutes<tiny::optional<float, 2.5f>, sv::Direct<float>>(2.5f, floats<float>(), true);
         payloadRoutes<tiny::optional<double, -1.0>, sv::Direct<double>>(-1.0, floats<double>(), true);
#endif
       }},
      {"pointer sentinel",
       [](bool) {
         payloadRoutes<tiny::optional<int *, nullptr>, sv::Direct<int *>>(static_cast<int *>(nullptr), {g_obj, g_obj + 1, reinterpret_cast<int *>(~std::uintptr_t(0)),
             reinterpret_cast<int *>(sizeof(void *) == 8 ? std::uintptr_t(0xffff800000000000ull - 1) : std::uintptr_t(0xffffffff - 8))}, true);
         payloadRoutes<tiny::optional<sv::Holder<int *>, &sv::Holder<int *>::m, nullptr>, AtHolder<int *>>(static_cast<int *>(nullptr), {g_obj, g_obj + 3}, true);
         payloadRoutes<tiny::optional<int *, &g_one>, sv::Direct<int *>>(&g_one, {nullptr, g_obj + 1}, true);
       }},
      {"class sentinel",
       [](bool) {
         using C = st::SmallClass;
         payloadRoutes<tiny::optional_sentinel_via_type<C, st::SClass>, ClassAccess>(C{1, 2}, {C{1, 3}, C{2, 2}, C{0, 0}, C{1, 2}}, false);
       }},
      {"address-of operator",
       [](bool) {
         payloadRoutes<tiny::optional<AmpReg>, WholeAccess<AmpReg>>(AmpReg(-3), {AmpReg(0), AmpReg(-2), AmpReg(1234)}, false);
         payloadRoutes<tiny::optional_aip<AmpReg>, WholeAccess<AmpReg>>(AmpReg(-3), {AmpReg(0), AmpReg(-2), AmpReg(1234)}, false);
         payloadRoutes<tiny::optional_sentinel_via_type<AmpDel, AmpSent>, WholeAccess<AmpDel>>(AmpDel(-3), {AmpDel(0), AmpDel(-2)}, false);
         payloadRoutes<tiny::optional_sentinel_via_type<sv::Holder<AmpDel>, AmpSent, &sv::Holder<AmpDel>::m>, AtHolder<AmpDel>>(AmpDel(-3), {AmpDel(0), AmpDel(-2)}, false);
       }},
      {"const payload",
       [](bool) {
         constRoutes<tiny::optional<int const, 5>, int>(5, {4, 6, 0, INT_MIN, INT_MAX});
         constRoutes<tiny::optional<unsigned char const, 255>, unsigned char>(255, sv::all<unsigned char>());
         constRoutes<tiny::optional_sentinel_via_type<long const, sv::ViaType<int, -1>>, long>(-1, {LONG_MIN, LONG_MAX, 0, -2});
       }},
      {"small types",
       [](bool) {
         sv::run<tiny::optional<unsigned char, 0>, sv::Direct<unsigned char>, unsigned char>(0, sv::all<unsigned char>());
         sv::run<tiny::optional<signed char, -128>, sv::Direct<signed char>, signed char>(-128, sv::all<signed char>());
         sv::run<tiny::optional<char, '\xff'>, sv::Direct<char>, char>('\xff', sv::all<char>());
         sv::run<tiny::optional<short, -1>, sv::Direct<short>, short>(-1, sv::all<short>());
         sv::run<tiny::optional<unsigned short, 65535>, sv::Direct<unsigned short>, unsigned short>(65535, sv::all<unsigned short>());
         sv::run<tiny::optional<char16_t, 256>, sv::Direct<char16_t>, char16_t>(256, sv::all<char16_t>());
         sv::run<tiny::optional<bool, false>, sv::Direct<bool>, bool>(false, {false, true});
         sv::run<tiny::optional<bool, true>, sv::Direct<bool>, bool>(true, {false, true});
         sv::run<tiny::optional<sv::Holder<short>, &sv::Holder<short>::m, 300>, sv::Member<short>, short>(300, sv::all<short>());
         sv::run<tiny::optional<sv::Holder<unsigned char>, &sv::Holder<unsigned char>::m, 255>, sv::Member<unsigned char>, unsigned char>(255, sv::all<unsigned char>());
       }}};
  return t;
}
} // namespace

int main(int, char ** argv)
{
  std::ifstream in(argv[1]);
  std::string line;
  while (std::getline(in, line)) { // "<name>|<argument>"
    auto const bar = line.find('|');
    std::string const name = line.substr(0, bar);
    auto it = tests().find(name);
    if (it == tests().end()) {
      std::printf("MISSING %s\n", name.c_str());
      continue;
    }
    static std::set<std::string> names;
    sv::g_row = names.insert(name).first->c_str();
    it->second(line.substr(bar + 1) == "max");
    std::printf("ROW %s\n", line.c_str());
  }
  std::printf("DONE cases=%ld\n", sv::g_cases);
}
