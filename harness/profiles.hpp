// The optional types ('profiles') the specification is replayed on.
#pragma once
#include "runner.hpp"
#include <string>
#include <vector>
#include <memory>
#include <array>
#include <climits>
#include <cfloat>
#ifdef VH_FWD_FIRST
  #include "tiny/optional_flag_manipulator_fwd.h"
#endif

namespace vh
{
struct HeapFlag;
using TCustom = TNothrow<int, 1>;    // has an optional_flag_manipulator specialisation, flag in 'tail'
using THeap = TFull<void *, 2>;      // has one whose flag owns a heap object
struct Opq { int k; };               // member type with custom manipulator
inline bool operator==(Opq a, Opq b) { return a.k == b.k; }
enum Plain : unsigned char { P0, P1, P2, P3 };
enum class Sent : short { s0 = 0, s1 = 1, s2 = -1, none = -300 };
} // namespace vh
namespace vh
{
template <> struct MemVal<Opq> { static Opq get() { return Opq{0}; } };
struct SentPt { int x; int y; friend bool operator==(SentPt const & a, SentPt const & b) noexcept { return a.x == b.x && a.y == b.y; } };
struct EmptyS { friend bool operator==(EmptyS, EmptyS) { return true; } };
struct alignas(64) Big { int v[20]; friend bool operator==(Big const & a, Big const & b) { return std::memcmp(a.v, b.v, sizeof(a.v)) == 0; } };
struct Poly
{
  virtual ~Poly() = default;
  virtual int id() const { return 1; }
  int v = 0;
  Poly() = default;
  explicit Poly(int v) : v(v) { }
  Poly(Poly const &) = default;
  Poly & operator=(Poly const &) = default;
  friend bool operator==(Poly const & a, Poly const & b) { return a.v == b.v && a.id() == 1 && b.id() == 1; }
};
} // namespace vh

#ifdef VH_FWD_FIRST
// Specialisation with the forward declaration only, before the library header.
  #define VH_SPECIALISE
#else
  #include "tiny/optional.h"
  #define VH_SPECIALISE
#endif


template <> struct tiny::optional_flag_manipulator<vh::TCustom>
{
  static bool is_empty(vh::TCustom const & p) noexcept { vh::flag_query(std::addressof(p)); return p.tail == -123456; }
  static void init_empty_flag(vh::TCustom & p) noexcept
  {
    vh::flag_init(std::addressof(p));
    ::new (static_cast<void *>(std::addressof(p.tail))) int(-123456);
  }
  static void invalidate_empty_flag(vh::TCustom & p) noexcept
  {
    vh::flag_inval(std::addressof(p));
    p.tail = 0;
  }
};

template <> struct tiny::optional_flag_manipulator<vh::THeap>
{
  static bool is_empty(vh::THeap const & p) noexcept
  {
    vh::flag_query(std::addressof(p));
    void * q;
    std::memcpy(&q, std::addressof(p.m), sizeof q);
    return q != nullptr; // a payload always has m == nullptr
  }
  static void init_empty_flag(vh::THeap & p) noexcept
  {
    vh::flag_init(std::addressof(p));
    void * q = new int(5);
    std::memcpy(std::addressof(p.m), &q, sizeof q);
  }
  static void invalidate_empty_flag(vh::THeap & p) noexcept
  {
    vh::flag_inval(std::addressof(p));
    void * q;
    std::memcpy(&q, std::addressof(p.m), sizeof q);
    delete static_cast<int *>(q);
    q = reinterpret_cast<void *>(std::uintptr_t(0x10)); // garbage: must not be looked at any more
    std::memcpy(std::addressof(p.m), &q, sizeof q);
  }
};

template <> struct tiny::optional_flag_manipulator<vh::CustRes>
{
  static bool is_empty(vh::CustRes const & p) noexcept { vh::flag_query(std::addressof(p)); return p.flag == -555; }
  static void init_empty_flag(vh::CustRes & p) noexcept { vh::flag_init(std::addressof(p)); ::new (static_cast<void *>(std::addressof(p.flag))) int(-555); }
  static void invalidate_empty_flag(vh::CustRes & p) noexcept { vh::flag_inval(std::addressof(p)); p.flag = 9; }
};

// Opq is only used as the second member (after an int) of TFull: report the address of the whole payload.
namespace vh { inline void const * whole(Opq const & p) { return reinterpret_cast<char const *>(std::addressof(p)) - sizeof(int); } }
template <> struct tiny::optional_flag_manipulator<vh::Opq>
{
  static bool is_empty(vh::Opq const & p) noexcept { vh::flag_query(vh::whole(p)); return p.k == -5; }
  static void init_empty_flag(vh::Opq & p) noexcept { vh::flag_init(vh::whole(p)); ::new (std::addressof(p)) vh::Opq{-5}; }
  static void invalidate_empty_flag(vh::Opq & p) noexcept { vh::flag_inval(vh::whole(p)); p.k = -6; }
};

#ifdef VH_FWD_FIRST
  #include "tiny/optional.h"
#endif

template <> struct tiny::optional_flag_manipulator<vh::Col> : tiny::sentinel_flag_manipulator<vh::Col, vh::Col::invalid> { };

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  #define VH_NOMEM 1
#else
  #define VH_NOMEM 0
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define VH_NOBIT 1
#else
  #define VH_NOBIT 0
#endif

namespace vh
{
// Flag manipulator for optional_inplace.
struct InplaceManip
{
  template <class T> static bool is_empty(T const & p) noexcept { flag_query(std::addressof(p)); return p.tail == -777; }
  template <class T> static void init_empty_flag(T & p) noexcept
  {
    flag_init(std::addressof(p));
    ::new (static_cast<void *>(std::addressof(p.tail))) int(-777);
  }
  template <class T> static void invalidate_empty_flag(T & p) noexcept
  {
    flag_inval(std::addressof(p));
    p.tail = 1;
  }
};
// For payloads that can be copied trivially: flag and emptiness have to agree whenever someone looks.
struct TrivManip
{
  template <class T> static auto & place(T & p) noexcept
  {
    if constexpr (std::is_class_v<std::remove_cv_t<T>>)
      return p.tail;
    else
      return p;
  }
  template <class T> static bool is_empty(T const & p) noexcept
  {
    bool const e = place(p) == 1000;
    flag_state(std::addressof(p), e);
    return e;
  }
  template <class T> static void init_empty_flag(T & p) noexcept
  {
    flag_init(std::addressof(p));
    ::new (static_cast<void *>(std::addressof(place(p)))) int(1000);
  }
  template <class T> static void invalidate_empty_flag(T & p) noexcept
  {
    flag_inval(std::addressof(p));
    place(p) = 1;
  }
};
} // namespace vh
template <> struct tiny::optional_flag_manipulator<vh::TTriv<char, vh::NxCM>> : vh::TrivManip { };
namespace vh
{
struct InplaceIntManip
{
  static bool is_empty(int const & p) noexcept { return p == 1000; }
  static void init_empty_flag(int & p) noexcept { ::new (&p) int(1000); }
  static void invalidate_empty_flag(int & p) noexcept { p = 5; }
};

//------------------------------------------------------------------------------
// Flavours: how the optional type and make_optional are spelled.
template <class T> struct FStd
{
  using Opt = std::optional<T>;
  template <class X> using Res = std::optional<X>;
  static constexpr unsigned fcaps = std::is_const_v<T> ? 0 : CAP_MAKE;
  template <class A> static Opt mkArg(A && a) { return std::make_optional<T>(std::forward<A>(a)); }
  template <class A> static Opt mkVal(A && a) { return std::make_optional(std::forward<A>(a)); }
  template <class U, class... A> static Opt mkIl_(std::initializer_list<U> il, A &&... a) { return std::make_optional<T>(il, std::forward<A>(a)...); }
};
template <class T, auto... S> struct FTiny
{
  using Opt = tiny::optional<T, S...>;
  template <class X> using Res = tiny::optional<X>;
  static constexpr unsigned fcaps = std::is_const_v<T> || std::is_volatile_v<T> ? 0 : CAP_MAKE;
  template <class A> static Opt mkArg(A && a) { return tiny::make_optional<T, S...>(std::forward<A>(a)); }
  template <class A> static Opt mkVal(A && a)
  {
    if constexpr (sizeof...(S) == 0)
      return tiny::make_optional(std::forward<A>(a));
    else
      return tiny::make_optional<T, S...>(std::forward<A>(a));
  }
  template <class U, class... A> static Opt mkIl_(std::initializer_list<U> il, A &&... a) { return tiny::make_optional<T, S...>(il, std::forward<A>(a)...); }
};
template <class O> struct FRaw // any other spelling
{
  using Opt = O;
  template <class X> using Res = tiny::optional<X>;
  static constexpr unsigned fcaps = 0;
  template <class U, class... A> static Opt mkIl_(std::initializer_list<U>, A &&...);
};

//------------------------------------------------------------------------------
// Codecs: values of the specification <-> payload values.
template <class F, unsigned extra = 0> struct Tracked : F
{
  using Opt = typename F::Opt;
  using U = std::remove_cv_t<typename Opt::value_type>;
  static constexpr unsigned caps = CAP_DEFAULT | CAP_ARGS2 | CAP_IL | CAP_CONV | CAP_CEXPL | CAP_HASH | CAP_EVENTS | F::fcaps | extra;
  static constexpr int bindings = 1;
  static constexpr int perValue = 1;
  static char canon(char c, int) { return c; }
  static char code(U const & u, int)
  {
    int const c = u.code();
    return c == GONE ? 'm' : (c >= 0 && c <= 2 ? static_cast<char>('0' + c) : 'X');
  }
  static U make(int i, int) { return U(ArgV{i}); }
  static ArgV arg(int i, int) { return ArgV{i}; }
  static ConvI convArgI(int i, int) { return ConvI{i}; }
  static ConvE convArgE(int i, int) { return ConvE{i}; }
  static void ilCtor(void * p, int v, int) { ::new (p) Opt(std::in_place, {v, 70}, ArgV{71}); }
  static auto & ilEmplace(Opt & o, int v, int) { return o.emplace({v, 70}, ArgV{71}); }
  static void mkIl(void * p, int v, int) { ::new (p) Opt(F::mkIl_(std::initializer_list<int>{v, 70}, ArgV{71})); }
  template <class R> static void assignThrough(R & r, int v, int) { r = ConvI{v}; }
};

template <class T> struct ConvTo { T v; operator T() const { return v; } };
template <class T> struct ConvToE { T v; explicit operator T() const { return v; } };

// Payload values given by a table; compared bit by bit (BYTES leading bytes).
template <class F, class Table, unsigned extra = CAP_DEFAULT | CAP_CONV | CAP_HASH> struct Scalar : F
{
  using Opt = typename F::Opt;
  using T = typename Opt::value_type;
  using U = std::remove_cv_t<T>;
  static constexpr unsigned caps = (F::fcaps | extra);
  static constexpr int bindings = Table::n;
  static constexpr int perValue = 1;
  static bool same(U const & a, U const & b) { return std::memcmp(std::addressof(a), std::addressof(b), std::is_same_v<U, long double> ? 10 : sizeof(U)) == 0; }
  static U make(int i, int b) { return Table::get(i, b); }
  static U arg(int i, int b) { return Table::get(i, b); }
  static ConvTo<U> convArgI(int i, int b) { return ConvTo<U>{Table::get(i, b)}; }
  static ConvToE<U> convArgE(int i, int b) { return ConvToE<U>{Table::get(i, b)}; }
  static char code(T const & v, int b)
  {
    U u;
    if constexpr (std::is_volatile_v<T>)
      u = v;
    else
      std::memcpy(static_cast<void *>(&u), std::addressof(v), sizeof(U));
    for (int i = 0; i < 3; ++i) {
      U const x = Table::get(i, b);
      if (same(x, u))
        return static_cast<char>('0' + i);
    }
    return 'X';
  }
  static char canon(char c, int b)
  {
    if (c < '0' || c > '2')
      return c;
    for (char d = '0'; d < c; ++d) {
      U const x = Table::get(d - '0', b), y = Table::get(c - '0', b);
      if (same(x, y))
        return d;
    }
    return c;
  }
  template <class R> static void assignThrough(R & r, int v, int b) { r = Table::get(v, b); }
  static void ilCtor(void *, int, int);
  static Opt & ilEmplace(Opt & o, int, int);
  static void mkIl(void *, int, int);
};

// Class types compared with ==; Table may provide more.
template <class F, class Table, unsigned extra> struct Class : F
{
  using Opt = typename F::Opt;
  using T = typename Opt::value_type;
  using U = std::remove_cv_t<T>;
  static constexpr unsigned caps = F::fcaps | extra;
  static constexpr int bindings = Table::n;
  static constexpr int perValue = 1;
  static U make(int i, int b) { return Table::get(i, b); }
  static U arg(int i, int b) { return Table::get(i, b); }
  static ConvTo<U> convArgI(int i, int b) { return ConvTo<U>{Table::get(i, b)}; }
  static ConvToE<U> convArgE(int i, int b) { return ConvToE<U>{Table::get(i, b)}; }
  static char code(T const & v, int b) { return Table::code(v, b); }
  static char canon(char c, int b) { return Table::canon(c, b); }
  template <class R> static void assignThrough(R & r, int v, int b) { r = Table::get(v, b); }
  static void ilCtor(void * p, int v, int b) { Table::template ilCtor<Opt>(p, v, b); }
  static auto & ilEmplace(Opt & o, int v, int b) { return Table::ilEmplace(o, v, b); }
  static void mkIl(void * p, int v, int b) { Table::template mkIl<F, Opt>(p, v, b); }
};

//------------------------------------------------------------------------------
// Value tables. Index 0 is always the value initialised payload.
template <class T> struct TabInt
{
  static constexpr int n = 4;
  static T get(int i, int b)
  {
    static T const t[n][3] = {
        {0, 1, 2},
        {0, std::numeric_limits<T>::max(), std::numeric_limits<T>::min()},
        {0, static_cast<T>(std::numeric_limits<T>::max() - 1), static_cast<T>(std::numeric_limits<T>::min() + 1)},
        {0, static_cast<T>(0x7e), static_cast<T>(-1)}};
    return t[b][i];
  }
};
// All extremes except the sentinel.
template <class T, T sentinel> struct TabIntS
{
  static constexpr int n = 4;
  static T get(int i, int b)
  {
    T const v = TabInt<T>::get(i, b);
    if (v == sentinel)
      return static_cast<T>(v == static_cast<T>(5) ? 6 : 5);
    return v;
  }
};
template <bool a, bool b> struct TabBool
{
  static constexpr int n = 1;
  static bool get(int i, int) { return i == 0 ? a : b; }
};
template <class T, class Bits> struct TabFloat
{
  using L = std::numeric_limits<T>;
  static constexpr int n = 6;
  static T nan(Bits b) { T r; std::memcpy(&r, &b, sizeof r); return r; }
  static T get(int i, int b)
  {
    if (i == 0)
      return T(0);
    switch (b * 2 + (i - 1)) {
    case 0: return T(1);
    case 1: return T(-0.0);
    case 2: return L::infinity();
    case 3: return -L::infinity();
    case 4: return L::max();
    case 5: return L::denorm_min();
    case 6: return L::quiet_NaN();
    case 7: return nan(sizeof(T) == 8 ? static_cast<Bits>(0xfff8000000000000ull) : static_cast<Bits>(0xffc00000u)); // default NaN of x86
    case 8: return nan(sizeof(T) == 8 ? static_cast<Bits>(0x7ff8000000000001ull) : static_cast<Bits>(0x7fc00001u));
    case 9: return nan(sizeof(T) == 8 ? static_cast<Bits>(0xffffffffffffffffull) : static_cast<Bits>(0xffffffffu));
    case 10: return nan(sizeof(T) == 8 ? static_cast<Bits>(0x7fffffffffffffffull) : static_cast<Bits>(0x7fffffffu));
    default: return L::lowest();
    }
  }
};
struct TabLongDouble
{
  static constexpr int n = 2;
  static long double get(int i, int b)
  {
    static long double const t[n][3] = {{0.0L, 1.5L, -2.5L}, {0.0L, std::numeric_limits<long double>::infinity(), -0.0L}};
    return t[b][i];
  }
};
inline int g_obj[4];
template <class T> struct TabPtr
{
  static constexpr int n = 4;
  static T * get(int i, int b)
  {
    if (i == 0)
      return nullptr;
    std::uintptr_t const t[n][2] = {
        {reinterpret_cast<std::uintptr_t>(&g_obj[0]), reinterpret_cast<std::uintptr_t>(&g_obj[1])},
        {static_cast<std::uintptr_t>(-1), 1},                                   // INVALID_HANDLE_VALUE
        {static_cast<std::uintptr_t>(-6), static_cast<std::uintptr_t>(-2)},     // pseudo handles
        {static_cast<std::uintptr_t>(sizeof(void *) == 8 ? 0x00007fffffffffffull : 0x7fffffffu),
         static_cast<std::uintptr_t>(sizeof(void *) == 8 ? 0xffff800000000000ull : 0x80000000u)}};
    return reinterpret_cast<T *>(t[b][i - 1]);
  }
};
inline void fn1() { }
inline void fn2() { }
struct TabFn
{
  static constexpr int n = 1;
  static void (*get(int i, int))() { return i == 0 ? nullptr : (i == 1 ? &fn1 : &fn2); }
};
struct HasMem { int a; int b; void f() {} };
struct TabMemPtr
{
  static constexpr int n = 1;
  static int HasMem::*get(int i, int) { return i == 0 ? nullptr : (i == 1 ? &HasMem::a : &HasMem::b); }
};
template <class E, E a, E b, E c> struct TabEnum
{
  static constexpr int n = 1;
  static E get(int i, int) { return i == 0 ? a : (i == 1 ? b : c); }
};
template <class T> struct Eq // helper for class tables
{
  template <class Tab> static char code(T const & v, int b)
  {
    for (int i = 0; i < 3; ++i)
      if (v == Tab::get(i, b))
        return static_cast<char>('0' + i);
    return 'X';
  }
};
struct TabString
{
  static constexpr int n = 2;
  static std::string get(int i, int b)
  {
    if (i == 0) return std::string();
    return b == 0 ? std::string(1, static_cast<char>('a' + i)) : std::string(static_cast<std::size_t>(40 + i), 'z');
  }
  static char code(std::string const & v, int b) { return Eq<std::string>::code<TabString>(v, b); }
  static char canon(char c, int) { return c; }
  template <class Opt> static void ilCtor(void *, int, int) { }
  template <class Opt> static auto & ilEmplace(Opt & o, int, int) { return *o; }
  template <class F, class Opt> static void mkIl(void *, int, int) { }
};
struct TabVector
{
  static constexpr int n = 1;
  using V = std::vector<int>;
  static V get(int i, int) { return i == 0 ? V() : V{i, 70, 3}; }
  static char code(V const & v, int b) { return Eq<V>::code<TabVector>(v, b); }
  static char canon(char c, int) { return c; }
  template <class Opt> static void ilCtor(void * p, int v, int) { if (v == 0) ::new (p) Opt(std::in_place, std::initializer_list<int>{}); else ::new (p) Opt(std::in_place, {v, 70, 3}); }
  template <class Opt> static auto & ilEmplace(Opt & o, int v, int) { if (v == 0) return o.emplace(std::initializer_list<int>{}); return o.emplace({v, 70, 3}); }
  template <class F, class Opt> static void mkIl(void * p, int v, int) { if (v == 0) ::new (p) Opt(F::mkIl_(std::initializer_list<int>{})); else ::new (p) Opt(F::mkIl_({v, 70, 3})); }
};
struct TabUnique
{
  static constexpr int n = 1;
  using V = std::unique_ptr<int>;
  static V get(int i, int) { return i == 0 ? V() : V(new int(i)); }
  static char code(V const & v, int) { return v ? static_cast<char>('0' + *v) : '0'; }
  static char canon(char c, int) { return c == 'm' ? '0' : c; } // a moved-from unique_ptr is null
  template <class Opt> static void ilCtor(void *, int, int) { }
  template <class Opt> static auto & ilEmplace(Opt & o, int, int) { return *o; }
  template <class F, class Opt> static void mkIl(void *, int, int) { }
};
struct TabShared
{
  static constexpr int n = 1;
  using V = std::shared_ptr<int>;
  static V get(int i, int)
  {
    static V const t[3] = {V(), std::make_shared<int>(1), std::make_shared<int>(2)};
    return t[i];
  }
  static char code(V const & v, int b) { return Eq<V>::code<TabShared>(v, b); }
  static char canon(char c, int) { return c == 'm' ? '0' : c; }
  template <class Opt> static void ilCtor(void *, int, int) { }
  template <class Opt> static auto & ilEmplace(Opt & o, int, int) { return *o; }
  template <class F, class Opt> static void mkIl(void *, int, int) { }
};
template <class T> struct TabSame
{
  static constexpr int n = 1;
  static char canon(char c, int) { return c; }
  template <class Opt> static void ilCtor(void *, int, int) { }
  template <class Opt> static auto & ilEmplace(Opt & o, int, int) { return *o; }
  template <class F, class Opt> static void mkIl(void *, int, int) { }
};
struct TabBig : TabSame<Big>
{
  static Big get(int i, int) { Big r{}; r.v[0] = r.v[7] = r.v[19] = i; return r; }
  static char code(Big const & v, int b) { return (reinterpret_cast<std::uintptr_t>(&v) % 64) ? 'Y' : Eq<Big>::code<TabBig>(v, b); }
};
struct TabPoly : TabSame<Poly>
{
  static Poly get(int i, int) { return Poly(i); }
  static char code(Poly const & v, int b) { return Eq<Poly>::code<TabPoly>(v, b); }
};
struct TabEmpty : TabSame<EmptyS>
{
  static EmptyS get(int, int) { return EmptyS{}; }
  static char code(EmptyS const &, int) { return '0'; }
  static char canon(char c, int) { return c >= '0' && c <= '2' ? '0' : c; }
};
struct TabPt : TabSame<SentPt>
{
  static SentPt get(int i, int) { return i == 0 ? SentPt{0, 0} : (i == 1 ? SentPt{-1, 0} : SentPt{0, -1}); }
  static char code(SentPt const & v, int b) { return Eq<SentPt>::code<TabPt>(v, b); }
};
using Arr = std::array<int, 3>;
struct TabArr : TabSame<Arr>
{
  static Arr get(int i, int) { return Arr{i, 0, i}; }
  static char code(Arr const & v, int b) { return Eq<Arr>::code<TabArr>(v, b); }
};
// Nested: the payload is itself a tiny optional; 0 = empty inner.
struct TabNest : TabSame<tiny::optional<double>>
{
  using V = tiny::optional<double>;
  static V get(int i, int) { return i == 0 ? V() : V(i * 1.25); }
  static char code(V const & v, int) { return !v ? '0' : (*v == 1.25 ? '1' : (*v == 2.5 ? '2' : 'X')); }
};

struct SentPtValue { static constexpr SentPt value{-1, -1}; };
struct SentDoubleNeg { static constexpr double value = -42.0; };
struct SentEnumT { static constexpr Sent value = Sent::none; };

template <class T, auto v> struct SentT { static constexpr T value = v; };

} // namespace vh

#define VH_PROFILE(NAME, KIND, ...)                                                                                    \
  static ::vh::Registrar VH_CAT(reg_, NAME)(                                                                           \
      #NAME, KIND, ::vh::is_std_opt<typename __VA_ARGS__::Opt>::value,                                                 \
      []() -> ::vh::Runner * { return new ::vh::RunnerT<__VA_ARGS__>; });
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
