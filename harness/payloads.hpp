// Instrumented payload types.
#pragma once
#include "core.hpp"

namespace vh
{
struct ArgV { int v; };                   // payload is explicitly constructible from it
struct ConvI { int v; };                  // implicitly convertible to the payload
struct ConvE { int v; };                  // explicitly convertible to the payload
struct Probe { int n = 5; };              // second constructor argument: its value category gets recorded

// The member used as 'IsEmpty' flag by the member-pointer profiles.
template <class M> struct MemVal;
template <> struct MemVal<int> { static int get() { return 4711; } };
template <> struct MemVal<double> { static double get() { return -0.0; } };
template <> struct MemVal<float> { static float get() { return std::numeric_limits<float>::infinity(); } };
template <> struct MemVal<bool> { static bool get() { return false; } };
template <> struct MemVal<char> { static char get() { return 'q'; } };
template <> struct MemVal<void *> { static void * get() { return nullptr; } };
template <> struct MemVal<unsigned short> { static unsigned short get() { return 0xfffe; } };
template <> struct MemVal<long long> { static long long get() { return -2; } };
enum class Col : int { red = 0, green = 1, blue = 2, invalid = 77 };
template <> struct MemVal<Col> { static Col get() { return Col::red; } };

enum : int { TAIL = 0x5a17, GONE = -1, DEADV = -99 };

// Body of a payload class. The flag member is neither first nor last.
#define VH_COMMON(NAME, M)                                                                                             \
  int val;                                                                                                             \
  M m;                                                                                                                 \
  int tail;                                                                                                            \
  void init_(int v) { val = v; m = MemVal<M>::get(); tail = TAIL; }                                                    \
  NAME() { fault_point(); init_(0); ev_ctor(this, 'v', nullptr); }                                                     \
  explicit NAME(ArgV a) { fault_point(); init_(a.v); ev_ctor(this, 'v', this); }                                       \
  NAME(ArgV a, Probe &) { fault_point(); init_(a.v); ev_ctor(this, 'v', this); g_probe = "pl"; }                       \
  NAME(ArgV a, Probe const &) { fault_point(); init_(a.v); ev_ctor(this, 'v', this); g_probe = "pc"; }                 \
  NAME(ArgV a, Probe &&) { fault_point(); init_(a.v); ev_ctor(this, 'v', this); g_probe = "pr"; }                      \
  NAME(ArgV a, Probe const &&) { fault_point(); init_(a.v); ev_ctor(this, 'v', this); g_probe = "pcr"; }               \
  NAME(std::initializer_list<int> il, ArgV a)                                                                          \
  {                                                                                                                    \
    fault_point();                                                                                                     \
    init_(il.size() == 2 && il.begin()[1] == 70 && a.v == 71 ? il.begin()[0] : -50);                                   \
    ev_ctor(this, 'v', this);                                                                                          \
  }                                                                                                                    \
  NAME(ConvI c) { fault_point(); init_(c.v); ev_ctor(this, 'v', this); }                                               \
  explicit NAME(ConvE c) { fault_point(); init_(c.v); ev_ctor(this, 'v', this); }                                      \
  NAME & operator=(ConvI c) { ev_use(this); fault_point(); init_(c.v); ev_assign(this, 'w', this); return *this; }     \
  ~NAME() { ev_dtor(this); val = DEADV; }                                                                              \
  int code() const { ev_use(this); return (tail == TAIL && m == MemVal<M>::get()) ? val : -77; }                       \
  friend bool operator==(NAME const & l, NAME const & r) { return l.code() == r.code(); }

#define VH_COPYC(NAME, NX)                                                                                             \
  NAME(NAME const & o) { ev_use(&o); fault_point(); init_(o.val); ev_ctor(this, 'c', std::addressof(o)); }
#define VH_MOVEC(NAME, NX, FP)                                                                                         \
  NAME(NAME && o) NX { ev_use(std::addressof(o)); FP; init_(o.val); o.val = GONE; ev_ctor(this, 'm', std::addressof(o)); }
#define VH_COPYA(NAME)                                                                                                 \
  NAME & operator=(NAME const & o)                                                                                     \
  {                                                                                                                    \
    ev_use(this); ev_use(std::addressof(o)); fault_point();                                                            \
    if (this != std::addressof(o)) init_(o.val);                                                                       \
    ev_assign(this, 'c', std::addressof(o));                                                                           \
    return *this;                                                                                                      \
  }
#define VH_MOVEA(NAME, NX, FP)                                                                                         \
  NAME & operator=(NAME && o) NX                                                                                       \
  {                                                                                                                    \
    ev_use(this); ev_use(std::addressof(o)); FP;                                                                       \
    if (this != std::addressof(o)) { init_(o.val); o.val = GONE; }                                                     \
    ev_assign(this, 'm', std::addressof(o));                                                                           \
    return *this;                                                                                                      \
  }
#define VH_SWAP(NAME, NX, FP)                                                                                          \
  friend void swap(NAME & l, NAME & r) NX                                                                              \
  {                                                                                                                    \
    ev_use(std::addressof(l)); ev_use(std::addressof(r)); FP;                                                          \
    int t = l.val; l.val = r.val; r.val = t;                                                                           \
    ev_swap(std::addressof(l), std::addressof(r));                                                                     \
  }

// TAG makes distinct types, e.g. to specialise the flag manipulator for one of them.
template <class M, int TAG = 0> struct TFull
{
  VH_COMMON(TFull, M)
  VH_COPYC(TFull, ) VH_MOVEC(TFull, , fault_point()) VH_COPYA(TFull) VH_MOVEA(TFull, , fault_point())
  VH_SWAP(TFull, , fault_point())
};
template <class M, int TAG = 0> struct TNothrow
{
  VH_COMMON(TNothrow, M)
  VH_COPYC(TNothrow, ) VH_MOVEC(TNothrow, noexcept, ) VH_COPYA(TNothrow) VH_MOVEA(TNothrow, noexcept, )
  VH_SWAP(TNothrow, noexcept, )
};
template <class M, int TAG = 0> struct TCopyOnly
{
  VH_COMMON(TCopyOnly, M)
  VH_COPYC(TCopyOnly, ) VH_COPYA(TCopyOnly)
  VH_SWAP(TCopyOnly, , fault_point())
};
template <class M, int TAG = 0> struct TMoveOnly
{
  VH_COMMON(TMoveOnly, M)
  TMoveOnly(TMoveOnly const &) = delete;
  TMoveOnly & operator=(TMoveOnly const &) = delete;
  VH_MOVEC(TMoveOnly, , fault_point()) VH_MOVEA(TMoveOnly, , fault_point())
  VH_SWAP(TMoveOnly, , fault_point())
};
template <class M, int TAG = 0> struct TNoAssign
{
  VH_COMMON(TNoAssign, M)
  VH_COPYC(TNoAssign, ) VH_MOVEC(TNoAssign, , fault_point())
  TNoAssign & operator=(TNoAssign const &) = delete;
};
template <class M, int TAG = 0> struct TImm
{
  VH_COMMON(TImm, M)
  TImm(TImm const &) = delete;
  TImm & operator=(TImm const &) = delete;
};
// Overloaded address-of operator.
template <class M, int TAG = 0> struct TAmp
{
  VH_COMMON(TAmp, M)
  VH_MOVEC(TAmp, , fault_point()) VH_COPYA(TAmp) VH_MOVEA(TAmp, , fault_point())
  TAmp(TAmp const & o) { ev_use(std::addressof(o)); fault_point(); init_(o.val); ev_ctor(this, 'c', std::addressof(o)); }
  VH_SWAP(TAmp, , fault_point())
  TAmp * operator&() { return reinterpret_cast<TAmp *>(16); }
  TAmp const * operator&() const { return reinterpret_cast<TAmp const *>(16); }
  // Further operators which generic code must not use by accident.
  static void * operator new(std::size_t, void *) = delete;
  bool operator!() const { std::abort(); }
  explicit operator bool() const { std::abort(); }
  template <class X> friend void operator,(TAmp const &, X &&) { std::abort(); }
  template <class X> friend void operator,(X &&, TAmp const &) { std::abort(); }
};
// Implicitly constructible and assignable from anything, like std::any. Being built from an optional or a tag instead of from its payload is noticed.
template <class M, int TAG = 0> struct TGreedy
{
  template <class U> static constexpr bool Other = !std::is_same_v<std::decay_t<U>, TGreedy> && !std::is_same_v<std::decay_t<U>, ArgV> && !std::is_same_v<std::decay_t<U>, ConvI>
                                                   && !std::is_same_v<std::decay_t<U>, ConvE>;
  VH_COMMON(TGreedy, M)
  VH_COPYC(TGreedy, ) VH_MOVEC(TGreedy, , fault_point()) VH_COPYA(TGreedy) VH_MOVEA(TGreedy, , fault_point())
  VH_SWAP(TGreedy, , fault_point())
  template <class U, std::enable_if_t<Other<U>, int> = 0> TGreedy(U &&) { init_(-60); ev_ctor(this, 'v', this); }
  template <class U, std::enable_if_t<Other<U>, int> = 0> TGreedy & operator=(U &&) { init_(-61); ev_assign(this, 'w', this); return *this; }
};
//------------------------------------------------------------------------------
// Payloads which differ in the properties type traits can ask for. TR: which operations may throw.
struct NxNone { static constexpr bool v = false, cc = false, ca = false, mc = false, ma = false, w = false, s = false; };
struct NxAll { static constexpr bool v = true, cc = true, ca = true, mc = true, ma = true, w = true, s = true; };
struct NxCopy { static constexpr bool v = false, cc = true, ca = true, mc = false, ma = false, w = false, s = true; };    // kind copynx
struct NxMoveC { static constexpr bool v = false, cc = true, ca = false, mc = true, ma = false, w = true, s = false; };   // kind mcnx
struct NxMoveA { static constexpr bool v = true, cc = false, ca = true, mc = false, ma = true, w = false, s = false; };   // kind manx
template <bool nx> inline void maybe_fault() noexcept(nx) { if constexpr (!nx) fault_point(); }

// Needs init_(int), get_(), set_(int), EVC(this, how, src), EVU(p).
#define VH_VARIANT(NAME, TR)                                                                                           \
  NAME() noexcept(TR::v) { maybe_fault<TR::v>(); init_(0); evc(this, 'v', nullptr); }                                  \
  explicit NAME(ArgV a) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); }                    \
  NAME(ArgV a, Probe &) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pl"; }    \
  NAME(ArgV a, Probe const &) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pc"; } \
  NAME(ArgV a, Probe &&) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pr"; }   \
  NAME(ArgV a, Probe const &&) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pcr"; } \
  NAME(std::initializer_list<int> il, ArgV a) noexcept(TR::v)                                                          \
  {                                                                                                                    \
    maybe_fault<TR::v>();                                                                                              \
    init_(il.size() == 2 && il.begin()[1] == 70 && a.v == 71 ? il.begin()[0] : -50);                                   \
    evc(this, 'v', this);                                                                                              \
  }                                                                                                                    \
  NAME(ConvI c) noexcept(TR::v) { maybe_fault<TR::v>(); init_(c.v); evc(this, 'v', this); }                            \
  explicit NAME(ConvE c) noexcept(TR::v) { maybe_fault<TR::v>(); init_(c.v); evc(this, 'v', this); }                   \
  NAME & operator=(ConvI c) noexcept(TR::w) { evu(this); maybe_fault<TR::w>(); init_(c.v); ev_assign(this, 'w', this); return *this; } \
  NAME(NAME const & o) noexcept(TR::cc) { evu(&o); maybe_fault<TR::cc>(); init_(o.get_()); evc(this, 'c', &o); }       \
  NAME(NAME && o) noexcept(TR::mc) { evu(&o); maybe_fault<TR::mc>(); init_(o.get_()); o.set_(GONE); evc(this, 'm', &o); } \
  NAME & operator=(NAME const & o) noexcept(TR::ca)                                                                    \
  {                                                                                                                    \
    evu(this); evu(&o); maybe_fault<TR::ca>();                                                                         \
    if (this != &o) init_(o.get_());                                                                                   \
    ev_assign(this, 'c', &o);                                                                                          \
    return *this;                                                                                                      \
  }                                                                                                                    \
  NAME & operator=(NAME && o) noexcept(TR::ma)                                                                         \
  {                                                                                                                    \
    evu(this); evu(&o); maybe_fault<TR::ma>();                                                                         \
    if (this != &o) { init_(o.get_()); o.set_(GONE); }                                                                 \
    ev_assign(this, 'm', &o);                                                                                          \
    return *this;                                                                                                      \
  }                                                                                                                    \
  friend void swap(NAME & l, NAME & r) noexcept(TR::s)                                                                 \
  {                                                                                                                    \
    evu(&l); evu(&r); maybe_fault<TR::s>();                                                                            \
    int t = l.get_(); l.set_(r.get_()); r.set_(t);                                                                     \
    ev_swap(&l, &r);                                                                                                   \
  }                                                                                                                    \
  friend bool operator==(NAME const & l, NAME const & r) { return l.code() == r.code(); }
#define VH_STORED(M)                                                                                                   \
  int val;                                                                                                             \
  M m;                                                                                                                 \
  int tail;                                                                                                            \
  void init_(int v) noexcept { val = v; m = MemVal<M>::get(); tail = TAIL; }                                           \
  int get_() const noexcept { return val; }                                                                            \
  void set_(int v) noexcept { val = v; }                                                                               \
  int code() const { evu(this); return (tail == TAIL && m == MemVal<M>::get()) ? val : -77; }
#define VH_EVENTS                                                                                                      \
  static void evc(void const * at, char how, void const * src) { ev_ctor(at, how, src); }                              \
  static void evu(void const * at) { ev_use(at); }
// Trivially destructible: the end of its lifetime cannot be observed.
#define VH_EVENTS_TRIV                                                                                                 \
  static void evc(void const * at, char how, void const * src) { ev_ctor_untracked(at, how, src); }                    \
  static void evu(void const *) {}

template <class M, class TR> struct TVar
{
  VH_EVENTS VH_STORED(M) VH_VARIANT(TVar, TR)
  ~TVar() { ev_dtor(this); val = DEADV; }
};
template <class M, class TR> struct alignas(64) TAligned final
{
  VH_EVENTS VH_STORED(M) VH_VARIANT(TAligned, TR)
  ~TAligned() { ev_dtor(this); val = DEADV; }
};
template <class M, class TR> struct TTrivD
{
  VH_EVENTS_TRIV VH_STORED(M) VH_VARIANT(TTrivD, TR)
};
// Trivially copyable, but with its own swap and conversions: copies, moves and destructions cannot be observed.
template <class M, class TR> struct TTriv
{
  VH_EVENTS_TRIV VH_STORED(M)
  TTriv() noexcept(TR::v) { maybe_fault<TR::v>(); init_(0); evc(this, 'v', nullptr); }
  explicit TTriv(ArgV a) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); }
  TTriv(ArgV a, Probe &) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pl"; }
  TTriv(ArgV a, Probe const &) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pc"; }
  TTriv(ArgV a, Probe &&) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pr"; }
  TTriv(ArgV a, Probe const &&) noexcept(TR::v) { maybe_fault<TR::v>(); init_(a.v); evc(this, 'v', this); g_probe = "pcr"; }
  TTriv(std::initializer_list<int> il, ArgV a) noexcept(TR::v)
  {
    maybe_fault<TR::v>();
    init_(il.size() == 2 && il.begin()[1] == 70 && a.v == 71 ? il.begin()[0] : -50);
    evc(this, 'v', this);
  }
  TTriv(ConvI c) noexcept(TR::v) { maybe_fault<TR::v>(); init_(c.v); evc(this, 'v', this); }
  explicit TTriv(ConvE c) noexcept(TR::v) { maybe_fault<TR::v>(); init_(c.v); evc(this, 'v', this); }
  TTriv & operator=(ConvI c) noexcept(TR::w) { maybe_fault<TR::w>(); init_(c.v); ev_assign(this, 'w', this); return *this; }
  TTriv(TTriv const &) = default;
  TTriv(TTriv &&) = default;
  TTriv & operator=(TTriv const &) = default;
  TTriv & operator=(TTriv &&) = default;
  friend void swap(TTriv & l, TTriv & r) noexcept(TR::s)
  {
    maybe_fault<TR::s>();
    int t = l.get_(); l.set_(r.get_()); r.set_(t);
    ev_swap(&l, &r);
  }
  friend bool operator==(TTriv const & l, TTriv const & r) { return l.code() == r.code(); }
};
struct NxCM { static constexpr bool v = false, cc = true, ca = true, mc = true, ma = true, w = false, s = false; };       // kind triv
static_assert(std::is_trivially_copyable_v<TTriv<int, NxCM>>);
struct VBase { virtual ~VBase() = default; virtual int id() const { return 1; } int vb = 77; };
template <class M, class TR> struct TPoly : virtual VBase
{
  VH_EVENTS VH_STORED(M) VH_VARIANT(TPoly, TR)
  ~TPoly() override { ev_dtor(this); val = DEADV; }
  int id() const override { return 2; }
};
// Empty class: the value is kept outside, by address.
template <class TR> struct TEmpty
{
  VH_EVENTS
  void init_(int v) noexcept { g_outside[this] = v; }
  int get_() const noexcept { auto it = g_outside.find(this); return it == g_outside.end() ? -78 : it->second; }
  void set_(int v) noexcept { g_outside[this] = v; }
  int code() const { evu(this); return get_(); }
  VH_VARIANT(TEmpty, TR)
  ~TEmpty() { ev_dtor(this); g_outside.erase(this); }
};
static_assert(std::is_empty_v<TEmpty<NxAll>> && std::is_trivially_destructible_v<TTrivD<int, NxAll>> && !std::is_trivially_copyable_v<TTrivD<int, NxAll>>);
} // namespace vh

#define VH_HASH(TT)                                                                                                    \
  template <class M, int TAG> struct std::hash<vh::TT<M, TAG>>                                                         \
  {                                                                                                                    \
    std::size_t operator()(vh::TT<M, TAG> const & x) const { return 100000u + static_cast<unsigned>(x.code()); }       \
  };
VH_HASH(TFull) VH_HASH(TNothrow) VH_HASH(TCopyOnly) VH_HASH(TMoveOnly) VH_HASH(TNoAssign) VH_HASH(TImm) VH_HASH(TAmp) VH_HASH(TGreedy)
template <class M, class TR> struct std::hash<vh::TVar<M, TR>> { std::size_t operator()(vh::TVar<M, TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
template <class M, class TR> struct std::hash<vh::TAligned<M, TR>> { std::size_t operator()(vh::TAligned<M, TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
template <class M, class TR> struct std::hash<vh::TTrivD<M, TR>> { std::size_t operator()(vh::TTrivD<M, TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
template <class M, class TR> struct std::hash<vh::TTriv<M, TR>> { std::size_t operator()(vh::TTriv<M, TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
template <class M, class TR> struct std::hash<vh::TPoly<M, TR>> { std::size_t operator()(vh::TPoly<M, TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
template <class TR> struct std::hash<vh::TEmpty<TR>> { std::size_t operator()(vh::TEmpty<TR> const & x) const { return 100000u + static_cast<unsigned>(x.code()); } };
