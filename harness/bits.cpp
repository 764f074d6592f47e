// Replays spec/Bits.tla: stores every exported bit pattern by every route and checks that it is engaged and read back bit for bit; checks the
// pattern of an empty optional reached by every route. With "full" also walks through the patterns the classes of the specification stand for.
//   bits ROWS full|rows SEED DEPTH
#include "tiny/optional.h"
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <type_traits>
#include <utility>
#include <vector>

#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_MEMBER)
  #define NOMEM 1
#else
  #define NOMEM 0
#endif
#if defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UB_TRICKS) || defined(TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS)
  #define NOBIT 1
#else
  #define NOBIT 0
#endif
#ifdef __i386__
constexpr bool x87 = true; // returning a floating point number by value goes through the x87 stack and changes signaling NaNs
#else
constexpr bool x87 = false;
#endif

static std::atomic<long long> g_cases{0};
static std::atomic<long> g_bad{0};
static char const * g_what = "";

static void fail(char const * route, std::uint64_t bits)
{
  if (g_bad++ < 60) {
    std::printf("BAD %s: route %s, pattern 0x%llx\n", g_what, route, static_cast<unsigned long long>(bits));
    std::fflush(stdout);
  }
}

struct Table
{
  std::map<std::string, std::vector<std::uint64_t>> patterns;
  std::map<std::string, std::uint64_t> empty;
  std::vector<std::string> store, clear;
};
static Table g_table;

template <std::size_t n> struct UInt;
template <> struct UInt<1> { using type = std::uint8_t; };
template <> struct UInt<4> { using type = std::uint32_t; };
template <> struct UInt<8> { using type = std::uint64_t; };

// How the variable V with the bits is embedded in the payload
template <class V> // maybe cv qualified
struct Self
{
  using Var = std::remove_cv_t<V>;
  using Payload = V;
  using Bare = Var;
  using Opt = tiny::optional<V>;
  template <class P> static auto & var(P & p) { return p; }
  static std::size_t offset() { return 0; }
};
template <class V>
struct Aip : Self<V>
{
#if !NOBIT
  using Opt = tiny::optional_aip<V>;
#endif
};

template <class V> struct RecFirst { V v; int i; char c; friend void fix(RecFirst & r) { r.i = 5; r.c = 'c'; } friend bool ok(RecFirst const & r) { return r.i == 5 && r.c == 'c'; } };
template <class V> struct RecMid { char a; V v; short b; friend void fix(RecMid & r) { r.a = 'a'; r.b = 3; } friend bool ok(RecMid const & r) { return r.a == 'a' && r.b == 3; } };
template <class V> struct RecLast { double x; int y; V v; friend void fix(RecLast & r) { r.x = 1.5; r.y = 2; } friend bool ok(RecLast const & r) { return r.x == 1.5 && r.y == 2; } };
template <class R>
struct Member
{
  using Var = decltype(R::v);
  using Payload = R;
  using Bare = R;
#if NOBIT && !NOMEM
  using Opt = tiny::optional<R>; // members without sentinel are not usable in this configuration
#else
  using Opt = tiny::optional<R, &R::v>;
#endif
  template <class P> static auto & var(P & p) { return p.v; }
  static std::size_t offset() { return offsetof(R, v); }
};

template <class V> void fixAll(V &) {}
template <class V> bool okAll(V const &) { return true; }
template <class V> void fixAll(RecFirst<V> & r) { fix(r); }
template <class V> void fixAll(RecMid<V> & r) { fix(r); }
template <class V> void fixAll(RecLast<V> & r) { fix(r); }
template <class V> bool okAll(RecFirst<V> const & r) { return ok(r); }
template <class V> bool okAll(RecMid<V> const & r) { return ok(r); }
template <class V> bool okAll(RecLast<V> const & r) { return ok(r); }

template <class W>
struct Test
{
  using Var = typename W::Var;
  using Opt = typename W::Opt;
  using P = typename W::Payload; // maybe cv
  using B = typename W::Bare;
  using U = typename UInt<sizeof(Var)>::type;
  static constexpr bool compressed = sizeof(Opt) == sizeof(B);
  static constexpr bool mut = !std::is_const_v<P>;
  static constexpr bool vol = std::is_volatile_v<P>;

  static void put(B & b, std::uint64_t bits)
  {
    U const u = static_cast<U>(bits);
    std::memcpy(static_cast<void *>(&W::var(b)), &u, sizeof u);
  }
  template <class Q>
  static std::uint64_t get(Q const & q)
  {
    U u;
    std::memcpy(&u, const_cast<void const *>(static_cast<void const volatile *>(&W::var(q))), sizeof u);
    return u;
  }
  template <class O>
  static bool holds(O const & o, std::uint64_t bits)
  {
    return o.has_value() && static_cast<bool>(o) && get(*o) == bits && get(o.value()) == bits && get(*o.operator->()) == bits
           && okAll(const_cast<B const &>(*o));
  }
  static std::uint64_t s_empty;
  static bool isEmpty(Opt const & o)
  {
    if (o.has_value() || static_cast<bool>(o)) {
      return false;
    }
    if (compressed) {
      U u;
      std::memcpy(&u, reinterpret_cast<unsigned char const *>(&o) + W::offset(), sizeof u);
      return u == s_empty;
    }
    return true;
  }

  // returns -1: not applicable, 0: wrong, 1: right, -2: unknown route
  static int store(std::string const & r, B const & x, std::uint64_t bits, B const & y)
  {
    auto is = [bits](auto const & o) { return holds(o, bits) ? 1 : 0; };
    B tmp;
    std::memcpy(static_cast<void *>(&tmp), &x, sizeof(B));
    if (r == "ctor_l") { Opt o(x); return is(o); }
    if (r == "ctor_r") { Opt o(std::move(tmp)); return is(o); }
    if (r == "ctor_in_place") { Opt o(std::in_place, x); return is(o); }
    if (r == "ctor_in_place_r") { Opt o(std::in_place, std::move(tmp)); return is(o); }
    if (r == "copy_ctor") { Opt s(x); Opt o(s); return is(o) && is(s); }
    if (r == "move_ctor") { Opt s(x); Opt o(std::move(s)); return is(o) && s.has_value(); }
    if (r == "emplace_empty") { Opt o; o.emplace(x); return is(o); }
    if (r == "emplace_engaged") { Opt o(y); o.emplace(x); return is(o); }
    if (r == "make_optional") { if constexpr (mut && !vol) { auto o = tiny::make_optional(x); return is(o); } else return -1; }
    if (r == "make_optional_args") { if constexpr (!vol) { auto o = tiny::make_optional<P>(x); return is(o); } else return -1; }
    if (r == "value_or") {
      if constexpr (x87 && std::is_floating_point_v<Var>) return -1;
      Opt s(x);
      B const v = s.value_or(y);
      Opt e;
      B const w = e.value_or(x);
      return get(v) == bits && get(w) == bits;
    }
    if (r == "transform") {
      if constexpr (x87 && std::is_floating_point_v<Var>) return -1;
      Opt s(y);
      auto o = s.transform([&x](auto &) { return x; });
      return is(o);
    }
    if (r == "and_then") { Opt s(y); auto o = s.and_then([&x](auto &) { return Opt(x); }); return is(o); }
#if defined(__cpp_concepts) && defined(__cpp_lib_concepts)
    if constexpr (!vol) {
      if (r == "or_else") { Opt s(x); auto o = s.or_else([&y] { return Opt(y); }); return is(o); }
      if (r == "or_else_empty") { Opt s; auto o = s.or_else([&x] { return Opt(x); }); return is(o); }
    }
#endif
    if (r == "or_else" || r == "or_else_empty") return -1;
    if constexpr (mut && std::is_assignable_v<P &, B const &>) {
      if (r == "assign_empty") { Opt o; o = x; return is(o); }
      if (r == "assign_engaged") { Opt o(y); o = x; return is(o); }
      if (r == "assign_r_empty") { Opt o; o = std::move(tmp); return is(o); }
      if (r == "assign_r_engaged") { Opt o(y); o = std::move(tmp); return is(o); }
      if (r == "copy_assign_empty") { Opt s(x), o; o = s; return is(o) && is(s); }
      if (r == "copy_assign_engaged") { Opt s(x), o(y); o = s; return is(o) && is(s); }
      if (r == "move_assign_empty") { Opt s(x), o; o = std::move(s); return is(o) && s.has_value(); }
      if (r == "move_assign_engaged") { Opt s(x), o(y); o = std::move(s); return is(o) && s.has_value(); }
      if (r == "self_assign") { Opt o(x); Opt & q = o; o = q; return is(o); }
      if (r == "write_deref") { Opt o(y); put(const_cast<B &>(*o), bits); return is(o); }
      if (r == "write_value") { Opt o(y); put(const_cast<B &>(o.value()), bits); return is(o); }
      if constexpr (!vol) {
        if (r == "swap_engaged") { Opt o(y), s(x); o.swap(s); return is(o) && holds(s, get(y)); }
        if (r == "swap_empty") { Opt o, s(x); o.swap(s); return is(o) && isEmpty(s); }
        if (r == "swap_empty_other") { Opt o, s(x); s.swap(o); return is(o) && isEmpty(s); }
        if (r == "swap_std") { Opt o(y), s(x); std::swap(o, s); return is(o) && holds(s, get(y)); }
      }
      else if (r.compare(0, 4, "swap") == 0) {
        return -1;
      }
      return -2;
    }
    else {
      return -1;
    }
  }

  static int clear(std::string const & r, B const & y)
  {
    auto is = [](Opt const & o) { return isEmpty(o) ? 1 : 0; };
    if (r == "def") { Opt o; return is(o); }
    if (r == "brace") { Opt o{}; return is(o); }
    if (r == "null_ctor") { Opt o(std::nullopt); return is(o); }
    if (r == "reset") { Opt o(y); o.reset(); return is(o); }
    if (r == "reset_twice") { Opt o(y); o.reset(); o.reset(); return is(o); }
    if (r == "assign_null") { Opt o(y); o = std::nullopt; return is(o); }
    if (r == "copy_empty") { Opt s; Opt o(s); return is(o) && is(s); }
    if (r == "move_empty") { Opt s; Opt o(std::move(s)); return is(o) && is(s); }
    if (r == "and_then_of_empty") { Opt s; auto o = s.and_then([](auto &) { return Opt(); }); return is(o) && is(s); }
    if (r == "transform_of_empty") { Opt s; auto o = s.transform([&y](auto &) { return y; }); return !o.has_value() && is(s); }
    if constexpr (mut && !vol && std::is_assignable_v<P &, B const &>) {
      if (r == "assign_brace") { Opt o(y); o = {}; return is(o); }
      if (r == "assign_temp") { Opt o(y); o = Opt(); return is(o); }
      if (r == "copy_assign_of_empty") { Opt s, o(y); o = s; return is(o) && is(s); }
      if (r == "move_assign_of_empty") { Opt s, o(y); o = std::move(s); return is(o) && is(s); }
      if (r == "swap_away") { Opt s, o(y); o.swap(s); return is(o) && holds(s, get(y)); }
      if (r == "swap_std_away") { Opt s, o(y); std::swap(o, s); return is(o) && holds(s, get(y)); }
      return -2;
    }
    else {
      return -1;
    }
  }

  static void one(std::uint64_t bits, std::vector<std::string> const & routes, B const & y)
  {
    B x{};
    fixAll(x);
    put(x, bits);
    long n = 0;
    for (auto const & r : routes) {
      int const res = store(r, x, bits, y);
      if (res == -2) {
        std::printf("MISSING %s\n", r.c_str());
      }
      n += res >= 0;
      if (res == 0) {
        fail(r.c_str(), bits);
      }
    }
    g_cases += n;
  }

  static void rows(char const * name, std::string const & kind)
  {
    g_what = name;
    s_empty = g_table.empty.at(kind);
    B y{};
    fixAll(y);
    put(y, kind == "bool" ? 1 : 0);
    for (auto const & r : g_table.clear) {
      int const res = clear(r, y);
      if (res == -2) {
        std::printf("MISSING %s\n", r.c_str());
      }
      g_cases += res >= 0;
      if (res == 0) {
        fail(r.c_str(), 0);
      }
    }
    for (auto bits : g_table.patterns.at(kind)) {
      one(bits, g_table.store, y);
    }
    if (NOBIT && kind != "bool") { // nothing is given up then
      one(s_empty, g_table.store, y);
    }
  }

  // Every pattern in [lo, hi) with the step given: constructed, assigned and read back.
  static void walk(std::uint64_t lo, std::uint64_t hi, std::uint64_t step, bool more)
  {
    Opt assigned;
    long n = 0;
    for (std::uint64_t u = lo; u < hi; u += step) {
      if (u == s_empty && compressed) {
        continue;
      }
      B x{};
      fixAll(x);
      put(x, u);
      Opt o(x);
      ++n;
      if (!o.has_value() || get(*o) != u) {
        fail("walk constructed", u);
      }
      if (more) {
        if constexpr (mut && std::is_assignable_v<P &, B const &>) {
          assigned = x;
          Opt c(assigned);
          if (!c.has_value() || get(*c) != u) {
            fail("walk assigned and copied", u);
          }
          if ((u & 1) != 0) {
            assigned.reset();
            if (!isEmpty(assigned)) {
              fail("walk reset", u);
            }
          }
        }
      }
    }
    g_cases += n;
  }
  static void walkAll(char const * name, std::string const & kind, std::uint64_t step, bool more)
  {
    g_what = name;
    s_empty = g_table.empty.at(kind);
    std::vector<std::thread> ts;
    std::uint64_t const slice = (std::uint64_t(1) << 32) / 16;
    std::atomic<int> next{0};
    for (unsigned k = 0; k < 8; ++k) {
      ts.emplace_back([&] {
        for (int i; (i = next++) < 16;) {
          walk(slice * i + (step > 1 ? (i * 7 + 3) % step : 0), slice * (i + 1), step, more);
        }
      });
    }
    for (auto & t : ts) {
      t.join();
    }
  }
  // 64 bit: one limb (16 bits) takes all values while the others are those of some pattern
  static void limbs(char const * name, std::string const & kind, std::uint64_t seed, int bases)
  {
    g_what = name;
    s_empty = g_table.empty.at(kind);
    std::vector<std::uint64_t> b{s_empty, 0, ~std::uint64_t(0), 0x3ff0000000000000ull, 0x7ff0000000000000ull, 0x7ff8000000000000ull, 0x7ff4000000000000ull,
                                 0xfff8000000000000ull, s_empty ^ 0x8000000000000000ull, s_empty + 1, s_empty - 1};
    for (int i = 0; i < bases; ++i) {
      seed = seed * 6364136223846793005ull + 1442695040888963407ull;
      b.push_back(seed ^ (seed >> 29));
      b.push_back((seed >> 12) | 0x7ff0000000000000ull);
    }
    std::atomic<std::size_t> next{0};
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < 8; ++k) {
      ts.emplace_back([&] {
        for (std::size_t i; (i = next++) < b.size();) {
          for (int limb = 0; limb < 4; ++limb) {
            std::uint64_t const mask = ~(std::uint64_t(0xffff) << (16 * limb));
            for (std::uint64_t v = 0; v < 65536; ++v) {
              std::uint64_t const u = (b[i] & mask) | (v << (16 * limb));
              walk(u, u + 1 == 0 ? u : u + 1, 1, true);
            }
          }
        }
      });
    }
    for (auto & t : ts) {
      t.join();
    }
  }
};
template <class W>
std::uint64_t Test<W>::s_empty = 0;

struct Incomplete;
using FPtr = int (*)(int);
#ifdef __x86_64__
  #define PTR "ptr64"
#else
  #define PTR "ptr32"
#endif

#define ALL(V, kind)                                                                                                   \
  Test<Self<V>>::rows("optional<" #V ">", kind);                                                                       \
  Test<Self<V const>>::rows("optional<" #V " const>", kind);                                                           \
  Test<Self<V volatile>>::rows("optional<" #V " volatile>", kind);                                                     \
  Test<Aip<V>>::rows("optional_aip<" #V ">", kind);                                                                    \
  Test<Member<RecFirst<V>>>::rows("first member " #V, kind);                                                           \
  Test<Member<RecMid<V>>>::rows("middle member " #V, kind);                                                            \
  Test<Member<RecLast<V>>>::rows("last member " #V, kind);

int main(int argc, char ** argv)
{
  std::ifstream in(argv[1]);
  std::string line, word, name;
  while (std::getline(in, line)) {
    std::istringstream s(line);
    s >> word >> name;
    std::uint64_t v = 0, limb = 0;
    while (s >> limb) {
      v = (v << 16) | limb;
    }
    if (word == "BITS") g_table.patterns[name].push_back(v);
    if (word == "EMPTY") g_table.empty[name] = v;
    if (word == "STORE") g_table.store.push_back(name);
    if (word == "CLEAR") g_table.clear.push_back(name);
  }
  bool const full = std::string(argv[2]) == "full";
  std::uint64_t const seed = std::strtoull(argv[3], nullptr, 10);
  int const depth = std::atoi(argv[4]);
#if PART == 0
  ALL(bool, "bool")
  ALL(float, "float")
  if (full) {
    Test<Self<float>>::walkAll("every optional<float>", "float", 1, depth > 0);
    if (depth > 0) {
      Test<Member<RecMid<float>>>::walkAll("every float member", "float", 1, true);
      Test<Self<float const>>::walkAll("every optional<float const>", "float", 1, false);
    }
    else {
      Test<Member<RecMid<float>>>::walkAll("float member, every 37th", "float", 37, true);
    }
  }
#elif PART == 1
  ALL(double, "double")
  if (full) {
    Test<Self<double>>::limbs("optional<double>", "double", seed, depth > 0 ? 400 : 4);
    Test<Member<RecLast<double>>>::limbs("double member", "double", seed + 1, depth > 0 ? 100 : 0);
  }
#elif PART == 2
  using CharPtr = char const *;
  using VoidPtr = void *;
  using IncPtr = Incomplete *;
  using PtrPtr = int **;
  ALL(CharPtr, PTR)
  ALL(FPtr, PTR)
  Test<Self<VoidPtr>>::rows("optional<void *>", PTR);
  Test<Self<IncPtr>>::rows("optional<Incomplete *>", PTR);
  Test<Self<PtrPtr>>::rows("optional<int **>", PTR);
  if (full) {
    if constexpr (sizeof(void *) == 8) {
      Test<Self<VoidPtr>>::limbs("optional<void *>", PTR, seed, depth > 0 ? 200 : 2);
    }
    else {
      Test<Self<VoidPtr>>::walkAll("every optional<void *>", PTR, 1, false);
    }
  }
#endif
  std::printf("DONE cases=%lld\n", g_cases.load());
  return 0;
}
