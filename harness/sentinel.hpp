// Checks one optional with a sentinel against spec/Sentinel.tla: an empty optional's flag variable holds exactly the sentinel, every other
// value of the variable is storable by every route, engaged and read back.
#pragma once
#include "tiny/optional.h"
#include <cstdio>
#include <cstring>
#include <type_traits>
#include <utility>
#include <vector>

namespace sv
{
inline long g_cases = 0;
inline long g_bad = 0;
inline char const * g_row = "";

inline void bad(char const * what)
{
  ++g_bad;
  if (g_bad < 200) {
    std::printf("BAD %s: %s\n", g_row, what);
  }
}
#define SV_CHECK(cond, what)                                                                                           \
  do {                                                                                                                 \
    ++::sv::g_cases;                                                                                                   \
    if (!(cond)) {                                                                                                     \
      ::sv::bad(what);                                                                                                 \
    }                                                                                                                  \
  } while (false)

// Payload with the flag variable in the middle.
template <class T>
struct Holder
{
  char pre;
  T m;
  short post;
  Holder(T m) : pre('p'), m(m), post(77) {}
};

template <class T>
struct Direct
{
  using Payload = T;
  static constexpr std::size_t offset = 0;
  static T get(T const & p) { return p; }
  static T make(T v) { return v; }
  static void set(T & p, T v) { p = v; }
};

template <class T>
struct Member
{
  using Payload = Holder<T>;
  static constexpr std::size_t offset = offsetof(Holder<T>, m);
  static T get(Payload const & p) { return p.pre == 'p' && p.post == 77 ? p.m : static_cast<T>(p.m + 1); }
  static Payload make(T v) { return Payload(v); }
  static void set(Payload & p, T v) { p.m = v; }
};

template <class Opt, class Access, class T>
bool flagIs(Opt const & o, T expected)
{
  if (sizeof(Opt) != sizeof(typename Access::Payload)) {
    return true; // separate flag (member tricks disabled)
  }
  T got;
  std::memcpy(&got, reinterpret_cast<unsigned char const *>(&o) + Access::offset, sizeof(T));
  return std::memcmp(&got, &expected, sizeof(T)) == 0;
}

template <class Opt, class Access, class T>
[[gnu::noinline]] void empties(T sentinel)
{
  auto isEmpty = [sentinel](Opt const & o, char const * what) {
    SV_CHECK(!o.has_value() && !static_cast<bool>(o) && (flagIs<Opt, Access>(o, sentinel)), what);
  };
  T other = static_cast<T>(!sentinel);
  Opt e1;
  isEmpty(e1, "default constructed");
  Opt e2(std::nullopt);
  isEmpty(e2, "nullopt constructed");
  Opt c(e1);
  isEmpty(c, "copy of empty");
  Opt m(std::move(e2));
  isEmpty(m, "move of empty");
  Opt v(Access::make(other));
  v.reset();
  isEmpty(v, "reset");
  v = Access::make(other);
  v = std::nullopt;
  isEmpty(v, "assigned nullopt");
  v = Access::make(other);
  v = {};
  isEmpty(v, "assigned {}");
  v = Access::make(other);
  v = e1;
  isEmpty(v, "assigned empty");
  v = Access::make(other);
  v = Opt();
  isEmpty(v, "assigned temporary");
  v.emplace(Access::make(other));
  v.swap(e1);
  isEmpty(v, "swapped");
  SV_CHECK(e1.has_value() && Access::get(*e1) == other, "swapped value");
}

template <class Opt, class Access, class T>
[[gnu::noinline]] void stores(T w)
{
  auto is = [w](Opt const & o, char const * what) {
    SV_CHECK(o.has_value() && Access::get(*o) == w && Access::get(o.value()) == w, what);
  };
  Opt a(Access::make(w));
  is(a, "constructed");
  Opt b(std::in_place, w);
  is(b, "in place");
  Opt c;
  c = Access::make(w);
  is(c, "assigned to empty");
  c = Access::make(w);
  is(c, "assigned to engaged");
  c.reset();
  c.emplace(w);
  is(c, "emplaced");
  c.reset();
  c = a;
  is(c, "copy assigned");
  Opt d(a);
  is(d, "copy constructed");
  Opt e(std::move(a));
  is(e, "move constructed");
  Opt f;
  f = std::move(b);
  is(f, "move assigned");
  Opt g;
  g.swap(f);
  is(g, "swapped");
  SV_CHECK(!f.has_value(), "swapped away");
}

template <class Opt, class Access, class T>
void run(T sentinel, std::vector<T> const & values)
{
  empties<Opt, Access, T>(sentinel);
  for (T w : values) {
    if (w != sentinel) {
      stores<Opt, Access, T>(w);
    }
  }
  // writes through a reference
  Opt o;
  for (T w : values) {
    if (w != sentinel) {
      if (!o.has_value()) {
        o.emplace(w);
      }
      Access::set(*o, w);
      SV_CHECK(o.has_value() && Access::get(*o) == w, "written through a reference");
    }
  }
}

template <class T>
std::vector<T> all() // every value of a small type
{
  std::vector<T> r;
  if constexpr (std::is_same_v<T, bool>) {
    r = {false, true};
  }
  else {
    for (long i = 0; i < (1L << (8 * sizeof(T))); ++i) {
      r.push_back(static_cast<T>(i));
    }
  }
  return r;
}

template <class T>
std::vector<T> operator+(std::vector<T> a, std::vector<T> const & b)
{
  a.insert(a.end(), b.begin(), b.end());
  return a;
}

template <class S, S v>
struct ViaType
{
  static constexpr S value = v;
};
} // namespace sv

namespace sv
{
// Short version for further spellings of the same sentinel.
template <class Opt, class Access, class T>
void lite(T sentinel, T other)
{
  Opt e;
  SV_CHECK(!e.has_value() && (flagIs<Opt, Access>(e, sentinel)), "default constructed");
  Opt v(Access::make(other));
  SV_CHECK(v.has_value() && Access::get(*v) == other, "constructed");
  v.reset();
  SV_CHECK(!v.has_value() && (flagIs<Opt, Access>(v, sentinel)), "reset");
}
} // namespace sv
