// Checks of sizes and of the place of the emptiness for the rows of spec/Scheme.tla.
#pragma once
#include "schemetypes.hpp"
#include <cstdio>
#include <cstring>
#include <new>
#include <optional>

namespace sz
{
inline long g_cases = 0;
inline void bad(char const * row, char const * what, long got, long want)
{
  std::printf("BAD %s: %s is %ld, should be %ld\n", row, what, got, want);
}

template <class P>
struct Neighbours
{
  char a;
  P p;
  char b;
};

template <class O, class P>
void size(char const * row, bool inPlace)
{
  ++g_cases;
  long const want = inPlace ? long(sizeof(P)) : long(sizeof(std::optional<P>));
  if (long(sizeof(O)) != want) bad(row, "sizeof", sizeof(O), want);
  if (alignof(O) != alignof(P)) bad(row, "alignof", alignof(O), alignof(P));
  if (bool(O::is_compressed) != inPlace) bad(row, "is_compressed", O::is_compressed, inPlace);
  struct Derived : O {};
  if (sizeof(Derived) != sizeof(O)) bad(row, "sizeof(derived)", sizeof(Derived), sizeof(O));
  long const arr = sizeof(O[3]);
  if (arr != 3 * want) bad(row, "sizeof(array)", arr, 3 * want);
  if (inPlace && sizeof(Neighbours<O>) != sizeof(Neighbours<P>)) bad(row, "sizeof(struct)", sizeof(Neighbours<O>), sizeof(Neighbours<P>));
}

// The flag variable of an empty optional holds 'sentinel'. It is at the given offset in the optional.
template <class O, class F, class S>
void holds(char const * row, long offset, S const & sentinel)
{
  for (int fill : {0x00, 0x5a, 0xff}) {
    ++g_cases;
    alignas(O) unsigned char mem[sizeof(O)];
    std::memset(mem, fill, sizeof mem);
    O * o = new (mem) O;
    F f;
    std::memcpy(static_cast<void *>(&f), mem + offset, sizeof f);
    F const want = static_cast<F>(sentinel);
    bool const ok = f == want && !o->has_value();
    if (!ok) bad(row, "flag variable holds the sentinel, empty", ok, 1);
    o->~O();
  }
}

// The empty optional consists, at the given offset, of these bytes (the native representation of 'pattern').
template <class O, class U>
void pattern(char const * row, long offset, U pattern)
{
  for (int fill : {0x00, 0x5a, 0xff}) {
    ++g_cases;
    alignas(O) unsigned char mem[sizeof(O)];
    std::memset(mem, fill, sizeof mem);
    O * o = new (mem) O;
    U u;
    std::memcpy(&u, mem + offset, sizeof u);
    bool const ok = u == pattern && !o->has_value();
    if (!ok) bad(row, "flag variable holds the documented pattern, empty", ok, 1);
    o->~O();
  }
}

template <class C, class M>
long offset(M C::*m)
{
  static C c;
  return long(reinterpret_cast<char const *>(std::addressof(c.*m)) - reinterpret_cast<char const *>(std::addressof(c)));
}
} // namespace sz
