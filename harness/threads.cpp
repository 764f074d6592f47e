// Threads as permitted by spec/Memory.tla: const operations on shared optionals while other threads mutate the neighbours.
// Built with the thread sanitizer. Arguments: rounds.
#include "memtypes.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <thread>

namespace mt
{
template <class O, class P>
long readAll(O const & o, P const & v, std::optional<P> const & so)
{
  long s = o.has_value() + 2 * bool(o);
  if (o) { (void)*o; (void)o.operator->(); (void)o.value(); }
  else { try { (void)o.value(); } catch (std::bad_optional_access const &) { ++s; } }
  (void)o.value_or(v);
  s += o.and_then([](P const &) { return tiny::optional<int>(4); }).has_value();
  s += o.transform([](P const &) { return 4; }).has_value();
  O c(o), d;
  d = o;
  s += c.has_value() + d.has_value();
  if constexpr (!std::is_same_v<P, tiny::optional<double>>) {
    s += (o == c) + (o != d) * 2 + (o < c) * 4 + (o == v) + (v == o) + (o < v) + (o == so) + (so == o);
  }
  s += (o == std::nullopt) + (std::nullopt != o) + (o < std::nullopt);
  if constexpr (std::is_default_constructible_v<std::hash<P>>) {
    s += std::hash<O>{}(o) == std::hash<O>{}(c);
  }
  return s;
}

template <class O>
void type(char const * name, int rounds)
{
  using P = typename O::value_type;
  int const threads = 6;
  // even elements are shared and only read, odd ones belong to one thread each
  std::vector<O> arr(2 * threads + 1);
  for (int i = 0; i <= 2 * threads; i += 4) arr[std::size_t(i)].emplace(Val<P>::get(i % 5));
  std::atomic<int> ready{0};
  std::atomic<long> bad{0};
  std::vector<std::thread> ts;
  for (int k = 0; k < threads; ++k) {
    ts.emplace_back([&, k] {
      ++ready;
      while (ready < threads) std::this_thread::yield();
      P const v = Val<P>::get(1);
      std::optional<P> const so(v);
      O & own = arr[std::size_t(2 * k + 1)];
      O priv;
      std::vector<long> first;
      for (int n = 0; n < rounds; ++n) {
        std::size_t j = 0;
        for (int i = 0; i <= 2 * threads; i += 2, ++j) {
          long const s = readAll<O, P>(arr[std::size_t(i)], v, so);
          if (n == 0) first.push_back(s);
          else if (first[j] != s) ++bad;
        }
        switch (n % 7) {
        case 0: own.emplace(Val<P>::get(n % 5)); break;
        case 1: own = arr[std::size_t(2 * k)]; break;
        case 2: own.swap(priv); break;
        case 3: own = Val<P>::get(2); break;
        case 4: own.reset(); break;
        case 5: { O c(arr[std::size_t(2 * k + 2)]); own = std::move(c); break; }
        case 6: own = std::nullopt; break;
        }
      }
    });
  }
  for (auto & t : ts) t.join();
  if (bad) std::printf("BAD %s: %ld reads of a shared optional changed although nobody wrote it\n", name, bad.load());
  std::printf("ROWS %d\n", threads * rounds);
}
} // namespace mt

int main(int, char ** argv)
{
  using namespace mt;
  int const rounds = std::atoi(argv[1]);
#define X(name, ...) type<__VA_ARGS__>(name, rounds);
#if PART == 0
  MT_TYPES0(X)
#elif PART == 1
  MT_TYPES1(X)
#elif PART == 2
  MT_TYPES2(X)
#else
  MT_TYPES3(X)
#endif
  std::printf("DONE cases=%d\n", rounds);
}
