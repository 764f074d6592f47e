// Executes the rows of spec/Memory.tla. Every operation runs on optionals next to inaccessible pages, const operations on
// read-only memory, all of them with the program's static memory read-only; the bytes around are compared. Arguments: rows.
#include "memtypes.hpp"
#include <cstdio>
#include <fstream>
#include <link.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>

namespace mt
{
struct Row { std::string op; bool t, r; std::string may, text; };

struct Seg { std::uintptr_t lo, hi; };
inline std::vector<Seg> staticSegments()
{
  std::vector<Seg> v;
  dl_iterate_phdr([](dl_phdr_info * info, std::size_t, void * d) {
    auto & v = *static_cast<std::vector<Seg> *>(d);
    for (int i = 0; i < info->dlpi_phnum; ++i) {
      auto const & ph = info->dlpi_phdr[i];
      if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
        std::uintptr_t const lo = info->dlpi_addr + ph.p_vaddr, hi = lo + ph.p_memsz;
        v.push_back({lo & ~std::uintptr_t(4095), (hi + 4095) & ~std::uintptr_t(4095)});
      }
    }
    return 1; // the first object is the program itself
  }, &v);
  return v;
}

template <class O, class P>
int perform(Row const & w, O & t, O & r, O const & ct, O const & cr, P const & v1, P const & v2, std::optional<P> const & so, volatile long & sink)
{
  std::string const & q = w.op;
  constexpr bool isNested = std::is_same_v<P, tiny::optional<double>>;
  // 0: done, 1: not available
#define OP(name, ...) if (q == name) { __VA_ARGS__; return 0; }
#define OPV(name, ...) if (q == name) { if (!w.t) return 1; __VA_ARGS__; return 0; }
  OP("has", sink = ct.has_value())
  OP("bool", sink = bool(ct))
  OPV("star_cl", sink = std::addressof(*ct) != nullptr)
  OPV("star_cr", auto && x = *std::move(ct); sink = std::addressof(x) != nullptr)
  OPV("arrow_c", sink = ct.operator->() != nullptr)
  OP("value_cl", try { (void)ct.value(); } catch (std::bad_optional_access const &) { sink = 1; })
  OP("value_cr", try { (void)std::move(ct).value(); } catch (std::bad_optional_access const &) { sink = 1; })
  OP("value_or_cl", (void)ct.value_or(v1))
  OP("value_or_rv", (void)ct.value_or(P(v1)))
  OP("and_then_cl", sink = ct.and_then([](P const &) { return tiny::optional<int>(4); }).has_value())
  OP("and_then_cr", sink = std::move(ct).and_then([](P const &&) { return tiny::optional<int>(4); }).has_value())
  OP("transform_cl", sink = ct.transform([](P const &) { return 4; }).has_value())
  OP("transform_cr", sink = std::move(ct).transform([](P const &&) { return 4; }).has_value())
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
  OP("or_else_cl", sink = ct.or_else([] { return O(); }).has_value())
#endif
  if constexpr (!isNested) {
    OP("eq_opt", sink = ct == cr)
    OP("ne_opt", sink = ct != cr)
    OP("lt_opt", sink = ct < cr)
    OP("le_opt", sink = ct <= cr)
    OP("gt_opt", sink = ct > cr)
    OP("ge_opt", sink = ct >= cr)
    OP("eq_val", sink = ct == v1)
    OP("ne_val", sink = ct != v1)
    OP("lt_val", sink = ct < v1)
    OP("le_val", sink = ct <= v1)
    OP("val_eq", sink = v1 == ct)
    OP("val_lt", sink = v1 < ct)
    OP("eq_std", sink = ct == so)
    OP("std_eq", sink = so == ct)
    OP("lt_std", sink = ct < so)
    OP("std_lt", sink = so < ct)
#ifdef TINY_OPTIONAL_ENABLE_THREEWAY_COMPARISON
    if constexpr (std::three_way_comparable<P>) {
      OP("cmp3_opt", sink = (ct <=> cr) < 0)
      OP("cmp3_val", sink = (ct <=> v1) < 0)
    }
#endif
  }
#ifdef TINY_OPTIONAL_ENABLE_THREEWAY_COMPARISON
  OP("cmp3_null", sink = (ct <=> std::nullopt) < 0)
#endif
  OP("eq_null", sink = ct == std::nullopt)
  OP("ne_null", sink = ct != std::nullopt)
  OP("lt_null", sink = ct < std::nullopt)
  OP("gt_null", sink = ct > std::nullopt)
  OP("null_eq", sink = std::nullopt == ct)
  OP("null_lt", sink = std::nullopt < ct)
  if constexpr (std::is_default_constructible_v<std::hash<P>>) {
    OP("hash", sink = long(std::hash<O>{}(ct)))
  }
  OP("copy_from", O c(ct); sink = c.has_value())
  OP("assign_from", O c; c = ct; O d(v2); d = ct; sink = c.has_value())

  OP("reset", t.reset())
  OP("assign_null", t = std::nullopt)
  OP("assign_braces", t = {})
  OP("emplace", t.emplace(v2))
  if constexpr (std::is_constructible_v<P, Throw>) {
    OP("emplace_throw", try { t.emplace(Throw{}); } catch (int) { sink = 2; })
  }
  if constexpr (std::is_same_v<P, std::string>) {
    OP("emplace_il", t.emplace({'a', 'b'}))
  }
  OP("assign_rv", P p(v2); t = std::move(p))
  OP("assign_lv", t = v2)
  OP("assign_self", t = ct)
  OPV("modify", *t = v2)
  OP("construct", ::new (&t) O())
  OP("construct_value", ::new (&t) O(v2))
  OP("destroy", t.~O())
  OP("value_or_r", (void)std::move(t).value_or(v1))
  OP("transform_r", sink = std::move(t).transform([](P && p) { P q(std::move(p)); (void)q; return 4; }).has_value())
  OP("and_then_r", sink = std::move(t).and_then([](P && p) { P q(std::move(p)); (void)q; return tiny::optional<int>(4); }).has_value())
#ifdef TINY_OPTIONAL_ENABLE_ORELSE
  OP("or_else_r", sink = std::move(t).or_else([] { return O(); }).has_value())
#endif
  OP("swap", t.swap(r))
  OP("swap_free", using std::swap; swap(t, r))
  OP("move_assign", t = std::move(r))
  OP("move_construct", ::new (&t) O(std::move(r)))
  OP("copy_assign", t = cr)
  OP("copy_construct", ::new (&t) O(cr))
  OP("assign_from_value_of", if (!w.r) return 1; t = *cr)
  return 1;
#undef OP
#undef OPV
}

struct Shared { long index, cases, rows; bool usedNew; };

template <class O>
void type(char const * name, std::vector<Row> const & rows, std::vector<Seg> const & segs)
{
  using P = typename O::value_type;
  auto * sh = static_cast<Shared *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  *sh = Shared{-1, 0, 0, false};
  int const variants = 6; // two positions, three patterns
  long const total = long(rows.size()) * variants;
  int crashes = 0;
  for (long start = 0; start < total && crashes < 5;) {
    std::fflush(stdout);
    pid_t const pid = fork();
    if (pid == 0) {
      struct rlimit rl = {0, 0};
      setrlimit(RLIMIT_CORE, &rl);
      alarm(120);
      auto * mem = static_cast<unsigned char *>(mmap(nullptr, 3 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
      unsigned char * const page = mem + 4096;
      for (long k = start; k < total; ++k) {
        Row const & w = rows[std::size_t(k / variants)];
        int const var = int(k % variants);
        unsigned char const pat = var % 3 == 0 ? 0x00 : var % 3 == 1 ? 0xff : 0xa5;
        mprotect(page, 4096, PROT_READ | PROT_WRITE);
        std::memset(page, pat, 4096);
        O * const arr = reinterpret_cast<O *>(var / 3 == 0 ? page : page + 4096 - 3 * sizeof(O));
        P const v1 = Val<P>::get(2), v2 = Val<P>::get(3);
        std::optional<P> const so(v1);
        auto make = [&](O * at, bool engaged, int i) { ::new (at) O(); if (engaged) at->emplace(Val<P>::get(i)); };
        make(arr, !w.t, 1);
        bool const fresh = w.op == "construct" || w.op == "construct_value" || w.op == "move_construct" || w.op == "copy_construct";
        if (!fresh) make(arr + 1, w.t, 2);
        make(arr + 2, w.r, 4);
        unsigned char before[4096];
        std::memcpy(before, page, 4096);
        bool const isConst = w.may == "-";
        sh->index = k;
        volatile long sink = 0;
        O & t = arr[1];
        O & r = arr[2];
#ifndef NO_PROTECT
        if (isConst) mprotect(page, 4096, PROT_READ);
        for (auto & s : segs) mprotect(reinterpret_cast<void *>(s.lo), s.hi - s.lo, PROT_READ);
#endif
        int const res = perform<O, P>(w, t, r, t, r, v1, v2, so, sink);
#ifndef NO_PROTECT
        for (auto & s : segs) mprotect(reinterpret_cast<void *>(s.lo), s.hi - s.lo, PROT_READ | PROT_WRITE);
        mprotect(page, 4096, PROT_READ | PROT_WRITE);
#endif
        ++sh->cases;
        if (res == 0) {
          ++sh->rows;
          auto * const tb = reinterpret_cast<unsigned char *>(&t), * const rb = reinterpret_cast<unsigned char *>(&r);
          bool const mayT = w.may.find('t') != std::string::npos, mayR = w.may.find('r') != std::string::npos;
          for (int i = 0; i < 4096; ++i) {
            unsigned char * const p = page + i;
            if (*p == before[i] || (mayT && p >= tb && p < tb + sizeof(O)) || (mayR && p >= rb && p < rb + sizeof(O))) continue;
            std::printf("BAD %s: %s changed byte %ld relative to the target (%zu bytes) from %02x to %02x\n", name, w.text.c_str(), long(p - tb),
                        sizeof(O), before[i], *p);
            break;
          }
          if (var == 0) std::printf("ROW %s\n", w.text.c_str());
        }
        arr[0].~O();
        if (!(fresh && res != 0) && !(w.op == "destroy" && res == 0)) t.~O();
        r.~O();
      }
      std::fflush(stdout);
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
    ++crashes;
    std::printf("BAD %s: %s ended by %s %d (writes to read-only memory or accesses memory that is not its own)\n", name,
                sh->index >= 0 ? rows[std::size_t(sh->index / variants)].text.c_str() : "setup", WIFSIGNALED(st) ? "signal" : "exit code",
                WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
    if (sh->index < 0) break;
    start = sh->index + 1;
  }
  std::printf("ROWS %ld\nCASES %ld\n", sh->rows, sh->cases);
}
} // namespace mt

int main(int, char ** argv)
{
  using namespace mt;
  std::ifstream in(argv[1]);
  std::vector<Row> rows;
  for (std::string line; std::getline(in, line);) {
    std::istringstream is(line);
    Row r;
    std::string a, b;
    is >> r.op >> a >> b >> r.may;
    r.t = a == "V";
    r.r = b == "V";
    r.text = line;
    rows.push_back(r);
  }
  auto const segs = staticSegments();
#define X(name, ...) type<__VA_ARGS__>(name, rows, segs);
#if PART == 0
  MT_TYPES0(X)
#elif PART == 1
  MT_TYPES1(X)
#elif PART == 2
  MT_TYPES2(X)
#else
  MT_TYPES3(X)
#endif
  std::printf("DONE cases=0\n");
}
