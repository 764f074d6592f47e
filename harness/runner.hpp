// Executes operations of spec/OptionalOps.tla on one optional type (a 'profile').
#pragma once
#include "core.hpp"
#include "payloads.hpp"

// Operation groups can be left out to save compile time.
#ifndef VH_G_OBS
  #define VH_G_OBS 1
#endif
#ifndef VH_G_MON
  #define VH_G_MON 1
#endif

namespace vh
{
enum : unsigned
{
  CAP_DEFAULT = 1,   // value 0 is the default constructed payload
  CAP_ARGS2 = 2,     // construction with a probe argument
  CAP_IL = 4,        // construction from an initializer list
  CAP_CONV = 8,      // ConvI/ConvE
  CAP_HASH = 16,
  CAP_MAKE = 32,     // make_optional
  CAP_EVENTS = 64,   // instrumented payload
  CAP_LOOSE = 128,   // moved-from value unspecified
  CAP_CEXPL = 256,   // ConvE
  CAP_NODTOR = 1024, // trivially destructible instrumented payload
  CAP_NOCM = 2048,   // trivially copyable instrumented payload
  CAP_FLAGS = 512    // custom flag manipulator that reports to flags.cpp
};

template <class T>
struct is_std_opt : std::false_type {};
template <class T>
struct is_std_opt<std::optional<T>> : std::true_type {};

struct ImmRes // result of transform: neither copyable nor movable
{
  int v;
  explicit ImmRes(int v) : v(v) {}
  ImmRes(ImmRes const &) = delete;
  ImmRes & operator=(ImmRes const &) = delete;
};
struct CustRes // the same, with an optional_flag_manipulator specialisation
{
  int v;
  int flag = 0;
  explicit CustRes(int v) : v(v) { ev_ctor(this, 'v', this); }
  CustRes(CustRes const &) = delete;
  CustRes & operator=(CustRes const &) = delete;
  ~CustRes() { ev_dtor(this); }
};
struct MovRes // could be moved, but need not be
{
  int v;
  explicit MovRes(int v) noexcept : v(v) {}
  MovRes(MovRes && o) noexcept : v(o.v) { g_life.push_back("result of transform moved"); }
  MovRes & operator=(MovRes &&) = delete;
};
inline char resCode(double d) { return static_cast<char>(d); }
template <class R> auto resCode(R const & r) -> decltype(static_cast<char>(r.v)) { return static_cast<char>(r.v); }

template <class P>
struct RunnerT final : Runner
{
  using Opt = typename P::Opt;
  using T = typename Opt::value_type; // maybe cv qualified
  using U = std::remove_cv_t<T>;
  static constexpr unsigned caps = P::caps;
  static constexpr bool isStd = is_std_opt<Opt>::value;
  static constexpr bool has(unsigned c) { return (caps & c) == c; }

  static constexpr bool cc = std::is_copy_constructible_v<T>;
  static constexpr bool mc = std::is_move_constructible_v<T>;
  static constexpr bool xm = std::is_constructible_v<T, U &&> && std::is_move_constructible_v<U>;
  static constexpr bool ucc = std::is_copy_constructible_v<U>;
  static constexpr bool ca = std::is_copy_assignable_v<T>;
  static constexpr bool ma = std::is_move_assignable_v<T>;
  static constexpr bool mut = !std::is_const_v<T>;
  static constexpr bool vol = std::is_volatile_v<T>;
#if (defined(__cpp_concepts) && defined(__cpp_lib_concepts))
  static constexpr bool hasOrElse = true;
#else
  static constexpr bool hasOrElse = false;
#endif
#ifdef __cpp_lib_optional
  static constexpr bool stdMonadic = __cpp_lib_optional >= 202110L;
#else
  static constexpr bool stdMonadic = false;
#endif
  template <class X> using ResOpt = typename P::template Res<X>;

  struct World
  {
    unsigned char g0[64];
    alignas(Opt) unsigned char a[sizeof(Opt)];
    unsigned char g1[64];
    alignas(Opt) unsigned char b[sizeof(Opt)];
    unsigned char g2[64];
  };
  std::unique_ptr<World> w;
  bool alive[2] = {false, false};
  unsigned pattern = 0;
  unsigned char guardByte = 0;
  int bind = 0;
  void const * xAddr = nullptr;
  std::size_t xSize = 0;

  static unsigned char * raw(World & w, int i) { return i == 0 ? w.a : w.b; }
  Opt & slot(int i) { return *std::launder(reinterpret_cast<Opt *>(raw(*w, i))); }

  void fresh(unsigned pat, int binding) override
  {
    abandon();
    w.reset(new World);
    pattern = pat;
    bind = binding;
    guardByte = static_cast<unsigned char>(0xC3 ^ pat);
    std::memset(w->g0, guardByte, sizeof(w->g0));
    std::memset(w->g1, guardByte, sizeof(w->g1));
    std::memset(w->g2, guardByte, sizeof(w->g2));
    fill(0);
    fill(1);
    alive[0] = alive[1] = false;
    g_live.clear();
    g_flags.clear();
    g_life.clear();
    g_events.clear();
    trace("reset", nullptr);
  }
  void abandon() override
  {
    if (w)
      (void)w.release(); // deliberately leaked: the world may be corrupt
    alive[0] = alive[1] = false;
  }
  int bindings() const override { return P::bindings; }
  char canon(char c) const override { return P::canon(c, bind); }
  bool looseMoved() const override { return has(CAP_LOOSE); }
  bool checksHash() const override { return has(CAP_HASH); }

  void fill(int i)
  {
    static unsigned char const pats[] = {0x00, 0xff, 0xaa, 0x01, 0x7f};
    std::memset(raw(*w, i), pats[pattern++ % 5], sizeof(Opt));
  }

  template <class V>
  char codeOf(V const & v) { return P::code(v, bind); }

  char slotCode(int i, Obs & o)
  {
    if (!alive[i])
      return 'd';
    Opt const & s = slot(i);
    bool const h = s.has_value();
    if (static_cast<bool>(s) != h)
      o.cons.push_back("operator bool differs from has_value");
    if (!h)
      return 'e';
    auto const * p = std::addressof(*s);
    auto * lo = raw(*w, i);
    auto * pc = reinterpret_cast<unsigned char const *>(const_cast<U const *>(p));
    if (pc < lo || pc + sizeof(U) > lo + sizeof(Opt))
      o.ident.push_back("payload outside of the optional");
    return codeOf(*s);
  }

  std::string loc(void const * p, bool srcSide) const
  {
    auto const c = static_cast<unsigned char const *>(p);
    if (c >= w->a && c < w->a + sizeof(Opt)) return "a";
    if (c >= w->b && c < w->b + sizeof(Opt)) return "b";
    auto const xs = static_cast<unsigned char const *>(xAddr);
    if (xs && c >= xs && c < xs + xSize) return "x";
    (void)srcSide;
    return "t";
  }

  bool inSlot(int i, void const volatile * p) const
  {
    auto const c = static_cast<unsigned char const *>(const_cast<void const *>(p));
    auto const lo = raw(*w, i);
    return c >= lo && c < lo + sizeof(Opt);
  }

  // Argument of payload type.
  struct Holder
  {
    RunnerT & r;
    U x;
    explicit Holder(RunnerT & r, int v) : r(r), x(P::make(v, r.bind))
    {
      r.xAddr = std::addressof(x);
      r.xSize = sizeof(U);
    }
  };

  template <class F>
  void guarded(Edge const & e, Obs & o, F && f)
  {
    g_events.clear();
    g_probe.clear();
    g_log = true;
    g_fault = e.fault;
    try {
      f();
    }
    catch (Fault &) {
      o.out = "exc";
    }
    catch (std::bad_optional_access &) {
      o.out = "bad";
    }
    catch (...) {
      o.out = "other";
    }
    g_fault = 0;
    g_log = false;
    o.executed = true;
  }

  template <class F>
  void construct(Edge const & e, Obs & o, int i, F && f)
  {
    fill(i);
    guarded(e, o, [&] { f(static_cast<void *>(raw(*w, i))); });
    if (o.out == "ok")
      alive[i] = true;
  }

  void self(Obs & o, int i, void const volatile * r)
  {
    if (r != static_cast<void const volatile *>(std::addressof(slot(i))))
      o.ident.push_back("does not return *this");
  }
  template <class R>
  void ref(Obs & o, int i, R & r)
  {
    if (!inSlot(i, std::addressof(r)) || std::addressof(r) != std::addressof(*slot(i)))
      o.ident.push_back("does not refer to the contained object");
  }

  template <class X>
  static std::string str(X c) { return std::string(1, c); }

  Obs exec(Edge const & e) override
  {
    Obs o;
    xAddr = nullptr;
    xSize = 0;
    int const i = e.s == 'a' ? 0 : 1;
    if (e.op <= OP_c_cmove)
      execCtor(e, o, i, 1 - i);
    else if (e.op <= OP_e_il)
      execAssign(e, o, i, 1 - i);
    else if (e.op <= OP_m_value)
      execMisc(e, o, i, 1 - i);
#if VH_G_OBS
    else if (e.op <= OP_vo_ci)
      execObs(e, o, i);
#endif
#if VH_G_MON
    else if (e.op >= OP_at_l)
      execMon(e, o, i);
#endif
    if (!o.executed)
      return o;
    finish(e, o);
    return o;
  }

  void finish(Edge const & e, Obs & o)
  {
    // Events that concern the two optionals.
    if constexpr (has(CAP_EVENTS)) {
      o.hasEvents = true;
      o.noDtor = has(CAP_NODTOR);
      o.noCM = has(CAP_NOCM);
      for (Ev const & v : g_events) {
        std::string const at = loc(v.at, false);
        if (v.type == 'S') {
          std::string other = loc(v.src, true);
          o.ev.push_back(at + "S" + other);
          continue;
        }
        if (at == "t" && v.type == 'C')
          ++o.temps;
        if (at != "a" && at != "b")
          continue;
        if (v.type == 'D')
          o.ev.push_back(at + "D");
        else if (v.how == 'v' || v.how == 'w')
          o.ev.push_back(at + v.type + v.how + (v.src ? "x" : "d"));
        else
          o.ev.push_back(at + v.type + v.how + loc(v.src, true));
      }
    }
    for (auto & s : g_life)
      o.life.push_back(s);
    g_life.clear();
    o.state = str(slotCode(0, o)) + str(slotCode(1, o));
    if constexpr (has(CAP_EVENTS) && !has(CAP_NODTOR)) {
      // Census: exactly the engaged optionals contain a live payload.
      for (int i = 0; i < 2; ++i) {
        int n = 0;
        for (auto & l : g_live)
          if (inSlot(i, l.first))
            ++n;
        bool const eng = alive[i] && slot(i).has_value();
        if (n != (eng ? P::perValue : 0))
          o.life.push_back("slot " + str(i ? 'b' : 'a') + ": " + std::to_string(n) + " live payload objects, engaged=" +
                           (eng ? "1" : "0"));
      }
    }
    if constexpr (has(CAP_FLAGS)) {
      // Census: exactly the empty optionals contain a flag object.
      for (int i = 0; i < 2; ++i) {
        int n = 0;
        for (auto & l : g_flags)
          if (inSlot(i, l))
            ++n;
        bool const emp = alive[i] && !slot(i).has_value();
        if (n != (emp ? 1 : 0))
          o.life.push_back("FLAG slot " + str(i ? 'b' : 'a') + ": " + std::to_string(n) + " flag objects, empty=" + (emp ? "1" : "0"));
      }
      for (auto & s : g_life)
        o.life.push_back(s);
      g_life.clear();
    }
    auto chk = [&](unsigned char const * g, std::size_t n, char const * what) {
      for (std::size_t k = 0; k < n; ++k)
        if (g[k] != guardByte) {
          o.guard.push_back(std::string("guard bytes ") + what + " overwritten");
          break;
        }
    };
    chk(w->g0, 64, "before a");
    chk(w->g1, 64, "between a and b");
    chk(w->g2, 64, "after b");
    (void)e;
  }

  void execCtor(Edge const & e, Obs & o, int i, int j)
  {
    int const v = e.v;
    switch (e.op) {
    case OP_c_def: construct(e, o, i, [&](void * p) { ::new (p) Opt; }); break;
    case OP_c_brace: construct(e, o, i, [&](void * p) { ::new (p) Opt{}; }); break;
    case OP_c_null: construct(e, o, i, [&](void * p) { ::new (p) Opt(std::nullopt); }); break;
    case OP_c_in0:
      if constexpr (has(CAP_DEFAULT))
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place); });
      break;
    case OP_c_arg:
      {
        auto arg = P::arg(v, bind);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, std::move(arg)); });
      }
      break;
    case OP_c_in2l:
      if constexpr (has(CAP_ARGS2)) {
        Probe q;
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, ArgV{v}, q); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_c_in2r:
      if constexpr (has(CAP_ARGS2)) {
        Probe q;
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, ArgV{v}, std::move(q)); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_c_in2c:
      if constexpr (has(CAP_ARGS2)) {
        Probe const q;
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, ArgV{v}, q); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_c_il:
      if constexpr (has(CAP_IL))
        construct(e, o, i, [&](void * p) { P::ilCtor(p, v, bind); });
      break;
    case OP_c_ci:
      if constexpr (has(CAP_CONV)) {
        auto c = P::convArgI(v, bind);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(c); });
      }
      break;
    case OP_c_cic:
      if constexpr (has(CAP_CONV)) {
        auto c = P::convArgI(v, bind);
        construct(e, o, i, [&](void * p) { ::new (p) Opt([&]() -> Opt { return c; }()); });
      }
      break;
    case OP_c_ce:
      if constexpr (has(CAP_CONV)) {
        auto c = P::convArgE(v, bind);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(c); });
      }
      break;
    case OP_c_mkarg:
      if constexpr (has(CAP_MAKE)) {
        auto arg = P::arg(v, bind);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(P::mkArg(std::move(arg))); });
      }
      break;
    case OP_c_mkil:
      if constexpr (has(CAP_MAKE | CAP_IL))
        construct(e, o, i, [&](void * p) { P::mkIl(p, v, bind); });
      break;
    case OP_c_inl:
      if constexpr (cc && ucc) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, h.x); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_vl:
      if constexpr (cc && ucc) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(h.x); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_vcl:
      if constexpr (cc && ucc) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::as_const(h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_mkl:
      if constexpr (cc && ucc && has(CAP_MAKE)) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(P::mkVal(h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_inr:
      if constexpr (xm) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::in_place, std::move(h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_vr:
      if constexpr (xm) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::move(h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_mkr:
      if constexpr (xm && has(CAP_MAKE)) {
        Holder h(*this, v);
        construct(e, o, i, [&](void * p) { ::new (p) Opt(P::mkVal(std::move(h.x))); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_c_copy:
      if constexpr (cc)
        construct(e, o, i, [&](void * p) { ::new (p) Opt(slot(j)); });
      break;
    case OP_c_move:
      if constexpr (mc)
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::move(slot(j))); });
      break;
    case OP_c_cmove:
      if constexpr (cc)
        construct(e, o, i, [&](void * p) { ::new (p) Opt(std::move(std::as_const(slot(j)))); });
      break;
    default: break;
    }
  }

  void execAssign(Edge const & e, Obs & o, int i, int j)
  {
    int const v = e.v;
    Opt & s = slot(i);
    switch (e.op) {
    case OP_a_null: guarded(e, o, [&] { self(o, i, std::addressof(s = std::nullopt)); }); break;
    case OP_a_brace:
      // (for volatile payloads, '= {}' assigns a value, as for std::optional)
      if constexpr (mc && ma && !vol)
        guarded(e, o, [&] { self(o, i, std::addressof(s = {})); });
      break;
    case OP_a_tmpe:
      if constexpr (mc && ma)
        guarded(e, o, [&] { self(o, i, std::addressof(s = Opt())); });
      break;
    case OP_a_vl:
      if constexpr (cc && ca) {
        Holder h(*this, v);
        guarded(e, o, [&] { self(o, i, std::addressof(s = h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_a_vcl:
      if constexpr (cc && ca) {
        Holder h(*this, v);
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::as_const(h.x))); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_a_vr:
      if constexpr (mc && ma) {
        Holder h(*this, v);
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::move(h.x))); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_a_ci:
      if constexpr (mut && has(CAP_CONV)) {
        auto c = P::convArgI(v, bind);
        guarded(e, o, [&] { self(o, i, std::addressof(s = c)); });
      }
      break;
    case OP_a_tmp:
      if constexpr (mc && ma) {
        auto arg = P::arg(v, bind);
        guarded(e, o, [&] { self(o, i, std::addressof(s = Opt(std::in_place, std::move(arg)))); });
      }
      break;
    case OP_a_copy:
      if constexpr (cc && ca)
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::as_const(slot(j)))); });
      break;
    case OP_a_move:
      if constexpr (mc && ma)
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::move(slot(j)))); });
      break;
    case OP_a_cmove:
      if constexpr (cc && ca)
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::move(std::as_const(slot(j))))); });
      break;
    case OP_a_ov:
      if constexpr (cc && ca && !vol)
        guarded(e, o, [&] { self(o, i, std::addressof(s = *std::as_const(slot(j)))); });
      break;
    case OP_a_ovm:
      if constexpr (mc && ma && !vol)
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::move(*slot(j)))); });
      break;
    case OP_a_selfc:
      if constexpr (cc && ca)
        guarded(e, o, [&] { Opt & r = slot(i); self(o, i, std::addressof(s = r)); });
      break;
    case OP_a_selfm:
      // (what a library type makes of a self move is not specified)
      if constexpr (mc && ma && !has(CAP_LOOSE))
        guarded(e, o, [&] { Opt & r = slot(i); self(o, i, std::addressof(s = std::move(r))); });
      break;
    case OP_a_own:
      if constexpr (cc && ca && !vol)
        guarded(e, o, [&] { self(o, i, std::addressof(s = *s)); });
      break;
    case OP_a_ownm:
      if constexpr (mc && ma && !vol && !has(CAP_LOOSE))
        guarded(e, o, [&] { self(o, i, std::addressof(s = std::move(*s))); });
      break;
    case OP_e_0:
      if constexpr (has(CAP_DEFAULT))
        guarded(e, o, [&] { ref(o, i, s.emplace()); });
      break;
    case OP_e_arg:
      {
        auto arg = P::arg(v, bind);
        guarded(e, o, [&] { ref(o, i, s.emplace(std::move(arg))); });
      }
      break;
    case OP_e_l:
      if constexpr (cc && ucc) {
        Holder h(*this, v);
        guarded(e, o, [&] { ref(o, i, s.emplace(h.x)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_e_r:
      if constexpr (xm) {
        Holder h(*this, v);
        guarded(e, o, [&] { ref(o, i, s.emplace(std::move(h.x))); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_e_2l:
      if constexpr (has(CAP_ARGS2)) {
        Probe q;
        guarded(e, o, [&] { ref(o, i, s.emplace(ArgV{v}, q)); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_e_2r:
      if constexpr (has(CAP_ARGS2)) {
        Probe q;
        guarded(e, o, [&] { ref(o, i, s.emplace(ArgV{v}, std::move(q))); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_e_2c:
      if constexpr (has(CAP_ARGS2)) {
        Probe const q;
        guarded(e, o, [&] { ref(o, i, s.emplace(ArgV{v}, q)); });
        if (o.out == "ok") o.ret = g_probe;
      }
      break;
    case OP_e_il:
      if constexpr (has(CAP_IL))
        guarded(e, o, [&] { ref(o, i, P::ilEmplace(s, v, bind)); });
      break;
    default: break;
    }
  }

  void execMisc(Edge const & e, Obs & o, int i, int j)
  {
    int const v = e.v;
    Opt & s = slot(i);
    constexpr bool sw = mut && mc && ma && std::is_swappable_v<T>;
    switch (e.op) {
    case OP_sw_m:
      if constexpr (sw)
        guarded(e, o, [&] { s.swap(slot(j)); });
      break;
    case OP_sw_self:
      if constexpr (sw)
        guarded(e, o, [&] { s.swap(slot(i)); });
      break;
    case OP_sw_adl:
      if constexpr (sw)
        guarded(e, o, [&] { using std::swap; swap(s, slot(j)); });
      break;
    case OP_sw_std:
      if constexpr (sw)
        guarded(e, o, [&] { std::swap(s, slot(j)); });
      break;
    case OP_destroy:
      guarded(e, o, [&] { s.~Opt(); });
      alive[i] = false;
      break;
    case OP_reset: guarded(e, o, [&] { s.reset(); }); break;
    case OP_t_deref:
      if constexpr (mc && !vol)
        guarded(e, o, [&] { U y(*std::move(s)); g_fault = 0; o.ret = str(codeOf(y)); });
      break;
    case OP_t_value:
      if constexpr (mc && !vol)
        guarded(e, o, [&] { U y(std::move(s).value()); g_fault = 0; o.ret = str(codeOf(y)); });
      break;
    case OP_m_deref:
      if constexpr (mut)
        guarded(e, o, [&] { P::assignThrough(*s, v, bind); });
      break;
    case OP_m_arrow:
      if constexpr (mut)
        guarded(e, o, [&] { P::assignThrough(*s.operator->(), v, bind); });
      break;
    case OP_m_value:
      if constexpr (mut)
        guarded(e, o, [&] { P::assignThrough(s.value(), v, bind); });
      break;
    default: break;
    }
  }

#if VH_G_OBS
  template <class R>
  void observed(Obs & o, int i, R && r)
  {
    if (!inSlot(i, std::addressof(r)))
      o.ident.push_back("does not refer to the contained object");
    o.ret = str(codeOf(r));
  }

  void execObs(Edge const & e, Obs & o, int i)
  {
    int const v = e.v;
    Opt & s = slot(i);
    Opt const & c = s;
    switch (e.op) {
    case OP_has: guarded(e, o, [&] { o.ret = c.has_value() ? "T" : "F"; }); break;
    case OP_bool_: guarded(e, o, [&] { o.ret = c ? "T" : "F"; }); break;
    case OP_d_l: guarded(e, o, [&] { auto & r = *s; observed(o, i, r); }); break;
    case OP_d_c: guarded(e, o, [&] { auto & r = *c; observed(o, i, r); }); break;
    case OP_d_r: guarded(e, o, [&] { auto && r = *std::move(s); observed(o, i, r); }); break;
    case OP_d_cr: guarded(e, o, [&] { auto && r = *std::move(c); observed(o, i, r); }); break;
    case OP_ar_m: guarded(e, o, [&] { auto * r = s.operator->(); observed(o, i, *r); }); break;
    case OP_ar_c: guarded(e, o, [&] { auto * r = c.operator->(); observed(o, i, *r); }); break;
    case OP_v_l: guarded(e, o, [&] { auto & r = s.value(); observed(o, i, r); }); break;
    case OP_v_c: guarded(e, o, [&] { auto & r = c.value(); observed(o, i, r); }); break;
    case OP_v_r: guarded(e, o, [&] { auto && r = std::move(s).value(); observed(o, i, r); }); break;
    case OP_v_cr: guarded(e, o, [&] { auto && r = std::move(c).value(); observed(o, i, r); }); break;
    case OP_hash:
      if constexpr (has(CAP_HASH)) {
        guarded(e, o, [&] {
          std::size_t const got = std::hash<Opt>{}(c);
          if (c.has_value())
            o.ret = got == std::hash<U>{}(*c) ? "h" + str(codeOf(*c)) : "wrong";
          else {
            Opt other;
            o.ret = got == std::hash<Opt>{}(other) ? "he" : "wrong";
          }
        });
      }
      break;
    case OP_vo_l:
      if constexpr (cc && ucc && !vol) {
        Holder h(*this, v);
        guarded(e, o, [&] { U y(c.value_or(std::move(h.x))); g_fault = 0; o.ret = str(codeOf(y)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_vo_ll:
      if constexpr (cc && ucc && !vol) {
        Holder h(*this, v);
        guarded(e, o, [&] { U y(c.value_or(h.x)); g_fault = 0; o.ret = str(codeOf(y)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_vo_r:
      if constexpr (mc && xm && !vol) {
        Holder h(*this, v);
        guarded(e, o, [&] { U y(std::move(s).value_or(std::move(h.x))); g_fault = 0; o.ret = str(codeOf(y)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_vo_rl:
      if constexpr (mc && cc && ucc && !vol) {
        Holder h(*this, v);
        guarded(e, o, [&] { U y(std::move(s).value_or(h.x)); g_fault = 0; o.ret = str(codeOf(y)); });
        o.x = str(codeOf(h.x));
      }
      break;
    case OP_vo_ci:
      if constexpr (mc && has(CAP_CONV) && !vol) {
        auto a = P::convArgI(v, bind);
        guarded(e, o, [&] { U y(std::move(s).value_or(a)); g_fault = 0; o.ret = str(codeOf(y)); });
      }
      break;
    default: break;
    }
  }
#endif

#if VH_G_MON
  template <class A>
  static std::string category()
  {
    bool const c = std::is_const_v<std::remove_reference_t<A>>;
    if (std::is_lvalue_reference_v<A>)
      return c ? "c" : "l";
    return c ? "cr" : "r";
  }

  struct Log
  {
    int calls = 0;
    std::string cat;
    bool identOk = true;
  };

  template <class A>
  int callback(Log & l, Edge const & e, int i, A && a)
  {
    ++l.calls;
    l.cat = category<A &&>();
    l.identOk = inSlot(i, std::addressof(a));
    fault_point();
    int const saved = g_fault;
    g_fault = 0;
    char const code = codeOf(a);
    if constexpr (mut && mc && !vol && !std::is_lvalue_reference_v<A &&> && !std::is_const_v<std::remove_reference_t<A>>) {
      if (e.w == "take") {
        U y(std::move(a));
        (void)y;
      }
    }
    g_fault = saved;
    return code;
  }

  template <class Q>
  void atDone(Obs & o, Log & l, Q && q)
  {
    if (l.calls > 1)
      o.ident.push_back("callback called " + std::to_string(l.calls) + " times");
    if (!l.identOk)
      o.ident.push_back("callback got another object");
    o.ret = (l.calls ? l.cat : std::string("n")) + ":";
    if (q.has_value())
      o.ret += str(resCode(*q));
    else
      o.ret += "e";
  }

  template <class Self>
  void andThen(Edge const & e, Obs & o, int i, Self && self)
  {
    struct CR { int v; };
    Log l;
    guarded(e, o, [&] {
      auto q = std::forward<Self>(self).and_then([&](auto && a) -> ResOpt<CR> {
        int const code = callback(l, e, i, std::forward<decltype(a)>(a));
        if (e.w == "emp")
          return std::nullopt;
        return CR{code};
      });
      atDone(o, l, q);
    });
  }

  template <class R, bool nx, class Self>
  void transfTo(Edge const & e, Obs & o, int i, Self && self)
  {
    Log l;
    guarded(e, o, [&] {
      auto q = std::forward<Self>(self).transform(
          [&](auto && a) noexcept(nx) -> R { return R(callback(l, e, i, std::forward<decltype(a)>(a))); });
      if (!std::is_same_v<decltype(q), ResOpt<R>>)
        o.ident.push_back("transform returns an unexpected type");
      atDone(o, l, q);
    });
  }
  // The kind of result varies.
  template <class Self>
  void transf(Edge const & e, Obs & o, int i, Self && self)
  {
    switch (++transfCount % 5) {
    case 0: transfTo<ImmRes, false>(e, o, i, std::forward<Self>(self)); break;
    case 1: transfTo<CustRes, false>(e, o, i, std::forward<Self>(self)); break;
    case 2: transfTo<MovRes, false>(e, o, i, std::forward<Self>(self)); break;
    case 3:
      if (e.fault == 0) {
        transfTo<MovRes, true>(e, o, i, std::forward<Self>(self));
        break;
      }
      [[fallthrough]];
    default: transfTo<double, false>(e, o, i, std::forward<Self>(self)); break;
    }
  }
  unsigned transfCount = 0;

  template <class Self>
  void orElse(Edge const & e, Obs & o, Self && self)
  {
    int calls = 0;
    guarded(e, o, [&] {
      auto arg = P::arg(2, bind);
      Opt q = std::forward<Self>(self).or_else([&]() -> Opt {
        ++calls;
        fault_point();
        g_fault = 0;
        if (e.w == "emp")
          return std::nullopt;
        return Opt(std::in_place, std::move(arg));
      });
      g_fault = 0;
      if (calls > 1)
        o.ident.push_back("callback called " + std::to_string(calls) + " times");
      o.ret = calls ? "f:" : "n:";
      o.ret += q.has_value() ? codeOf(*q) : 'e';
    });
  }

  void execMon(Edge const & e, Obs & o, int i)
  {
    Opt & s = slot(i);
    Opt const & c = s;
    (void)c;
    if constexpr (!isStd || stdMonadic) {
      switch (e.op) {
      case OP_at_l: andThen(e, o, i, s); break;
      case OP_at_c: andThen(e, o, i, c); break;
      case OP_at_r: andThen(e, o, i, std::move(s)); break;
      case OP_at_cr: andThen(e, o, i, std::move(c)); break;
      case OP_tr_l: transf(e, o, i, s); break;
      case OP_tr_c: transf(e, o, i, c); break;
      case OP_tr_r: transf(e, o, i, std::move(s)); break;
      case OP_tr_cr: transf(e, o, i, std::move(c)); break;
      default: break;
      }
    }
    if constexpr (isStd ? stdMonadic : hasOrElse) {
      switch (e.op) {
      case OP_oe_c:
        if constexpr (cc) orElse(e, o, c);
        break;
      case OP_oe_l:
        if constexpr (cc) orElse(e, o, s);
        break;
      case OP_oe_r:
        if constexpr (mc) orElse(e, o, std::move(s));
        break;
      default: break;
      }
    }
  }
#endif
};
} // namespace vh
