// Replays the transitions that TLC exported from spec/OptionalEdges.tla against real optionals:
// a tour through every transition of the state graph, then random walks.
#include "core.hpp"
#include <cstdlib>
#include <deque>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <algorithm>
#include <cassert>
#include <csignal>
#include <exception>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh
{
int g_fault = 0;
std::vector<Ev> g_events;
std::vector<std::string> g_life;
std::map<void const *, int> g_live;
std::string g_probe;
bool g_log = false;

std::FILE * g_trace = nullptr;
void trace(char const * ev, void const * at)
{
  if (g_trace)
    std::fprintf(g_trace, "%s %p\n", ev, at);
}
void ev_ctor(void const * at, char how, void const * src)
{
  trace("ctor", at);
  if (!g_live.emplace(at, 1).second)
    g_life.push_back("payload constructed on top of a living payload");
  if (g_log)
    g_events.push_back({'C', how, at, src});
}
void ev_ctor_untracked(void const * at, char how, void const * src)
{
  trace("ctor", at);
  g_untracked.insert(at);
  if (g_log)
    g_events.push_back({'C', how, at, src});
}
std::map<void const *, int> g_outside;
void ev_use(void const * at)
{
  if (!g_live.count(at))
    g_life.push_back("payload accessed that does not exist");
}
void ev_assign(void const * at, char how, void const * src)
{
  if (g_log)
    g_events.push_back({'A', how, at, src});
}
void ev_dtor(void const * at)
{
  trace("dtor", at);
  if (!g_live.erase(at))
    g_life.push_back("payload destroyed that does not exist");
  if (g_log)
    g_events.push_back({'D', ' ', at, nullptr});
}
void ev_swap(void const * a, void const * b)
{
  if (g_log)
    g_events.push_back({'S', 's', a, b});
}

static char const * const names[] = {
#define X(n) #n,
    VH_OPS(X)
#undef X
};
char const * op_name(int op) { return op == OP_bool_ ? "bool" : names[op]; }
int op_from_name(std::string const & n)
{
  for (int i = 0; i < OP_COUNT; ++i)
    if (n == op_name(i))
      return i;
  return -1;
}
std::string Edge::text() const
{
  std::string r = kind + " " + from + " " + op_name(op) + " " + s + " " + std::to_string(v) + " " + w + " " +
                  std::to_string(fault) + " -> " + to + " " + out + " ret=" + ret + " x=" + x + " ev=";
  for (auto & e : ev)
    r += e + ",";
  return r;
}
std::vector<ProfileInfo> & profiles()
{
  static std::vector<ProfileInfo> p;
  return p;
}
Registrar::Registrar(char const * name, char const * kind, bool isStd, Runner * (*create)())
{
  profiles().push_back({name, kind, isStd, create});
}
} // namespace vh

using namespace vh;

struct Shared
{
  volatile int edge;      // edge being executed
  volatile int binding;
  volatile long steps;
  volatile int hist[64];
  volatile int nhist;
};
static Shared * g_shared;

static std::vector<Edge> g_edges;

static void loadEdges(char const * file)
{
  std::ifstream in(file);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream is(line);
    Edge e;
    std::string op, s;
    is >> e.kind >> e.from >> op >> s >> e.v >> e.w >> e.fault >> e.to >> e.out >> e.ret >> e.x;
    if (!is) {
      std::cerr << "bad edge line: " << line << "\n";
      std::exit(3);
    }
    std::string ev;
    while (is >> ev)
      e.ev.push_back(ev);
    e.op = op_from_name(op);
    if (e.op < 0) {
      std::cerr << "unknown op " << op << "\n";
      std::exit(3);
    }
    e.s = s[0];
    e.id = static_cast<int>(g_edges.size());
    g_edges.push_back(e);
  }
}

static std::string esc(std::string const & s)
{
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\')
      r += '\\';
    if (static_cast<unsigned char>(c) < 0x20)
      c = ' ';
    r += c;
  }
  return r;
}

// An implementation may execute more fallible operations than the specification, as long as failing in one of them leaves a state that is
// specified for some exception of that call. Edges with one more fault than the specification has fallible operations -> those states.
static std::map<int, std::set<std::string>> g_over;
static void overfaults()
{
  std::map<std::string, std::pair<int, int>> top; // call -> edge without fault, highest fault
  std::map<std::string, std::set<std::string>> alts;
  std::set<std::string> fallible;
  for (auto & e : g_edges) {
    if (e.op > OP_reset || e.op == OP_sw_std)
      continue;
    std::string const key = e.kind + " " + e.from + " " + std::to_string(e.op) + e.s + std::to_string(e.v) + e.w;
    auto & t = top.emplace(key, std::make_pair(-1, 0)).first->second;
    t.second = std::max(t.second, e.fault);
    if (e.fault == 0)
      t.first = e.id;
    else {
      alts[key].insert(e.to);
      fallible.insert(e.kind);
    }
  }
  for (auto & t : top) {
    if (t.second.first < 0 || !fallible.count(g_edges[t.second.first].kind))
      continue;
    Edge e = g_edges[t.second.first];
    e.fault = t.second.second + 1;
    e.id = static_cast<int>(g_edges.size());
    g_over[e.id] = alts[t.first];
    g_edges.push_back(e);
  }
}

struct Mismatch
{
  std::string aspect, detail;
};

static bool sameCode(Runner & r, char exp, char got)
{
  if (exp == 'm' && r.looseMoved())
    return got != 'e' && got != 'd';
  return r.canon(exp) == r.canon(got);
}

static bool sameRet(Runner & r, std::string const & exp, std::string const & got)
{
  if (exp == got)
    return true;
  if (exp.empty() || got.empty() || exp.size() != got.size())
    return false;
  if (exp.substr(0, exp.size() - 1) != got.substr(0, got.size() - 1))
    return false;
  char const a = exp.back(), b = got.back();
  auto isCode = [](char c) { return c == 'm' || (c >= '0' && c <= '9'); };
  if (!isCode(a) || b == 'e')
    return false;
  if (a == 'm' && r.looseMoved())
    return true;
  return isCode(b) && r.canon(a) == r.canon(b);
}

static std::vector<std::string> perSlot(std::vector<std::string> const & ev, char s)
{
  std::vector<std::string> r;
  for (auto & e : ev) {
    if (e[1] == 'S') {
      if (e[0] == s || e[2] == s) {
        std::string n = e;
        if (n[0] > n[2])
          std::swap(n[0], n[2]);
        r.push_back(n);
      }
    }
    else if (e[0] == s)
      r.push_back(e);
  }
  return r;
}

static std::string join(std::vector<std::string> const & v)
{
  std::string r;
  for (auto & s : v)
    r += (r.empty() ? "" : ",") + s;
  return r;
}

static std::vector<Mismatch> compare(Runner & r, Edge const & e, Obs const & o)
{
  std::vector<Mismatch> m;
  // Assigning an optional to itself or swapping it with itself leaves it unchanged: not touching the payload at all is as good as
  // assigning (swapping) the payload to (with) itself.
  bool const untouched = (e.op == OP_a_selfc || e.op == OP_a_selfm || e.op == OP_sw_self) && o.out == "ok" && o.ev.empty() && o.state == e.from;
  if (o.out != e.out && !untouched)
    m.push_back({"out", "outcome: expected " + e.out + ", got " + o.out});
  if (!untouched && (!sameCode(r, e.to[0], o.state[0]) || !sameCode(r, e.to[1], o.state[1])))
    m.push_back({"state", "state of a,b afterwards: expected " + e.to + ", got " + o.state});
  if (o.out == "ok" && e.out == "ok" && !sameRet(r, e.ret, o.ret))
    m.push_back({"ret", "result: expected " + e.ret + ", got " + o.ret});
  if (o.x != "-" && e.x != "-" && !sameCode(r, e.x[0], o.x[0]))
    m.push_back({"arg", "argument afterwards: expected " + e.x + ", got " + o.x});
  for (auto & s : o.ident)
    m.push_back({"ident", s});
  for (auto & s : o.cons)
    m.push_back({"state", s});
  for (auto & s : o.life)
    m.push_back({"life", s});
  for (auto & s : o.guard)
    m.push_back({"guard", s});
  // A trivially copyable optional returned by a function may travel in registers.
  bool const returned = o.noCM && (e.op == OP_c_cic || e.op == OP_c_mkarg || e.op == OP_c_mkil || e.op == OP_c_mkl || e.op == OP_c_mkr);
  if (o.hasEvents && e.op != OP_sw_std && !returned && !untouched) {
    for (char s : {'a', 'b'}) {
      auto x = perSlot(e.ev, s), y = perSlot(o.ev, s);
      if (o.noDtor)
        x.erase(std::remove(x.begin(), x.end(), std::string(1, s) + "D"), x.end());
      if (o.noCM)
        x.erase(std::remove_if(x.begin(), x.end(), [](std::string const & t) { return t.size() > 2 && t[1] != 'S' && (t[2] == 'c' || t[2] == 'm'); }), x.end());
      if (x != y)
        m.push_back({"events", std::string("payload operations in ") + s + ": expected [" + join(x) + "], got [" + join(y) + "]"});
    }
    if (((e.op <= OP_e_il && e.op != OP_a_tmp) || e.op == OP_sw_m || e.op == OP_sw_adl || e.op == OP_sw_self || e.op == OP_reset) && o.temps != 0)
      m.push_back({"temps", std::to_string(o.temps) + " payload objects constructed outside of the optionals"});
  }
  return m;
}

struct Engine
{
  ProfileInfo const & prof;
  std::unique_ptr<Runner> r;
  std::mt19937_64 rng;
  std::vector<int> mine;              // edges of this kind
  std::map<std::string, int> stateId;
  std::vector<std::vector<int>> from; // state -> edges
  std::vector<int> src, dst;          // edge -> state
  std::vector<std::size_t> next;      // tour: next edge of the state to visit
  std::vector<char> opUnsupported = std::vector<char>(OP_COUNT, 0);
  std::set<int> skip; // edges that crash
  std::vector<char> visited;
  std::vector<int> failed; // how often the transition was rejected
  int cur = 0, dead = 0;
  int binding = 0;
  std::map<std::string, int> nReported;
  long steps = 0;
  std::set<int> covered;

  Engine(ProfileInfo const & p, unsigned long long seed) : prof(p), r(p.create()), rng(seed) { }

  int state(std::string const & s)
  {
    auto it = stateId.emplace(s, static_cast<int>(stateId.size())).first;
    if (from.size() < stateId.size())
      from.resize(stateId.size());
    return it->second;
  }
  void init()
  {
    src.resize(g_edges.size());
    dst.resize(g_edges.size());
    failed.assign(g_edges.size(), 0);
    dead = state("dd");
    for (auto & e : g_edges)
      if (e.kind == prof.kind) {
        mine.push_back(e.id);
        src[e.id] = state(e.from);
        dst[e.id] = state(e.to);
        from[src[e.id]].push_back(e.id);
      }
  }
  // Did the additional fault leave one of the states that are specified?
  bool acceptable(Edge const & e, Obs const & o)
  {
    auto const it = g_over.find(e.id);
    if (it == g_over.end() || o.out != "exc" || !o.life.empty() || !o.guard.empty() || !o.cons.empty())
      return false;
    for (auto & s : it->second)
      if (sameCode(*r, s[0], o.state[0]) && sameCode(*r, s[1], o.state[1])) {
        cur = state(s);
        return true;
      }
    return false;
  }
  void fresh()
  {
    r->fresh(static_cast<unsigned>(rng() % 256), binding);
    cur = dead;
    g_shared->nhist = 0;
  }
  bool usable(int id) const { return !opUnsupported[g_edges[id].op] && !skip.count(id); }

  // Returns false if the world was abandoned because of a mismatch.
  bool step(int id)
  {
    Edge const & e = g_edges[id];
    g_shared->edge = id;
    g_shared->binding = binding;
    int n = g_shared->nhist;
    g_shared->hist[n % 64] = id;
    Obs o = r->exec(e);
    if (!o.executed) {
      opUnsupported[e.op] = 1;
      return true;
    }
    g_shared->nhist = n + 1;
    ++steps;
    g_shared->steps = steps;
    covered.insert(id);
    if (acceptable(e, o))
      return cur == dst[id];
    auto mm = compare(*r, e, o);
    if (mm.empty()) {
      cur = dst[id];
      return true;
    }
    for (auto & m : mm) {
      int & c = nReported[m.aspect + op_name(e.op)];
      if (++c > 2)
        continue;
      report(m, id);
    }
    ++failed[id]; // no road to somewhere else any more
    fresh();
    return false;
  }

  void report(Mismatch const & m, int id)
  {
    std::cout << "{\"type\":\"mismatch\",\"profile\":\"" << prof.name << "\",\"std\":" << (prof.isStd ? "true" : "false")
              << ",\"aspect\":\"" << m.aspect << "\",\"op\":\"" << op_name(g_edges[id].op) << "\",\"fault\":" << g_edges[id].fault
              << ",\"edge\":\"" << esc(g_edges[id].text()) << "\",\"detail\":\"" << esc(m.detail) << "\",\"binding\":" << binding
              << ",\"history\":[";
    int const n = g_shared->nhist;
    int const lo = n > 20 ? n - 20 : 0;
    for (int k = lo; k < n; ++k)
      std::cout << (k > lo ? "," : "") << "\"" << esc(g_edges[g_shared->hist[k % 64]].text()) << "\"";
    std::cout << "]}\n" << std::flush;
  }

  bool work(int s)
  {
    auto & out = from[s];
    while (next[s] < out.size() && (visited[out[next[s]]] || !usable(out[next[s]])))
      ++next[s];
    return next[s] < out.size();
  }

  // Path (edge ids) from cur to the nearest state with an unvisited usable edge.
  bool pathToWork(std::vector<int> & path)
  {
    path.clear();
    std::vector<int> via(from.size(), -2);
    std::deque<int> q{cur};
    via[cur] = -1;
    while (!q.empty()) {
      int const s = q.front();
      q.pop_front();
      if (work(s)) {
        path.push_back(from[s][next[s]]);
        for (int t = s; via[t] >= 0; t = src[via[t]])
          path.push_back(via[t]);
        std::reverse(path.begin(), path.end());
        return true;
      }
      auto & out = from[s];
      std::size_t const off = out.empty() ? 0 : rng() % out.size();
      for (std::size_t k = 0; k < out.size(); ++k) {
        int const id = out[(k + off) % out.size()];
        if (via[dst[id]] == -2 && g_edges[id].fault == 0 && usable(id) && failed[id] < 8) {
          via[dst[id]] = id;
          q.push_back(dst[id]);
        }
      }
    }
    return false;
  }

  void tour()
  {
    visited.assign(g_edges.size(), 0);
    next.assign(from.size(), 0);
    for (auto & f : from)
      std::shuffle(f.begin(), f.end(), rng);
    fresh();
    std::vector<int> path;
    long guard = 0;
    while (pathToWork(path) && ++guard < 2000000) {
      for (int id : path) {
        visited[id] = 1;
        if (!usable(id))
          break;
        if (!step(id))
          break;
        if (opUnsupported[g_edges[id].op])
          break;
      }
    }
    finish();
  }

  void walk(long n)
  {
    fresh();
    for (long k = 0; k < n; ++k) {
      auto & out = from[cur];
      int id = -1;
      for (int t = 0; t < 200 && !out.empty(); ++t) {
        int const c = out[rng() % out.size()];
        if (usable(c)) {
          id = c;
          break;
        }
      }
      if (id < 0)
        break;
      step(id);
    }
    finish();
  }

  // Destroys what is alive and checks that nothing is left over.
  void finish()
  {
    for (int guard = 0; guard < 4 && cur != dead; ++guard) {
      for (int id : from[cur])
        if (g_edges[id].op == OP_destroy && usable(id)) {
          step(id);
          break;
        }
    }
    if (cur == dead && !g_live.empty())
      report({"life", std::to_string(g_live.size()) + " payload objects left over"}, g_shared->edge);
    if (cur == dead && !g_flags.empty())
      report({"life", "FLAG " + std::to_string(g_flags.size()) + " flag objects left over"}, g_shared->edge);
    if (cur == dead)
      trace("gone", nullptr);
    g_live.clear();
    g_flags.clear();
  }
};

static int childMain(ProfileInfo const & p, unsigned long long seed, long walkSteps, int walks, std::set<int> const & skip)
{
  Engine e(p, seed);
  e.skip = skip;
  e.init();
  if (e.mine.empty()) {
    std::cout << "{\"type\":\"error\",\"what\":\"no edges for kind " << p.kind << "\"}\n";
    return 0;
  }
  for (e.binding = 0; e.binding < e.r->bindings(); ++e.binding) {
    if (!g_trace)
      e.tour();
    for (int k = 0; k < walks; ++k)
      e.walk(walkSteps);
  }
  std::string uns;
  for (int k = 0; k < OP_COUNT; ++k)
    if (e.opUnsupported[k])
      uns += std::string(uns.empty() ? "" : " ") + op_name(k);
  std::cout << "{\"type\":\"summary\",\"profile\":\"" << p.name << "\",\"kind\":\"" << p.kind << "\",\"std\":"
            << (p.isStd ? "true" : "false") << ",\"bindings\":" << e.r->bindings() << ",\"steps\":" << e.steps
            << ",\"edges_covered\":" << e.covered.size() << ",\"edges_total\":" << e.mine.size() << ",\"unsupported\":\"" << uns
            << "\"}\n"
            << std::flush;
  return 0;
}

// A failing assertion ends the child with this exit code, to tell it from other ends.
extern "C" void __assert_fail(char const *, char const *, unsigned, char const *) noexcept
{
  _exit(77);
}

int main(int argc, char ** argv)
{
  char const * edges = nullptr;
  unsigned long long seed = 1;
  long walk = 2000;
  int walks = 2;
  std::string only;
  char const * traceFile = nullptr;
  if (argc == 2 && std::string(argv[1]) == "--list") {
    for (auto & p : profiles())
      std::cout << p.name << " " << p.kind << " " << (p.isStd ? 1 : 0) << "\n";
    return 0;
  }
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i];
    if (a == "--edges") edges = argv[i + 1];
    else if (a == "--seed") seed = std::strtoull(argv[i + 1], nullptr, 10);
    else if (a == "--walk") walk = std::atol(argv[i + 1]);
    else if (a == "--walks") walks = std::atoi(argv[i + 1]);
    else if (a == "--only") only = argv[i + 1];
    else if (a == "--trace") traceFile = argv[i + 1];
  }
  if (!edges) {
    std::cerr << "usage\n";
    return 3;
  }
  loadEdges(edges);
  overfaults();
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  g_shared = static_cast<Shared *>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  for (auto & p : profiles()) {
    if (!only.empty() && p.name != only)
      continue;
    std::set<int> skip;
    for (int attempt = 0; attempt < 6; ++attempt) {
      g_shared->edge = -1;
      g_shared->nhist = 0;
      g_shared->steps = 0;
      std::cout << std::flush;
      pid_t pid = fork();
      if (pid == 0) {
        alarm(600);
        std::set_terminate([] { _exit(3); });
        if (traceFile)
          g_trace = std::fopen(traceFile, "w");
        int rc = childMain(p, seed * 1000003u + static_cast<unsigned>(attempt), walk, walks, skip);
        std::cout << std::flush;
        if (g_trace)
          std::fclose(g_trace);
        _exit(rc);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        break;
      int const id = g_shared->edge;
      std::cout << "{\"type\":\"crash\",\"profile\":\"" << p.name << "\",\"std\":" << (p.isStd ? "true" : "false") << ",\"sig\":"
                << (WIFSIGNALED(st) ? WTERMSIG(st) : 1000 + WEXITSTATUS(st)) << ",\"aspect\":\"crash\",\"op\":\""
                << (id >= 0 ? op_name(g_edges[id].op) : "none") << "\",\"fault\":" << (id >= 0 ? g_edges[id].fault : 0)
                << ",\"edge\":\"" << (id >= 0 ? esc(g_edges[id].text()) : "") << "\",\"binding\":" << g_shared->binding
                << ",\"history\":[";
      int const n = g_shared->nhist + 1;
      int const lo = n > 20 ? n - 20 : 0;
      for (int k = lo; k < n && id >= 0; ++k)
        std::cout << (k > lo ? "," : "") << "\"" << esc(g_edges[g_shared->hist[k % 64]].text()) << "\"";
      std::cout << "]}\n" << std::flush;
      if (id < 0)
        break;
      skip.insert(id);
    }
  }
  std::cout << "{\"type\":\"done\"}\n";
  return 0;
}
