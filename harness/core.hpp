// Shared, non-template part of the replay driver: edge table exported by TLC (spec/OptionalEdges.tla),
// event log of instrumented payloads, walk engine.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <optional>
#include <stdexcept>
#include <functional>
#include <initializer_list>
#include <utility>
#include <type_traits>
#include <limits>

namespace vh
{
// Names must match spec/OptionalOps.tla.
#define VH_OPS(X) \
  X(c_def) X(c_brace) X(c_null) X(c_in0) X(c_arg) X(c_in2l) X(c_in2r) X(c_in2c) X(c_il) X(c_ci) X(c_cic) X(c_ce) \
  X(c_mkarg) X(c_mkil) X(c_inl) X(c_vl) X(c_vcl) X(c_mkl) X(c_inr) X(c_vr) X(c_mkr) X(c_copy) X(c_move) X(c_cmove) \
  X(a_null) X(a_brace) X(a_tmpe) X(a_vl) X(a_vcl) X(a_vr) X(a_ci) X(a_tmp) X(a_copy) X(a_move) X(a_cmove) X(a_ov) \
  X(a_ovm) X(a_selfc) X(a_selfm) X(a_own) X(a_ownm) X(e_0) X(e_arg) X(e_l) X(e_r) X(e_2l) X(e_2r) X(e_2c) X(e_il) \
  X(sw_m) X(sw_self) X(sw_adl) X(sw_std) X(destroy) X(reset) X(t_deref) X(t_value) X(m_deref) X(m_arrow) X(m_value) \
  X(has) X(bool_) X(d_l) X(d_c) X(d_r) X(d_cr) X(ar_m) X(ar_c) X(v_l) X(v_c) X(v_r) X(v_cr) X(hash) \
  X(vo_l) X(vo_r) X(vo_ll) X(vo_rl) X(vo_ci) \
  X(at_l) X(at_c) X(at_r) X(at_cr) X(tr_l) X(tr_c) X(tr_r) X(tr_cr) X(oe_c) X(oe_l) X(oe_r)

enum Op : int {
#define X(n) OP_##n,
  VH_OPS(X)
#undef X
  OP_COUNT
};
char const * op_name(int op);
int op_from_name(std::string const & n);

struct Edge
{
  int id = 0;
  std::string kind;
  std::string from; // two codes
  int op = 0;
  char s = 'a';
  int v = -1;
  std::string w;
  int fault = 0;
  std::string to;
  std::string out;
  std::string ret;
  std::string x;
  std::vector<std::string> ev;
  std::string text() const;
};

// Result of executing one edge on the implementation.
struct Obs
{
  bool executed = false; // false: the profile does not support the operation
  std::string out = "ok";
  std::string state; // two codes
  std::string ret = "-";
  std::string x = "-"; // "-" if the operation used no argument of payload type
  bool hasEvents = false;
  bool noDtor = false; // destructions of payloads are not observable
  bool noCM = false;   // nor are copies and moves
  std::vector<std::string> ev;
  int temps = 0; // payload objects constructed outside of the optionals
  std::vector<std::string> ident; // wrong identities (returned references etc)
  std::vector<std::string> life;  // lifetime violations
  std::vector<std::string> guard; // writes outside
  std::vector<std::string> cons;  // inconsistent observers
};

//------------------------------------------------------------------------------
// Faults and events of instrumented payloads.
struct Fault
{
  int n = 0;
};

extern int g_fault; // number of fallible operations until one throws, 0 = never
inline void fault_point()
{
  if (g_fault > 0 && --g_fault == 0)
    throw Fault{};
}

struct Ev
{
  char type;       // C A D S
  char how;        // v c m w s
  void const * at; // object
  void const * src;
};
extern std::vector<Ev> g_events;
extern std::vector<std::string> g_life;
extern std::map<void const *, int> g_live; // live instrumented payloads
extern std::set<void const *> g_flags;    // flag objects that currently exist (custom manipulators)
extern std::set<void const *> g_untracked;
extern std::FILE * g_trace;               // micro event trace, if wanted
void trace(char const * ev, void const * at);
void flag_init(void const * at);
void flag_inval(void const * at);
void flag_query(void const * at);
void flag_state(void const * at, bool empty);
extern std::string g_probe;               // category with which the probe argument arrived
extern bool g_log;
void ev_ctor(void const * at, char how, void const * src);
void ev_ctor_untracked(void const * at, char how, void const * src);
extern std::map<void const *, int> g_outside; // values of empty payloads
void ev_assign(void const * at, char how, void const * src);
void ev_dtor(void const * at);
void ev_swap(void const * a, void const * b);
void ev_use(void const * at); // any read access

//------------------------------------------------------------------------------
struct Runner
{
  virtual ~Runner() = default;
  virtual Obs exec(Edge const & e) = 0;
  virtual void fresh(unsigned pattern, int binding) = 0; // new world: both slots dead
  virtual void abandon() = 0;                            // forget the world without destroying anything
  virtual int bindings() const = 0;
  virtual char canon(char code) const = 0;
  virtual bool looseMoved() const = 0;
  virtual bool checksHash() const = 0;
};

struct ProfileInfo
{
  std::string name;
  std::string kind;
  bool isStd;
  Runner * (*create)();
};
std::vector<ProfileInfo> & profiles();
struct Registrar
{
  Registrar(char const * name, char const * kind, bool isStd, Runner * (*create)());
};

} // namespace vh
