// Bookkeeping of the 'IsEmpty' flag objects of custom flag manipulators.
#include "core.hpp"
namespace vh
{
std::set<void const *> g_flags;
static bool payloadAround(void const * at) { return g_live.count(at) != 0; }
std::set<void const *> g_untracked; // trivially destructible payloads: exist until something else is put there
void flag_init(void const * at)
{
  trace("init", at);
  if (!g_flags.insert(at).second)
    g_life.push_back("FLAG initialised although it already existed");
  if (payloadAround(at))
    g_life.push_back("FLAG initialised on top of a living payload");
  g_untracked.erase(at);
}
void flag_inval(void const * at)
{
  trace("inval", at);
  if (!g_flags.erase(at))
    g_life.push_back("FLAG invalidated although it did not exist");
}
void flag_query(void const * at)
{
  trace("query", at);
  if (!g_flags.count(at) && !payloadAround(at) && !g_untracked.count(at))
    g_life.push_back("FLAG queried in memory with neither flag nor payload");
}
// For payloads whose existence cannot be observed.
void flag_state(void const * at, bool empty)
{
  trace("query", at);
  if (empty != (g_flags.count(at) != 0))
    g_life.push_back(empty ? "FLAG reports empty without having been initialised" : "FLAG overwritten without having been destroyed");
}
} // namespace vh
