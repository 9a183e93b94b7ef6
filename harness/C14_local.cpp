// VH: libs=local_planner flavour=asan gen=C14_gen.py shards=1
// Every (state, transition) pair of the planner's state machine against its committed diagram.
#include "C14_docs.h"
#include "local_planner/waypoint_generator.h"
#include "vh.h"

using namespace avoidance;
namespace {
// the engine's protected entry point, called through the engine so that the planner's own table answers
using Base = usm::StateMachine<PlannerState>;
struct Open : Base {
  static PlannerState (Base::*next())(PlannerState, usm::Transition) { return &Open::chooseNextState; }
};
const std::vector<std::pair<const char*, PlannerState>> kS = {{"TRY_PATH", PlannerState::TRY_PATH}, {"ALTITUDE_CHANGE", PlannerState::ALTITUDE_CHANGE}, {"LOITER", PlannerState::LOITER}, {"DIRECT", PlannerState::DIRECT}, };
const char* nm(PlannerState s) {
  for (auto& k : kS)
    if (k.second == s) return k.first;
  return "?";
}
}  // namespace

VH_SUITE(documented, 40, 400) {
  const usm::Transition T[] = {usm::Transition::NEXT1, usm::Transition::NEXT2, usm::Transition::NEXT3, usm::Transition::NEXT4, usm::Transition::ERROR};
  const char* N[] = {"NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"};
  WaypointGenerator wg;
  if (wg.getState() != PlannerState::LOITER) c.fail("start", "initial state differs");
  Base& b = wg;
  // first every pair once, then walks: what was asked before makes no difference
  std::vector<std::pair<int, int>> ask;
  int n = kS.size();
  for (int i = 0; i < n && c.index == 0; i++)
    for (int k = 0; k < 5; k++) ask.push_back({i, k});
  for (int i = 0; i < 400 && c.index; i++) ask.push_back({c.rng.chance(0.3) ? (int)c.rng.below(n) : -1, (int)c.rng.below(5)});
  PlannerState at = kS[0].second;
  for (auto& q : ask) {
      auto s = kS[0];
      for (auto& x : kS)
        if (x.second == at) s = x;
      if (q.first >= 0) s = kS[q.first];
      int k = q.second;
      PlannerState got = (b.*Open::next())(s.second, T[k]);
      at = got;
      const char* doc = nullptr;
      for (int pass = 0; pass < 2 && !doc; pass++)
        for (auto& e : kDoc_local)
          if (!strcmp(e.from, s.first) && !strcmp(e.label, pass ? "ERROR" : N[k])) doc = e.to;
      c.evals(1);
      c.count("documented pairs compared");
      if (!doc || strcmp(doc, nm(got))) c.fail("diagram", vh::fmt("from %s by %s: code goes to %s, diagram says %s", s.first, N[k], nm(got), doc ? doc : "nothing"));
      c.distinct(vh::Hasher() << std::string("local") << std::string(s.first) << k);
    }
  for (auto& s : kS) {
    std::string t = toString(s.second), w = s.first;
    for (auto& ch : t)
      if (ch == ' ') ch = '_';
    if (t != w) c.fail("state-name", "state " + w + " reports itself as " + t);
  }
  c.sample(vh::fmt("%zu documented edges", kDoc_local.size()));
}
