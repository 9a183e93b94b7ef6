// VH: libs= ros=0 flavour=asan gen=C14_gen.py
// State-machine engine: random machines and histories against a trace specification; tables written with the macros
// against the diagrams documented for them.
#include <vector>
#include "avoidance/usm.h"
#include "C14_tables.h"
#include "vh.h"

using usm::Transition;
namespace {
const Transition kT[] = {Transition::NEXT1, Transition::NEXT2, Transition::NEXT3, Transition::NEXT4, Transition::ERROR};
const char* kN[] = {"NEXT1", "NEXT2", "NEXT3", "NEXT4", "ERROR"};

enum class St { A, B, C, D, E, F };
struct Ev {
  char kind;  // r = ran a state, c = chose the next state
  St s;
  Transition t;
};
struct Boom {};
struct Machine : usm::StateMachine<St> {
  std::vector<Ev> log;
  Transition nextT = Transition::REPEAT;
  int throwAt = 0;  // 1 in run, 2 in choose
  St table[6][6];
  explicit Machine(St s) : usm::StateMachine<St>(s) {}
  Transition runCurrentState() override {
    log.push_back({'r', getState(), nextT});
    if (throwAt == 1) throw Boom();
    return nextT;
  }
  St chooseNextState(St s, Transition t) override {
    log.push_back({'c', s, t});
    if (throwAt == 2) throw Boom();
    return table[(int)s][(int)t];
  }
};
}  // namespace

VH_SUITE(engine, 3000, 60000) {
  auto& r = c.rng;
  St start = (St)r.range(0, 5);
  Machine m(start);
  for (auto& row : m.table)
    for (auto& x : row) x = (St)r.range(0, 5);
  St cur = start;
  if (m.getState() != cur) c.fail("start", "the machine does not start in its starting state");
  vh::Hasher h;
  for (int i = 0, n = r.range(1, 60); i < n; i++) {
    m.nextT = (Transition)r.range(0, 5);
    m.throwAt = r.chance(0.05) ? r.range(1, 2) : 0;
    m.log.clear();
    bool threw = false;
    try {
      m.iterateOnce();
    } catch (const Boom&) {
      threw = true;
    }
    bool chose = m.nextT != Transition::REPEAT && m.throwAt != 1;
    bool wantThrow = m.throwAt == 1 || (m.throwAt == 2 && chose);
    std::string ctx = vh::fmt("state %d, transition %d, throw %d: ", (int)cur, (int)m.nextT, m.throwAt);
    if (threw != wantThrow) c.fail("exception-swallowed", ctx);
    size_t want = chose ? 2 : 1;
    if (m.log.size() != want || m.log[0].kind != 'r' || m.log[0].s != cur || (chose && (m.log[1].kind != 'c' || m.log[1].s != cur || m.log[1].t != m.nextT)))
      c.fail("callbacks", ctx + vh::fmt("%zu callbacks", m.log.size()));
    if (chose && !wantThrow) cur = m.table[(int)cur][(int)m.nextT];
    if (m.getState() != cur) c.fail("state", ctx + vh::fmt("now in %d, expected %d", (int)m.getState(), (int)cur));
    if (chose) c.count("state changes");
    else c.count("repeats");
    h << (int)cur << (int)m.nextT;
    cur = m.getState();
  }
  c.distinct(h);
}

VH_SUITE(tables, 24, 24) {
  if (c.index >= (int)kTables.size()) return;
  const Table& t = kTables[c.index];
  for (int s = 0; s < t.n; s++)
    for (int k = 0; k < 5; k++) {
      int got = t.next(s, kT[k]);
      c.evals(1);
      c.count("table entries");
      std::string ctx = vh::fmt("table %s: from %s by %s the code goes to %s", t.name, t.names[s], kN[k], got >= 0 && got < t.n ? t.names[got] : "?");
      if (got != t.ref[s * 5 + k]) c.fail("table-semantics", ctx + vh::fmt(", the table says %s", t.names[t.ref[s * 5 + k]]));
      if (!t.listed[s]) continue;  // a state without a row has no edges in the diagram
      if (!t.mapped[s * 5 + k] && t.mapped[s * 5 + 4]) continue;  // falls to the table's error state, not drawn
      // the documented edge: the labelled one, else the ERROR edge
      const char* doc = nullptr;
      int n = 0;
      for (int pass = 0; pass < 2 && !doc; pass++)
        for (auto& e : *t.dot)
          if (!strcmp(e.from, t.names[s]) && !strcmp(e.label, pass ? "ERROR" : kN[k])) doc = e.to, n++;
      if (!doc || n != 1 || strcmp(doc, t.names[got])) c.fail("diagram", ctx + vh::fmt(", the diagram documents %s (%d edges)", doc ? doc : "nothing", n));
    }
  for (auto& e : *t.dot) {
    int known = 0;
    for (int s = 0; s < t.n; s++) known += !strcmp(e.from, t.names[s]) && t.listed[s];
    if (!known) c.fail("diagram-state", vh::fmt("table %s: the diagram shows an unknown state %s", t.name, e.from));
  }
  c.distinct(vh::hashStr(t.name));
  c.sample(vh::fmt("table %s with %d states, %zu diagram edges", t.name, t.n, t.dot->size()));
}
