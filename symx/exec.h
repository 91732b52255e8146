// symx: symbolic machine state.
#pragma once
#include "expr.h"
#include "prog.h"
#include <unordered_map>
#include <functional>
#include <set>

struct Cell { X e; uint8_t idx; };
struct LogW { Value off; Value val; uint8_t n; };
struct Obj {
  int ref = 1; uint64_t size = 0, cap = 0; X ssize = nullptr;
  bool freed = false, ro = false, heap = false, stack = false, watched = false; uint8_t world = 0;
  uint8_t fill = 0;
  uint8_t* bytes = nullptr; Cell* cells = nullptr; std::vector<LogW>* log = nullptr;
  ~Obj() { free(bytes); free(cells); delete log; }
};
struct Frame { Func* f; uint32_t pc; uint32_t base; std::vector<uint32_t> allocas; std::vector<Value> va; int retdst; const CallInfo* call; uint64_t uid; bool handler = false; };
struct OutEl { uint8_t kind; X e; uint8_t v; Value d; uint16_t prec; uint8_t conv; };  // kind 0 byte, 1 %g marker
struct JmpEnt { uint64_t uid; uint32_t depth, pc; int dst; };
struct State {
  std::vector<Frame> fr; std::vector<Value> R;
  std::vector<Obj*> objs; std::vector<uint32_t> freeIds;
  std::unordered_map<uint64_t, std::vector<uint32_t>> freeHeap; // with reuse of addresses: freed blocks by world and size class
  std::vector<X> pc, known; std::shared_ptr<Model> model;
  std::vector<OutEl> out[2][2]; std::vector<JmpEnt> jmps;
  uint64_t steps = 0, uidNext = 1; int world = 0; uint64_t heapBytes[2] = {0, 0};
  uint64_t sigHandler = 0; uint32_t polls = 0, delivered = 0, hardSince = 0; bool rePoll = false, inHandler = false, mustBreak = false; long posAt = 0; uint32_t randIdx[2] = {0, 0}; Value randSeed[2] = { Value(1), Value(1) }; uint32_t timeIdx[2] = {0, 0};
  std::vector<std::string> notes; uint32_t forks = 0;
  std::map<int, long> counters;
  State() {}
  State(const State& o) : fr(o.fr), R(o.R), objs(o.objs), freeIds(o.freeIds), freeHeap(o.freeHeap), pc(o.pc), known(o.known), model(o.model), jmps(o.jmps), steps(o.steps), uidNext(o.uidNext), world(o.world),
    sigHandler(o.sigHandler), polls(o.polls), delivered(o.delivered), hardSince(o.hardSince), rePoll(o.rePoll), inHandler(o.inHandler), mustBreak(o.mustBreak), posAt(o.posAt), notes(o.notes), forks(o.forks), counters(o.counters) {
    for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) out[i][j] = o.out[i][j]; heapBytes[i] = o.heapBytes[i]; randIdx[i] = o.randIdx[i]; randSeed[i] = o.randSeed[i]; timeIdx[i] = o.timeIdx[i]; }
    for (auto p : objs) if (p) p->ref++;
  }
  State& operator=(const State&) = delete;
  ~State() { for (auto p : objs) if (p && --p->ref == 0) delete p; }
};
