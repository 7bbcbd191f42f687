// A scenario is the complete description of one simulated run: configuration,
// operation trace, fault plan, schedule seed.  It is generated from one seed
// before anything runs, and can be written to and read from a replay file.
#pragma once
#include "core.h"
#include <map>
namespace sim {
enum HMode { H_GOOD, H_IDENT, H_CONST, H_LOWBITS, H_HIGHBITS, H_STRIDE, H_PAIRS, H_FEW, H_FIXLOW, H_FIXHIGH, H_DESC, H_GROUPY, H_EXTREME, H__N };
enum OpKind { O_NOP = 0, O_INSERT, O_ERASE, O_ERASE_IT, O_ERASE_RANGE, O_ERASE_IF, O_ERASE_LOOP, O_ERASE_KEYS, O_FIND, O_CLEAR, O_RESERVE, O_REHASH, O_SHRINK,
  O_MLF, O_RESIZE, O_RESERVE_FILL, O_HUGE, O_COPY, O_COPY_ASSIGN, O_MOVE, O_MOVE_ASSIGN, O_SWAP, O_RANGE_NEW, O_RANGE_INSERT, O_ILIST_NEW, O_ILIST_ASSIGN,
  O_NEW, O_DESTROY, O_CHECK, O_ITER, O_ALIAS, O_ALIAS_FILL, O_CONSUME, O_FILL, O_CHURN, O_WRITE, O_HETERO, O_DRAIN, O_READS, O_CHURN_BIG, O_SELF, O_OBSERVE, O_DRAW, O_SEED, O_GCOPY, O_TICK, O_BOUND, O_OCCUR, O_WATCH, O_TIME, O_SLEEP, O__N };
extern const char * const kOpName[O__N];
struct Op { u8 kind = 0, m = 0, m2 = 0, var = 0; u32 a = 0, b = 0, c = 0; u8 fk = 0, fmode = 0; u32 fn = 0; };   // fk: mask of kinds, fmode 0 none 1 once 2 sticky 3 sweep
struct World { std::string engine; std::vector<Op> ops; };
struct Scenario {
  std::string prop; u64 seed = 0; std::string kind;       // map | readers | worlds | rng | clock | time
  std::map<std::string, u64> cfg;
  std::vector<World> worlds;
  u64 get(const char * k, u64 d = 0) const { auto it = cfg.find(k); return it == cfg.end() ? d : it->second; }
  std::string save() const; bool load(const std::string & text);
};
struct Stats { u64 ops = 0, faults = 0, rehashes = 0, full_checks = 0, fault_ops = 0, exceptions = 0; u64 opk[O__N] = {}; u64 state_sig = 0; u64 probes[16] = {}; };
enum { P_GROWTH = 0, P_GROWTH_FAULT, P_WEAK, P_UNEQUAL_MOVE, P_ORGANIC_OOM, P_ERASE_LAST, P_EMPTY_ITER, P_SMALL_TABLE, P_LARGE_TABLE, P_ALIAS_GROWTH, P_RETRY_OK, P_SWEEP, P_COLLIDE, P_FULLSMALL, P_READ_SWITCH, P__N };
extern const char * const kProbeName[P__N];
extern Stats stats;
extern std::vector<u64> g_sigs;      // signatures of states reached in this run

struct IEngine {
  virtual ~IEngine() {}
  virtual void setup(const Scenario & sc, int world, Ctx * ctx) = 0;
  virtual void exec(const Op & op) = 0;
  virtual void finish() = 0;
  virtual void readers(const Scenario & sc, const Op & op) = 0;
  virtual const char * name() const = 0;
  virtual bool is_group() const = 0;
};
typedef IEngine * (*EngineFactory)();
struct EngineInfo { std::string name, map, cfg; EngineFactory make; bool group, tracked, copyval, hetero, nxmove, stringy, defaults; u32 max_id; };
std::vector<EngineInfo> & engines();
struct EngineReg { EngineReg(const EngineInfo & i) { engines().push_back(i); } };
const EngineInfo * find_engine(const std::string & n);
void run_scenario(const Scenario & sc);    // fills cur->viol etc.
Scenario generate(const std::string & prop, u64 seed);
void run_rng(const Scenario & sc);
void run_clock(const Scenario & sc);
void gen_rng(Scenario & sc, Rng & r);
void gen_clock(Scenario & sc, Rng & r);
void gen_time(Scenario & sc, Rng & r);
extern void (*g_run_time)(const Scenario & sc);      // in the binary of C24 only
extern i64 g_wall, g_true; i64 tick_of(const Op & o);
} // namespace sim
