// Core of the deterministic simulator: PRNG, simulated memory, object registry,
// fault points, fibers, event log.  One process, one OS thread.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <new>
#include <string>
#include <vector>
#include <stdexcept>
#include <ucontext.h>

namespace sim {
typedef std::uint8_t u8; typedef std::uint16_t u16; typedef std::uint32_t u32; typedef std::uint64_t u64;
typedef std::int64_t i64;

struct Rng {                       // splitmix64: one integer decides everything
  u64 s;
  explicit Rng(u64 seed = 0) : s(seed) {}
  u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
  bool chance(u32 pct) { return below(100) < pct; }
};
inline u64 mix64(u64 z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

// Violation classes.
enum VClass { V_NONE = 0, V_ANSWER, V_ITER, V_CAPACITY, V_OBJECT, V_ALLOC, V_STABLE, V_CONSTWRITE, V_OTHERMAP, V_ALIAS, V_CONSUME,
  V_STEPS, V_HANG, V_CRASH, V_EXCEPT, V_FAULT, V_LEAK, V_TRANSFER, V_COPY, V_ERASE, V_HETERO, V_RNG, V_BOUNDS, V_CLOCK, V_ABORT, V__N };
extern const char * const kVName[V__N];

// Fault kinds.
enum FKind { F_ALLOC = 0, F_HASH, F_EQ, F_KEY, F_VAL, F_SIGNAL, F__N };
extern const char * const kFName[F__N];

struct SimFault { int kind; };
struct SimBadAlloc : std::bad_alloc { int organic; explicit SimBadAlloc(int o) : organic(o) {} const char * what() const noexcept override { return "sim bad_alloc"; } };

// Per-world (per client task) context.
struct Ctx {
  u32 id = 0;
  bool in_op = false;               // fault points are live only inside calls into the library
  u32 armed = 0;                    // mask of kinds
  u64 countdown = 0;
  bool sticky = false;              // keep failing
  bool fired = false; int fired_kind = -1;
  u64 points[F__N] = {};            // points passed in the current op
  u64 frees = 0, allocs = 0;        // in the current op
  bool organic_oom = false;
  u64 steps = 0;                    // callbacks in the current op
  i64 live_keys = 0, live_vals = 0;
  const void * watch[4] = {}; u32 wmoves[4] = {}, wcopies[4] = {};
  // violation
  int viol = 0; std::string msg;
  u64 fired_total[F__N] = {};
  u32 yield_pct = 0;
};
extern Ctx * cur;
extern u64 g_hash;                  // event log hash
extern bool g_trace, g_alloctrace; void register_ctx(Ctx * c); void reset_ctx();
inline void ev(u64 a) { g_hash = (g_hash ^ a) * 0x100000001B3ull; g_hash ^= g_hash >> 29; }
extern u64 g_accept, g_ignored;       // classes this property's check reports; others are counted
void violate(int cls, const char * fmt, ...) __attribute__((format(printf, 2, 3)));
void yield_point();

// Basic blocks executed, in binaries whose map code is compiled with -fsanitize-coverage=trace-pc: a deterministic measure of work.
extern u64 g_blocks, g_block_limit; void block_overrun();
struct Uncounted { u64 b = g_blocks; ~Uncounted() { g_blocks = b; } };     // work of the caller's functions does not count
struct Cost { enum { ABSENT = 0, PRESENT, UPDATE, N }; };
extern u64 g_cost[Cost::N];           // highest values seen, in hundredths of a block

void fire(int kind);
inline void point(int kind) {
  Ctx & c = *cur;
  if (!c.in_op) return;
  c.points[kind]++; c.steps++;
  if ((c.armed >> kind) & 1) { if (c.countdown <= 1) fire(kind); else c.countdown--; }
  if (c.yield_pct) yield_point();
}

// A point where another task may run but nothing can fail.
inline void step() { if (cur->yield_pct && cur->in_op) yield_point(); }

// ---- simulated memory -----------------------------------------------------
struct Block { char * user; size_t bytes; size_t n; u32 elem; u32 arena; u32 ctx; bool live; bool guard; char * base; size_t span; u64 seq; bool ro, gone; };
struct Memory {
  bool guard = false; bool minalign = false; u64 poison = 0; size_t limit = 0; size_t per_alloc_limit = 0;
  u32 per_ctx[64] = {}; u64 nblocks = 0, outstanding = 0, out_bytes = 0, total_allocs = 0, total_frees = 0;
  std::vector<Block> blocks;
  void reset(bool guard, bool minalign, u64 poison, size_t limit);
  void * allocate(u32 arena, size_t n, size_t elem, size_t align);
  void deallocate(u32 arena, void * p, size_t n, size_t elem);
  void protect_live(bool ro);       // live blocks read-only / writable again
  const Block * find(const void * p) const;
  bool verify();                    // canaries of live blocks, fill of dead blocks
  u64 outstanding_of(u32 ctx) const;
};
extern Memory mem;
char * map_page(int slot);          // a page-aligned home for map objects (32 slots of 8 KB)
void protect_home(int slot, bool ro);
extern bool g_readers;              // a read-only phase is running
bool in_protected(const void * p);

// ---- object registry --------------------------------------------------------
struct Obj { const void * addr; u32 id; u8 type; u8 state; u16 ctx; };   // state 1 alive, 2 moved-from
struct Registry {
  std::vector<Obj> tab; size_t mask = 0, used = 0;
  void reset();
  Obj * find(const void * p);
  Obj * add(const void * p, u8 type);
  void del(Obj * o);
  void grow();
};
extern Registry reg;
enum { T_KEY = 1, T_VAL = 2 };
void obj_ctor(const void * p, u8 type);
void obj_dtor(const void * p, u8 type);
bool obj_read(const void * p, u8 type, const char * what);
void obj_moved(const void * src);
void obj_copied(const void * src);

// ---- fibers ---------------------------------------------------------------------
struct Fiber;
struct Sched {
  std::vector<Fiber *> fibers; int current = -1; Rng rng; u64 switches = 0; u64 order_hash = 0; bool running = false;
  void spawn(void (*fn)(void *), void * arg, Ctx * ctx);
  void run(u64 seed);
  void yield();
  void clear();
};
extern Sched sched;

// ---- simulated clock ------------------------------------------------------------
extern u64 sim_ns;                  // simulated wall clock (ns)
extern u64 sim_cpu;                 // simulated ::clock() value
extern bool sim_clock_on;
extern u64 clock_reads;

} // namespace sim
