#include "core.h"
#include <sys/mman.h>
#include <signal.h>
#include <unistd.h>
#include <cxxabi.h>
namespace sim {
const char * const kVName[V__N] = { "none", "answer", "iter", "capacity", "object", "alloc", "stable", "constwrite", "othermap", "alias", "consume",
  "steps", "hang", "crash", "except", "fault", "leak", "transfer", "copy", "erase", "hetero", "rng", "bounds", "clock", "abort" };
const char * const kFName[F__N] = { "alloc", "hash", "eq", "key", "val", "signal" };
static Ctx root_ctx; Ctx * cur = &root_ctx;
u64 g_accept = ~0ull, g_ignored = 0; bool g_alloctrace = false;
u64 g_blocks = 0, g_block_limit = ~0ull, g_cost[Cost::N] = {}; u64 g_hash = 0; bool g_trace = false; bool g_readers = false;
Memory mem; Registry reg; Sched sched;

void violate(int cls, const char * fmt, ...) {
  if (cur->viol) return;
  if (!((g_accept >> cls) & 1)) { g_ignored++; return; }
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  cur->viol = cls; cur->msg = b;
}
void fire(int kind) {
  Ctx & c = *cur;
  c.fired = true; c.fired_kind = kind; c.fired_total[kind]++;
  if (!c.sticky) c.armed = 0;
  ev(0xF0 + kind);
  if (kind == F_ALLOC) throw SimBadAlloc(0);
  throw SimFault{kind};
}
void yield_point() { if (sched.running && sched.current >= 0 && sched.rng.chance(cur->yield_pct)) sched.yield(); }

// ---- memory -------------------------------------------------------------------
static char * const kArena = (char *)0x200000000000ull;
static const size_t kArenaSize = size_t(1) << 34;
static const size_t kPage = 4096;
static char * const kHome = (char *)0x1F0000000000ull;
static const size_t kHomeSlot = 8192; static const int kHomes = 64;
static char * bump; static char * high; static bool arena_ready; static u64 home_ro;
static void arena_init() {
  if (arena_ready) return; arena_ready = true;
  void * p = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  void * q = mmap(kHome, kHomeSlot * kHomes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != kArena || q != kHome) { fprintf(stderr, "cannot map arena\n"); _exit(9); }
  bump = high = kArena;
}
char * map_page(int slot) { arena_init(); return kHome + kHomeSlot * slot; }
void protect_home(int slot, bool ro) { mprotect(kHome + kHomeSlot * slot, kHomeSlot, ro ? PROT_READ : (PROT_READ | PROT_WRITE)); if (ro) home_ro |= 1ull << slot; else home_ro &= ~(1ull << slot); }
bool in_protected(const void * p) {
  const char * c = (const char *)p;
  if (c >= kHome && c < kHome + kHomeSlot * kHomes) return (home_ro >> ((c - kHome) / kHomeSlot)) & 1;
  const Block * b = mem.find(p);
  return b && b->live && b->ro;
}
void Memory::reset(bool g, bool ma, u64 po, size_t lim) {
  arena_init();
  bool pr = false; for (Block & b : blocks) if (b.guard || b.ro || b.gone) pr = true; if (pr) mprotect(kArena, (size_t(bump - kArena) + kPage - 1) / kPage * kPage, PROT_READ | PROT_WRITE);
  if (size_t(high - kArena) > (size_t(64) << 20)) { madvise(kArena, high - kArena, MADV_DONTNEED); high = kArena; }
  bump = kArena; blocks.clear(); memset(per_ctx, 0, sizeof per_ctx);
  guard = g; minalign = ma; poison = po; limit = lim; per_alloc_limit = lim; nblocks = outstanding = out_bytes = total_allocs = total_frees = 0;
  for (int i = 0; i < kHomes; i++) if ((home_ro >> i) & 1) protect_home(i, false);
}
static const size_t kRed = 64, kBig = size_t(1) << 20;
static inline void fill(char * p, size_t n, u64 seed) {
  u64 x = seed | 1; size_t i = 0;
  for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; memcpy(p + i, &x, 8); }
  for (; i < n; i++) p[i] = char(x >> (8 * (i & 7)));
}
void * Memory::allocate(u32 arena, size_t n, size_t elem, size_t align) {
  point(F_ALLOC);
  if (elem && n > per_alloc_limit / elem) { cur->organic_oom = true; throw SimBadAlloc(1); }
  size_t bytes = n * elem;
  if (out_bytes + bytes > limit || size_t(bump - kArena) + bytes > kArenaSize - (size_t(1) << 28)) { cur->organic_oom = true; throw SimBadAlloc(1); }
  Block b; b.bytes = bytes; b.n = n; b.elem = (u32)elem; b.arena = arena; b.ctx = cur->id; b.live = true; b.guard = guard; b.seq = nblocks++; b.ro = b.gone = false;
  if (align < 8) align = minalign ? align : 8;
  if (!minalign && align < 16) align = 16;
  if (guard) {
    size_t span = (bytes + align + kPage - 1) / kPage * kPage + 2 * kPage;
    b.base = bump; b.span = span; bump += span;
    char * end = b.base + span - kPage;
    b.user = (char *)((size_t)(end - bytes) & ~(align - 1));
    mprotect(b.base, kPage, PROT_NONE); mprotect(b.base + span - kPage, kPage, PROT_NONE);
    if (bump > high) high = bump;
    { char * lo = b.user - (b.base + kPage) > 256 ? b.user - 256 : b.base + kPage; memset(lo, 0xA5, b.user - lo); fill(b.user, bytes, poison + b.seq * 0x9E37); memset(b.user + bytes, 0xA5, end - (b.user + bytes)); }
  } else {
    size_t off = minalign ? align : 0;                  // misalign relative to stricter alignments
    char * u = (char *)(((size_t)bump + kRed + 127) & ~(size_t)127);
    if (off < 128) u += off;
    b.base = bump; b.user = u; bump = u + bytes + kRed; b.span = bump - b.base;
    if (bump > high) high = bump;
    memset(b.base, 0xA5, u - b.base); fill(u, bytes, poison + b.seq * 0x9E37); memset(u + bytes, 0xA5, kRed);
  }
  if (g_alloctrace) fprintf(stderr, "alloc %p n=%zu elem=%zu\n", b.user, n, elem);
  blocks.push_back(b); outstanding++; per_ctx[b.ctx & 63]++; out_bytes += bytes; total_allocs++;
  cur->allocs++;
  ev(0xA110 ^ (bytes << 8));
  return b.user;
}
static void dump_violation(const Block * b, const char * what) { violate(V_ALLOC, "%s (block #%llu, %zu x %u bytes)", what, (unsigned long long)b->seq, b->n, b->elem); }
static bool check_red(const Block & b) {
  if (b.guard) {                    // the slack around the block keeps its fill
    const char * lo = b.base + kPage; const char * hi = b.base + b.span - kPage;
    for (const char * p = b.user - lo > 256 ? b.user - 256 : lo; p < b.user; p++) if ((u8)*p != 0xA5) return false;
    for (const char * p = b.user + b.bytes; p < hi; p++) if ((u8)*p != 0xA5) return false;
    return true;
  }
  for (const char * p = b.base; p < b.user; p++) if ((u8)*p != 0xA5) return false;
  for (const char * p = b.user + b.bytes; p < b.user + b.bytes + kRed; p++) if ((u8)*p != 0xA5) return false;
  return true;
}
void Memory::deallocate(u32 arena, void * p, size_t n, size_t elem) {
  cur->frees++; total_frees++;
  Block * f = nullptr;
  for (size_t i = blocks.size(); i-- > 0;) if (blocks[i].user == (char *)p && (blocks[i].live || !f)) { f = &blocks[i]; if (f->live) break; }
  if (!f) { violate(V_ALLOC, "deallocate of a pointer that was never allocated (n=%zu)", n); return; }
  if (!f->live) { dump_violation(f, "block deallocated twice"); return; }
  if (f->arena != arena) { dump_violation(f, "block returned through an unequal allocator"); }
  if (f->n != n || f->elem != elem) { violate(V_ALLOC, "block of %zu x %u returned as %zu x %zu", f->n, f->elem, n, elem); }
  if (!check_red(*f)) dump_violation(f, "bytes outside the block were written");
  f->live = false; outstanding--; per_ctx[f->ctx & 63]--; out_bytes -= f->bytes;
  ev(0xF1EE ^ (f->bytes << 8));
  if (f->guard) { if (f->bytes >= kBig) madvise(f->base, f->span, MADV_DONTNEED); mprotect(f->base, f->span, PROT_NONE); }
  else if (f->bytes >= kBig) { char * lo = (char *)(((size_t)f->user + kPage - 1) & ~(kPage - 1)), * hi = (char *)((size_t)(f->user + f->bytes) & ~(kPage - 1)); madvise(lo, hi - lo, MADV_DONTNEED); mprotect(lo, hi - lo, PROT_NONE); f->gone = true; }
  else memset(f->user, 0xDD, f->bytes);
}
bool Memory::verify() {
  for (Block & b : blocks) {
    if (b.guard) { if (b.live && !b.ro && !check_red(b)) { dump_violation(&b, "bytes outside the block were written"); return false; } continue; }
    if (b.live) { if (!check_red(b)) { dump_violation(&b, "bytes outside the block were written"); return false; } }
    else if (!b.gone) { for (size_t i = 0; i < b.bytes; i++) if ((u8)b.user[i] != 0xDD) { dump_violation(&b, "block written after it was returned"); return false; } }
  }
  return true;
}
void Memory::protect_live(bool ro) { for (Block & b : blocks) if (b.live && b.guard) { mprotect(b.base + kPage, b.span - 2 * kPage, ro ? PROT_READ : (PROT_READ | PROT_WRITE)); b.ro = ro; } }
const Block * Memory::find(const void * p) const { const char * c = (const char *)p; for (size_t i = blocks.size(); i-- > 0;) if (c >= blocks[i].base && c < blocks[i].base + blocks[i].span) return &blocks[i]; return nullptr; }
u64 Memory::outstanding_of(u32 ctx) const { return per_ctx[ctx & 63]; }

// ---- registry -------------------------------------------------------------------
static inline size_t hp(const void * p) { u64 x = (u64)p; x ^= x >> 17; x *= 0x9E3779B97F4A7C15ull; return x >> 20; }
void Registry::reset() { if (used == 0 && mask) return; if (tab.size() > 65536 || tab.empty()) tab.assign(4096, Obj{}); else std::fill(tab.begin(), tab.end(), Obj{}); mask = tab.size() - 1; used = 0; }
Obj * Registry::find(const void * p) { size_t i = hp(p) & mask; while (tab[i].addr) { if (tab[i].addr == p) return &tab[i]; i = (i + 1) & mask; } return nullptr; }
void Registry::grow() { std::vector<Obj> o; o.swap(tab); tab.assign(o.size() * 2, Obj{}); mask = tab.size() - 1; for (Obj & x : o) if (x.addr) { size_t i = hp(x.addr) & mask; while (tab[i].addr) i = (i + 1) & mask; tab[i] = x; } }
Obj * Registry::add(const void * p, u8 type) { if (used * 2 >= tab.size()) grow(); size_t i = hp(p) & mask; while (tab[i].addr) i = (i + 1) & mask; used++; tab[i] = Obj{p, 0, type, 1, (u16)cur->id}; return &tab[i]; }
void Registry::del(Obj * o) { // backward-shift deletion
  size_t i = o - tab.data(), j = i; used--;
  for (;;) { tab[i].addr = nullptr; for (;;) { j = (j + 1) & mask; if (!tab[j].addr) return; size_t k = hp(tab[j].addr) & mask; if (i <= j ? (i < k && k <= j) : (i < k || k <= j)) continue; break; } tab[i] = tab[j]; i = j; }
}
static const char * tn(u8 t) { return t == T_KEY ? "key" : "value"; }
static Ctx * ctx_of(u16 id);
static std::vector<Ctx *> ctx_table;
void reset_ctx() { ctx_table.clear(); }
void register_ctx(Ctx * c) { if (ctx_table.size() <= c->id) ctx_table.resize(c->id + 1); ctx_table[c->id] = c; }
static Ctx * ctx_of(u16 id) { return id < ctx_table.size() && ctx_table[id] ? ctx_table[id] : cur; }
void obj_ctor(const void * p, u8 type) {
  Obj * o = reg.find(p);
  if (o) { violate(V_OBJECT, "a %s object is constructed over a live %s object", tn(type), tn(o->type)); Ctx * c = ctx_of(o->ctx); (o->type == T_KEY ? c->live_keys : c->live_vals)--; reg.del(o); }
  reg.add(p, type); (type == T_KEY ? cur->live_keys : cur->live_vals)++;
}
void obj_dtor(const void * p, u8 type) {
  Obj * o = reg.find(p);
  if (!o || o->type != type) { violate(V_OBJECT, "a %s object is destroyed that is not alive", tn(type)); return; }
  Ctx * c = ctx_of(o->ctx); (type == T_KEY ? c->live_keys : c->live_vals)--;
  reg.del(o);
}
bool obj_read(const void * p, u8 type, const char * what) {
  Obj * o = reg.find(p);
  if (!o || o->type != type) { violate(V_OBJECT, "a %s object is %s outside its lifetime", tn(type), what); return false; }
  return true;
}
void obj_moved(const void * s) { Ctx & c = *cur; for (int i = 0; i < 4; i++) if (c.watch[i] == s) c.wmoves[i]++; }
void obj_copied(const void * s) { Ctx & c = *cur; for (int i = 0; i < 4; i++) if (c.watch[i] == s) c.wcopies[i]++; }

// ---- fibers ---------------------------------------------------------------------
struct Fiber { ucontext_t uc; void (*fn)(void *); void * arg; Ctx * ctx; bool done = false; char * stack = nullptr; void * eh0 = nullptr; unsigned eh1 = 0; };
static ucontext_t main_uc;
static const size_t kStack = 512 * 1024;
struct EhGlobals { void * caught; unsigned uncaught; };
static EhGlobals * eh() { return (EhGlobals *)abi::__cxa_get_globals(); }
static void entry(unsigned lo, unsigned hi) {
  Fiber * f = (Fiber *)(((u64)hi << 32) | lo);
  f->fn(f->arg); f->done = true;
  for (;;) sched.yield();
}
void Sched::spawn(void (*fn)(void *), void * arg, Ctx * ctx) {
  Fiber * f = new Fiber; f->fn = fn; f->arg = arg; f->ctx = ctx; f->stack = (char *)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  getcontext(&f->uc); f->uc.uc_stack.ss_sp = f->stack; f->uc.uc_stack.ss_size = kStack; f->uc.uc_link = nullptr;
  makecontext(&f->uc, (void (*)())entry, 2, (unsigned)(u64)f, (unsigned)((u64)f >> 32));
  register_ctx(ctx); fibers.push_back(f);
}
void Sched::run(u64 seed) {
  rng = Rng(seed); running = true; Ctx * saved = cur; EhGlobals se = *eh(); switches = 0; order_hash = 0;
  for (;;) {
    std::vector<int> r; for (size_t i = 0; i < fibers.size(); i++) if (!fibers[i]->done) r.push_back((int)i);
    if (r.empty()) break;
    int k = r[rng.below(r.size())];
    current = k; Fiber * f = fibers[k]; cur = f->ctx; switches++; order_hash = mix64(order_hash ^ (k + 1));
    eh()->caught = f->eh0; eh()->uncaught = f->eh1;
    swapcontext(&main_uc, &f->uc);
    f->eh0 = eh()->caught; f->eh1 = eh()->uncaught;
    current = -1; cur = saved;
  }
  *eh() = se; running = false; ev(order_hash);
}
void Sched::yield() { Fiber * f = fibers[current]; swapcontext(&f->uc, &main_uc); }
void Sched::clear() { for (Fiber * f : fibers) { munmap(f->stack, kStack); delete f; } fibers.clear(); }
} // namespace sim
extern "C" void __sanitizer_cov_trace_pc() { if (++sim::g_blocks > sim::g_block_limit) sim::block_overrun(); }
