// Scenario generation, run loop, replay, crash/hang classification.
#include "core.h"
#include "scenario.h"
#include <unordered_set>
#include <memory>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cmath>
#include <csignal>
#include <sys/time.h>
#include <sys/personality.h>
#include <unistd.h>
#include <exception>
#include <chrono>
#include <ctime>

namespace sim {
const char * const kOpName[O__N] = { "nop", "insert", "erase", "erase_it", "erase_range", "erase_if", "erase_loop", "erase_keys", "find", "clear", "reserve", "rehash", "shrink",
  "mlf", "resize", "reserve_fill", "huge", "copy", "copy_assign", "move", "move_assign", "swap", "range_new", "range_insert", "ilist_new", "ilist_assign",
  "new", "destroy", "check", "iter", "alias", "alias_fill", "consume", "fill", "churn", "write", "hetero", "drain", "reads", "churn_big", "self", "observe", "draw", "seed", "gcopy", "tick", "bound", "occur", "watch", "time", "sleep" };
const char * const kProbeName[P__N] = { "growth", "fault_after_allocation", "weak_guarantee_outcome", "unequal_allocator_move", "simulated_memory_exhausted", "erased_last_element", "empty_traversal", "small_table", "large_table",
  "aliased_growth", "retry_after_failed_allocation", "fault_sweep", "colliding_hash", "full_small_table", "reader_switches" };
Stats stats; std::vector<u64> g_sigs;
std::vector<EngineInfo> & engines() { static std::vector<EngineInfo> e; return e; }
const EngineInfo * find_engine(const std::string & n) { for (auto & e : engines()) if (e.name == n) return &e; return nullptr; }

// ---- replay files -----------------------------------------------------------------
std::string Scenario::save() const {
  std::ostringstream o; o << "prop " << prop << "\nseed " << seed << "\nkind " << kind << "\n";
  for (auto & c : cfg) o << "cfg " << c.first << " " << c.second << "\n";
  for (auto & w : worlds) { o << "world " << w.engine << "\n";
    for (auto & p : w.ops) o << "op " << kOpName[p.kind] << " " << int(p.m) << " " << int(p.m2) << " " << int(p.var) << " " << p.a << " " << p.b << " " << p.c << " " << int(p.fk) << " " << int(p.fmode) << " " << p.fn << "\n"; }
  return o.str();
}
bool Scenario::load(const std::string & t) {
  std::istringstream in(t); std::string line; *this = Scenario();
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string w; if (!(l >> w) || w[0] == '#') continue;
    if (w == "prop") l >> prop; else if (w == "seed") l >> seed; else if (w == "kind") l >> kind;
    else if (w == "cfg") { std::string k; u64 v; l >> k >> v; cfg[k] = v; }
    else if (w == "world") { World x; l >> x.engine; worlds.push_back(x); }
    else if (w == "op") { std::string k; int m, m2, var, fk, fm; Op p; l >> k >> m >> m2 >> var >> p.a >> p.b >> p.c >> fk >> fm >> p.fn; if (!l || worlds.empty()) return false; p.m = m; p.m2 = m2; p.var = var; p.fk = fk; p.fmode = fm;
      int i = 0; while (i < O__N && k != kOpName[i]) i++; if (i == O__N) return false; p.kind = i; worlds.back().ops.push_back(p); }
  }
  return !kind.empty();
}

// ---- generation -----------------------------------------------------------------------
static u64 strhash(const std::string & s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }
struct W { OpKind k; u32 w; };
typedef std::vector<W> Mix;
static const Mix kBase = { {O_INSERT, 40}, {O_ERASE, 24}, {O_FIND, 14}, {O_FILL, 4}, {O_DRAIN, 3}, {O_WRITE, 5}, {O_CHECK, 2} };
static Mix plus(Mix a, const Mix & b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static bool takes_fault(int k) { switch (k) { case O_NOP: case O_WRITE: case O_CHECK: case O_ITER: case O_DESTROY: case O_OBSERVE: case O_READS: case O_CHURN: case O_CHURN_BIG: case O_HUGE: case O_SELF: case O_DRAIN: return false; default: return true; } }

struct Plan { Mix mix; u32 fault_mask = 0; u32 fault_pct = 0; bool allhash = false; int filter = 0; u32 arenas = 2; u32 slots = 2; u32 guard_pct = 30; bool stable = false; bool churn = false; bool lazy = false; };
// filter: 0 any, 1 object-counted, 2 hetero, 3 special types, 4 simulated allocator, 5 copyable values
static Plan plan_for(const std::string & p, Rng & r) {
  Plan q; Mix cap = { {O_RESERVE, 4}, {O_REHASH, 4}, {O_SHRINK, 4}, {O_MLF, 2}, {O_RESIZE, 2}, {O_CLEAR, 3} };
  Mix cp = { {O_COPY, 4}, {O_COPY_ASSIGN, 4}, {O_RANGE_NEW, 2}, {O_RANGE_INSERT, 3}, {O_ILIST_NEW, 1}, {O_ILIST_ASSIGN, 1} };
  Mix mv = { {O_MOVE, 4}, {O_MOVE_ASSIGN, 4}, {O_SWAP, 3} };
  Mix er = { {O_ERASE_IT, 5}, {O_ERASE_RANGE, 3}, {O_ERASE_IF, 2}, {O_ERASE_LOOP, 3}, {O_ERASE_KEYS, 2} };
  Mix misc = { {O_NEW, 2}, {O_DESTROY, 1} };
  q.mix = kBase; u32 dice = (u32)r.below(100);
  if (p == "C01") { q.mix = plus(kBase, { {O_NEW, 1}, {O_CLEAR, 1}, {O_CHURN, 1}, {O_ERASE_KEYS, 1}, {O_RANGE_INSERT, 1} }); q.slots = 2; q.arenas = 1; if (dice < 25) q.mix = plus(q.mix, cap); q.guard_pct = 10; }
  else if (p == "C02") { q.mix = plus(plus(kBase, { {O_ITER, 25}, {O_CLEAR, 2}, {O_SHRINK, 3}, {O_RESERVE, 3}, {O_NEW, 2}, {O_CHECK, 10}, {O_DRAIN, 4} }), {}); if (dice < 30) q.mix = plus(q.mix, plus(mv, er)); q.guard_pct = 20; }
  else if (p == "C03") { q.mix = plus(kBase, { {O_RESERVE, 8}, {O_REHASH, 8}, {O_SHRINK, 8}, {O_MLF, 5}, {O_RESIZE, 3}, {O_CLEAR, 4}, {O_RESERVE_FILL, 8}, {O_HUGE, 2}, {O_NEW, 3}, {O_ERASE_IF, 1} }); q.slots = 2; q.arenas = 1; if (dice < 20) q.mix = plus(q.mix, plus(cp, mv)); }
  else if (p == "C04") { q.mix = plus(plus(kBase, misc), { {O_COPY, 10}, {O_COPY_ASSIGN, 10}, {O_RANGE_NEW, 6}, {O_RANGE_INSERT, 8}, {O_ILIST_NEW, 3}, {O_ILIST_ASSIGN, 3}, {O_SELF, 2}, {O_CLEAR, 2}, {O_SHRINK, 2}, {O_RESERVE, 2} }); q.slots = 3; q.arenas = 3; q.filter = 5; if (dice < 25) q.mix = plus(q.mix, mv); }
  else if (p == "C05") { q.mix = plus(plus(kBase, misc), { {O_MOVE, 10}, {O_MOVE_ASSIGN, 12}, {O_SWAP, 10}, {O_SELF, 1}, {O_CLEAR, 3}, {O_SHRINK, 2}, {O_RESERVE, 2}, {O_REHASH, 2}, {O_OBSERVE, 2} }); q.slots = 4; q.arenas = 2; if (dice < 25) q.mix = plus(q.mix, cp); }
  else if (p == "C06") { q.mix = plus(kBase, { {O_ERASE_IT, 14}, {O_ERASE_RANGE, 10}, {O_ERASE_IF, 7}, {O_ERASE_LOOP, 12}, {O_ERASE_KEYS, 5}, {O_FILL, 8} }); if (dice < 25) q.mix = plus(q.mix, plus(cap, mv)); }
  else if (p == "C07") { q.allhash = true; q.arenas = 1; if (dice < 60) q.mix = plus(q.mix, plus(cap, { {O_CHURN, 1} })); if (dice < 30) q.mix = plus(q.mix, plus(cp, plus(mv, er))); q.guard_pct = 10; }
  else if (p == "C08") { q.mix = plus(plus(kBase, misc), plus(plus(cap, cp), plus(mv, { {O_FILL, 14}, {O_RESERVE, 6}, {O_SHRINK, 4} }))); q.fault_mask = 1u << F_ALLOC; q.fault_pct = 35; q.slots = 3; q.arenas = 2; q.filter = 4; q.allhash = dice < 10; }
  else if (p == "C09") { q.mix = plus(plus(kBase, misc), plus(plus(cap, cp), plus(mv, plus(er, { {O_FILL, 8}, {O_HETERO, 3} })))); q.fault_mask = dice < 40 ? 1u << F_HASH : dice < 60 ? 1u << F_EQ : (1u << F_HASH) | (1u << F_EQ); q.fault_pct = 30; q.slots = 3; q.filter = 4; q.allhash = r.chance(40); }
  else if (p == "C10") { q.mix = plus(plus(kBase, misc), plus(plus(cap, cp), plus(mv, plus(er, { {O_FILL, 8}, {O_CONSUME, 8}, {O_HETERO, 3}, {O_ALIAS, 3} })))); q.fault_mask = dice < 30 ? 1u << F_KEY : dice < 60 ? 1u << F_VAL : (1u << F_KEY) | (1u << F_VAL); if (dice >= 90) q.fault_mask |= 1u << F_ALLOC; q.fault_pct = 30; q.slots = 3; q.filter = 1; }
  else if (p == "C11") { q.mix = plus(plus(plus(kBase, misc), plus(cap, cp)), plus(mv, plus(er, { {O_ALIAS, 2}, {O_CHURN, 1}, {O_HETERO, 2}, {O_CONSUME, 4} }))); q.slots = 3; q.filter = 1; q.guard_pct = 40; if (dice < 20) { q.fault_mask = (1u << F_SIGNAL) - 1; q.fault_pct = 15; } }
  else if (p == "C12") { q.mix = plus(plus(plus(kBase, misc), plus(cap, cp)), plus(mv, plus(er, { {O_CHURN, 1}, {O_OBSERVE, 3}, {O_FILL, 6} }))); q.slots = 4; q.arenas = 4; q.filter = 4; q.guard_pct = 70; if (dice < 20) { q.fault_mask = 1u << F_ALLOC; q.fault_pct = 15; } }
  else if (p == "C13") { q.mix = plus(kBase, { {O_READS, 10}, {O_RESERVE, 2}, {O_SHRINK, 2}, {O_CLEAR, 2}, {O_MOVE, 2}, {O_MOVE_ASSIGN, 1}, {O_SWAP, 1}, {O_NEW, 2}, {O_REHASH, 1}, {O_ERASE_LOOP, 1} }); if (dice >= 50) q.mix = plus(q.mix, { {O_COPY, 3}, {O_COPY_ASSIGN, 2} }); q.guard_pct = 100; q.filter = dice >= 50 ? 5 : 0; q.slots = 2; q.arenas = 1; q.allhash = dice % 5 < 2; q.lazy = r.chance(70); }
  else if (p == "C14") { q.mix = plus(plus(plus(kBase, misc), plus(cap, cp)), plus(mv, er)); q.slots = 2; q.arenas = 2; q.guard_pct = 20; if (dice < 25) { q.fault_mask = (1u << F_ALLOC) | (1u << F_HASH); q.fault_pct = 10; } }
  else if (p == "C15") { q.mix = plus(plus(kBase, plus(mv, { {O_RESERVE_FILL, 8}, {O_SELF, 1}, {O_CHECK, 8}, {O_RESERVE, 2}, {O_ERASE_IT, 4}, {O_ERASE_IF, 2}, {O_SHRINK, 1} })), {}); q.slots = 3; q.stable = true; if (dice < 30) { q.fault_mask = (1u << F_ALLOC) | (1u << F_HASH) | (1u << F_EQ); q.fault_pct = 20; q.filter = 4; } }
  else if (p == "C16") { q.mix = plus(kBase, { {O_ALIAS, 22}, {O_ALIAS_FILL, 10}, {O_CONSUME, 24}, {O_FILL, 4}, {O_SHRINK, 3}, {O_CLEAR, 1} }); if (r.chance(70)) q.filter = 1; }
  else if (p == "C17") { q.mix = plus(kBase, { {O_CHURN, 12}, {O_CLEAR, 1}, {O_ERASE_IT, 3}, {O_ERASE_LOOP, 2}, {O_SHRINK, 2} }); q.churn = true; q.slots = 1; q.guard_pct = 0; if (dice < 40) { q.slots = 2; q.mix = plus(q.mix, mv); if (dice < 15) { q.mix = plus(q.mix, { {O_COPY, 4}, {O_COPY_ASSIGN, 4} }); q.filter = 5; } } }
  else if (p == "C21") { q.mix = plus(plus(plus(kBase, misc), plus(cap, cp)), plus(mv, plus(er, { {O_ALIAS, 2}, {O_CONSUME, 4}, {O_ITER, 2} }))); q.slots = 3; q.filter = 3; q.guard_pct = 40; if (dice < 15) { q.fault_mask = (1u << F_SIGNAL) - 1; q.fault_pct = 10; } }
  else if (p == "C22") { q.mix = plus(kBase, { {O_HETERO, 50}, {O_CLEAR, 1}, {O_SHRINK, 2}, {O_RESERVE, 2} }); q.filter = 2; if (dice < 20) { q.fault_mask = (1u << F_SIGNAL) - 1; q.fault_pct = 10; } q.allhash = dice > 80; }
  return q;
}
static u32 kBigPerMille = getenv("SIM_BIG") ? atoi(getenv("SIM_BIG")) : 10;
static const u32 kSize[] = {3, 6, 10, 16, 20, 32, 40, 64, 90, 130, 200, 260, 400, 700, 1200, 3000};
Scenario generate(const std::string & prop, u64 seed) {
  Scenario s; s.prop = prop; s.seed = seed; Rng r(mix64(seed * 0x9E3779B97F4A7C15ull ^ strhash(prop)));
  if (prop == "C18" || prop == "C19") { s.kind = "rng"; gen_rng(s, r); return s; }
  if (prop == "C24") { gen_time(s, r); return s; }
  if (prop == "C20") { s.kind = "clock"; gen_clock(s, r); return s; }
  // C23 runs the workloads of the other map properties in a build with assertions
  static const char * const kMapProps[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C21", "C22"};
  std::string base = prop; if (prop == "C23") base = kMapProps[r.below(sizeof kMapProps / sizeof *kMapProps)];
  Plan p = plan_for(base, r);
  s.kind = base == "C13" ? "readers" : base == "C14" ? "worlds" : "map";
  std::vector<const EngineInfo *> el;
  for (auto & e : engines()) {
    if (p.filter == 1 && !e.tracked) continue; if (p.filter == 2 && !e.hetero) continue; if (p.filter == 4 && e.defaults) continue; if ((p.fault_mask & ((1u << F_KEY) | (1u << F_VAL))) && !e.group && !e.nxmove) continue; if (p.filter == 5 && !e.copyval) continue;
    if (p.filter == 3 && !(e.cfg == "M" || e.cfg == "MB" || e.cfg == "O" || e.cfg == "B" || e.cfg == "C" || e.cfg == "P2" || e.cfg == "P1" || e.cfg == "X" || e.cfg == "LB" || e.cfg == "LO")) continue;
    el.push_back(&e);
  }
  if (el.empty()) { fprintf(stderr, "no engine for %s\n", prop.c_str()); _exit(9); }
  u32 nw = s.kind == "worlds" ? 2 + (u32)r.below(3) : 1; u32 nops; { u32 d = (u32)r.below(100); nops = d < 45 ? 10 + (u32)r.below(50) : d < 85 ? 50 + (u32)r.below(150) : 200 + (u32)r.below(400); }
  if (base == "C17") nops = 5 + nops / 8; if (nw > 1) nops = nops / nw + 8; if (p.fault_pct) nops = nops * 2 / 3 + 5;
  u32 U = kSize[r.below(r.chance(70) ? 12 : 16)]; if (r.chance(30)) U += (u32)r.below(U); if (p.fault_pct && U > 700) U = 700; if (nw > 1 && U > 300) U = 300;
  u32 hm[2]; for (int i = 0; i < 2; i++) { u32 d = (u32)r.below(100); hm[i] = p.allhash ? (u32)r.below(H__N) : d < 55 ? H_GOOD : d < 80 ? H_IDENT : d < 85 ? H_DESC : d < 92 ? H_STRIDE : H_PAIRS; } if (!p.allhash || r.chance(70)) hm[1] = hm[0];
  if (p.churn) { Rng rc(mix64(seed ^ 0xC4042ull)); if (rc.chance(6)) U = 1200 + (u32)rc.below(2000); }
  if (p.churn && hm[0] > H_IDENT && hm[0] != H_DESC) hm[0] = hm[1] = r.chance(70) ? H_GOOD : H_IDENT;
  bool same = nw > 1 && r.chance(60); std::vector<std::string> names; bool robin = false; u32 minmax = 1u << 30;
  for (u32 w = 0; w < nw; w++) { const EngineInfo * e = w && same ? find_engine(names[0]) : el[r.below(el.size())]; names.push_back(e->name); if (!e->group) robin = true; if (e->max_id < minmax) minmax = e->max_id; }
  // One run in some hundreds works on a large population: what depends on wide indexes or long tables is out of reach otherwise.
  Rng rb(mix64(seed ^ 0xB16B16B16ull)); bool big = nw == 1 && s.kind == "map" && names[0].find("/MB") == std::string::npos && rb.below(p.churn ? 4000 : 1000) < kBigPerMille;
  bool av = names[0].find("/TA") != std::string::npos || names[0].find("/P2") != std::string::npos;   // the library does not mix these hash values
  for (int i = 0; i < 2; i++) if (!(hm[i] == H_GOOD || (!av && (hm[i] == H_IDENT || hm[i] == H_DESC)))) big = false;
  if (big) { U = (8u << 10) << rb.below(4); U += (u32)rb.below(U); nops = 5 + (u32)rb.below(20); if (p.slots > 2) p.slots = 2; }
  // In one run in some dozens a few elements live in a table of thousands of buckets.
  bool roomy = !big && s.kind == "map" && !p.churn && rb.below(100) < 4; for (auto & n : names) if (n.find("/MB") != std::string::npos) roomy = false;
  if (U > minmax) U = minmax;
  bool bad = false; for (int i = 0; i < 2; i++) if (!(hm[i] == H_GOOD || hm[i] == H_IDENT || hm[i] == H_DESC)) bad = true;
  // robin tables place equal hash values within a bounded distance only, so large equal classes exhaust any memory
  if (robin && bad) { u32 lim = 12 + (u32)r.below(8); for (int i = 0; i < 2; i++) switch (hm[i]) { case H_CONST: case H_LOWBITS: case H_FEW: case H_EXTREME: case H_GROUPY: case H_HIGHBITS: case H_STRIDE: if (U > lim * (hm[i] == H_CONST ? 1 : 4)) U = lim * (hm[i] == H_CONST ? 1 : 4); break; default: break; } }
  if (bad && U > 400) U = 400;
  s.cfg["U"] = U; s.cfg["hmode0"] = hm[0]; s.cfg["hmode1"] = hm[1]; s.cfg["hsalt0"] = r.next() >> (r.chance(50) ? 56 : 0); s.cfg["hsalt1"] = r.next() >> (r.chance(50) ? 56 : 0); if (hm[0] == hm[1] && r.chance(50)) s.cfg["hsalt1"] = s.cfg["hsalt0"];
  s.cfg["nslots"] = p.slots; s.cfg["narena"] = p.arenas <= 1 ? 1 : 1 + r.below(p.arenas); s.cfg["rseed"] = r.next(); s.cfg["ctor_var"] = r.below(6);
  s.cfg["check_every"] = U <= 64 ? 1 + r.below(8) : U <= 400 ? 6 + r.below(20) : 20 + r.below(60); s.cfg["track_addr"] = 1; s.cfg["allow_oom"] = bad; s.cfg["limit"] = (robin && bad) ? (512u << 10) : (96u << 20);
  if (p.lazy) s.cfg["check_every"] = 1000000;
  if (big) { s.cfg["big"] = 1; s.cfg["check_every"] = 3 + rb.below(10); s.cfg["limit"] = 1u << 30; }
  s.cfg["guard"] = r.chance(p.guard_pct); s.cfg["minalign"] = r.chance(60); s.cfg["poison"] = r.next(); s.cfg["yield"] = s.kind == "worlds" ? (r.chance(30) ? 1 + r.below(5) : 5 + r.below(60)) : s.kind == "readers" ? 5 + r.below(70) : 0;
  s.cfg["sched"] = r.next(); if (p.churn) { s.cfg["churn_check"] = 1; s.cfg["churn_bound"] = 16; }
  for (u32 w = 0; w < nw; w++) {
    World x; x.engine = names[w];
    Mix mix = p.mix; u32 tot = 0; for (auto & e : mix) { u32 z = (u32)r.below(100); if (z < 20 && mix.size() > 6) e.w = 0; else if (z < 40) e.w *= 3; else if (z < 50) e.w = e.w / 3 + 1; tot += e.w; } if (!tot) { mix = p.mix; tot = 0; for (auto & e : mix) tot += e.w; }
    // maps are filled more densely than by default in a third of the runs
    if (r.chance(35)) for (u32 k = 0; k < p.slots; k++) { Op o; o.kind = O_MLF; o.m = (u8)k; o.b = 55 + (u32)r.below(45); x.ops.push_back(o); }
    u32 phase = (u32)r.below(3), left = 0; u32 fault_on = p.fault_pct;
    for (u32 i = 0; i < nops; i++) {
      if (left-- == 0) { phase = (u32)r.below(5); left = 5 + (u32)r.below(60); }
      Op o; u32 z = (u32)r.below(tot); for (auto & e : mix) { if (z < e.w) { o.kind = e.k; break; } z -= e.w; }
      if (phase == 0 && o.kind == O_ERASE && r.chance(70)) o.kind = O_INSERT; if (phase == 1 && o.kind == O_INSERT && r.chance(60)) o.kind = O_ERASE;
      if (i < 3 && r.chance(60)) o.kind = r.chance(50) ? O_FILL : O_INSERT;
      o.m = r.chance(60) ? 0 : (u8)r.below(p.slots); o.m2 = (u8)r.below(p.slots); o.var = (u8)r.below(256); o.a = (u32)r.next(); o.b = (u32)r.next(); o.c = (u32)r.next();
      switch (o.kind) {
        case O_RESERVE: case O_REHASH: case O_RESIZE: { u32 d = (u32)r.below(10); o.b = d == 0 ? 0 : d < 4 ? (u32)r.below(U + 1) : d < 6 ? (1u << r.below(11)) + (u32)r.below(3) - 1 : d < 8 ? U + (u32)r.below(U + 1) : (u32)r.below(4 * U + 1); break; }
        case O_FILL: { u32 d = (u32)r.below(10); o.b = d < 5 ? (u32)r.below(20) : d < 8 ? (u32)r.below(U) : U; if (r.chance(35)) o.var = 255; break; }
        case O_DRAIN: { u32 d = (u32)r.below(10); o.b = d < 5 ? (u32)r.below(20) : d < 8 ? (u32)r.below(U) : U; break; }
        case O_CHURN: o.b = (u32)r.below(base == "C17" ? 3000 : 300); break;
        case O_NEW: o.b = r.chance(50) ? 0 : (u32)r.below(300); break;
        default: break;
      }
      if (o.kind == O_ERASE || o.kind == O_WRITE) { if (r.chance(70)) o.c = (o.c & ~3u) | 1; }
      if (o.kind == O_INSERT && r.chance(50)) o.c = (o.c & ~3u) | 2;
      if (o.kind == O_FILL) o.c = (o.c & ~3u) | 2;
      if (big && (i == 0 || rb.chance(25))) { o.kind = i < 2 || rb.chance(60) ? O_FILL : O_DRAIN; o.m = rb.chance(70) ? 0 : o.m; o.b = rb.chance(50) ? U : (u32)rb.below(U + 1); o.c = (o.c & ~15u) | 2; if (rb.chance(60)) o.var = 255; }
      if (big && (o.kind == O_RESERVE || o.kind == O_REHASH || o.kind == O_NEW) && rb.chance(50)) o.b = (u32)rb.below(1u << (10 + rb.below(12)));
      if (roomy && (i == 3 || o.kind == O_RESERVE || o.kind == O_REHASH || o.kind == O_RESIZE) && rb.chance(60)) { if (i == 3) o.kind = O_RESERVE; o.b = (u32)rb.below(1u << (12 + rb.below(6))); }
      if (fault_on && takes_fault(o.kind) && r.chance(fault_on)) {
        o.fk = (u8)p.fault_mask; if (r.chance(40)) { u32 bits = p.fault_mask; u32 pick = (u32)r.below(F_SIGNAL); for (u32 t = 0; t < F_SIGNAL; t++, pick = (pick + 1) % F_SIGNAL) if ((bits >> pick) & 1) { o.fk = (u8)(1u << pick); break; } }
        u32 d = (u32)r.below(100); bool onlyalloc = o.fk == (1u << F_ALLOC);
        if (d < 25 && U <= 260) { o.fmode = 3; } else if (d < 35) { o.fmode = 2; o.fn = 1 + (u32)r.below(onlyalloc ? 4 : 30); } else { o.fmode = 1; o.fn = 1 + (u32)r.below(onlyalloc ? 4 : r.chance(60) ? 6 : 80); }
      }
      x.ops.push_back(o);
    }
    s.worlds.push_back(x);
  }
  return s;
}
static u64 accept_mask(const std::string & p) {
  u64 special = (1ull << V_OBJECT) | (1ull << V_ALLOC) | (1ull << V_LEAK) | (1ull << V_STABLE) | (1ull << V_CONSTWRITE) | (1ull << V_CONSUME) | (1ull << V_STEPS);
  u64 m = ~special; auto on = [&](int c) { m |= 1ull << c; };
  if (p == "C08" || p == "C09" || p == "C10") { on(V_LEAK); on(V_OBJECT); on(V_ALLOC); }
  if (p == "C11") { on(V_OBJECT); on(V_LEAK); }
  if (p == "C12") { on(V_ALLOC); on(V_LEAK); }
  if (p == "C13") { on(V_CONSTWRITE); on(V_LEAK); on(V_OBJECT); }
  if (p == "C15") on(V_STABLE);
  if (p == "C16") { on(V_CONSUME); on(V_ALIAS); on(V_OBJECT); }
  if (p == "C17" || p == "C03") on(V_STEPS);
  if (p == "C21") { on(V_OBJECT); on(V_ALLOC); on(V_LEAK); on(V_ALIAS); }
  if (p == "C22") on(V_HETERO);
  if (p == "C03") on(V_STABLE);
  if (p == "C04" || p == "C05") { on(V_ALLOC); on(V_OBJECT); on(V_LEAK); }
  if (p == "C14") { on(V_ALLOC); on(V_OBJECT); on(V_LEAK); }
  return m;
}
// ---- running ----------------------------------------------------------------------------
static Ctx g_ctx[16]; static const Scenario * g_sc; static IEngine * g_eng[8];
static void world_main(void * a) {
  int w = (int)(size_t)a; IEngine * e = g_eng[w]; e->setup(*g_sc, w, cur);
  for (auto & op : g_sc->worlds[w].ops) { if (cur->viol) break; if (op.kind == O_READS) e->readers(*g_sc, op); else e->exec(op); if (g_sc->worlds.size() > 1) yield_point(); }
  if (!cur->viol) e->finish();
}
int g_viol; std::string g_msg; int g_viol_op = -1;
void run_scenario(const Scenario & sc) {
  g_viol = 0; g_msg.clear(); g_hash = sc.seed * 0x9E3779B97F4A7C15ull + 1; g_sigs.clear(); g_sc = &sc; g_accept = accept_mask(sc.prop);
  g_ctx[0] = Ctx(); cur = &g_ctx[0];
  if (sc.kind == "rng") { run_rng(sc); g_viol = cur->viol; g_msg = cur->msg; return; }
  if (sc.kind == "time") { if (!g_run_time) _exit(9); g_run_time(sc); g_viol = cur->viol; g_msg = cur->msg; return; }
  if (sc.kind == "clock") { run_clock(sc); g_viol = cur->viol; g_msg = cur->msg; return; }
  g_block_limit = ~0ull; mem.reset(sc.get("guard"), sc.get("minalign"), sc.get("poison", 1), sc.get("limit", 64u << 20)); reg.reset(); reset_ctx();
  size_t n = sc.worlds.size(); if (n > 8) n = 8;
  for (size_t i = 0; i < n; i++) { g_ctx[i] = Ctx(); g_ctx[i].id = (u32)i; g_ctx[i].yield_pct = sc.kind == "worlds" ? (u32)sc.get("yield") : 0; register_ctx(&g_ctx[i]); const EngineInfo * e = find_engine(sc.worlds[i].engine); if (!e) { fprintf(stderr, "engine %s is not in this binary\n", sc.worlds[i].engine.c_str()); _exit(9); } g_eng[i] = e->make(); }
  if (sc.kind == "worlds") { for (size_t i = 0; i < n; i++) sched.spawn(world_main, (void *)i, &g_ctx[i]); sched.run(sc.get("sched")); sched.clear(); }
  else world_main((void *)0);
  for (size_t i = 0; i < n; i++) { if (g_ctx[i].viol && !g_viol) { g_viol = g_ctx[i].viol; g_msg = g_ctx[i].msg; } if (!g_ctx[i].viol) delete g_eng[i]; for (int k = 0; k < F__N; k++) stats.faults += g_ctx[i].fired_total[k]; }
  cur = &g_ctx[0];
}
} // namespace sim
using namespace sim;

// ---- fatal events --------------------------------------------------------------------------
static u64 g_seed_now; static bool g_replay; static std::string g_prop;
static void report(int cls, const char * msg) {
  // one line: class, hash, message
  char b[1400]; int n = snprintf(b, sizeof b, "\nVIOL %s %llu %016llx %s\n", kVName[cls], (unsigned long long)g_seed_now, (unsigned long long)g_hash, msg); ssize_t x = write(1, b, n); (void)x;
}
static void on_segv(int sig, siginfo_t * si, void *) {
  const void * a = si->si_addr; char b[256]; int cls = V_CRASH;
  if (sig == SIGSEGV || sig == SIGBUS) {
    if (g_readers && in_protected(a)) { cls = V_CONSTWRITE; snprintf(b, sizeof b, "a const operation writes to the map or its storage"); }
    else if ((u64)a >= 0x200000000000ull && (u64)a < 0x200000000000ull + (1ull << 34)) { cls = V_ALLOC; const Block * k = mem.find(a); if (k) snprintf(b, sizeof b, "access outside a storage block: %s block #%llu of %zu x %u bytes, offset %lld", k->live ? "live" : "returned", (unsigned long long)k->seq, k->n, k->elem, (long long)((const char *)a - k->user)); else snprintf(b, sizeof b, "access outside every storage block"); }
    else snprintf(b, sizeof b, "invalid memory access (signal %d)", sig);
    if (cls == V_ALLOC && !((g_accept >> cls) & 1)) { cls = V_CRASH; }
    if (cls == V_CONSTWRITE && !((g_accept >> cls) & 1)) { cls = V_CRASH; }
  } else if (sig == SIGABRT) { cls = V_ABORT; snprintf(b, sizeof b, "the process was aborted"); }
  else if (sig == SIGPROF) { cls = V_HANG; snprintf(b, sizeof b, "an operation does not terminate"); }
  else snprintf(b, sizeof b, "signal %d", sig);
  report(cls, b); _exit(3);
}
extern "C" void __assert_fail(const char * e, const char * file, unsigned line, const char *) {
  const char * f = strstr(file, "src/jstd"); char b[700]; snprintf(b, sizeof b, "assertion '%s' fails (%s:%u)", e, f ? f : file, line); report(V_ABORT, b); _exit(3);
}
void sim::block_overrun() { g_block_limit = ~0ull; report(V_HANG, "an operation does not terminate (500000000 basic blocks executed)"); _exit(3); }
static void on_terminate() { report(V_ABORT, "std::terminate was called (an exception could not be delivered)"); _exit(3); }
static void timer(int sec) { itimerval t{}; t.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &t, nullptr); }
static std::string js(const std::string & s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else o += c; } return o + "\""; }
int real_clock_gettime(clockid_t, timespec *);
static double wall() { timespec t; real_clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int main(int argc, char ** argv) {
  { int p = personality(0xffffffff); if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) { if (personality(p | ADDR_NO_RANDOMIZE) != -1) { setenv("SIM_REEXEC", "1", 1); execv("/proc/self/exe", argv); } } }
  stack_t ss{}; ss.ss_size = 64 * 1024; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGPROF, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  std::set_terminate(on_terminate);
  std::string cmd = argc > 1 ? argv[1] : ""; g_alloctrace = getenv("SIM_ALLOCTRACE") != nullptr;
  if (cmd == "engines") { for (auto & e : engines()) printf("%s\n", e.name.c_str()); return 0; }
  if (cmd == "gen") { Scenario s = generate(argv[2], strtoull(argv[3], 0, 10)); fputs(s.save().c_str(), stdout); return 0; }
  if (cmd == "replay") {   // replay FILE [hang seconds]
    std::ifstream f(argv[2]); std::stringstream b; b << f.rdbuf(); Scenario s; if (!s.load(b.str())) { fprintf(stderr, "bad replay file\n"); return 9; }
    g_seed_now = s.seed; g_replay = true; timer(argc > 3 ? atoi(argv[3]) : 20); run_scenario(s);
    if (g_viol) { report(g_viol, g_msg.c_str()); return 1; }
    printf("OK %016llx\n", (unsigned long long)g_hash); return 0;
  }
  if (cmd == "hash") {     // hash PROP from count: event-log hash of each seed
    u64 a = strtoull(argv[3], 0, 10), n = strtoull(argv[4], 0, 10); for (u64 i = a; i < a + n; i++) { g_seed_now = i; Scenario s = generate(argv[2], i); timer(20); run_scenario(s); printf("%llu %016llx %d\n", (unsigned long long)i, (unsigned long long)g_hash, g_viol); }
    return 0;
  }
  if (cmd == "run") {      // run PROP from stride max_runs seconds hangsec outfile
    g_prop = argv[2]; u64 from = strtoull(argv[3], 0, 10), stride = strtoull(argv[4], 0, 10), maxr = strtoull(argv[5], 0, 10); double secs = atof(argv[6]); int hang = atoi(argv[7]); const char * out = argv[8];
    std::vector<u64> hashes, sigs; u64 runs = 0, nontriv = 0, events = 0, switches = 0; long double simns = 0; u64 fk[F__N] = {}; double t0 = wall(); std::map<std::string, u64> eng; std::unordered_set<u64> sigset; u64 twice = 0; int rc = 0; u64 seed = from; u64 ignored0 = 0; double slow = 0; u64 slow_seed = 0;
    for (; runs < maxr; seed += stride) {
      if ((runs & 3) == 0 && wall() - t0 > secs) break;
      g_seed_now = seed; Scenario s = generate(g_prop, seed); timer(hang); u64 ops0 = stats.ops, reh0 = stats.rehashes;
      { double r0 = wall(); run_scenario(s); double r1 = wall() - r0; if (r1 > slow) { slow = r1; slow_seed = seed; } } runs++; if (hashes.size() < 400000) hashes.push_back(g_hash); switches += sched.switches; (void)ops0;
      for (auto & w : s.worlds) eng[w.engine]++;
      for (size_t i = 0; i < 16 && i < (s.worlds.size() ? s.worlds.size() : 1); i++) for (int k = 0; k < F__N; k++) fk[k] += g_ctx[i].fired_total[k];
      if (s.kind == "rng" || s.kind == "clock" || s.kind == "time") { nontriv++; simns += stats.probes[15]; stats.probes[15] = 0; } else if (stats.rehashes != reh0) nontriv++;
      for (u64 g : g_sigs) if ((g & 15) == 0) sigset.insert(g);
      if (g_viol) { report(g_viol, g_msg.c_str()); rc = 1; break; }
      if ((runs & 31) == 1) { u64 h = g_hash; run_scenario(s); twice++; if (g_hash != h) { printf("\nNONDET %llu\n", (unsigned long long)seed); rc = 4; break; } }
    }
    timer(0); (void)ignored0; (void)events;
    FILE * f = fopen(out, "w"); if (f) {
      fprintf(f, "{\"runs\":%llu,\"nontrivial\":%llu,\"ops\":%llu,\"next_seed\":%llu,\"wall\":%.3f,\"rehashes\":%llu,\"full_checks\":%llu,\"exceptions\":%llu,\"switches\":%llu,\"twice\":%llu,\"sim_ns\":%.0Lf,\"ignored\":%llu,\"states16\":%llu,\"slowest\":%.3f,\"slowest_seed\":%llu,", (unsigned long long)runs, (unsigned long long)nontriv, (unsigned long long)stats.ops, (unsigned long long)seed, wall() - t0, (unsigned long long)stats.rehashes, (unsigned long long)stats.full_checks, (unsigned long long)stats.exceptions, (unsigned long long)switches, (unsigned long long)twice, simns, (unsigned long long)g_ignored, (unsigned long long)sigset.size(), slow, (unsigned long long)slow_seed);
      fprintf(f, "\"cost\":["); for (int k = 0; k < Cost::N; k++) fprintf(f, "%s%llu", k ? "," : "", (unsigned long long)g_cost[k]); fprintf(f, "],"); fprintf(f, "\"faults\":{"); for (int k = 0; k < F__N; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", kFName[k], (unsigned long long)fk[k]);
      fprintf(f, "},\"probes\":{"); for (int k = 0; k < P__N; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", kProbeName[k], (unsigned long long)stats.probes[k]);
      fprintf(f, "},\"opk\":{"); for (int k = 0; k < O__N; k++) fprintf(f, "%s\"%s\":%llu", k ? "," : "", kOpName[k], (unsigned long long)stats.opk[k]);
      fprintf(f, "},\"engines\":{"); bool first = true; for (auto & e : eng) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(e.first).c_str(), (unsigned long long)e.second); first = false; }
      fprintf(f, "},\"hashes\":["); for (size_t i = 0; i < hashes.size(); i++) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)(hashes[i] >> 11)); fprintf(f, "],\"sigs\":["); first = true; for (u64 g : sigset) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(g >> 11)); first = false; } fprintf(f, "]}\n"); fclose(f);
    }
    return rc;
  }
  fprintf(stderr, "usage: sim run|replay|gen|hash|engines ...\n"); return 9;
}
