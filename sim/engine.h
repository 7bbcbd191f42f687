// The map engine: executes an operation trace against one map type and a
// reference model, in one world (client task).
#pragma once
#include <cmath>
#include "types.h"
#include "scenario.h"
#include <memory>
#include <tuple>
#include <initializer_list>

namespace sim {

template <class C>
struct Engine : IEngine {
  typedef typename C::Map M; typedef typename C::K K; typedef typename C::V V;
  typedef KeyAcc<K> KA; typedef ValAcc<V> VA;
  typedef typename M::iterator It; typedef typename M::const_iterator CIt;
  typedef std::pair<const K, V> Pair; typedef std::pair<K, V> MPair;
  static const bool kCopy = C::copyval;
  static const bool kSim = C::simfunc;
  enum { NS = 6 };

  struct Model {
    std::vector<u8> in; std::vector<u64> val; std::vector<u32> tag; std::vector<const void *> addr; std::vector<u64> aep; u32 n = 0;
    void init(u32 U) { in.assign(U, 0); val.assign(U, 0); tag.assign(U, 0); addr.assign(U, nullptr); aep.assign(U, 0); n = 0; }
    void put(u32 id, u64 v, u32 t) { if (!in[id]) { in[id] = 1; n++; tag[id] = t; addr[id] = nullptr; } val[id] = v; }
    void del(u32 id) { if (in[id]) { in[id] = 0; n--; addr[id] = nullptr; } }
    void clear() { std::fill(in.begin(), in.end(), 0); std::fill(addr.begin(), addr.end(), nullptr); n = 0; }
  };
  struct Slot { M * m = nullptr; Model md; u32 arena = 0; HashState hs; u32 eqtok = 0; u64 epoch = 0; u64 peak = 0; bool badhash = false; };
  Slot sl[NS]; u32 U = 64; Ctx * cx = nullptr; const Scenario * sc = nullptr; int wid = 0; u64 opno = 0; u64 subno = 0; u32 check_every = 8; Rng rnd;
  u32 narena = 1; M * sentinel = nullptr; int cls = V_ANSWER; const Op * curop = nullptr; u64 epoch_ctr = 1; bool goodhash = true; u32 nslots = 4; bool track_addr = true;
  u32 churn_bound = 16, big_mask = 4095; u64 last_cost = 0, upd_cost = 0, upd_calls = 0;

  const char * name() const override { return C::name(); }
  bool is_group() const override { return C::group; }
  void * home(int i) { return map_page(wid * 8 + i); }
  bool bad() const { return cx->viol != 0; }

  // ---------------------------------------------------------------- set-up
  HashState slot_hash(int i) { HashState h; h.mode = (u32)sc->get(i & 1 ? "hmode1" : "hmode0"); h.salt = sc->get(i & 1 ? "hsalt1" : "hsalt0"); h.token = 100 + i; return h; }
  static bool hgood(u32 mode) { return mode == H_GOOD || mode == H_IDENT || mode == H_DESC; }
  void setup(const Scenario & s, int world, Ctx * c) override {
    sc = &s; wid = world; cx = c; U = (u32)s.get("U", 64); if (U > KA::max_id()) U = KA::max_id();
    check_every = (u32)s.get("check_every", 8); narena = (u32)s.get("narena", 1); nslots = (u32)s.get("nslots", 4); track_addr = kSim && s.get("track_addr", 1);
    churn_bound = (u32)s.get("churn_bound", 16); big_mask = s.get("big") ? 0xFFFFF : 4095;
    goodhash = !kSim || (hgood((u32)s.get("hmode0")) && hgood((u32)s.get("hmode1")));
    rnd = Rng(mix64(s.get("rseed") + world)); opno = 0; epoch_ctr = 1;
    for (u32 i = 0; i < nslots; i++) { sl[i].md.init(U); sl[i].m = nullptr; }
    sentinel = new (home(7)) M();
    for (u32 i = 0; i < nslots; i++) create(i, i == 0 ? 2 : (int)s.get("ctor_var", 2), 0);
  }
  typename C::Alloc alloc_of(u32 arena) { if constexpr (kSim) return typename C::Alloc(arena); else return typename C::Alloc(); }
  typename C::Hash mk_hash(const HashState & h) { typename C::Hash x; if constexpr (kSim) x.st = h; return x; }
  typename C::Eq mk_eq(u32 t) { typename C::Eq x; if constexpr (kSim) x.token = t; return x; }

  // Runs f inside the library with the op's faults armed.
  enum Outcome { OK = 0, OALLOC, OHASH, OELEM, OLENGTH };
  u32 arm_mask = 0; u64 arm_n = 0; bool arm_sticky = false;
  template <class F> Outcome call(F f) {
    cx->armed = arm_mask; cx->countdown = arm_n; cx->sticky = arm_sticky; cx->steps = 0; cx->fired = false;
    Outcome o = OK; int caught = 0;
    cx->in_op = true; u64 b0 = g_blocks; g_block_limit = b0 + 500000000ull;
    try { f(); }
    catch (SimBadAlloc & e) { o = OALLOC; if (e.organic) stats.probes[P_ORGANIC_OOM]++; }
    catch (SimFault & e) { o = (e.kind == F_HASH || e.kind == F_EQ) ? OHASH : OELEM; }
    catch (std::length_error &) { o = OLENGTH; }
    catch (std::bad_alloc &) { o = OALLOC; caught = 1; }
    catch (std::out_of_range &) { caught = 2; }
    catch (std::exception &) { caught = 3; }
    catch (...) { caught = 4; }
    cx->in_op = false; cx->armed = 0; last_cost = g_blocks - b0; upd_cost += last_cost; upd_calls++; g_block_limit = ~0ull;
    if (caught >= 2) violate(V_EXCEPT, "unexpected exception (%s) from op %s", caught == 2 ? "out_of_range" : caught == 3 ? "std::exception" : "unknown", kOpName[curop->kind]);
    if (o == OK && cx->fired) { violate(V_EXCEPT, "an injected %s failure did not reach the caller (op %s)", kFName[cx->fired_kind], kOpName[curop->kind]); }
    if (o != OK) { stats.exceptions++; arm_mask = 0; if (cx->allocs) stats.probes[P_GROWTH_FAULT]++; }
    if (o == OALLOC && !cx->fired && !cx->organic_oom && curop->kind != O_HUGE) violate(V_EXCEPT, "unexpected bad_alloc from op %s", kOpName[curop->kind]);
    if (o == OLENGTH && curop->kind != O_HUGE) violate(V_EXCEPT, "unexpected length_error from op %s", kOpName[curop->kind]);
    if (o == OALLOC && cx->organic_oom && !cx->fired && goodhash && curop->kind != O_HUGE && !sc->get("allow_oom")) violate(V_STEPS, "storage grew beyond the simulated memory in op %s", kOpName[curop->kind]);
    ev(0x0C0 + o);
    return o;
  }
  void begin_call() { for (u32 i = 0; i < F__N; i++) cx->points[i] = 0; cx->allocs = cx->frees = 0; cx->organic_oom = false; for (int i = 0; i < 4; i++) { cx->watch[i] = nullptr; cx->wmoves[i] = cx->wcopies[i] = 0; } }

  void destroy(int i) {
    Slot & s = sl[i]; if (!s.m) return;
    begin_call();
    cx->in_op = true; s.m->~M(); cx->in_op = false; s.m = nullptr; s.md.clear(); s.epoch = ++epoch_ctr; s.peak = 0;
  }
  u32 pick_arena(u32 r) { return r % narena; }
  // (Re)creates an empty map in slot i.  Returns the outcome; on failure the slot is left without map, then default-constructed.
  Outcome create(int i, int var, u32 cap) {
    Slot & s = sl[i]; destroy(i);
    HashState h = slot_hash(i); u32 eqt = 200 + i; u32 ar = pick_arena((u32)i + (u32)opno);
    Outcome o = OK;
    if (!kSim && var >= 2) var = cap ? 1 : 0;
    begin_call();
    u64 ob = mem.outstanding_of(cx->id);
    switch (var) {
      case 0: h = HashState(); eqt = 0; ar = 0; o = call([&] { s.m = new (home(i)) M(); }); break;
      case 1: h = HashState(); eqt = 0; ar = 0; o = call([&] { s.m = new (home(i)) M((size_t)cap); }); break;
      case 4: h = HashState(); eqt = 0; { auto al = alloc_of(ar); o = call([&] { if constexpr (requires { M((size_t)cap, al); }) s.m = new (home(i)) M((size_t)cap, al); else s.m = new (home(i)) M(al); }); } break;
      case 5: if constexpr (requires { M((size_t)cap, mk_hash(h), alloc_of(ar)); }) { eqt = 0; auto al = alloc_of(ar); auto hh = mk_hash(h); o = call([&] { s.m = new (home(i)) M((size_t)cap, hh, al); }); break; } [[fallthrough]];
      case 2: default: { auto al = alloc_of(ar); auto hh = mk_hash(h); auto ee = mk_eq(eqt); o = call([&] { s.m = new (home(i)) M((size_t)cap, hh, ee, al); }); break; }
      case 3: h = HashState(); eqt = 0; { auto al = alloc_of(ar); o = call([&] { s.m = new (home(i)) M(al); }); } break;
    }
    if (o != OK) {
      s.m = nullptr;
      if (mem.outstanding_of(cx->id) != ob) violate(V_LEAK, "a failed construction left %d storage blocks", int(mem.outstanding_of(cx->id) - ob));
      begin_call(); auto al = alloc_of(ar); auto hh = mk_hash(h); auto ee = mk_eq(eqt); if (var <= 1) { s.m = new (home(i)) M(); } else s.m = new (home(i)) M((size_t)0, hh, ee, al);
    }
    s.hs = h; s.eqtok = eqt; s.arena = ar; s.md.clear(); s.epoch = ++epoch_ctr; s.peak = cap;
    return o;
  }
  // ---------------------------------------------------------------- checks
  template <class MM, class F> bool walk(MM & m, u64 limit, F f) {
    u64 n = 0; auto e = m.end();
    for (auto it = m.begin(); it != e; ++it) { if (n++ > limit) return false; if (!f(it)) return true; if (bad()) return true; }
    return true;
  }
  bool check_elem(Slot & s, int si, u32 id, u64 v, u32 tag, const char * where) {
    if (id >= U || !s.md.in[id]) { violate(cls == V_ANSWER ? V_ITER : cls, "%s: element with key id %u is not in the map (slot %d, model size %u)", where, id, si, s.md.n); return false; }
    if (s.md.val[id] != v) { violate(cls, "%s: key id %u has value %llu, expected %llu (slot %d)", where, id, (unsigned long long)v, (unsigned long long)s.md.val[id], si); return false; }
    if (KA::tagged && s.md.tag[id] != tag) { violate(cls, "%s: key object of id %u was replaced by an equal one (slot %d)", where, id, si); return false; }
    return true;
  }
  void full_check(int si) {
    Slot & s = sl[si]; if (!s.m || bad()) return;
    stats.full_checks++;
    M & m = *s.m; const M & cm = m;
    if (m.size() != s.md.n) { violate(cls, "size() is %llu, expected %u (slot %d)", (unsigned long long)m.size(), s.md.n, si); return; }
    if (m.empty() != (s.md.n == 0)) { violate(cls, "empty() is wrong (slot %d)", si); return; }
    if ((m.begin() == m.end()) != (s.md.n == 0)) { violate(V_ITER, "begin()==end() is %d with %u elements (slot %d)", int(m.begin() == m.end()), s.md.n, si); return; }
    if (s.md.n == 0) stats.probes[P_EMPTY_ITER]++;
    { u64 bc = m.bucket_count(); if (bc <= 16 && s.md.n) stats.probes[P_SMALL_TABLE]++; if (bc >= 4096) stats.probes[P_LARGE_TABLE]++; if (s.md.n && s.md.n * 8 >= bc * 7) stats.probes[P_FULLSMALL]++; if (kSim && s.hs.mode != H_GOOD && s.md.n > 15) stats.probes[P_COLLIDE]++; }
    { u64 bc = m.bucket_count(); double lf = bc ? double(s.md.n) / double(bc) : 0.0; if (std::fabs(double(m.load_factor()) - lf) > 1e-5 * (lf + 0.01)) { violate(V_CAPACITY, "load_factor() is %g with %u elements in %llu buckets (slot %d)", double(m.load_factor()), s.md.n, (unsigned long long)bc, si); return; } }
    if (m.bucket_count() < s.md.n) { violate(V_CAPACITY, "bucket_count() %llu below size() %u", (unsigned long long)m.bucket_count(), s.md.n); return; }
    seen.assign(U, 0); u64 cnt = 0, sig = mix64(m.bucket_count());
    bool fin = walk(m, s.md.n, [&](It & it) {
      u32 id = KA::id(it->first); u64 v = VA::get(it->second); cnt++;
      if (bad()) return false;
      if (!check_elem(s, si, id, v, KA::tag(it->first), "traversal")) return false;
      if (seen[id]) { violate(V_ITER, "traversal visits key id %u twice (slot %d)", id, si); return false; }
      seen[id] = 1; sig = mix64(sig ^ id);
      const void * a = &*it;
      if (track_addr) {
        if (s.md.addr[id] && s.md.aep[id] == s.epoch && s.md.addr[id] != a) { violate(V_STABLE, "element with key id %u moved although the map had no reason to move it (slot %d, after op %s)", id, si, curop ? kOpName[curop->kind] : "?"); if (bad()) return false; }
        s.md.addr[id] = a; s.md.aep[id] = s.epoch;
      }
      return true;
    });
    if (bad()) return;
    if (!fin || cnt != s.md.n) { violate(V_ITER, "traversal made %llu steps, size() is %u (slot %d)", (unsigned long long)cnt, s.md.n, si); return; }
    g_sigs.push_back(sig); ev(sig);
    u32 step = U > 256 ? 1 + U / 256 : 1; u32 off = step > 1 ? (u32)rnd.below(step) : 0;
    for (u32 id = 0; id < U; id++) {
      if (!(s.md.in[id] && U <= 1024) && step > 1 && id % step != off) continue;
      check_lookup(si, id, (opno + id) & 3); if (bad()) return;
    }
    if ((opno & 3) == 1 && s.md.n <= 1500) {      // positions of the elements, as bucket() gives them
      std::vector<u64> bk; u64 bc = m.bucket_count(); for (u32 id = 0; id < U && !bad(); id++) {
        if (!s.md.in[id] && id % 7) continue;
        K k = KA::make(id, 7); u64 b = cm.bucket(k); if (s.md.in[id]) bk.push_back(b);
        if (s.md.in[id] ? C::group && b >= bc : b < bc) { violate(V_ITER, "bucket(key id %u) of %s key is %llu of %llu (slot %d)", id, s.md.in[id] ? "a present" : "an absent", (unsigned long long)b, (unsigned long long)bc, si); return; } }
      std::sort(bk.begin(), bk.end()); for (size_t i = 1; i < bk.size(); i++) if (bk[i] == bk[i - 1]) { violate(V_ITER, "bucket() gives %llu for two present keys (slot %d)", (unsigned long long)bk[i], si); return; }
    }
    if ((opno & 3) == 0) {
      u64 c2 = 0; bool f2 = walk(cm, s.md.n, [&](CIt & it) { c2++; u32 id = KA::id(it->first); if (id >= U || seen[id] != 1) { violate(V_ITER, "const traversal differs from traversal"); return false; } seen[id] = 2; return true; });
      if (!bad() && (!f2 || c2 != s.md.n)) violate(V_ITER, "const traversal made %llu steps, size() is %u", (unsigned long long)c2, s.md.n);
      c2 = 0; for (auto it = m.cbegin(); it != m.cend() && c2 <= s.md.n; it++) c2++;
      if (!bad() && c2 != s.md.n) violate(V_ITER, "cbegin()..cend() makes %llu steps, size() is %u", (unsigned long long)c2, s.md.n);
    }
  }
  std::vector<u8> seen;
  void check_lookup(int si, u32 id, u32 var) {
    Slot & s = sl[si]; M & m = *s.m; const M & cm = m; bool in = s.md.in[id];
    K k = KA::make(id, 7);
    switch (var & 3) {
      case 0: { auto it = m.find(k); if ((it != m.end()) != in) { violate(cls, "find(key id %u) %s, slot %d", id, in ? "misses a present key" : "finds an absent key", si); return; } if (in) check_found(s, si, id, it, "find"); break; }
      case 1: { auto it = cm.find(k); if ((it != cm.end()) != in) { violate(cls, "const find(key id %u) %s, slot %d", id, in ? "misses a present key" : "finds an absent key", si); return; } if (in) check_found(s, si, id, it, "const find"); break; }
      case 2: { size_t c = m.count(k); if (c != (in ? 1u : 0u)) violate(cls, "count(key id %u) is %zu, slot %d", id, c, si); if (cm.contains(k) != in) violate(cls, "contains(key id %u) is wrong, slot %d", id, si); break; }
      default: {
        bool thrown = false; const V * p = nullptr; cx->in_op = false;
        try { p = (var & 4) ? &m.at(k) : &cm.at(k); } catch (std::out_of_range &) { thrown = true; }
        if (thrown == in) { violate(cls, "at(key id %u) %s, slot %d", id, in ? "throws for a present key" : "does not throw for an absent key", si); return; }
        if (in && VA::get(*p) != s.md.val[id]) violate(cls, "at(key id %u) gives a wrong value, slot %d", id, si);
        if constexpr (requires { m.equal_range(k); }) {
          auto r = m.equal_range(k); auto rc = cm.equal_range(k); u64 n = 0; for (auto i = r.first; i != r.second && n < 3; ++i) n++; u64 nc = 0; for (auto i = rc.first; i != rc.second && nc < 3; ++i) nc++;
          if (n != (in ? 1u : 0u) || nc != n) violate(cls, "equal_range(key id %u) has %llu elements", id, (unsigned long long)n);
          else if (in && KA::id(r.first->first) != id) violate(cls, "equal_range(key id %u) denotes another element", id);
        }
      }
    }
  }
  template <class I> void check_found(Slot & s, int si, u32 id, I it, const char * w) {
    u32 got = KA::id(it->first); if (bad()) return;
    if (got != id) { violate(cls, "%s(key id %u) denotes the element of key id %u", w, id, got); return; }
    check_elem(s, si, id, VA::get(it->second), KA::tag(it->first), w);
  }
  void counts() {
    if (bad()) return;
    i64 n = 0; for (u32 i = 0; i < nslots; i++) if (sl[i].m) n += sl[i].md.n;
    if (KA::tracked && cx->live_keys != n) violate(V_OBJECT, "%lld key objects exist for %lld elements (after op %s)", (long long)cx->live_keys, (long long)n, curop ? kOpName[curop->kind] : "?");
    if (VA::tracked && cx->live_vals != n) violate(V_OBJECT, "%lld value objects exist for %lld elements (after op %s)", (long long)cx->live_vals, (long long)n, curop ? kOpName[curop->kind] : "?");
  }
  void all_checks() { for (u32 i = 0; i < nslots && !bad(); i++) full_check(i); sentinel_check(); if (!bad()) mem.verify(); counts(); }
  void sentinel_check() {
    if (bad()) return; M & m = *sentinel;
    K k = KA::make(0, 1); K k2 = KA::make(U / 2, 1);
    if (m.size() != 0 || !m.empty() || m.begin() != m.end() || m.find(k) != m.end() || m.contains(k2)) violate(V_OTHERMAP, "an untouched empty map is no longer empty");
  }
  void quick_check(int si, u32 id) {
    Slot & s = sl[si]; if (!s.m || bad()) return;
    if (s.m->size() != s.md.n || s.m->empty() != (s.md.n == 0)) { violate(cls, "size() is %llu, expected %u after op %s (slot %d)", (unsigned long long)s.m->size(), s.md.n, kOpName[curop->kind], si); return; }
    check_lookup(si, id % U, (u32)opno); if (!bad()) check_lookup(si, (u32)rnd.below(U), (u32)(opno >> 2));
  }
  void moved(Slot & s) { s.epoch = ++epoch_ctr; }
  // After a failed call that must have had no effect.
  void strong(u64 out_before) {
    if (bad()) return; int keep = cls; cls = V_FAULT;
    for (u32 i = 0; i < nslots && !bad(); i++) full_check(i);
    sentinel_check();
    if (!bad() && mem.outstanding_of(cx->id) != out_before) violate(V_LEAK, "a failed %s changed the number of storage blocks from %llu to %llu", kOpName[curop->kind], (unsigned long long)out_before, (unsigned long long)mem.outstanding_of(cx->id));
    counts(); cls = keep;
  }
  // After a failed call with the weak guarantee: adopt what is there, if it is plausible.
  struct Extra { u32 id; u64 v; u32 tag; };
  void weak(int si, const std::vector<Extra> & extra, bool any_value = false) {
    if (bad()) return; stats.probes[P_WEAK]++; int keep = cls; cls = V_FAULT;
    Slot & s = sl[si]; M & m = *s.m; moved(s);
    Model nm; nm.init(U); u64 limit = (u64)s.md.n + extra.size();
    bool fin = walk(m, limit, [&](It & it) {
      u32 id = KA::id(it->first); u64 v = VA::get(it->second); u32 t = KA::tag(it->first); if (bad()) return false;
      if (any_value && (id == kMovedId || v == kMovedVal)) { nm.n++; return true; }
      if (id >= U) { violate(V_FAULT, "after a failed %s the map reports a key that never was there (id %u)", kOpName[curop->kind], id); return false; }
      bool ok = s.md.in[id] && s.md.val[id] == v && (!KA::tagged || s.md.tag[id] == t);
      for (const Extra & e : extra) if (e.id == id && e.v == v) ok = true;
      if (!ok) { violate(V_FAULT, "after a failed %s the map reports key id %u with value %llu, which was never there", kOpName[curop->kind], id, (unsigned long long)v); return false; }
      if (nm.in[id]) { violate(V_FAULT, "after a failed %s traversal visits key id %u twice", kOpName[curop->kind], id); return false; }
      nm.put(id, v, t); return true;
    });
    if (!bad() && (!fin || nm.n != m.size())) violate(V_FAULT, "after a failed %s traversal makes %u steps but size() is %llu", kOpName[curop->kind], nm.n, (unsigned long long)m.size());
    if (!bad() && !any_value) { s.md = nm; full_check(si); }
    if (!bad() && any_value) { m.clear(); s.md.clear(); }
    for (u32 i = 0; i < nslots && !bad(); i++) if ((int)i != si) full_check(i);
    if (!any_value) counts(); cls = keep;
  }
  // ---------------------------------------------------------------- key choice
  u32 pick(const Slot & s, const Op & op) {
    u32 id = op.a % U; u32 mode = op.c & 3;
    if (mode == 1 && s.md.n) { for (u32 k = 0; k < U; k++, id = id + 1 == U ? 0 : id + 1) if (s.md.in[id]) return id; }
    if (mode == 2 && s.md.n < U) { for (u32 k = 0; k < U; k++, id = id + 1 == U ? 0 : id + 1) if (!s.md.in[id]) return id; }
    return id;
  }
  u64 newval() { return VA::norm((opno << 12) + (++subno & 0xFFF) + 0x1000); }
  u32 newtag() { return (u32)(opno * 64 + (subno & 63) + 1); }

  // ---------------------------------------------------------------- insertion
  enum { IV_COUNT = 33 };
  // Everything a single insertion-like call can do wrong is checked here.
  Outcome do_insert(int si, u32 var, u32 id, bool retry_ok = true) {
    Slot & s = sl[si]; M & m = *s.m; bool present = s.md.in[id]; u64 v = newval(); u32 tag = newtag();
    u64 ob = mem.outstanding_of(cx->id); u64 bc0 = m.bucket_count();
    bool assign = false, dflt = false; It it = m.end(); bool ins = false, have_ins = true; Outcome o = OK;
    u32 km = 9, vm = 9, kc = 9, vc = 9; int kexp = -1, vexp = -1;      // observed / expected moves
    begin_call(); u32 saved_mask = arm_mask;
    var %= IV_COUNT; 
    if (!kCopy && (var == 1 || var == 2 || var == 5 || var == 7 || var == 8 || var == 18 || var == 22)) var = 12;
    {
      K k = KA::make(id, tag); V val = VA::make(v);
      auto watch = [&](const void * a, const void * b) { cx->watch[0] = a; cx->watch[1] = b; };
      auto grab = [&] { km = cx->wmoves[0]; vm = cx->wmoves[1]; kc = cx->wcopies[0]; vc = cx->wcopies[1]; };
      auto intact = [&](const K & kk, const V & vv, const char * w) { if (o == OK && !bad() && present) { if (KA::id(kk) != id || VA::get(vv) != v) violate(V_CONSUME, "%s of a present key changed its arguments", w); } };
      auto exact = [&](const char * w, int ke, int ve) { if (o == OK && !bad() && C::nxmove) { if ((KA::tracked && ke >= 0 && (int)km != ke) || (VA::tracked && ve >= 0 && (int)vm != ve)) violate(V_CONSUME, "%s of %s key moved its key argument %u times and its value argument %u times", w, present ? "a present" : "an absent", km, vm); } };
      const int one = present ? 0 : 1;
      switch (var) {
        case 0: { MPair p(std::move(k), std::move(val)); watch(&p.first, &p.second); o = call([&] { auto r = m.insert(std::move(p)); it = r.first; ins = r.second; }); grab(); intact(p.first, p.second, "insert(pair &&)"); exact("insert(pair &&)", one, one); break; }
        case 1: if constexpr (kCopy) { const Pair p(k, val); o = call([&] { auto r = m.insert(p); it = r.first; ins = r.second; }); } break;
        case 2: if constexpr (kCopy) { MPair p(k, val); watch(&p.first, &p.second); o = call([&] { auto r = m.insert(p); it = r.first; ins = r.second; }); grab(); exact("insert(pair &)", 0, 0); if (o == OK && (KA::id(p.first) != id || VA::get(p.second) != v)) violate(V_CONSUME, "insert of an lvalue pair changed it"); } break;
        case 3: { Pair p(std::move(k), std::move(val)); watch(&p.first, &p.second); o = call([&] { auto r = m.insert(std::move(p)); it = r.first; ins = r.second; }); grab(); intact(p.first, p.second, "insert(value_type &&)"); exact("insert(value_type &&)", 0, one); break; }
        case 4: { MPair p(std::move(k), std::move(val)); watch(&p.first, &p.second); o = call([&] { it = m.insert(m.cend(), std::move(p)); }); grab(); have_ins = false; intact(p.first, p.second, "insert(hint, pair &&)"); exact("insert(hint, pair &&)", one, one); break; }
        case 5: if constexpr (kCopy) { const Pair p(k, val); o = call([&] { it = m.insert(m.cbegin(), p); }); have_ins = false; } break;
        case 6: watch(&k, &val); o = call([&] { auto r = m.emplace(std::move(k), std::move(val)); it = r.first; ins = r.second; }); grab(); if (!present) exact("emplace(K &&, V &&)", 1, 1); break;
        case 7: if constexpr (kCopy) { watch(&k, &val); o = call([&] { auto r = m.emplace(k, val); it = r.first; ins = r.second; }); grab(); exact("emplace(const K &, const V &)", 0, 0); } break;
        case 8: if constexpr (kCopy) { o = call([&] { auto r = m.emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(val)); it = r.first; ins = r.second; }); } break;
        case 9: { MPair p(std::move(k), std::move(val)); watch(&p.first, &p.second); o = call([&] { auto r = m.emplace(std::move(p)); it = r.first; ins = r.second; }); grab(); if (!present) exact("emplace(pair &&)", 1, 1); break; }
        case 10: watch(&k, &val); o = call([&] { it = m.emplace_hint(m.cend(), std::move(k), std::move(val)); }); grab(); have_ins = false; if (!present) exact("emplace_hint", 1, 1); break;
        case 11: watch(&k, &val); o = call([&] { auto r = m.try_emplace((const K &)k, std::move(val)); it = r.first; ins = r.second; }); grab(); intact(k, val, "try_emplace(const K &, V &&)"); exact("try_emplace(const K &, V &&)", 0, one); break;
        default: case 12: watch(&k, &val); o = call([&] { auto r = m.try_emplace(std::move(k), std::move(val)); it = r.first; ins = r.second; }); grab(); intact(k, val, "try_emplace(K &&, V &&)"); exact("try_emplace(K &&, V &&)", one, one); break;
        case 13: watch(&k, &val); o = call([&] { it = m.try_emplace(m.cend(), (const K &)k, std::move(val)); }); grab(); have_ins = false; intact(k, val, "try_emplace(hint, const K &)"); exact("try_emplace(hint, const K &)", 0, one); break;
        case 14: watch(&k, &val); o = call([&] { it = m.try_emplace(m.cbegin(), std::move(k), std::move(val)); }); grab(); have_ins = false; intact(k, val, "try_emplace(hint, K &&)"); exact("try_emplace(hint, K &&)", one, one); break;
        case 15: case 16: {
          V * r = nullptr; watch(&k, nullptr);
          o = call([&] { r = var == 15 ? &m[(const K &)k] : &m[std::move(k)]; }); grab(); have_ins = false; exact("operator[]", var == 15 ? 0 : one, -1);
          if (o == OK && !bad()) {
            u64 got = VA::get(*r); u64 want = present ? s.md.val[id] : VA::dflt();
            if (got != want) violate(cls, "operator[](key id %u) refers to value %llu, expected %llu", id, (unsigned long long)got, (unsigned long long)want);
            s.md.put(id, want, tag);
            if (op_writes()) { *r = std::move(val); s.md.val[id] = v; }
            K kk = KA::make(id, 0); it = m.find(kk); dflt = true;
          } else dflt = true;
          break;
        }
        case 17: assign = true; watch(&k, &val); o = call([&] { auto r = m.insert_or_assign((const K &)k, std::move(val)); it = r.first; ins = r.second; }); grab(); exact("insert_or_assign(const K &, V &&)", 0, 1); break;
        case 18: if constexpr (kCopy) { assign = true; watch(&k, &val); o = call([&] { auto r = m.insert_or_assign(std::move(k), val); it = r.first; ins = r.second; }); grab(); exact("insert_or_assign(K &&, const V &)", one, 0); } break;
        case 19: assign = true; watch(&k, &val); o = call([&] { it = m.insert_or_assign(m.cend(), (const K &)k, std::move(val)); }); grab(); have_ins = false; exact("insert_or_assign(hint, const K &)", 0, 1); break;
        case 20: assign = true; watch(&k, &val); o = call([&] { it = m.insert_or_assign(m.cbegin(), std::move(k), std::move(val)); }); grab(); have_ins = false; exact("insert_or_assign(hint, K &&)", one, 1); break;
        case 21: o = call([&] { auto r = m.insert({std::move(k), std::move(val)}); it = r.first; ins = r.second; }); break;
        case 22: if constexpr (kCopy) { o = call([&] { m.insert(std::initializer_list<Pair>{Pair(k, val)}); }); if (o == OK) { it = m.find(k); ins = !present; } } break;
        case 23: dflt = true; o = call([&] { auto r = m.try_emplace((const K &)k); it = r.first; ins = r.second; }); if (o == OK) { if (!present) s.md.put(id, VA::dflt(), tag); } break;
        case 24: dflt = true; o = call([&] { auto r = m.try_emplace(std::move(k)); it = r.first; ins = r.second; }); if (o == OK) { if (!present) s.md.put(id, VA::dflt(), tag); } break;
        // the value is made from an argument of another type
        case 25: { assign = true; auto a = VA::aux(v); watch(&k, nullptr); o = call([&] { auto r = m.insert_or_assign((const K &)k, std::move(a)); it = r.first; ins = r.second; }); grab(); exact("insert_or_assign(const K &, other type)", 0, -1); break; }
        case 26: { assign = true; auto a = VA::aux(v); watch(&k, nullptr); o = call([&] { it = m.insert_or_assign(m.cend(), std::move(k), a); }); grab(); have_ins = false; exact("insert_or_assign(hint, K &&, other type)", one, -1); break; }
        case 27: { auto a = VA::aux(v); watch(&k, nullptr); o = call([&] { auto r = m.try_emplace((const K &)k, std::move(a)); it = r.first; ins = r.second; }); grab(); exact("try_emplace(const K &, other type)", 0, -1); break; }
        case 28: { auto a = VA::aux(v); watch(&k, nullptr); o = call([&] { it = m.try_emplace(m.cbegin(), std::move(k), a); }); grab(); have_ins = false; exact("try_emplace(hint, K &&, other type)", one, -1); break; }
        case 29: { auto a = VA::aux(v); watch(&k, nullptr); o = call([&] { auto r = m.emplace(std::move(k), std::move(a)); it = r.first; ins = r.second; }); grab(); if (!present) exact("emplace(K &&, other type)", 1, -1); break; }
        case 30: { watch(&k, &val); o = call([&] { auto r = m.emplace(std::piecewise_construct, std::forward_as_tuple(std::move(k)), std::forward_as_tuple(std::move(val))); it = r.first; ins = r.second; }); grab(); if (!present) exact("emplace(piecewise, K &&, V &&)", 1, 1); break; }
        case 31: if constexpr (C::group) { std::pair<K, decltype(VA::aux(v))> p(std::move(k), VA::aux(v)); watch(&p.first, nullptr); o = call([&] { auto r = m.insert(std::move(p)); it = r.first; ins = r.second; }); grab(); if (o == OK && !bad() && present && KA::id(p.first) != id) violate(V_CONSUME, "insert(pair of other types &&) of a present key changed its arguments"); exact("insert(pair of other types &&)", one, -1); } else { assign = true; Pair p(std::move(k), std::move(val)); watch(&p.first, &p.second); o = call([&] { auto r = m.insert_always(std::move(p)); it = r.first; ins = r.second; }); grab(); exact("insert_always(pair &&)", -1, 1); } break;
        case 32: if constexpr (kCopy) { Pair p(k, val); if constexpr (!C::group) { assign = true; watch(&p.first, &p.second); o = call([&] { auto r = m.insert_always((const Pair &)p); it = r.first; ins = r.second; }); grab(); exact("insert_always(const pair &)", 0, 0); } else { watch(&p.first, &p.second); o = call([&] { auto r = m.emplace((const Pair &)p); it = r.first; ins = r.second; }); grab(); exact("emplace(const pair &)", 0, 0); } break; } else { assign = true; watch(&k, &val); o = call([&] { auto r = m.insert_or_assign(std::move(k), std::move(val)); it = r.first; ins = r.second; }); grab(); exact("insert_or_assign(K &&, V &&)", one, 1); break; }
      }
    }
    bool grew = cx->allocs > 0; if (grew) { stats.rehashes++; stats.probes[P_GROWTH]++; }
    u64 steps = cx->steps;
    for (int i = 0; i < 4; i++) cx->watch[i] = nullptr;
    if (bad()) return o;
    if (o == OK) {
      if (!dflt) { if (!present || assign) s.md.put(id, v, tag); }
      if (it == m.end()) { violate(cls, "an insertion (variant %u) returns end()", var); return o; }
      check_found(s, si, id, it, "the iterator returned by an insertion");
      if (!bad() && have_ins && ins == present) violate(cls, "insertion (variant %u) of %s key id %u reports %s", var, present ? "present" : "absent", id, ins ? "inserted" : "not inserted");
      if (grew || (!C::group && !present)) moved(s);
      if (m.size() > s.peak) s.peak = m.size();
      if (steps > 64 + 16 * (u64)m.bucket_count() + 16 * bc0 && goodhash) violate(V_STEPS, "one insertion made %llu callbacks", (unsigned long long)steps);
      return o;
    }
    // failed
    if (grew) moved(s);     // storage was replaced before the failure
    bool is_weak = (o == OHASH && grew) || (o == OELEM && (grew || !C::nxmove));
    if (is_weak) weak(si, {Extra{id, v, tag}, Extra{id, VA::dflt(), tag}});
    else { if (assign && o == OELEM && present && !bad()) { K k = KA::make(id, 0); auto f = m.find(k); if (f != m.end() && VA::get(f->second) == v) s.md.val[id] = v; }
      strong(ob); (void)saved_mask;
      if (!bad() && retry_ok && o == OALLOC && !cx->organic_oom) { stats.probes[P_RETRY_OK]++; u32 keep = arm_mask; arm_mask = 0; do_insert(si, var, id, false); arm_mask = keep; return o; } }
    return o;
  }
  bool op_writes() { return (opno + subno) & 1; }

  // ---------------------------------------------------------------- erase by key
  void do_erase(int si, u32 id, u32 var) {
    Slot & s = sl[si]; M & m = *s.m; bool present = s.md.in[id]; size_t n = 99; u64 ob = mem.outstanding_of(cx->id);
    begin_call(); Outcome o;
    { K k = KA::make(id, 5); o = call([&] { n = m.erase(k); }); }
    if (bad()) return;
    if (o == OK) {
      if (n != (present ? 1u : 0u)) { violate(cls, "erase(%s key id %u) returns %zu", present ? "present" : "absent", id, n); return; }
      s.md.del(id); if (!C::group && present) moved(s); if (cx->allocs) moved(s);
      if (cx->steps > 64 + 16 * (u64)m.bucket_count() && goodhash) violate(V_STEPS, "one erase made %llu callbacks", (unsigned long long)cx->steps);
    } else if (o == OELEM || cx->allocs) weak(si, {}); else strong(ob);
  }
  std::vector<u32> order_of(M & m, u32 n) { std::vector<u32> r; walk(m, n, [&](It & it) { r.push_back(KA::id(it->first)); return true; }); return r; }

  // ---------------------------------------------------------------- dispatch
  void exec(const Op & op) override {
    if (bad()) return;
    curop = &op; opno++; subno = 0; stats.ops++; stats.opk[op.kind]++;
    ev(op.kind * 131 + op.m); cls = V_ANSWER;
    int si = op.m % nslots, sj = op.m2 % nslots;
    if (op.fmode == 3) {
      stats.probes[P_SWEEP]++;
      for (u64 k = 1; k <= 400 && !bad(); k++) { arm_mask = op.fk; arm_n = k; arm_sticky = false; cx->fired = false; bool before = false; (void)before; sweep_fired = false; dispatch(op, si, sj); if (!sweep_fired) break; }
    } else { arm_mask = op.fmode ? op.fk : 0; arm_n = op.fn ? op.fn : 1; arm_sticky = op.fmode == 2; dispatch(op, si, sj); }
    arm_mask = 0; cx->sticky = false; cx->armed = 0;
    if (bad()) return;
    quick_check(si, op.a); counts();
    if (!bad() && sc->get("churn_check")) churn_check(si);
    if (!bad() && (op.kind == O_CHECK || opno % check_every == 0)) all_checks();
    ev(sl[si].m ? sl[si].m->size() * 31 + sl[si].m->bucket_count() : 0);
  }
  bool sweep_fired = false;
  void churn_check(int si) {
    Slot & s = sl[si]; if (!s.m) return; u64 bc = s.m->bucket_count(); if (s.m->size() > s.peak) s.peak = s.m->size(); u64 p = s.peak < 16 ? 16 : s.peak;
    u64 bound = churn_bound * p;
    // An identity hash makes runs of keys that lie a capacity apart collide, robin tables grow until such runs separate.
    if (!C::group && (!kSim || s.hs.mode != H_GOOD) && bound < 4ull * U) bound = 4ull * U;
    if (bc > bound) violate(V_STEPS, "%llu buckets for a population that never exceeded %llu", (unsigned long long)bc, (unsigned long long)s.peak);
  }
  static u64 hundredths(u64 a, u64 n) { return n ? a * 100 / n : 0; }
  // The work of lookups, in basic blocks of the map's code (0 where that is not counted).
  void cost_check(int si, u64 salt) {
    Slot & s = sl[si]; if (!s.m || bad() || U < 8) return; const M & cm = *s.m; u64 c[2] = {0, 0}, n[2] = {0, 0};
    if (C::group || (kSim && s.hs.mode == H_GOOD)) {
      for (u32 i = 0; i < 96; i++) {
        u32 id = (u32)(mix64(salt + i) % U); bool in = s.md.in[id]; if (n[in] >= 32) continue;
        K k = KA::make(id, 9); g_block_limit = g_blocks + 500000000ull; u64 b0 = g_blocks; cx->in_op = true; bool f = cm.find(k) != cm.end(); cx->in_op = false; c[in] += g_blocks - b0; n[in]++;
        if (f != in) { violate(V_ANSWER, "find of %s key id %u says %s", in ? "present" : "absent", id, f ? "present" : "absent"); return; }
      }
      g_block_limit = ~0ull;
      for (int in = 0; in < 2; in++) if (n[in] >= 16) {
        u64 h = hundredths(c[in], n[in]); int w = in ? Cost::PRESENT : Cost::ABSENT; if (h > g_cost[w]) g_cost[w] = h;
        if (h > (in ? 15000 : 10000)) { violate(V_STEPS, "finding %s keys takes %llu basic blocks on average (%u elements, %llu buckets)", in ? "present" : "absent", (unsigned long long)(h / 100), s.md.n, (unsigned long long)cm.bucket_count()); return; }
      }
    }
  }
  template <class F> Outcome callx(F f) { Outcome o = call(f); if (cx->fired) sweep_fired = true; return o; }

  void dispatch(const Op & op, int si, int sj) {
    Slot & s = sl[si]; if (!s.m) create(si, 2, 0); if (bad()) return;
    M & m = *s.m; const M & cm = m; (void)cm;
    u32 id = pick(s, op);
    u64 ob = mem.outstanding_of(cx->id);
    begin_call();
    switch (op.kind) {
      case O_INSERT: { Outcome o = do_insert(si, op.var, id); if (o != OK && cx_fired_in(o)) sweep_fired = true; break; }
      case O_FILL: {   // fresh keys until the table has grown (or the fault fired)
        u32 lim = (op.b & big_mask) + 1; u32 cur_id = id; bool hadf = arm_mask != 0; u32 mask = arm_mask; u64 an = arm_n;
        for (u32 i = 0; i < lim && !bad(); i++) {
          u32 k = 0; while (k < U && s.md.in[cur_id]) { cur_id = cur_id + 1 == U ? 0 : cur_id + 1; k++; } if (k == U) break;
          arm_mask = mask; arm_n = an; Outcome o = do_insert(si, op.var == 255 ? (u32)(opno + i) : op.var, cur_id); if (o != OK) { sweep_fired = true; break; }
          if (op.c & 8) { if (stats.rehashes != 0 && cx->allocs) { if (!hadf) break; } }
        }
        break;
      }
      case O_DRAIN: { cls = V_ANSWER; u32 lim = (op.b & big_mask) + 1; u32 c2 = id; for (u32 i = 0; i < lim && s.md.n && !bad(); i++) { while (!s.md.in[c2]) c2 = c2 + 1 == U ? 0 : c2 + 1; do_erase(si, c2, 0); if (!s.m) break; if (op.c & 16) c2 = (c2 + 7919) % U; } break; }
      case O_ERASE: do_erase(si, id, op.var); break;
      case O_ERASE_IT: {
        cls = V_ERASE; if (!s.md.in[id]) { if (!s.md.n) break; while (!s.md.in[id]) id = id + 1 == U ? 0 : id + 1; }
        std::vector<u32> ord = order_of(m, s.md.n); It it = m.end(); { K k = KA::make(id, 5); it = m.find(k); } if (it == m.end()) { violate(V_ANSWER, "find misses present key id %u", id); break; }
        if (ord.back() == id) stats.probes[P_ERASE_LAST]++;
        It r = m.end();
        Outcome o = callx([&] { if (op.var & 1) { CIt ci = it; r = m.erase(ci); } else r = m.erase(it); });
        if (bad()) break;
        if (o == OK) {
          s.md.del(id); if (!C::group) moved(s);
          // the returned iterator designates an element that a traversal has not visited yet
          size_t pos = 0; while (pos < ord.size() && ord[pos] != id) pos++;
          bool last = pos + 1 == ord.size();
          if (r == m.end()) { if (!last) violate(V_ERASE, "erase(iterator) returns end() although %zu elements follow", ord.size() - pos - 1); }
          else { u32 rid = KA::id(r->first); bool ok = false; for (size_t q = pos + 1; q < ord.size(); q++) if (ord[q] == rid) ok = true; if (!ok) violate(V_ERASE, "erase(iterator) returns an element that was already visited or erased (key id %u)", rid); }
        } else if (o == OELEM) weak(si, {}); else strong(ob);
        break;
      }
      case O_ERASE_RANGE: {
        cls = V_ERASE; std::vector<u32> ord = order_of(m, s.md.n); u32 n = (u32)ord.size(); u32 i0 = n ? op.a % (n + 1) : 0, i1 = n ? i0 + op.b % (n + 1 - i0) : 0; if (op.var & 4) { i0 = 0; } if (op.var & 8) i1 = n;
        It b = m.begin(); for (u32 i = 0; i < i0; i++) ++b; It e = b; for (u32 i = i0; i < i1; i++) ++e;
        It r = m.end();
        Outcome o = callx([&] { if (op.var & 1) { CIt cb = b, ce = e; r = m.erase(cb, ce); } else r = m.erase(b, e); });
        if (bad()) break;
        if (o == OK) {
          for (u32 i = i0; i < i1; i++) s.md.del(ord[i]); if (!C::group) moved(s);
          if (r == m.end()) { if (i1 < n) violate(V_ERASE, "erase(first, last) returns end() although %u elements follow", n - i1); }
          else { u32 rid = KA::id(r->first); bool ok = false; for (u32 q = i1; q < n; q++) if (ord[q] == rid) ok = true; if (!ok) violate(V_ERASE, "erase(first, last) returns key id %u, which is not an element of the rest", rid); }
        } else { weak(si, {}); }
        break;
      }
      case O_ERASE_IF: {
        cls = V_ERASE; u64 salt = op.a; u32 pct = op.b % 101; auto sel = [&](u32 x) { return mix64(x ^ salt) % 100 < pct; };
        u64 n = ~0ull; u64 calls = 0; seen.assign(U, 0); u32 dup = 0;
        u32 before = s.md.n, want = 0; for (u32 i = 0; i < U; i++) if (s.md.in[i] && sel(i)) want++;
        struct PredThrows {}; u64 stop = op.var % 4 == 0 && before ? 1 + op.c % before : ~0ull; bool thrown = false;   // the predicate may throw at some call
        Outcome o = callx([&] { try { n = std::erase_if(m, [&](const auto & p) { u32 x = KA::id(p.first); calls++; if (calls == stop) throw PredThrows(); if (x < U) { if (seen[x]) dup++; seen[x] = 1; } return x < U && sel(x); }); } catch (PredThrows &) { thrown = true; } });
        if (bad()) break;
        if (o == OK && stop != ~0ull && !thrown) { violate(V_ERASE, "std::erase_if of %u elements does not hand on the exception of its predicate's call %llu", before, (unsigned long long)stop); break; }
        if (o == OK && thrown) { if (dup) violate(V_ERASE, "std::erase_if examined an element twice"); for (u32 i = 0; i < U; i++) if (s.md.in[i] && seen[i] && sel(i)) s.md.del(i); if (!C::group) moved(s); if (!bad()) full_check(si); break; }
        if (o == OK) {
          for (u32 i = 0; i < U; i++) if (s.md.in[i] && sel(i)) s.md.del(i); if (!C::group) moved(s);
          if (n != want) violate(V_ERASE, "std::erase_if returns %llu, expected %u", (unsigned long long)n, want);
          else if (calls != before || dup) violate(V_ERASE, "std::erase_if examined %llu elements of %u (%u twice)", (unsigned long long)calls, before, dup);
        } else weak(si, {});
        break;
      }
      case O_ERASE_LOOP: {
        cls = V_ERASE; u64 salt = op.a; u32 pct = op.b % 101; auto sel = [&](u32 x) { return mix64(x ^ salt) % 100 < pct; };
        std::vector<u8> vis(U, 0); u64 n = 0; u32 total = s.md.n; bool twice = false; Outcome o = OK; bool bits = op.var & 1;
        for (It it = m.begin(); it != m.end() && n <= total && !bad();) {
          u32 x = KA::id(it->first); if (bad()) break; n++; if (x >= U || !s.md.in[x]) { violate(V_ERASE, "an erase loop reaches key id %u, which is not in the map", x); break; } if (vis[x]) { twice = true; break; } vis[x] = 1;
          if (sel(x)) { o = callx([&] { if (bits) { CIt ci = it; it = m.erase(ci); } else it = m.erase(it); }); if (o != OK) break; s.md.del(x); } else ++it;
        }
        if (bad()) break; if (!C::group) moved(s);
        if (o != OK) { weak(si, {}); break; }
        if (twice || n != total) violate(V_ERASE, "an erase loop examined %llu elements of %u%s", (unsigned long long)n, total, twice ? ", one twice" : "");
        break;
      }
      case O_ERASE_KEYS: {
        if constexpr (C::group || true) {
          cls = V_ERASE; std::vector<u32> ids; for (u32 i = 0; i < op.b % 24; i++) ids.push_back((u32)(mix64(op.a + i) % U));
          size_t n = 0; Outcome o = OK; size_t want = 0; { std::vector<u8> d(U, 0); for (u32 x : ids) if (s.md.in[x] && !d[x]) { d[x] = 1; want++; } }
          { std::vector<K> ks; for (u32 x : ids) ks.push_back(KA::make(x, 3));
            if constexpr (requires { m.erase(ks.begin(), ks.end()); }) { o = callx([&] { n = m.erase(ks.begin(), ks.end()); }); } else { for (auto & k : ks) n += m.erase(k); } }
          if (bad()) break;
          if (o == OK) { for (u32 x : ids) s.md.del(x); if (!C::group) moved(s); if (n != want) violate(V_ERASE, "erase over a range of keys returns %zu, expected %zu", n, want); } else weak(si, {});
        }
        break;
      }
      case O_FIND: {
        u64 st = 0; bool in = s.md.in[id]; Outcome o; { K k = KA::make(id, 7); bool f = false; u32 gid = id; u64 gv = in ? s.md.val[id] : 0;
          o = callx([&] { switch (op.var % 6) { case 0: { auto i = m.find(k); f = i != m.end(); if (f) { gid = KA::id(i->first); gv = VA::get(i->second); } break; } case 1: { auto i = cm.find(k); f = i != cm.end(); if (f) { gid = KA::id(i->first); gv = VA::get(i->second); } break; }
            case 2: f = m.count(k) == 1; break; case 3: f = cm.contains(k); break;
            case 4: try { gv = VA::get(m.at(k)); f = true; } catch (std::out_of_range &) { f = false; } break;
            default: if constexpr (requires { m.bucket(k); }) { if (in && C::group) { size_t b = m.bucket(k); (void)b; } } f = in; } });
          st = cx->steps;
          if (o == OK && !bad()) { if (f != in) violate(cls, "lookup (variant %u) of %s key id %u says %s", op.var % 6, in ? "present" : "absent", id, f ? "present" : "absent"); else if (in && (gid != id || gv != s.md.val[id])) violate(cls, "lookup of key id %u yields another element", id);
            if (cx->allocs || cx->frees) violate(V_CONSTWRITE, "a lookup used the allocator"); if (KA::tracked && cx->points[F_KEY]) violate(V_HETERO, "a lookup created key objects"); } }
        if (bad()) break;
        if (o == OK) { if (st > 64 + 4 * (u64)m.bucket_count()) violate(V_STEPS, "one lookup made %llu callbacks", (unsigned long long)st); } else strong(ob);
        break;
      }
      case O_CLEAR: { Outcome o = callx([&] { m.clear(op.var & 1); }); if (bad()) break; if (o != OK) { strong(ob); break; } s.md.clear(); moved(s); cls = V_CAPACITY; if (KA::tracked || VA::tracked) counts(); if (op.var & 1) s.peak = 0; break; }
      case O_RESERVE: case O_REHASH: case O_RESIZE: case O_SHRINK: case O_MLF: {
        cls = V_CAPACITY; u64 bc0 = m.bucket_count(); u64 n = op.b; float f = 0.05f + (op.b % 100) * 0.0095f; Outcome o = OK; bool ro = false;
        switch (op.kind) {
          case O_RESERVE: o = callx([&] { m.reserve((size_t)n); }); break;
          case O_REHASH: o = callx([&] { m.rehash((size_t)n); }); break;
          case O_RESIZE: if constexpr (requires { m.resize((size_t)n); }) o = callx([&] { m.resize((size_t)n); }); break;
          case O_SHRINK: ro = op.var & 1; o = callx([&] { m.shrink_to_fit(ro); }); break;
          default: o = callx([&] { m.max_load_factor(f); });
        }
        if (bad()) break;
        if (cx->allocs) { moved(s); stats.rehashes++; }
        if (o == OK) {
          if ((op.kind == O_REHASH || op.kind == O_RESERVE) && m.bucket_count() < n) violate(V_CAPACITY, "bucket_count() is %llu after %s(%llu)", (unsigned long long)m.bucket_count(), kOpName[op.kind], (unsigned long long)n);
          if (m.bucket_count() < m.size()) violate(V_CAPACITY, "bucket_count() below size()");
          if (op.kind != O_SHRINK && n > s.peak) s.peak = n; if (op.kind == O_MLF && m.bucket_count() > s.peak) s.peak = m.bucket_count();
        } else if (o == OALLOC || !cx->allocs) strong(ob); else weak(si, {});
        if (!bad()) full_check(si);
        break;
      }
      case O_RESERVE_FILL: {
        cls = V_CAPACITY; u32 n = op.b % U + 1; if (n < s.md.n) n = s.md.n; if (!C::group && !hgood(s.hs.mode)) break;
        // robin tables place colliding keys within a bounded distance only: the promise needs a spreading hash
        Outcome o = callx([&] { m.reserve(n); }); if (bad()) break; moved(s);
        if (n > s.peak) s.peak = n;
        if (o != OK) { if (o == OALLOC || !cx->allocs) strong(ob); else weak(si, {}); break; }
        full_check(si); if (bad()) break;
        u64 bc = m.bucket_count(); bool promise = C::group || (s.hs.mode == H_IDENT && U <= bc); u32 c2 = id, guard = 0;
        while (s.md.n < n && !bad() && guard++ < 2 * U) {
          while (s.md.in[c2]) c2 = c2 + 1 == U ? 0 : c2 + 1;
          begin_call(); arm_mask = 0; u64 ep = s.epoch; do_insert(si, (u32)(op.var + guard), c2); if (bad()) break;
          if (promise && cx->allocs) { violate(V_CAPACITY, "after reserve(%u) the insertion of element %u allocates storage", n, s.md.n); break; }
          if (C::group && s.epoch != ep) violate(V_STABLE, "an insertion within the reserved capacity moved elements");
          if (op.c & 64) { if ((mix64(guard + op.a) & 7) == 0 && s.md.n) { u32 x = (u32)(mix64(op.a + guard * 3) % U); (void)x; } }
        }
        if (!bad() && promise && m.bucket_count() != bc) violate(V_CAPACITY, "bucket_count() changed within the reserved capacity");
        if (!bad()) full_check(si);
        break;
      }
      case O_HUGE: {
        cls = V_CAPACITY; static const size_t hs[] = {~(size_t)0, ~(size_t)0 / 2, (size_t)1 << 62, (size_t)1 << 59, ((size_t)1 << 63) + 5, (size_t)1 << 47, ~(size_t)0 - 15, (size_t)1 << 60};
        size_t h = hs[op.b % 8]; Outcome o = OK; bool made = false;
        if (op.b % 8 == 5 && !kSim) break;
        switch (op.var % 3) {
          case 0: o = callx([&] { m.reserve(h); }); break;
          case 1: o = callx([&] { m.rehash(h); }); break;
          default: { o = callx([&] { alignas(M) char buf[sizeof(M)]; M * x; if constexpr (kSim) x = new (buf) M(h, mk_hash(HashState()), mk_eq(0), alloc_of(0)); else x = new (buf) M(h); made = true; x->~M(); }); }
        }
        if (bad()) break;
        if (o == OK) violate(V_CAPACITY, "a request for %zu buckets did not fail", h); else strong(ob);
        (void)made; break;
      }
      case O_COPY: if constexpr (kCopy) {
        cls = V_COPY; if (si == sj) break; Slot & d = sl[sj]; destroy(sj); u32 want = s.arena; bool wal = op.var & 1; if (!kSim) wal = false; u32 ar = pick_arena(op.a);
        begin_call(); u64 ob2 = mem.outstanding_of(cx->id); Outcome o; M * nm = nullptr;
        if (wal) { auto al = alloc_of(ar); want = ar; o = callx([&] { nm = new (home(sj)) M(cm, al); }); } else { if (C::flags & A_SOCCC) want = s.arena ^ 64; o = callx([&] { nm = new (home(sj)) M(cm); }); }
        if (bad()) break;
        if (o != OK) { d.m = nullptr; strong(ob2); if (!bad()) { arm_mask = 0; create(sj, 2, 0); counts(); } break; }
        d.m = nm; d.md = s.md; d.hs = s.hs; d.eqtok = s.eqtok; d.arena = want; d.peak = s.md.n; moved(d); for (auto & a : d.md.addr) a = nullptr; observe(sj, "a copy"); full_check(sj); full_check(si); stats.rehashes++;
      } break;
      case O_COPY_ASSIGN: if constexpr (kCopy) {
        cls = V_COPY; Slot & d = sl[sj]; if (!d.m) create(sj, 2, 0); begin_call(); ob = mem.outstanding_of(cx->id);
        Outcome o = callx([&] { *d.m = cm; }); if (bad()) break;
        if (o != OK) { strong(ob); break; }
        if (si != sj) { u32 want = (C::flags & A_POCCA) ? s.arena : d.arena; Model keep = s.md; d.md = keep; d.hs = s.hs; d.eqtok = s.eqtok; d.arena = want; moved(d); for (auto & a : d.md.addr) a = nullptr; if (s.md.n > d.peak) d.peak = s.md.n; observe(sj, "a copy-assigned map"); } else { moved(d); for (auto & a : d.md.addr) a = nullptr; }
        full_check(sj); full_check(si);
      } break;
      case O_MOVE: {
        cls = V_TRANSFER; if (si == sj) break; Slot & d = sl[sj]; destroy(sj); bool wal = (op.var & 1) && kSim; u32 ar = (op.var & 2) ? pick_arena(op.a) : s.arena; M * nm = nullptr;
        begin_call(); u64 ob2 = mem.outstanding_of(cx->id); Outcome o;
        if (wal) { auto al = alloc_of(ar); o = callx([&] { nm = new (home(sj)) M(std::move(m), al); }); } else { ar = s.arena; o = callx([&] { nm = new (home(sj)) M(std::move(m)); }); }
        if (bad()) break;
        bool steal = ar == s.arena; if (!steal) stats.probes[P_UNEQUAL_MOVE]++;
        if (o != OK) { d.m = nullptr; if (steal || (o == OALLOC && !cx->allocs)) strong(ob2); else weak(si, {}, true); if (!bad()) { arm_mask = 0; create(sj, 2, 0); counts(); } break; }
        d.m = nm; d.md = s.md; d.hs = s.hs; d.eqtok = s.eqtok; d.arena = ar; d.epoch = s.epoch; d.peak = steal ? s.peak : s.md.n; if (!steal) { moved(d); }
        s.md.clear(); moved(s); if (steal) s.peak = 0; observe(sj, "a moved-to map"); readback(si); full_check(sj); full_check(si);
        break;
      }
      case O_MOVE_ASSIGN: {
        cls = V_TRANSFER; if (si == sj) break; Slot & d = sl[sj]; if (!d.m) create(sj, 2, 0); begin_call(); ob = mem.outstanding_of(cx->id);
        bool steal = (C::flags & A_POCMA) || d.arena == s.arena || !kSim; if (!steal) stats.probes[P_UNEQUAL_MOVE]++;
        Outcome o = callx([&] { *d.m = std::move(m); }); if (bad()) break;
        if (o != OK) { if (steal || (o == OALLOC && !cx->allocs)) strong(ob); else { weak_two(si, sj); } break; }
        u32 want = (C::flags & A_POCMA) ? s.arena : d.arena;
        d.md = s.md; d.hs = s.hs; d.eqtok = s.eqtok; d.arena = want; d.epoch = s.epoch; if (!steal) moved(d); if (steal) { std::swap(d.peak, s.peak); } else if (s.peak > d.peak) d.peak = s.peak; s.md.clear(); moved(s);
        observe(sj, "a move-assigned map"); if (m.size() != 0) { violate(V_TRANSFER, "a moved-from map has %llu elements", (unsigned long long)m.size()); break; } readback(si); full_check(sj); full_check(si);
        break;
      }
      case O_SWAP: {
        cls = V_TRANSFER; Slot & d = sl[sj]; if (!d.m) create(sj, 2, 0); if (s.arena != d.arena && !(C::flags & A_POCS) && kSim) break; begin_call();
        Outcome o = callx([&] { switch (op.var % 3) { case 0: m.swap(*d.m); break; case 1: { using std::swap; swap(m, *d.m); break; } default: std::swap(m, *d.m); } });
        if (bad()) break; if (o != OK) { strong(ob); break; }
        if (si != sj) { std::swap(s.md, d.md); std::swap(s.hs, d.hs); std::swap(s.eqtok, d.eqtok); std::swap(s.epoch, d.epoch); std::swap(s.peak, d.peak); if (C::flags & A_POCS) std::swap(s.arena, d.arena); }
        observe(si, "a swapped map"); observe(sj, "a swapped map"); full_check(si); full_check(sj);
        break;
      }
      case O_RANGE_NEW: case O_ILIST_NEW: case O_RANGE_INSERT: case O_ILIST_ASSIGN: do_bulk(op, si, sj); break;
      case O_NEW: { Outcome o = create(si, op.var % 6, op.b % (big_mask > 4095 ? 300000 : 300)); if (o != OK) sweep_fired = true; break; }
      case O_DESTROY: destroy(si); cls = V_OBJECT; counts(); create(si, 2, 0); break;
      case O_CHECK: break;
      case O_ITER: do_iter(op, si, id); break;
      case O_ALIAS: do_alias(op.var, si, id, op); break;
      case O_ALIAS_FILL: {
        cls = V_ALIAS; if (!s.md.n) break; u32 guard = 0; u64 r0 = stats.rehashes;
        while (guard++ < 3 * (u32)m.bucket_count() + 8 && guard < 600 && !bad() && s.md.n < U && s.md.n) { Op o2 = op; o2.a = (u32)mix64(op.a + guard); u32 src = pick_present(s, o2.a); do_alias(1 + op.var % 3, si, src, o2); if (stats.rehashes != r0) { stats.probes[P_ALIAS_GROWTH]++; break; } }
        break;
      }
      case O_CONSUME: { static const u8 vs[] = {0, 3, 4, 11, 12, 13, 14, 17, 18, 19, 20, 2, 6, 9, 10, 16}; cls = V_CONSUME; do_insert(si, vs[op.var % 16], id); break; }
      case O_CHURN: do_churn(op, si); break;
      case O_WRITE: {
        if (!s.md.in[id]) { if (!s.md.n) break; while (!s.md.in[id]) id = id + 1 == U ? 0 : id + 1; }
        u64 v = newval(); { K k = KA::make(id, 7); V nv = VA::make(v);
          switch (op.var % 3) { case 0: { auto it = m.find(k); if (it != m.end()) it->second = std::move(nv); else violate(cls, "find misses present key id %u", id); break; } case 1: { try { m.at(k) = std::move(nv); } catch (std::out_of_range &) { violate(cls, "at() misses present key id %u", id); } break; } default: m[k] = std::move(nv); } }
        s.md.val[id] = v; break;
      }
      case O_HETERO: do_hetero(op, si, id); break;
      case O_SELF: {
        cls = V_COPY; if (op.var & 1) { m.swap(m); } else if constexpr (kCopy) { M & r = m; Outcome o = callx([&] { m = r; }); if (o != OK) { strong(ob); break; } moved(s); }
        full_check(si); break;
      }
      case O_OBSERVE: observe(si, "a map"); break;
      default: break;
    }
  }
  bool cx_fired_in(Outcome) { return true; }
  u32 pick_present(Slot & s, u32 a) { u32 id = a % U; while (!s.md.in[id]) id = id + 1 == U ? 0 : id + 1; return id; }
  void observe(int si, const char * w) {
    if (bad() || !kSim) return; Slot & s = sl[si];
    if constexpr (kSim) {
      auto h = s.m->hash_function(); auto e = s.m->key_eq(); auto a = s.m->get_allocator();
      if (h.st.token != s.hs.token || h.st.mode != s.hs.mode || h.st.salt != s.hs.salt) violate(V_TRANSFER, "%s has the hash function of another map (token %u, expected %u)", w, h.st.token, s.hs.token);
      else if (e.token != s.eqtok) violate(V_TRANSFER, "%s has the equality function of another map", w);
      else if (a.arena != s.arena) violate(V_ALLOC, "%s has allocator %u, expected %u", w, a.arena, s.arena);
    }
  }
  void readback(int si) { if constexpr (kSim) { Slot & s = sl[si]; s.hs = s.m->hash_function().st; s.eqtok = s.m->key_eq().token; s.arena = s.m->get_allocator().arena; } }
  void weak_two(int si, int sj) {
    // A throwing callback during an element-wise transfer: both maps stay valid, contents unspecified.
    if (bad()) return;
    auto had_i = sl[si].md.in, had_j = sl[sj].md.in;
    for (int q : {si, sj}) { Slot & s = sl[q]; u64 n = 0; walk(*s.m, 1u << 20, [&](It & it) { n++; u32 id = KA::id(it->first); VA::get(it->second); if (!bad() && (id >= U || !(had_i[id] || had_j[id]))) violate(V_FAULT, "after a failed move assignment a map holds a key that neither map had (id 0x%X)", id); return !bad(); }); if (!bad() && n != s.m->size()) violate(V_FAULT, "after a failed move assignment traversal makes %llu steps but size() is %llu", (unsigned long long)n, (unsigned long long)s.m->size()); if (bad()) return; s.m->clear(); s.md.clear(); moved(s); readback(q); }
    counts();
  }
  // A single-pass iterator: all copies share one position, as with a stream. The by-value form creates the element when it is read.
  template <bool ByValue> struct Once {
    typedef std::input_iterator_tag iterator_category; typedef Pair value_type; typedef std::ptrdiff_t difference_type; typedef const Pair * pointer; typedef std::conditional_t<ByValue, Pair, const Pair &> reference;
    struct State { const std::vector<Pair> * v; size_t at; bool over; }; State * st;
    reference operator*() const { if (st->at >= st->v->size()) { st->over = true; return (*st->v)[0]; } return (*st->v)[st->at]; }
    pointer operator->() const { return &(*st->v)[st->at]; }
    Once & operator++() { if (st->at >= st->v->size()) st->over = true; else st->at++; return *this; }
    Once operator++(int) { Once t = *this; ++*this; return t; }
    bool done() const { return !st || st->at >= st->v->size(); }
    bool operator==(const Once & o) const { return done() == o.done(); }
    bool operator!=(const Once & o) const { return done() != o.done(); }
  };
  // Insertion of several elements at once.
  void do_bulk(const Op & op, int si, int sj) {
    Slot & s = sl[si]; u32 cnt = op.b % 48; if (op.c & 32) cnt = op.b % (U < 600 ? U : 600); u64 ob = mem.outstanding_of(cx->id);
    std::vector<u32> ids; std::vector<u64> vs; std::vector<u32> ts; for (u32 i = 0; i < cnt; i++) { ids.push_back(i && (op.c & 16) && mix64(op.a + i) % 4 == 0 ? ids[mix64(i) % i] : (u32)(mix64(op.a * 77 + i) % U)); vs.push_back(newval()); ts.push_back(newtag()); }
    cls = V_COPY; bool fresh = op.kind == O_RANGE_NEW || op.kind == O_ILIST_NEW; bool frommap = (op.var & 4) && si != sj && sl[sj].m; if (op.kind == O_ILIST_NEW || op.kind == O_ILIST_ASSIGN) { frommap = false; if (cnt > 6) cnt = 6; ids.resize(cnt); }
    if constexpr (!kCopy) { if (fresh || op.kind == O_ILIST_ASSIGN || frommap) return; }
    if (frommap) { ids.clear(); vs.clear(); ts.clear(); M & src = *sl[sj].m; for (auto it = src.begin(); it != src.end() && ids.size() <= sl[sj].md.n; ++it) { ids.push_back(KA::id(it->first)); vs.push_back(VA::get(it->second)); ts.push_back(KA::tag(it->first)); } cnt = (u32)ids.size(); }
    Outcome o = OK; u32 oldarena = s.arena;
    HashState h = slot_hash(si); u32 eqt = 200 + si; u32 ar = kSim ? pick_arena((u32)opno) : 0; bool plain = (op.var & 8) || !kSim; if (plain && fresh) { h = HashState(); eqt = 0; ar = 0; } int cv = plain ? 0 : (int)((op.c >> 8) % 4); if (fresh && cv) { eqt = 0; if (cv < 3) h = HashState(); }
    if (fresh) { destroy(si); }
    begin_call(); ob = mem.outstanding_of(cx->id); M * nm = nullptr;
    {
      std::vector<Pair> pv; std::vector<MPair> mv;
      bool useM = op.var & 1, once = kCopy && !frommap && cnt && (op.kind == O_RANGE_NEW || op.kind == O_RANGE_INSERT) && mix64(op.a * 31 + op.b) % 4 == 0; if (once) useM = false;
      if (!frommap) { if constexpr (kCopy) { if (useM) { mv.reserve(cnt); for (u32 i = 0; i < cnt; i++) mv.emplace_back(KA::make(ids[i], ts[i]), VA::make(vs[i])); } else { pv.reserve(cnt); for (u32 i = 0; i < cnt; i++) pv.emplace_back(KA::make(ids[i], ts[i]), VA::make(vs[i])); } }
        else { mv.reserve(cnt); for (u32 i = 0; i < cnt; i++) mv.emplace_back(KA::make(ids[i], ts[i]), VA::make(vs[i])); } }
      auto hh = mk_hash(h); auto ee = mk_eq(eqt); auto al = alloc_of(ar); size_t cap = (op.var & 2) ? op.c % 200 : 0;
      auto build = [&](auto b, auto e) {
        if (cv == 1) { if constexpr (requires { M(b, e, al); }) nm = new (home(si)) M(b, e, al); else nm = new (home(si)) M(b, e, cap, al); }
        else if (cv == 2) nm = new (home(si)) M(b, e, cap, al); else if (cv == 3) nm = new (home(si)) M(b, e, cap, hh, al); else nm = plain ? (cap ? new (home(si)) M(b, e, cap) : new (home(si)) M(b, e)) : new (home(si)) M(b, e, cap, hh, ee, al); };
      if (op.kind == O_RANGE_NEW) { if constexpr (kCopy) { o = callx([&] { if (frommap) { const M & c = *sl[sj].m; if (op.var & 1) build(c.begin(), c.end()); else build(sl[sj].m->begin(), sl[sj].m->end()); } else if (useM) build(mv.begin(), mv.end()); else if (once) { typename Once<false>::State os{&pv, 0, false}; build(Once<false>{&os}, Once<false>{nullptr}); if (os.over) violate(cls, "a construction from a single-pass range reads past its end"); } else build(pv.begin(), pv.end()); }); } }
      else if (op.kind == O_RANGE_INSERT) { M & m = *s.m; o = callx([&] { if constexpr (kCopy) { if (frommap) { const M & c = *sl[sj].m; m.insert(c.begin(), c.end()); } else if (useM) m.insert(mv.begin(), mv.end()); else if (once && op.var & 1) { typename Once<true>::State os{&pv, 0, false}; m.insert(Once<true>{&os}, Once<true>{nullptr}); if (os.over) violate(cls, "a range insertion reads past the end of a single-pass range"); } else if (once) { typename Once<false>::State os{&pv, 0, false}; m.insert(Once<false>{&os}, Once<false>{nullptr}); if (os.over) violate(cls, "a range insertion reads past the end of a single-pass range"); } else m.insert(pv.begin(), pv.end()); } else m.insert(std::make_move_iterator(mv.begin()), std::make_move_iterator(mv.end())); }); }
      else if constexpr (kCopy) {
        auto with = [&](auto f) { // initializer lists have a static length
          mv.clear(); std::vector<Pair> q; q.reserve(cnt); for (u32 i = 0; i < cnt; i++) q.emplace_back(KA::make(ids[i], ts[i]), VA::make(vs[i])); pv.clear();
          switch (cnt) { case 0: f(std::initializer_list<Pair>{}); break; case 1: { std::initializer_list<Pair> l{q[0]}; f(l); break; } case 2: { std::initializer_list<Pair> l{q[0], q[1]}; f(l); break; } case 3: { std::initializer_list<Pair> l{q[0], q[1], q[2]}; f(l); break; } case 4: { std::initializer_list<Pair> l{q[0], q[1], q[2], q[3]}; f(l); break; } case 5: { std::initializer_list<Pair> l{q[0], q[1], q[2], q[3], q[4]}; f(l); break; } default: { std::initializer_list<Pair> l{q[0], q[1], q[2], q[3], q[4], q[5]}; f(l); } } };
        if (op.kind == O_ILIST_NEW) with([&](std::initializer_list<Pair> l) { o = callx([&] {
          if (cv == 1) { if constexpr (requires { M(l, al); }) nm = new (home(si)) M(l, al); else nm = new (home(si)) M(l, cap, al); }
          else if (cv == 2) nm = new (home(si)) M(l, cap, al); else if (cv == 3) nm = new (home(si)) M(l, cap, hh, al); else nm = plain ? (cap ? new (home(si)) M(l, cap) : new (home(si)) M(l)) : new (home(si)) M(l, cap, hh, ee, al); }); });
        else { M & m = *s.m; with([&](std::initializer_list<Pair> l) { o = callx([&] { if constexpr (C::group) { m = l; } else { m.clear(); m.insert(l); } }); }); s.md.clear(); moved(s); }
      }
    }
    if (bad()) return;
    bool grew = cx->allocs > 0; (void)oldarena;
    if (fresh) {
      if (o != OK) { s.m = nullptr; strong(ob); if (!bad()) { arm_mask = 0; create(si, 2, 0); counts(); } return; }
      s.m = nm; s.hs = h; s.eqtok = eqt; s.arena = ar; moved(s);
    }
    if (o == OK) { for (u32 i = 0; i < cnt; i++) if (!s.md.in[ids[i]]) s.md.put(ids[i], vs[i], ts[i]); if (grew || !C::group) moved(s); if (s.md.n > s.peak) s.peak = s.md.n; if (fresh && op.c % 200 > s.peak) s.peak = op.c % 200; full_check(si); if (frommap) full_check(sj); }
    else if (o == OALLOC || (o == OELEM && !grew && C::nxmove) || (o == OHASH && !grew)) {
      // exactly a prefix of the range has been inserted
      u32 have = (u32)s.m->size(); u32 i = 0; while (s.md.n < have && i < cnt) { if (!s.md.in[ids[i]]) s.md.put(ids[i], vs[i], ts[i]); i++; } moved(s); cls = V_FAULT; full_check(si); for (u32 q = 0; q < nslots && !bad(); q++) full_check(q); counts();
    } else { std::vector<Extra> ex; for (u32 i = 0; i < cnt; i++) ex.push_back(Extra{ids[i], vs[i], ts[i]}); weak(si, ex); }
  }
  void do_iter(const Op & op, int si, u32 id) {
    Slot & s = sl[si]; M & m = *s.m; const M & cm = m; cls = V_ITER; std::vector<u32> ord = order_of(m, s.md.n); if (bad()) return;
    if (ord.size() != s.md.n) { violate(V_ITER, "traversal made %zu steps, size() is %u", ord.size(), s.md.n); return; }
    It dflt{}; (void)dflt;
    K k = KA::make(id, 7);
    if (!s.md.in[id]) { if (m.find(k) != m.end() || cm.find(k) != cm.end()) violate(V_ITER, "find of absent key id %u is not end()", id); return; }
    size_t pos = 0; while (pos < ord.size() && ord[pos] != id) pos++;
    u64 n = 0;
    auto suffix = [&](auto it, auto e, bool post) { for (size_t p = pos; it != e; n++, p++) { if (p >= ord.size() || KA::id(it->first) != ord[p]) { violate(V_ITER, "advancing an iterator from find leaves the traversal order"); return; } if (post) { auto old = it++; if (KA::id(old->first) != ord[p] || KA::id((*old).first) != ord[p]) { violate(V_ITER, "post-increment is wrong"); return; } } else { auto old = it; ++it; if (p + 1 < ord.size() && it != e) { auto back = it; if (back-- != it || back != old || KA::id(back->first) != ord[p] || (--++back) != old) { violate(V_ITER, "stepping an iterator back does not lead to the element before it"); return; } } } } if (n != ord.size() - pos) violate(V_ITER, "advancing an iterator from find visits %llu elements, expected %zu", (unsigned long long)n, ord.size() - pos); };
    switch (op.var % 4) {
      case 0: suffix(m.find(k), m.end(), false); break;
      case 1: suffix(cm.find(k), cm.end(), true); break;
      case 2: suffix(m.find(k), m.end(), true); break;
      default: { It it = m.find(k); CIt c = it; CIt c2; c2 = it; if (!(c == cm.find(k)) || c != c2 || c == m.cend() || &*c != (const void *)&*it) violate(V_ITER, "iterator and const_iterator of one element differ"); It it2 = it; if (it2 != it) violate(V_ITER, "a copied iterator differs"); suffix(c, m.cend(), false); }
    }
  }
  void do_alias(u32 var, int si, u32 src, const Op & op) {
    Slot & s = sl[si]; cls = V_ALIAS; if (!s.md.n) return; src = pick_present(s, src); M & m = *s.m;
    u32 fresh = src; { u32 k = 0; fresh = (u32)(mix64(op.a + 99) % U); while (k < U && s.md.in[fresh]) { fresh = fresh + 1 == U ? 0 : fresh + 1; k++; } if (k == U) fresh = src; }
    u64 sv = s.md.val[src]; u32 tag = newtag(); u64 nv = newval(); u64 ob = mem.outstanding_of(cx->id); u32 target = fresh; u64 want = sv; bool assign = false, erase = false, taken = false; size_t ne = 9; Outcome o = OK; It r = m.end(); bool chk = true;
    begin_call();
    {
      K sk = KA::make(src, 7); It it = m.find(sk); if (it == m.end()) { violate(V_ANSWER, "find misses present key id %u", src); return; }
      K nk = KA::make(fresh, tag); V nval = VA::make(nv);
      switch (var % 17) {
        case 0: if constexpr (kCopy) { target = src; o = callx([&] { r = m.insert(*it).first; }); } else chk = false; break;
        case 1: if constexpr (kCopy) { assign = true; o = callx([&] { r = m.insert_or_assign(nk, it->second).first; }); } else chk = false; break;
        case 2: if constexpr (kCopy) { o = callx([&] { r = m.try_emplace(nk, it->second).first; }); } else chk = false; break;
        case 3: if constexpr (kCopy) { o = callx([&] { r = m.emplace(nk, it->second).first; }); } else chk = false; break;
        case 4: if constexpr (kCopy) { target = src; o = callx([&] { r = m.insert_or_assign(it->first, it->second).first; }); } else chk = false; break;
        case 5: target = src; erase = true; o = callx([&] { ne = m.erase(it->first); }); break;
        case 6: { target = src; V * p = nullptr; o = callx([&] { p = &m[it->first]; }); if (o == OK && !bad() && VA::get(*p) != sv) violate(V_ALIAS, "operator[] with a key inside the map finds another element"); r = it; break; }
        case 7: target = src; o = callx([&] { r = m.try_emplace(it->first, std::move(nval)).first; }); if (o == OK && VA::get(nval) != nv) violate(V_CONSUME, "try_emplace of a present key moved its argument"); break;
        case 8: target = src; want = nv; assign = true; o = callx([&] { r = m.insert_or_assign(it->first, std::move(nval)).first; }); break;
        case 10: if (fresh == src) { chk = false; break; } taken = true; o = callx([&] { r = m.emplace(nk, std::move(it->second)).first; }); break;
        case 11: if (fresh == src) { chk = false; break; } taken = true; o = callx([&] { r = m.try_emplace(nk, std::move(it->second)).first; }); break;
        case 12: if (fresh == src) { chk = false; break; } taken = true; assign = true; o = callx([&] { r = m.insert_or_assign(std::move(nk), std::move(it->second)).first; }); break;
        case 13: if constexpr (kCopy) { o = callx([&] { r = m.emplace(std::piecewise_construct, std::forward_as_tuple(nk), std::forward_as_tuple(it->second)).first; }); } else chk = false; break;
        case 14: if constexpr (kCopy) { o = callx([&] { r = m.emplace_hint(m.cend(), std::move(nk), it->second); }); } else chk = false; break;
        case 15: { // another element's value moved over this one's
            u32 other = pick_present(s, op.b); if (other == src) { chk = false; break; } K ok = KA::make(other, 7); It io = m.find(ok); if (io == m.end()) { violate(V_ANSWER, "find misses present key id %u", other); return; } target = other; taken = assign = true; o = callx([&] { r = m.insert_or_assign(io->first, std::move(it->second)).first; }); break; }
        case 16: if constexpr (kCopy) { assign = true; o = callx([&] { r = m.insert_or_assign(m.cbegin(), nk, it->second); }); } else chk = false; break;
        default: if constexpr (kCopy) { // another element's value over this one's
            u32 other = pick_present(s, op.b); K ok = KA::make(other, 7); It io = m.find(ok); if (io == m.end()) { violate(V_ANSWER, "find misses present key id %u", other); return; } target = other; assign = true; o = callx([&] { r = m.insert_or_assign(io->first, it->second).first; }); } else chk = false;
      }
    }
    if (bad() || !chk) return; if (cx->allocs) stats.rehashes++;
    if (taken && s.md.in[src] && target != src) { K k = KA::make(src, 0); It f = m.find(k); if (f != m.end()) f->second = VA::make(sv); }    // it was moved from
    if (o != OK) { if (cx->allocs) moved(s); bool wk = (o == OHASH && cx->allocs) || (o == OELEM && (cx->allocs || !C::nxmove)); if (wk) weak(si, {Extra{target, want, tag}}); else { if (assign && o == OELEM && s.md.in[target]) { K k = KA::make(target, 0); auto f = m.find(k); if (f != m.end() && VA::get(f->second) == want) s.md.val[target] = want; } strong(ob); } return; }
    if (erase) { if (ne != 1) { violate(V_ALIAS, "erase by the key inside the element returns %zu", ne); return; } s.md.del(src); if (!C::group) moved(s); }
    else { bool was = s.md.in[target]; if (!was) s.md.put(target, want, tag); else if (assign) s.md.val[target] = want; if (cx->allocs || (!C::group && !was)) moved(s);
      if (r == m.end()) { violate(V_ALIAS, "an insertion with an aliased argument returns end()"); return; } check_found(s, si, target, r, "insertion with an argument inside the map"); }
    if (!bad() && cx->allocs) full_check(si); else if (!bad()) { check_lookup(si, src, 0); if (!bad()) check_lookup(si, target, 1); }
  }
  void do_churn(const Op & op, int si) {
    Slot & s = sl[si]; u32 pop = op.a % (U - U / 4) + 1; u32 rounds = op.b % 3000 + 1; u32 style = op.c % 6; Rng r(mix64(op.a * 31 + op.b));
    if (sc->get("churn_check") && op.var % 4 == 0) {      // long, at a population just below what a table of some size admits
      u32 p = (u32)((512u << r.below(3)) * (r.chance(70) ? r.range(840, 876) : r.range(600, 876)) / 1000); if (p < U - U / 5) { pop = p; rounds = p * (u32)r.range(8, 40); if (style == 5) style = 4; }
    }
    std::vector<u32> q; for (u32 i = 0; i < U; i++) if (s.md.in[i]) q.push_back(i);
    size_t head = 0; u32 nexti = r.below(U); upd_cost = upd_calls = 0;
    for (u32 i = 0; i < rounds && !bad() && s.m; i++) {
      if (s.md.n < pop && (style != 5 || r.chance(60))) {
        u32 id; if (style == 0 || style == 3) { id = nexti; nexti = nexti + 1 == U ? 0 : nexti + 1; } else id = (u32)r.below(U);
        bool was = s.md.in[id]; do_insert(si, (u32)r.below(IV_COUNT), id); if (!was && s.md.in[id]) q.push_back(id);
      } else {
        u32 k; if (q.size() == head) { if (style == 5) continue; break; }
        if (style == 0 || style == 1) k = head++; else if (style == 2) k = (u32)q.size() - 1; else k = head + (u32)r.below(q.size() - head);
        u32 id = q[k]; if (k == q.size() - 1) q.pop_back(); else if (k + 1 != head || style > 1) { q[k] = q.back(); q.pop_back(); }
        if (style <= 1 && head > 4096) { q.erase(q.begin(), q.begin() + head); head = 0; }
        if (s.md.in[id]) do_erase(si, id, 0);
        if (style == 3 && r.chance(30) && s.md.n) { u32 a = (u32)r.below(U); do_erase(si, a, 0); }
      }
      if ((i & 127) == 127 && sc->get("churn_check")) { churn_check(si); if ((i & 255) == 255) cost_check(si, op.c + i); }
    }
    if (!bad() && upd_calls > 500 && sizeof(K) + sizeof(V) <= 64 && (C::group || (kSim && s.hs.mode == H_GOOD))) {   // rebuilding included, spread over the calls
      u64 spare = s.m ? 200 * (u64)s.m->bucket_count() : 0, c = upd_cost > spare ? upd_cost - spare : 0;                  // a growth or two are due in any case
      u64 h = hundredths(c, upd_calls); if (h > g_cost[Cost::UPDATE]) g_cost[Cost::UPDATE] = h;
      if (h > 50000) violate(V_STEPS, "insertions and erasures take %llu basic blocks on average (%u elements)", (unsigned long long)(h / 100), s.md.n);
    }
    // rebuild nothing: the model followed every call
    if (!bad()) full_check(si);
  }
  void do_hetero(const Op & op, int si, u32 id) {
    if constexpr (C::hetero) {
      Slot & s = sl[si]; M & m = *s.m; const M & cm = m; cls = V_HETERO; bool in = s.md.in[id]; Probe p{id, newtag()}; u64 v = newval(); Outcome o = OK; u64 ob = mem.outstanding_of(cx->id);
      begin_call(); int kind = 0; bool f = false; u64 gv = 0; It it = m.end(); bool ins = false; size_t n = 9; bool dflt = false, assign = false; V * ref = nullptr;
      switch (op.var % 14) {
        case 11: { kind = 2; V val = VA::make(v); if constexpr (requires { m.try_emplace(m.cend(), std::move(p), std::move(val)); }) o = callx([&] { it = m.try_emplace(m.cend(), std::move(p), std::move(val)); ins = !in; }); else return; if (o == OK && in && VA::get(val) != v) violate(V_CONSUME, "try_emplace of a present key moved its argument"); break; }
        case 12: { kind = 2; assign = true; V val = VA::make(v); if constexpr (requires { m.insert_or_assign(m.cend(), p, std::move(val)); }) o = callx([&] { it = m.insert_or_assign(m.cend(), p, std::move(val)); ins = !in; }); else return; break; }
        case 13: { kind = 2; V val = VA::make(v); if constexpr (requires { m.emplace_hint(m.cend(), p, std::move(val)); }) o = callx([&] { it = m.emplace_hint(m.cend(), p, std::move(val)); ins = !in; }); else return; break; }
        case 0: if constexpr (requires { m.find(p); }) o = callx([&] { auto i = m.find(p); f = i != m.end(); if (f) gv = VA::get(i->second); }); else return; break;
        case 1: if constexpr (requires { cm.find(p); }) o = callx([&] { auto i = cm.find(p); f = i != cm.end(); if (f) gv = VA::get(i->second); }); else return; break;
        case 2: if constexpr (requires { m.count(p); }) o = callx([&] { f = m.count(p) == 1; gv = in ? s.md.val[id] : 0; }); else return; break;
        case 3: if constexpr (requires { cm.contains(p); }) o = callx([&] { f = cm.contains(p); gv = in ? s.md.val[id] : 0; }); else return; break;
        case 4: if constexpr (requires { m.at(p); }) o = callx([&] { try { gv = VA::get(m.at(p)); f = true; } catch (std::out_of_range &) { f = false; } }); else return; break;
        case 5: if constexpr (requires { m.erase(p); }) { kind = 1; o = callx([&] { n = m.erase(p); }); } else return; break;
        case 6: case 7: { kind = 2; V val = VA::make(v); if (op.var % 14 == 6) { if constexpr (requires { m.try_emplace(std::move(p), std::move(val)); }) o = callx([&] { auto r = m.try_emplace(std::move(p), std::move(val)); it = r.first; ins = r.second; }); else return; } else { if constexpr (requires { m.try_emplace((const Probe &)p, std::move(val)); }) o = callx([&] { auto r = m.try_emplace((const Probe &)p, std::move(val)); it = r.first; ins = r.second; }); else return; }
          if (o == OK && in && VA::get(val) != v) violate(V_CONSUME, "try_emplace of a present key moved its argument"); break; }
        case 8: { kind = 2; assign = true; V val = VA::make(v); if constexpr (requires { m.insert_or_assign(p, std::move(val)); }) o = callx([&] { auto r = m.insert_or_assign(p, std::move(val)); it = r.first; ins = r.second; }); else return; break; }
        case 9: { kind = 3; if constexpr (requires { m[p]; }) o = callx([&] { ref = &m[p]; }); else return; break; }
        default: { kind = 2; V val = VA::make(v); if constexpr (requires { m.emplace(p, std::move(val)); }) o = callx([&] { auto r = m.emplace(p, std::move(val)); it = r.first; ins = r.second; }); else return; }
      }
      if (bad()) return; bool grew = cx->allocs; if (grew) stats.rehashes++;
      if (o != OK) { if (grew) moved(s); if ((o == OHASH && grew) || (o == OELEM && (grew || !C::nxmove))) weak(si, {Extra{id, v, p.tag}, Extra{id, VA::dflt(), p.tag}}); else { if (assign && in && o == OELEM) { K k = KA::make(id, 0); auto fi = m.find(k); if (fi != m.end() && VA::get(fi->second) == v) s.md.val[id] = v; } strong(ob); } return; }
      if (kind == 0) { if (f != in) violate(V_HETERO, "lookup of %s key id %u by another type says %s (variant %u)", in ? "present" : "absent", id, f ? "present" : "absent", op.var % 14); else if (in && gv != s.md.val[id]) violate(V_HETERO, "lookup of key id %u by another type finds another element", id); }
      else if (kind == 1) { if (n != (in ? 1u : 0u)) violate(V_HETERO, "erase of %s key id %u by another type returns %zu", in ? "present" : "absent", id, n); s.md.del(id); if (!C::group) moved(s); }
      else {
        if (kind == 3) { u64 want = in ? s.md.val[id] : VA::dflt(); if (VA::get(*ref) != want) violate(V_HETERO, "operator[] by another type refers to a wrong value"); s.md.put(id, want, p.tag); dflt = true; }
        else { if (!in || assign) s.md.put(id, v, p.tag); if (ins == in) violate(V_HETERO, "insertion by another type of %s key reports %s", in ? "a present" : "an absent", ins ? "inserted" : "not inserted"); if (!bad() && it == m.end()) violate(V_HETERO, "insertion by another type returns end()"); if (!bad()) check_found(s, si, id, it, "insertion by another type"); }
        if (grew || (!C::group && !in)) moved(s); (void)dflt;
      }
      if (!bad()) check_lookup(si, id, (u32)opno);
    }
  }
  bool e_allow_oom() const { return sc->get("allow_oom"); }
  // ---------------------------------------------------------------- readers
  struct Reader { Engine * e; int si; u64 seed; u32 nops; Ctx ctx; };
  static void reader_main(void * a) { Reader * r = (Reader *)a; r->e->read_loop(*r); }
  void read_loop(Reader & r) {
    Slot & s = sl[r.si]; const M & cm = *s.m; M & nm = *s.m; Rng g(r.seed); Model & md = s.md; (void)nm;
    for (u32 i = 0; i < r.nops && !cur->viol; i++) {
      u32 id = (u32)g.below(U); bool in = md.in[id]; u32 what = (u32)g.below(kCopy ? 16 : 14);
      cur->in_op = true;
      switch (what) {
        case 0: case 1: case 2: { cur->in_op = false; K k = KA::make(id, 9); cur->in_op = true; auto it = cm.find(k); bool f = it != cm.end(); u32 gid = f ? KA::id(it->first) : 0; u64 gv = f ? VA::get(it->second) : 0; cur->in_op = false; if (f != in || (in && (gid != id || gv != md.val[id]))) violate(V_ANSWER, "a concurrent reader's find(key id %u) is wrong", id); break; }
        case 3: { cur->in_op = false; K k = KA::make(id, 9); cur->in_op = true; size_t c = cm.count(k); cur->in_op = false; if (c != (in ? 1u : 0u)) violate(V_ANSWER, "a concurrent reader's count(key id %u) is %zu", id, c); break; }
        case 4: { cur->in_op = false; K k = KA::make(id, 9); cur->in_op = true; bool c = cm.contains(k); cur->in_op = false; if (c != in) violate(V_ANSWER, "a concurrent reader's contains(key id %u) is wrong", id); break; }
        case 5: { cur->in_op = false; K k = KA::make(id, 9); cur->in_op = true; bool th = false; u64 gv = 0; try { gv = VA::get(cm.at(k)); } catch (std::out_of_range &) { th = true; } cur->in_op = false; if (th == in || (in && gv != md.val[id])) violate(V_ANSWER, "a concurrent reader's at(key id %u) is wrong", id); break; }
        case 6: case 7: { u64 n = 0; bool ok = true; std::vector<u8> sn(U, 0); for (auto it = cm.begin(); it != cm.end() && n <= md.n; ++it) { n++; u32 x = KA::id(it->first); if (x >= U || !md.in[x] || sn[x] || VA::get(it->second) != md.val[x]) { ok = false; break; } sn[x] = 1; if (g.chance(20)) yield_point(); } cur->in_op = false; if (!ok || n != md.n) violate(V_ANSWER, "a concurrent reader's traversal visits %llu of %u elements%s", (unsigned long long)n, md.n, ok ? "" : " and a wrong one"); break; }
        case 8: { size_t n = cm.size(); bool e = cm.empty(); (void)cm.load_factor(); (void)cm.bucket_count(); (void)cm.max_load_factor(); auto h = cm.hash_function(); (void)h; cur->in_op = false; if (n != md.n || e != (md.n == 0)) violate(V_ANSWER, "a concurrent reader's size() is %zu", n); break; }
        case 9: if constexpr (C::hetero) { Probe p{id, 0}; bool f = false; u64 gv = 0; u32 v = (u32)g.below(4), told = in;   // looked up by another type
            if (v == 0) { if constexpr (requires { cm.count(p); }) f = cm.count(p) == 1; else told = 2; } else if (v == 1) { if constexpr (requires { cm.contains(p); }) f = cm.contains(p); else told = 2; }
            else if (v == 2) { if constexpr (requires { cm.at(p); }) { try { gv = VA::get(cm.at(p)); f = true; } catch (std::out_of_range &) {} } else told = 2; }
            else if constexpr (requires { cm.find(p); }) { auto it = cm.find(p); f = it != cm.end(); if (f) gv = VA::get(it->second); } else told = 2;
            cur->in_op = false; if (told != 2 && (f != in || (in && v > 1 && gv != md.val[id]))) violate(V_ANSWER, "a concurrent reader's lookup of key id %u by another type is wrong (variant %u)", id, v); } break;
        case 10: { cur->in_op = false; K k = KA::make(id, 9); cur->in_op = true; auto it = nm.find(k); bool f = it != nm.end(); u32 gid = f ? KA::id(it->first) : 0; u64 gv = f ? VA::get(it->second) : 0; bool th = false; u64 av = 0; try { av = VA::get(nm.at(k)); } catch (std::out_of_range &) { th = true; }
            cur->in_op = false; if (f != in || th == in || (in && (gid != id || gv != md.val[id] || av != gv))) violate(V_ANSWER, "a concurrent reader's non-const find or at(key id %u) is wrong", id); break; }
        case 11: if constexpr (requires (const M & z, const K & k) { z.bucket(k); }) { cur->in_op = false; if (!in || !cm.bucket_count()) break; K k = KA::make(id, 9); cur->in_op = true; u64 b = cm.bucket(k); step(); u64 b2 = cm.bucket(k); u64 bc = cm.bucket_count(); cur->in_op = false; if (b != b2) violate(V_ANSWER, "a concurrent reader's bucket(key id %u) changes from %llu to %llu (of %llu)", id, (unsigned long long)b, (unsigned long long)b2, (unsigned long long)bc); } break;
        case 12: { u64 n = 0; for (auto it = nm.begin(); it != nm.end() && n <= md.n; it++) { n++; if (g.chance(10)) yield_point(); } u64 n2 = 0; for (auto it = cm.cbegin(); it != cm.cend() && n2 <= md.n; ++it) n2++; cur->in_op = false; if (n != md.n || n2 != n) violate(V_ANSWER, "concurrent traversals visit %llu and %llu of %u elements", (unsigned long long)n, (unsigned long long)n2, md.n); break; }
        case 13: { auto e = cm.key_eq(); (void)e; auto a = cm.get_allocator(); (void)a; if constexpr (requires { cm.max_size(); }) (void)cm.max_size(); if constexpr (requires { cm.max_bucket_count(); }) (void)cm.max_bucket_count(); if constexpr (requires { cm.bucket_size(size_t(0)); }) { if (cm.bucket_count()) (void)cm.bucket_size(0); } if constexpr (requires { cm.capacity(); }) (void)cm.capacity(); cur->in_op = false; break; }
        case 14: if constexpr (kCopy && kSim) { try { M c(cm, cm.get_allocator()); M d(0, cm.hash_function(), cm.key_eq(), cm.get_allocator()); d = cm; cur->in_op = false; if (c.size() != md.n || d.size() != md.n) violate(V_ANSWER, "a concurrent copy has %llu or %llu elements, expected %u", (unsigned long long)c.size(), (unsigned long long)d.size(), md.n); } catch (SimBadAlloc &) { cur->in_op = false; if (!e_allow_oom()) violate(V_EXCEPT, "a concurrent copy runs out of memory"); } } break;
        default: if constexpr (kCopy) { try { M c(cm); cur->in_op = false; if (c.size() != md.n) violate(V_ANSWER, "a concurrent copy has %llu elements, expected %u", (unsigned long long)c.size(), md.n); else for (u32 q = 0; q < U && !cur->viol; q++) if (U <= 128 || q % 7 == 0) { K k = KA::make(q, 9); auto it = c.find(k); if ((it != c.end()) != bool(md.in[q]) || (md.in[q] && VA::get(it->second) != md.val[q])) violate(V_ANSWER, "a concurrent copy differs at key id %u", q); } } catch (SimBadAlloc &) { cur->in_op = false; if (!e_allow_oom()) violate(V_EXCEPT, "a concurrent copy runs out of memory"); } break; }
      }
      cur->in_op = false;
      yield_point();
    }
  }
  void readers(const Scenario & scn, const Op & op) override {
    if (bad()) return; curop = &op; int si = op.m % nslots; Slot & s = sl[si]; if (!s.m) return; cls = V_ANSWER;
    // A check before the readers would fill whatever a const operation might fill lazily, so most phases start without one.
    if (op.var % 4 == 0) { full_check(si); if (bad()) return; }
    u32 nf = 2 + op.a % 4; std::vector<std::unique_ptr<Reader>> rs;
    for (u32 i = 0; i < nf; i++) { auto r = std::make_unique<Reader>(); r->e = this; r->si = si; r->seed = mix64(op.c + i * 7919); r->nops = 3 + op.b % 20; r->ctx.id = cx->id + 8 + i; r->ctx.yield_pct = (u32)scn.get("yield", 30); rs.push_back(std::move(r)); }
    mem.protect_live(true); protect_home(wid * 8 + si, true); g_readers = true;
    for (auto & r : rs) sched.spawn(reader_main, r.get(), &r->ctx);
    sched.run(mix64(op.c ^ 0x5C4ED));
    sched.clear(); g_readers = false; protect_home(wid * 8 + si, false); mem.protect_live(false);
    stats.probes[P_READ_SWITCH] += sched.switches;
    for (auto & r : rs) { if (r->ctx.viol && !bad()) { cx->viol = r->ctx.viol; cx->msg = r->ctx.msg; } if (!bad() && (r->ctx.live_keys || r->ctx.live_vals)) violate(V_OBJECT, "a reader left objects behind"); if (!bad() && mem.outstanding_of(r->ctx.id)) violate(V_LEAK, "a reader left storage behind"); }
    register_ctx(cx);
    if (!bad()) all_checks();
  }
  void finish() override {
    curop = nullptr; static Op endop; endop.kind = O_CHECK; curop = &endop; cls = V_ANSWER; opno = (opno | 3) + 1;
    if (!bad()) all_checks();
    for (u32 i = 0; i < nslots; i++) if (!bad()) destroy(i);
    if (!bad()) { sentinel->~M(); sentinel = nullptr; }
    if (!bad()) mem.verify();
    if (!bad() && (cx->live_keys || cx->live_vals)) violate(V_OBJECT, "%lld key and %lld value objects outlive every map", (long long)cx->live_keys, (long long)cx->live_vals);
    if (!bad() && mem.outstanding_of(cx->id)) violate(V_LEAK, "%llu storage blocks outlive every map", (unsigned long long)mem.outstanding_of(cx->id));
  }
};

template <class C> IEngine * make_engine() { return new Engine<C>(); }
} // namespace sim
