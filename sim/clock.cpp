// Random generators (C18, C19) and stopwatches (C20) under simulated time() / clock() /
// gettimeofday() / clock_gettime() / rand().  The libc entry points are interposed here, so
// the library reads only clocks and entropy this file controls.
#include "core.h"
#include "scenario.h"
#include <jstd/basic/stddef.h>
#include <jstd/system/RandomGen.h>
#include <jstd/test/StopWatch.h>
#include <ctime>
#include <cmath>
#include <cfloat>
#include <climits>
#include <random>
#include <map>
#include <memory>
#include <new>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

#ifdef SIM_NO_DURATION
// getDurationTime() does not compile: a stand-in keeps the rest of the class usable here.
namespace jtest {
template <> double StopWatchExBase<StdStopWatchImpl<double>>::getDurationTime() const { return impl_type::duration_time(stop_time_, start_time_); }
template <> double StopWatchExBase<clockStopWatchImpl<double>>::getDurationTime() const { return impl_type::duration_time(stop_time_, start_time_); }
template <> double StopWatchExBase<defaultStopWatchImpl<double>>::getDurationTime() const { return impl_type::duration_time(stop_time_, start_time_); }
}
#endif
int real_clock_gettime(clockid_t c, timespec * t) { return (int)syscall(SYS_clock_gettime, c, t); }
namespace sim {
static const i64 kT0 = 1700000000000000000ll;
i64 g_wall = kT0, g_cpu = 5000;              // simulated wall clock (ns), processor clock (us)
i64 g_true = -1;                             // simulated monotonic time where it differs from the wall clock
void (*g_run_time)(const Scenario &) = nullptr;
static u32 g_rand_mode = 0; static u64 g_rand_state = 1;
static int sim_rand() {
  u64 z = (g_rand_state = g_rand_state * 6364136223846793005ull + 1442695040888963407ull); int r = int((z >> 33) & 0x7FFFFFFF);
  switch (g_rand_mode) { case 1: return 0; case 2: return 0x7FFFFFFF; case 3: return (r & 1) ? 0x7FFFFFFF : 0; case 4: return (r & 1) ? 0x7FFF8000 : 0x8000; default: return r; }
}
}
extern "C" {
time_t time(time_t * t) noexcept { time_t v = (time_t)(sim::g_wall >= 0 ? sim::g_wall / 1000000000 : -((-sim::g_wall + 999999999) / 1000000000)); if (t) *t = v; return v; }
clock_t clock() noexcept { return (clock_t)sim::g_cpu; }
int gettimeofday(timeval * t, void *) noexcept { long long us = sim::g_wall / 1000; t->tv_sec = us / 1000000; t->tv_usec = us % 1000000; return 0; }
int clock_gettime(clockid_t c, timespec * t) noexcept { sim::i64 n = sim::g_true >= 0 && c != CLOCK_REALTIME && c != CLOCK_REALTIME_COARSE ? sim::g_true : sim::g_wall; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
int rand() noexcept { return sim::sim_rand(); }
void srand(unsigned s) noexcept { sim::g_rand_state = sim::mix64(s); }
}

namespace sim {
// ---- reference Mersenne Twister (after mt19937ar.c / mt19937-64.c, index form) -------------
template <class T> struct RefMT;
template <class T, int N, int M, T A, T F, int FS, T UP, T LO> struct RefBase {
  T s[N]; int i = N;
  void seed(T v) { s[0] = v; for (int k = 1; k < N; k++) s[k] = F * (s[k - 1] ^ (s[k - 1] >> FS)) + T(k); i = N; }
  void mix(const T * key, size_t len, T c1, T c2) {
    size_t p = 1, j = 0; for (size_t k = N > (int)len ? (size_t)N : len; k; k--) { s[p] = (s[p] ^ ((s[p - 1] ^ (s[p - 1] >> FS)) * c1)) + key[j] + T(j); if (++p >= (size_t)N) { s[0] = s[N - 1]; p = 1; } if (++j >= len) j = 0; }
    for (size_t k = N - 1; k; k--) { s[p] = (s[p] ^ ((s[p - 1] ^ (s[p - 1] >> FS)) * c2)) - T(p); if (++p >= (size_t)N) { s[0] = s[N - 1]; p = 1; } }
    s[0] = T(1) << (sizeof(T) * 8 - 1); i = N;
  }
  T word() { if (i >= N) { for (int k = 0; k < N; k++) { T y = (s[k] & UP) | (s[(k + 1) % N] & LO); s[k] = s[(k + M) % N] ^ (y >> 1) ^ ((y & 1) ? A : 0); } i = 0; } return s[i++]; }
};
template <> struct RefMT<u32> : RefBase<u32, 624, 397, 0x9908B0DFu, 1812433253u, 30, 0x80000000u, 0x7FFFFFFFu> {
  void keys(const u32 * k, size_t n, u32 base) { seed(base); mix(k, n, 1664525u, 1566083941u); }
  u32 next() { u32 y = word(); y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18); }
};
template <> struct RefMT<u64> : RefBase<u64, 312, 156, 0xB5026F5AA96619E9ull, 6364136223846793005ull, 62, 0xFFFFFFFF80000000ull, 0x7FFFFFFFull> {
  void keys(const u64 * k, size_t n, u64 base) { seed(base); mix(k, n, 3935559000370003845ull, 2862933555777941757ull); }
  u64 next() { u64 y = word(); y ^= (y >> 29) & 0x5555555555555555ull; y ^= (y << 17) & 0x71D67FFFEDA60000ull; y ^= (y << 37) & 0xFFF7EEE000000000ull; return y ^ (y >> 43); }
};
static void selftest() {
  static bool done = false; if (done) return; done = true; bool ok = true;
  RefMT<u32> a; a.seed(5489); std::mt19937 x(5489); for (int k = 0; k < 2000; k++) ok &= a.next() == x();
  RefMT<u64> b; b.seed(77); std::mt19937_64 y(77); for (int k = 0; k < 2000; k++) ok &= b.next() == y();
  u32 k1[] = {0x123, 0x234, 0x345, 0x456}; a.keys(k1, 4, 19650218); ok &= a.next() == 1067595299u && a.next() == 955945823u;
  u64 k2[] = {0x12345, 0x23456, 0x34567, 0x45678}; b.keys(k2, 4, 19650218); ok &= b.next() == 7266447313870364031ull && b.next() == 4946485549665804864ull;
  if (!ok) { fprintf(stderr, "reference generator self-test failed\n"); _exit(9); }
}

// ---- generators under test -------------------------------------------------------------------
template <class G, class T> struct GenPool {
  typedef jstd::BasicRandomGenerator<G> B;
  enum { NG = 4 };      // 0..2 objects, 3 the generator behind BasicRandomGenerator
  std::unique_ptr<G> g[3]; RefMT<T> r[4]; const char * nm;
  GenPool(const char * n) : nm(n) { for (int i = 0; i < 3; i++) { T s = T(mix64(i + 1)) | 1; g[i].reset(new G(s)); r[i].seed(s); } B::srand(T(4242)); r[3].seed(4242); }
  static T seedof(const Op & o) { u64 v = ((u64)o.b << 32) | o.c; T s; switch (o.a & 7) { case 0: s = T(o.c & 15); break; case 1: s = T(~0ull) - T(o.c & 3); break; case 2: s = T(1) << (o.c % (sizeof(T) * 8)); break; case 3: s = sizeof(T) == 4 ? T(19650218ull) : T(19650218019770711ull); break; default: s = T(v); } return s ? s : T(1); }
  void seed(const Op & o) {
    int i = o.m % NG; T s = seedof(o); ev(s); u32 how = o.var % 10;
    if (i == 3) { if (how < 5) B::srand(s); else if (how < 8) { B tmp(s); (void)tmp; } else if (how == 8) { B::getInstance().srand(s); } else { B::getInstance() = G(s); } r[3].seed(s); return; }
    std::vector<T> key; u32 len = 1 + o.c % (o.c & 256 ? 900 : 9); for (u32 k = 0; k < len; k++) key.push_back(T(mix64(o.b + k)));
    const T def = sizeof(T) == 4 ? T(19650218ull) : T(19650218019770711ull); (void)def;
    switch (how) {
      case 0: case 1: case 2: g[i]->srand(s); r[i].seed(s); break;
      case 3: g[i].reset(new G(s)); r[i].seed(s); break;
      case 4: *g[i] = G(s); r[i].seed(s); break;
      case 5: g[i]->srand(key.data(), key.size(), s); r[i].keys(key.data(), key.size(), s); break;
      case 6: g[i]->srand(key, s); r[i].keys(key.data(), key.size(), s); break;
      case 7: g[i].reset(new G(key.data(), key.size(), s)); r[i].keys(key.data(), key.size(), s); break;
      case 8: g[i].reset(new G(key, s)); r[i].keys(key.data(), key.size(), s); break;
      default: g[i].reset(new G()); r[i].seed(def);
    }
  }
  void copy(const Op & o) {
    int i = o.m % 3, j = o.m2 % NG; const G & src = j == 3 ? B::getInstance() : *g[j];
    if (o.var & 1) { if (i != j) { G * n = new G(src); g[i].reset(n); r[i] = r[j]; } else { G n(src); *g[i] = n; } }
    else { *g[i] = src; r[i] = r[j]; }
  }
  void draw(const Op & o) {
    int i = o.m % NG; u32 n = 1 + (o.b % (o.c & 1 ? 4 : o.c & 2 ? 700 : 60));
    for (u32 k = 0; k < n && !cur->viol; k++) {
      stats.ops++; u32 how = (o.var + (o.c & 4 ? k : 0)) % 7; u64 got = 0, e1 = 0, e2 = 0; G * q = i == 3 ? nullptr : g[i].get(); RefMT<T> & f = r[i];
      const bool two = sizeof(T) == 4;
      switch (how) {
        case 0: default: got = q ? q->rand() : B::rand(); e1 = e2 = f.next(); break;
        case 1: got = q ? q->nextUInt32() : B::nextUInt32(); e1 = e2 = u32(f.next()); break;
        case 2: got = u32(q ? q->nextInt32() : B::nextInt32()); e1 = e2 = u32(f.next()); break;
        case 3: got = q ? q->nextUInt64() : B::nextUInt64(); goto wide;
        case 4: got = u64(q ? q->nextInt64() : B::nextInt64()); goto wide;
        case 5: got = q ? q->nextUInt() : B::nextUInt(); goto wide;
        case 6: got = u64(q ? q->nextInt() : B::nextInt());
        wide: if (two) { u64 a = f.next(), b = f.next(); e1 = (a << 32) | b; e2 = (b << 32) | a; } else e1 = e2 = f.next(); break;   // the order of the two halves is not promised
      }
      ev(got);
      if (got != e1 && got != e2) violate(V_RNG, "%s generator %d: draw gives %llx, the reference sequence has %llx", nm, i, (unsigned long long)got, (unsigned long long)e1);
    }
  }
  void verify() { for (int i = 0; i < NG && !cur->viol; i++) { u64 got = i == 3 ? B::rand() : g[i]->rand(), want = r[i].next(); if (got != want) violate(V_RNG, "%s generator %d has left its sequence although it was not used", nm, i); } }
};
static const i64 kStep[] = {0, 1, 7, 400, 999, 1000, 1001, 65537, 999999, 1000000, 123456789, 999999999, 1000000000, 1000000001, 59999999999ll, 86400000000000ll};
i64 tick_of(const Op & o) { i64 d; switch (o.var % 8) { case 0: d = 0; break; case 1: d = kStep[o.a % 16]; break; case 2: d = o.a % 1000; break; case 3: d = o.a % 1000000000; break; case 4: d = (i64)o.a * (1 + o.b % 50); break; case 5: d = (i64)o.a * 1000000; break; case 6: d = -(i64)(o.a % 2000000000); break; default: d = -(i64)kStep[o.a % 16]; } return d; }

// A random source that returns what the scenario wants, for the bounded draws.
struct Adv {
  typedef u64 value_type; typedef std::size_t size_type; u64 mode = 0, st = 0;
  void srand(u64 s = 0) { st = s; }
  u64 rand_max() const { return ~0ull; }
  u64 raw() { u64 z = mix64(st++); switch (mode) { case 0: return 0; case 1: return ~0ull; case 2: return 1ull << 63; case 3: return 0x7FFFFFFFFFFFFFFFull; case 4: return 0x80000000ull; case 5: return 0x7FFFFFFFull; case 6: return 0xFFFFFFFFull; case 7: return (z & 1) ? ~(z >> 60) : z >> 60; case 8: return st; case 9: return ~st; case 10: return 0xFFFFFFFF00000000ull; default: return z; } }
  u64 rand() { return raw(); } std::int32_t nextInt32() { return (std::int32_t)raw(); } std::uint32_t nextUInt32() { return (std::uint32_t)raw(); } std::int64_t nextInt64() { return (std::int64_t)raw(); } std::uint64_t nextUInt64() { return raw(); } std::intptr_t nextInt() { return (std::intptr_t)raw(); } std::size_t nextUInt() { return raw(); }
};
template <class I> static I edge(u64 z, u32 sel) { switch (sel % 10) { case 0: return 0; case 1: return std::numeric_limits<I>::max(); case 2: return std::numeric_limits<I>::min(); case 3: return I(std::numeric_limits<I>::max() - I(z % 4)); case 4: return I(std::numeric_limits<I>::min() + I(z % 4)); case 5: return I(z % 16); case 6: return I(0) - I(z % 16); case 7: return I(I(1) << (z % (sizeof(I) * 8 - 1))); case 8: return I(z % 1000); default: return I(z); } }
template <class Fl> static Fl fedge(u64 z, u32 sel) {
  switch (sel % 12) { case 0: return 0; case 1: return Fl(1); case 2: return Fl(-1); case 3: return std::numeric_limits<Fl>::max() / 4; case 4: return -std::numeric_limits<Fl>::max() / 4; case 5: return std::numeric_limits<Fl>::denorm_min() * Fl(z % 9); case 6: return Fl(i64(z >> 20)) / Fl(1 << 20); case 7: return std::nextafter(Fl(1), Fl(2)); case 8: return Fl(0.1) * Fl(z % 100); case 9: return -Fl(0.3) * Fl(z % 77); case 10: return Fl(1e7) + Fl(z % 5); default: return Fl(double(z % 2000003) - 1000000.0) / Fl(333); } }
template <class B, class I, class F2, class F1> static void bounded_int(const Op & o, const char * what, F2 two, F1 one) {
  I a = edge<I>(mix64(o.a), o.b), b = edge<I>(mix64(o.c), o.b / 10); if ((o.b / 100) % 4 == 0) b = a; if ((o.b / 100) % 4 == 1) b = I(typename std::make_unsigned<I>::type(a) + o.c % 7);
  bool single = (o.b / 1000) % 3 == 0; if (single) a = 0; I lo = a < b ? a : b, hi = a < b ? b : a;
  for (u32 k = 0; k < 4 && !cur->viol; k++) { stats.ops++; I v = single ? one(b) : two(a, b); ev((u64)v); if (v < lo || v > hi) violate(V_BOUNDS, "%s(%lld, %lld) returns %lld", what, (long long)a, (long long)b, (long long)v); }
}
template <class B, class Fl, class F2> static void bounded_fl(const Op & o, const char * what, F2 two) {
  Fl a = fedge<Fl>(mix64(o.a), o.b), b = fedge<Fl>(mix64(o.c), o.b / 12); if ((o.b / 150) % 5 == 0) b = a; if ((o.b / 150) % 5 == 1) b = std::nextafter(a, std::numeric_limits<Fl>::max()); Fl lo = a < b ? a : b, hi = a < b ? b : a;
  if (!std::isfinite(hi - lo)) return;
  for (u32 k = 0; k < 4 && !cur->viol; k++) { stats.ops++; Fl v = two(a, b); u64 bits = 0; std::memcpy(&bits, &v, sizeof v); ev(bits); if (!(v >= lo && v <= hi)) violate(V_BOUNDS, "%s(%.17g, %.17g) returns %.17g", what, (double)a, (double)b, (double)v); }
}
template <class B> static void bounded(const Op & o) {
  switch (o.var % 13) {
    case 0: bounded_int<B, std::int32_t>(o, "nextInt32", [](std::int32_t a, std::int32_t b) { return B::nextInt32(a, b); }, [](std::int32_t b) { return B::nextInt32(b); }); break;
    case 1: bounded_int<B, std::uint32_t>(o, "nextUInt32", [](std::uint32_t a, std::uint32_t b) { return B::nextUInt32(a, b); }, [](std::uint32_t b) { return B::nextUInt32(b); }); break;
    case 2: bounded_int<B, std::int64_t>(o, "nextInt64", [](std::int64_t a, std::int64_t b) { return B::nextInt64(a, b); }, [](std::int64_t b) { return B::nextInt64(b); }); break;
    case 3: bounded_int<B, std::uint64_t>(o, "nextUInt64", [](std::uint64_t a, std::uint64_t b) { return B::nextUInt64(a, b); }, [](std::uint64_t b) { return B::nextUInt64(b); }); break;
    case 4: bounded_int<B, std::intptr_t>(o, "nextInt", [](std::intptr_t a, std::intptr_t b) { return B::nextInt(a, b); }, [](std::intptr_t b) { return B::nextInt(b); }); break;
    case 5: bounded_int<B, std::size_t>(o, "nextUInt", [](std::size_t a, std::size_t b) { return B::nextUInt(a, b); }, [](std::size_t b) { return B::nextUInt(b); }); break;
    case 6: bounded_fl<B, float>(o, "nextFloat", [](float a, float b) { return B::nextFloat(a, b); }); break;
    case 7: bounded_fl<B, double>(o, "nextDouble", [](double a, double b) { return B::nextDouble(a, b); }); break;
    case 8: bounded_fl<B, double>(o, "nextDouble53", [](double a, double b) { return B::nextDouble53(a, b); }); break;
    case 9: { float v = B::nextFloat(); if (!(v >= 0 && v <= 1)) violate(V_BOUNDS, "nextFloat() returns %.9g", v); break; }
    case 10: { double v = B::nextDouble(); if (!(v >= 0 && v <= 1)) violate(V_BOUNDS, "nextDouble() returns %.17g", v); break; }
    case 11: { double v = B::nextDouble53(); if (!(v >= 0 && v < 1)) violate(V_BOUNDS, "nextDouble53() returns %.17g", v); break; }
    default: break;
  }
}
// every value of a small range occurs
template <class B> static void occurs(const Op & o) {
  std::int64_t base = edge<std::int64_t>(mix64(o.a), o.b); u32 n = 1 + o.c % 6; if (base > INT64_MAX - 8) base = INT64_MAX - 8; u32 seen = 0; bool swap = o.c & 64; u32 ty = o.c / 128 % 4;
  B::srand(typename B::value_type(mix64(o.a ^ o.c) | 1)); g_rand_mode = 0;
  std::int32_t b32 = (std::int32_t)(base > INT32_MAX - 8 ? INT32_MAX - 8 : base < INT32_MIN ? INT32_MIN : base); std::uint32_t bu = (std::uint32_t)b32; if (bu > UINT32_MAX - 8) bu = UINT32_MAX - 8; std::uint64_t bw = (std::uint64_t)base; if (bw > UINT64_MAX - 8) bw = UINT64_MAX - 8;
  for (u32 k = 0; k < 400 && !cur->viol; k++) {
    u64 off; stats.ops++;
    switch (ty) { case 0: off = u64(std::int64_t(swap ? B::nextInt32(b32 + n - 1, b32) : B::nextInt32(b32, b32 + n - 1)) - b32); break; case 1: off = u64((swap ? B::nextUInt32(bu + n - 1, bu) : B::nextUInt32(bu, bu + n - 1)) - bu); break; case 2: off = u64(swap ? B::nextInt64(base + n - 1, base) : B::nextInt64(base, base + n - 1)) - u64(base); break; default: off = (swap ? B::nextUInt64(bw + n - 1, bw) : B::nextUInt64(bw, bw + n - 1)) - bw; }
    if (off >= n) { violate(V_BOUNDS, "a bounded draw leaves its range of %u values", n); return; } seen |= 1u << off;
  }
  if (seen != (1u << n) - 1) violate(V_BOUNDS, "400 draws from a range of %u values never give some of them (seen mask %x)", n, seen);
}
// seeding with zero: the stream is a function of the clock
template <class G, class T> static void seed_zero(const Op & o, std::map<u64, u64> & seen) {
  typedef jstd::BasicRandomGenerator<G> B; u64 now = u64(g_wall / 1000000000); u64 h[6]; T v[6];
  switch (o.var % 4) {
    case 0: { G g(T(o.a | 1)); for (u32 k = 0; k < o.b % 700; k++) g.rand(); g.srand(T(0)); for (auto & x : v) x = (T)g.rand(); break; }
    case 1: { G g(T(0)); for (auto & x : v) x = (T)g.rand(); break; }
    case 2: { for (u32 k = 0; k < o.b % 700; k++) B::rand(); B::srand(0); for (auto & x : v) x = (T)B::rand(); break; }
    default: { B b; (void)b; for (auto & x : v) x = (T)B::rand(); break; }
  }
  u64 s = 7; for (int k = 0; k < 6; k++) { h[k] = v[k]; s = mix64(s ^ h[k]); } ev(s); stats.ops++;
  for (auto & e : seen) { if (e.first == now && e.second != s) { violate(V_RNG, "equal clock readings (%llu) give different streams after seeding with zero", (unsigned long long)now); return; } if (e.first != now && e.second == s) { violate(V_RNG, "clock readings %llu and %llu give the same stream after seeding with zero", (unsigned long long)now, (unsigned long long)e.first); return; } }
  seen[now] = s;
}
void run_rng(const Scenario & sc) {
  selftest(); g_wall = kT0; g_rand_mode = 0; g_rand_state = 99; i64 simt = 0;
  bool bounds = sc.prop == "C19";
  std::map<u64, u64> seen[3];
  if (!bounds) {
    auto p32 = std::make_unique<GenPool<jstd::MT19937_32, u32>>("32-bit"); auto p64 = std::make_unique<GenPool<jstd::MT19937_64, u64>>("64-bit");
    for (auto & o : sc.worlds[0].ops) { if (cur->viol) return; stats.opk[o.kind]++; bool w = o.m & 64; ev(o.kind * 1000 + o.m);
      switch (o.kind) { case O_DRAW: if (w) p64->draw(o); else p32->draw(o); break; case O_SEED: if (w) p64->seed(o); else p32->seed(o); break; case O_GCOPY: if (w) p64->copy(o); else p32->copy(o); break; case O_TICK: { i64 d = tick_of(o); g_wall += d; simt += d < 0 ? -d : d; break; } default: break; } }
    if (!cur->viol) p32->verify(); if (!cur->viol) p64->verify();
  } else {
    auto & ad = jstd::BasicRandomGenerator<Adv>::getInstance(); ad.mode = 0; ad.st = 1;
    jstd::MtRandomGen32::srand(11); jstd::MtRandomGen64::srand(12); jstd::RandomGen::srand(13);
    for (auto & o : sc.worlds[0].ops) { if (cur->viol) return; stats.opk[o.kind]++; ev(o.kind * 1000 + o.var);
      switch (o.kind) {
        case O_BOUND: switch (o.m % 6) { case 0: case 1: case 2: ad.mode = o.m2 % 14; bounded<jstd::BasicRandomGenerator<Adv>>(o); break; case 3: g_rand_mode = o.m2 % 6; bounded<jstd::RandomGen>(o); g_rand_mode = 0; break; case 4: bounded<jstd::MtRandomGen32>(o); break; default: bounded<jstd::MtRandomGen64>(o); } break;
        case O_OCCUR: switch (o.m % 3) { case 0: occurs<jstd::RandomGen>(o); break; case 1: occurs<jstd::MtRandomGen32>(o); break; default: occurs<jstd::MtRandomGen64>(o); } break;
        case O_SEED: switch (o.m % 3) { case 0: seed_zero<jstd::MT19937_32, u32>(o, seen[0]); break; case 1: seed_zero<jstd::MT19937_64, u64>(o, seen[1]); break; default: { Op q = o; q.var = o.var | 2; seed_zero<jstd::LibcRandom, u32>(q, seen[2]); } } break;
        case O_TICK: { i64 d = tick_of(o); if (g_wall + d < 1000000000ll || g_wall + d > 4200000000000000000ll) d = 0; g_wall += d; simt += d < 0 ? -d : d; break; }
        default: break; } }
  }
  stats.probes[15] = (u64)simt; g_wall = kT0;
}

// ---- stopwatches -------------------------------------------------------------------------------
struct Mod { i64 s = 0, e = 0, total = 0, elapsed = 0; bool running = false, have = false, pending = false, elapsed_ok = false, fresh = false; u32 terms = 0; };
struct IWatch { virtual ~IWatch() {} virtual void act(const Op & o) = 0; };
template <class SW> struct WatchBase : IWatch {
  enum { NW = 3 }; alignas(SW) char raw[NW][sizeof(SW)]; Mod md[NW]; i64 (*clk)(); i64 per_sec; const char * nm;
  typename SW::time_point_t tp; i64 tpv = 0; bool have_tp = false; 
  bool zeroed = false;      // reading a stopwatch that was just reset
  bool micros = false;      // does the clock count microseconds?
  SW & w(int i) { return *reinterpret_cast<SW *>(raw[i]); }
  void check(double got, i64 units, double mult, u32 terms, const char * what, int i) {
    long double want = (long double)units / per_sec * mult; stats.ops++; u64 bits; std::memcpy(&bits, &got, 8); ev(bits);
    long double tol = (4e-10L + 1e-14L * fabsl((long double)units / per_sec)) * mult * (terms + 1);
    if (fabsl((long double)got - want) <= tol) return;
    if (micros && fabsl((long double)got - want * 1e6L) <= tol * 1e6L) violate(V_CLOCK, "%s takes microseconds for seconds: %s gives %.12g, the clock advanced by %.12Lg", nm, what, got, want);
    else if (zeroed) violate(V_CLOCK, "%s %d: %s of a new or reset stopwatch that was not started gives %.12g", nm, i, what, got);
    else violate(V_CLOCK, "%s %d: %s gives %.12g, the clock advanced by %.12Lg", nm, i, what, got, want);
  }
};
#define UNIT4(OBJ, FN, UNITS, TERMS, IDX, SEL) switch ((SEL) % 5) { case 0: this->check(OBJ.FN##Nanosec(), UNITS, 1e9, TERMS, #FN "Nanosec", IDX); break; case 1: this->check(OBJ.FN##Microsec(), UNITS, 1e6, TERMS, #FN "Microsec", IDX); break; case 2: this->check(OBJ.FN##Millisec(), UNITS, 1e3, TERMS, #FN "Millisec", IDX); break; case 3: this->check(OBJ.FN##Second(), UNITS, 1, TERMS, #FN "Second", IDX); break; default: this->check(OBJ.FN##Time(), UNITS, 1, TERMS, #FN "Time", IDX); }
#define UNIT4N(OBJ, FN, UNITS, TERMS, IDX, SEL) switch ((SEL) % 4) { case 0: this->check(OBJ.FN##Nanosec(), UNITS, 1e9, TERMS, #FN "Nanosec", IDX); break; case 1: this->check(OBJ.FN##Microsec(), UNITS, 1e6, TERMS, #FN "Microsec", IDX); break; case 2: this->check(OBJ.FN##Millisec(), UNITS, 1e3, TERMS, #FN "Millisec", IDX); break; default: this->check(OBJ.FN##Second(), UNITS, 1, TERMS, #FN "Second", IDX); }
template <class SW> static bool common(WatchBase<SW> & b, const Op & o, int i) {
  SW & w = b.w(i); Mod & m = b.md[i]; i64 now = b.clk();
  switch (o.a % 8) {
    case 0: { const SW & cw = w; switch (o.b % 6) { case 0: b.check(cw.peekElapsedNanosec(), now - m.s, 1e9, 0, "peekElapsedNanosec", i); break; case 1: b.check(cw.peekElapsedMicrosec(), now - m.s, 1e6, 0, "peekElapsedMicrosec", i); break; case 2: b.check(cw.peekElapsedMillisec(), now - m.s, 1e3, 0, "peekElapsedMillisec", i); break; case 3: b.check(cw.peekElapsedSecond(), now - m.s, 1, 0, "peekElapsedSecond", i); break; case 4: b.check(w.currentTimeMillis(), now - m.s, 1e3, 0, "currentTimeMillis", i); break; default: b.check(cw.peekElapsedTime(), now - m.s, 1, 0, "peekElapsedTime", i); } return true; }
    case 1: b.tp = SW::now(); b.tpv = now; b.have_tp = true; return true;
    case 2: if (b.have_tp) { auto d = SW::duration(SW::now(), b.tp); i64 u = now - b.tpv; switch (o.b % 4) { case 0: b.check(d.nanosecs(), u, 1e9, 0, "duration().nanosecs", i); break; case 1: b.check(d.microsecs(), u, 1e6, 0, "duration().microsecs", i); break; case 2: b.check(d.millisecs(), u, 1e3, 0, "duration().millisecs", i); break; default: b.check(d.seconds(), u, 1, 0, "duration().seconds", i); } } return true;
    default: return false;
  }
}
template <class SW> struct BaseWatch : WatchBase<SW> {
  BaseWatch(const char * n, i64 (*c)(), i64 ps) { this->nm = n; this->clk = c; this->per_sec = ps; for (int i = 0; i < this->NW; i++) make(i); }
  void make(int i) { new (this->raw[i]) SW(); this->md[i] = Mod(); this->md[i].s = this->md[i].e = this->clk(); this->md[i].have = true; }
  void act(const Op & o) override {
    int i = o.m2 % this->NW; SW & w = this->w(i); Mod & m = this->md[i]; i64 now = this->clk();
    switch (o.var % 12) {
      case 0: case 1: w.start(); m.s = now; m.have = false; break;
      case 2: case 3: w.stop(); m.e = now; m.have = true; break;
      case 4: w.restart(); m.s = m.e = now; m.have = true; break;
      case 5: w.reset(); m.s = m.e = now; m.have = true; break;
      case 6: { int j = o.b % this->NW; if (j != i) { new (this->raw[i]) SW(this->w(j)); this->md[i] = this->md[j]; } break; }
      case 7: if (o.b % 4 == 0) make(i); break;
      case 8: case 9: if (m.have) { UNIT4(w, getElapsed, m.e - m.s, 0, i, o.b) } break;
      default: common(*this, o, i);
    }
  }
};
template <class SW> struct ExWatch : WatchBase<SW> {
  bool kf = false;
  ExWatch(const char * n, i64 (*c)(), i64 ps) { this->nm = n; this->clk = c; this->per_sec = ps; for (int i = 0; i < this->NW; i++) make(i); }
  void make(int i) { std::memset(this->raw[i], 0x5A, sizeof(SW)); new (this->raw[i]) SW(); zero(this->md[i]); }
  void zero(Mod & m) { i64 n = this->clk(); m = Mod(); m.s = m.e = n; m.have = m.elapsed_ok = m.fresh = true; }
  void stop(Mod & m) { if (m.running) { m.e = this->clk(); m.elapsed = m.e - m.s; m.running = false; m.have = m.elapsed_ok = m.pending = true; } }
  void act(const Op & o) override {
    int i = o.m2 % this->NW; SW & w = this->w(i); Mod & m = this->md[i]; i64 now = this->clk();
    auto start = [&] { if (!m.running) { m.fresh = false; m.s = now; m.elapsed = 0; m.running = true; m.have = m.pending = false; m.elapsed_ok = true; } };
    switch (o.var % 24) {
      case 0: case 1: case 2: w.start(); start(); break;
      case 3: case 4: w.stop(); stop(m); break;
      case 5: case 6: w.pause(); if (m.running) { stop(m); m.total += m.elapsed; m.terms++; m.pending = false; } break;
      case 7: case 8: w.resume(); start(); break;
      case 9: if (o.b % 3 == 0) { w.restart(); zero(m); m.fresh = false; m.running = true; m.have = false; } break;
      case 10: if (o.b % 3 == 0) { w.reset(); zero(m); } break;
      case 11: case 12: if (m.running || m.pending) { w.again(); stop(m); m.total += m.elapsed; m.terms++; m.elapsed = 0; m.pending = m.have = m.elapsed_ok = false; } break;
      case 13: w.mark_start(); m.fresh = false; m.s = now; m.running = true; m.have = m.pending = m.elapsed_ok = false; break;
      case 14: if (m.running) { w.mark_stop(); m.e = now; m.running = false; m.have = true; m.pending = m.elapsed_ok = false; } break;
      case 15: { int j = o.b % this->NW; if (j != i) { new (this->raw[i]) SW(this->w(j)); this->md[i] = this->md[j]; } break; }
      case 16: if (m.running || m.elapsed_ok) { stop(m); UNIT4(w, getElapsed, m.elapsed, 0, i, o.b) } break;
      case 17: case 18: if (!m.running && m.have) { if (m.fresh) { if (!kf) break; this->zeroed = true; } UNIT4N(w, getDuration, m.e - m.s, 0, i, o.b) this->zeroed = false; } break;
      case 19: case 20: case 21: { const SW & cw = w; switch (o.b % 5) { case 0: this->check(cw.getTotalNanosec(), m.total, 1e9, m.terms, "getTotalNanosec", i); break; case 1: this->check(cw.getTotalMicrosec(), m.total, 1e6, m.terms, "getTotalMicrosec", i); break; case 2: this->check(cw.getTotalMillisec(), m.total, 1e3, m.terms, "getTotalMillisec", i); break; case 3: this->check(cw.getTotalSecond(), m.total, 1, m.terms, "getTotalSecond", i); break; default: this->check(cw.getTotalElapsedTime(), m.total, 1, m.terms, "getTotalElapsedTime", i); } break; }
      default: common(*this, o, i);
    }
  }
};
static i64 wall_ns() { return g_wall; } static i64 wall_us() { return g_wall / 1000; } static i64 cpu_us() { return g_cpu; }
void run_clock(const Scenario & sc) {
  g_wall = kT0 + (i64)sc.get("skew"); g_cpu = (i64)sc.get("cpu"); i64 simt = 0;
  typedef jtest::defaultStopWatchImpl<double> Tv;
  std::unique_ptr<IWatch> w[6];
  w[0].reset(new BaseWatch<jtest::StopWatch>("StopWatch", wall_ns, 1000000000)); w[1].reset(new ExWatch<jtest::StopWatchEx>("StopWatchEx", wall_ns, 1000000000));
  w[2].reset(new BaseWatch<jtest::clockStopWatch>("clockStopWatch", cpu_us, CLOCKS_PER_SEC)); w[3].reset(new ExWatch<jtest::clockStopWatchEx>("clockStopWatchEx", cpu_us, CLOCKS_PER_SEC));
  const bool kf = sc.get("fresh"); static_cast<ExWatch<jtest::StopWatchEx> *>(w[1].get())->kf = static_cast<ExWatch<jtest::clockStopWatchEx> *>(w[3].get())->kf = kf;
  auto * w4 = new BaseWatch<jtest::StopWatchBase<Tv>>("timeval StopWatch", wall_us, 1000000); auto * w5 = new ExWatch<jtest::StopWatchExBase<Tv>>("timeval StopWatchEx", wall_us, 1000000); w4->micros = w5->micros = true; w[4].reset(w4); w[5].reset(w5);
  const bool tv = sc.get("timeval");
  for (auto & o : sc.worlds[0].ops) {
    if (cur->viol) break; stats.opk[o.kind]++; ev(o.kind * 1000 + o.var);
    if (o.kind == O_TICK) { i64 d = tick_of(o); if (g_wall + d < 1000000000000000000ll || g_wall + d > 4000000000000000000ll) d = 0; g_wall += d; i64 cd = (o.c & 3) == 0 ? 0 : (o.c & 3) == 1 ? d / 1000 : (i64)(o.c % 5000000); if (g_cpu + cd > 0) g_cpu += cd; simt += d < 0 ? -d : d; ev((u64)g_wall); }
    else if (o.kind == O_WATCH) w[o.m % (tv ? 6 : 4)]->act(o);
  }
  stats.probes[15] = (u64)simt; g_wall = kT0; g_cpu = 5000;
}
static Op rop(Rng & r, int kind) { Op o; o.kind = (u8)kind; o.m = (u8)r.below(256); o.m2 = (u8)r.below(256); o.var = (u8)r.below(256); o.a = (u32)r.next(); o.b = (u32)r.next(); o.c = (u32)r.next(); return o; }
void gen_rng(Scenario & s, Rng & r) {
  s.kind = "rng"; World w; w.engine = "rng/all"; u32 n = 10 + (u32)r.below(r.chance(20) ? 300 : 60); u32 pd = 20 + (u32)r.below(60), pc = (u32)r.below(30); u8 focus = (u8)r.below(256); bool foc = r.chance(40); bool b = s.prop == "C19";
  for (u32 i = 0; i < n; i++) {
    if (b) { u32 z = (u32)r.below(100); w.ops.push_back(rop(r, z < 75 ? O_BOUND : z < 80 ? O_OCCUR : z < 90 ? O_SEED : O_TICK)); }
    else { Op o = rop(r, r.below(100) < pd ? O_DRAW : r.chance(pc) ? O_GCOPY : r.chance(90) ? O_SEED : O_TICK); if (foc && r.chance(50)) o.m = focus; w.ops.push_back(o); }
  }
  s.worlds.push_back(w);
}
void gen_time(Scenario & s, Rng & r) {
  s.kind = "time"; World w; w.engine = "time/all"; u32 n = 10 + (u32)r.below(r.chance(20) ? 300 : 60), pt = 10 + (u32)r.below(40), ps = 5 + (u32)r.below(60); u32 tv = (u32)r.below(9);
  u32 e = (u32)r.below(6); s.cfg["epoch"] = e == 0 ? 1000000000ull + r.below(1000000000000ull) : e == 1 ? 7000000000000000000ull + r.below(1ull << 58) : e == 2 ? (1ull << 53) - 500000000 + r.below(1000000000) : e == 3 ? r.below(4000000000000000000ull) + 1000000000 : 0;
  for (u32 i = 0; i < n; i++) { Op o = rop(r, r.chance(pt) ? O_TICK : r.chance(ps) ? O_SLEEP : O_TIME); if (o.kind == O_TICK && tv < 8 && r.chance(60)) o.var = (u8)tv; w.ops.push_back(o); }
  s.worlds.push_back(w);
}
void gen_clock(Scenario & s, Rng & r) {
  s.kind = "clock"; World w; w.engine = "clock/all"; u32 n = 20 + (u32)r.below(r.chance(20) ? 800 : 150); u8 focus = (u8)r.below(6), f2 = (u8)r.below(3); bool foc = r.chance(70); u32 pt = 20 + (u32)r.below(40); u32 tv = (u32)r.below(9);
  s.cfg["fresh"] = r.below(10000) == 0; s.cfg["timeval"] = r.below(10000) == 0; s.cfg["skew"] = r.below(2000000000000ull); s.cfg["cpu"] = 1 + r.below(r.chance(50) ? 1000 : 1ull << 40);
  for (u32 i = 0; i < n; i++) { Op o = rop(r, r.chance(pt) ? O_TICK : O_WATCH); if (o.kind == O_WATCH && foc && r.chance(85)) { o.m = focus; if (r.chance(70)) o.m2 = f2; } if (o.kind == O_TICK && tv < 8 && r.chance(60)) o.var = (u8)tv; w.ops.push_back(o); }
  s.worlds.push_back(w);
}
} // namespace sim
