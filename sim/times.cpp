// Time helpers and sleeps (C24) under a simulated wall clock, a simulated true time and
// simulated signals: every sleeping call of libc is interposed here.
#include "core.h"
#include "scenario.h"
#include <jstd/system/time.h>
#include <jstd/system/sleep.h>
#include <cerrno>
#include <climits>
#include <cmath>
#include <ctime>
#include <sys/select.h>
#include <poll.h>

namespace sim {
static u32 g_intr = 0, g_intr_mode = 0; static u64 g_intr_rnd = 0, g_calls = 0, g_interrupted = 0; static i64 g_over = 0, g_over_sum = 0, g_jump = 0; static bool g_sleeping = false;
static void pass(i64 ns) { g_true += ns; if (g_wall > 8000000000000000000ll - ns) g_wall = 1000000000000000000ll; g_wall += ns; }
// Sleeps for ns of true time unless a signal arrives; returns what is left.
static i64 nap(i64 ns) {
  g_calls++; if (ns < 0) ns = 0;
  if (g_sleeping && g_intr && ns > 0) {
    g_intr--; g_interrupted++; u64 z = g_intr_rnd = mix64(g_intr_rnd); i64 slept; switch (g_intr_mode & 3) { case 0: slept = 0; break; case 1: slept = ns - 1; break; case 2: slept = (i64)(z % (u64)ns); break; default: slept = (i64)(z % 1000) < ns ? (i64)(z % 1000) : ns - 1; }
    pass(slept); if (g_jump) { i64 w = g_wall + g_jump; if (w > 1000000000ll && w < 8000000000000000000ll) g_wall = w; g_jump = 0; } errno = EINTR; return ns - slept;
  }
  i64 o = g_over ? (i64)(mix64(g_intr_rnd + g_calls) % (u64)g_over) : 0; g_over_sum += o; pass(ns + o); return 0;
}
static int ts_sleep(const timespec * q, timespec * rem) { if (q->tv_sec < 0 || q->tv_nsec < 0 || q->tv_nsec > 999999999) { errno = EINVAL; return -1; } i64 r = nap(q->tv_sec * 1000000000ll + q->tv_nsec); if (!r) return 0; if (rem) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; } return -1; }
}
extern "C" {
int nanosleep(const timespec * q, timespec * rem) { return sim::ts_sleep(q, rem); }
int clock_nanosleep(clockid_t c, int flags, const timespec * q, timespec * rem) {
  if (!(flags & TIMER_ABSTIME)) return sim::ts_sleep(q, rem) ? errno : 0;
  sim::i64 now = c == CLOCK_REALTIME ? sim::g_wall : sim::g_true, left = q->tv_sec * 1000000000ll + q->tv_nsec - now; if (left <= 0) return 0; return sim::nap(left) ? EINTR : 0;
}
int usleep(useconds_t us) { return sim::nap((sim::i64)us * 1000) ? -1 : 0; }
unsigned sleep(unsigned s) { sim::i64 r = sim::nap((sim::i64)s * 1000000000ll); return (unsigned)((r + 999999999) / 1000000000); }
int select(int, fd_set *, fd_set *, fd_set *, timeval * t) { return t && sim::nap(t->tv_sec * 1000000000ll + t->tv_usec * 1000ll) ? -1 : 0; }
int poll(pollfd *, nfds_t, int ms) { return sim::nap(ms * 1000000ll) ? -1 : 0; }
}
namespace sim {
static void ck_int(const char * what, i64 got, i64 ns, i64 unit) {
  i64 t = ns / unit, f = ns % unit < 0 ? t - 1 : t; stats.ops++; ev((u64)got);
  if (got != t && got != f) violate(V_CLOCK, "%s gives %lld, the clock says %lld ns", what, (long long)got, (long long)ns);
}
static void ck_fl(const char * what, double got, i64 ns, double unit) {
  long double want = (long double)ns / unit; u64 b; std::memcpy(&b, &got, 8); stats.ops++; ev(b);
  if (!(fabsl(got - want) <= fabsl(want) * 4e-15L + 1e-14L)) violate(V_CLOCK, "%s gives %.17g, the clock says %lld ns", what, got, (long long)ns);
}
static unsigned dur_of(const Op & o) {
  switch (o.a % 12) { case 0: return 0; case 1: return 1; case 2: return 998 + o.b % 5; case 3: return o.b % 1000; case 4: return o.b % 100000; case 5: return 4294965 + o.b % 6; case 6: return UINT_MAX - o.b % 4; case 7: return 1u << (o.b % 32); case 8: return 4294967u * (1 + o.b % 900) + o.c % 3; case 9: return 1000 * (o.b % 5000); case 10: return 2147480 + o.b % 8; default: return o.b; }
}
void run_time(const Scenario & sc) {
  const i64 kT0 = 1700000000000000000ll; g_wall = sc.get("epoch") ? (i64)sc.get("epoch") : kT0; g_true = 1000; i64 simt = 0; jmc_timestamp_t ts[4]; i64 at[4]; for (int i = 0; i < 4; i++) { ts[i] = jmc_get_timestamp(); at[i] = g_wall; }
  for (auto & o : sc.worlds[0].ops) {
    if (cur->viol) break; stats.opk[o.kind]++; ev(o.kind * 1000 + o.var); int s = o.m % 4;
    if (o.kind == O_TICK) { i64 d = tick_of(o); if (g_wall + d < 1000000000ll || g_wall + d > 8000000000000000000ll) d = 0; g_wall += d; if (d > 0 && (o.c & 1)) g_true += d; simt += d < 0 ? -d : d; ev((u64)g_wall); }
    else if (o.kind == O_TIME) switch (o.var % 14) {
      case 0: ck_int("jmc_get_nanosec()", jmc_get_nanosec(), g_wall, 1); break;
      case 1: ck_int("jmc_get_millisec()", jmc_get_millisec(), g_wall, 1000000); break;
      case 2: ck_fl("jmc_get_second()", jmc_get_second(), g_wall, 1e9); break;
      case 3: ck_fl("jmc_get_millisecf()", jmc_get_millisecf(), g_wall, 1e6); break;
      case 4: case 5: ts[s] = jmc_get_timestamp(); at[s] = g_wall; break;
      case 6: ck_int("jmc_get_elapsedtime_ms()", jmc_get_elapsedtime_ms(ts[s]), g_wall - at[s], 1000000); break;
      case 7: ck_fl("jmc_get_elapsedtime_msf()", jmc_get_elapsedtime_msf(ts[s]), g_wall - at[s], 1e6); break;
      case 8: case 9: ck_fl("jmc_get_elapsedtime_sec()", jmc_get_elapsedtime_sec(ts[s]), g_wall - at[s], 1e9); break;
      default: { int q = o.m2 % 4; jmc_timestamp_t d = ts[s] - ts[q]; i64 n = at[s] - at[q]; if (o.c % 5 == 0) { jmc_timestamp_t now = jmc_get_timestamp(); d = now - ts[q]; n = g_wall - at[q]; }
        switch (o.b % 3) { case 0: ck_int("jmc_get_interval_ms()", jmc_get_interval_ms(d), n, 1000000); break; case 1: ck_fl("jmc_get_interval_msf()", jmc_get_interval_msf(d), n, 1e6); break; default: ck_fl("jmc_get_interval_sec()", jmc_get_interval_sec(d), n, 1e9); } } }
    else if (o.kind == O_SLEEP) {
      unsigned ms = dur_of(o); bool w = o.m2 & 1; if (w && ms == 0) ms = 1; u32 k = o.var % 8; g_intr = k < 3 ? 0 : k < 6 ? k - 2 : 1 + o.c % 40; g_intr_mode = o.var >> 3; g_intr_rnd = o.c; g_over = (o.m2 >> 1) % 3 ? (i64)(o.c % 200000) : 0; g_over_sum = 0; g_calls = g_interrupted = 0; g_jump = (o.m2 >> 3) % 3 == 0 ? tick_of(o) : 0; i64 t0 = g_true;
      g_sleeping = true; if (w) jstd::thread_wsleep(ms); else jstd::thread_sleep(ms); g_sleeping = false; stats.ops++; stats.faults += g_interrupted; cur->fired_total[F_SIGNAL] += g_interrupted;
      i64 took = g_true - t0, want = (i64)ms * 1000000ll; ev((u64)took); ev(g_calls); simt += took;
      if (took < want) violate(V_CLOCK, "%s(%u) returns after %lld ns (%llu interruptions)", w ? "thread_wsleep" : "thread_sleep", ms, (long long)took, (unsigned long long)g_interrupted);
      else if (took - want > g_over_sum + 1000000 + (i64)g_calls * 1000) violate(V_CLOCK, "%s(%u) returns only after %lld ns (%llu interruptions)", w ? "thread_wsleep" : "thread_sleep", ms, (long long)took, (unsigned long long)g_interrupted);
    }
  }
  stats.probes[15] = (u64)simt; g_wall = kT0; g_true = -1;
}
static struct Reg { Reg() { g_run_time = run_time; } } reg_;
} // namespace sim
