// X01: time-base conversions, every tick of whole seconds and windows around every boundary.
#include "mc.h"
#include <string.h>
#include <sys/time.h>
#include <time.h>
extern "C" {
#include "sphtimer.h"
int sphgtod(struct timeval *, struct timezone *); sphtimer_t sphget_gtod_conv_factor(void); int sphtb2gtod_withfactor(struct timeval *, sphtimer_t, sphtimer_t);
int sphgettime(struct timespec *); sphtimer_t sphget_gettime_conv_factor(void); int sphtb2gettime_withfactor(struct timespec *, sphtimer_t, sphtimer_t);
void __sphgtod_init(void) __attribute__((weak)); void __sphgettime_init(void) __attribute__((weak));
}
using namespace mc;
typedef unsigned __int128 u128; typedef uint64_t u64;
static u64 FREQ = 1000000000ull;
static bool init_lib(u64 freq) { watchdog(60); FREQ = freq; sph_cpu_frequency = freq; if (!__sphgtod_init || !__sphgettime_init) return false; __sphgtod_init(); __sphgettime_init(); return true; }
// results as one number of units
template <int NS> static inline bool conv(u64 ts, u64 f, u64 &sec, u64 &sub) {
  if (NS) { struct timespec t; t.tv_sec = t.tv_nsec = -7; int rc = sphtb2gettime_withfactor(&t, ts, f); sec = t.tv_sec; sub = t.tv_nsec; return rc == 0; }
  struct timeval t; t.tv_sec = t.tv_usec = -7; int rc = sphtb2gtod_withfactor(&t, ts, f); sec = t.tv_sec; sub = t.tv_usec; return rc == 0;
}
// every tick from lo to hi (inclusive, as values of time stamp plus factor)
template <int NS> static void sweep(u64 lo, u64 hi, u64 f, bool exact = true) {
  const u64 U = NS ? 1000000000ull : 1000000ull; u64 ps = 0, pu = 0; bool first = true; heartbeat();
  for (u64 t = lo;; t++) {
    u64 sec, sub; bool ok = conv<NS>(t - f, f, sec, sub);
    bool range = sub < U, mono = first || sec > ps || (sec == ps && sub >= pu);
    // |result - t/FREQ| <= one unit, exactly:  |(sec*U + sub) * FREQ - t * U| <= FREQ
    bool near; { u64 s0 = t / FREQ, r0 = t % FREQ; __int128 d = ((__int128)(int64_t)(sec - s0) * U + (__int128)sub) * FREQ - (__int128)r0 * U; near = d <= (__int128)FREQ && -d <= (__int128)FREQ; }
    if (__builtin_expect(!(ok && range && mono && near), 0)) {
      const char *n = NS ? "sphtb2gettime_withfactor" : "sphtb2gtod_withfactor"; where = strf("%s(%llu, %llu)", n, (unsigned long long)(t - f), (unsigned long long)f); path_names = {where};
      MC_CHECK(ok, "rc", "%s failed", n); MC_CHECK(range, "range", "the sub-second part is %llu", (unsigned long long)sub);
      MC_CHECK(mono, "monotone", "tick %llu converts to %llu.%09llu, the tick before it to %llu.%09llu", (unsigned long long)t, (unsigned long long)sec, (unsigned long long)sub, (unsigned long long)ps, (unsigned long long)pu);
      MC_CHECK(near, "instant", "tick %llu at %llu Hz converts to %llu s and %llu units of 1/%llu s", (unsigned long long)t, (unsigned long long)FREQ, (unsigned long long)sec, (unsigned long long)sub, (unsigned long long)U); return;
    }
    first = false; ps = sec; pu = sub; if (t == hi) break;
  }
  st.states += hi - lo + 1; st.transitions += hi - lo + 1; st.evaluations += hi - lo + 1; st.executions++;
}
static void both(u64 lo, u64 hi, u64 f) { sweep<0>(lo, hi, f); sweep<1>(lo, hi, f); }
static int part_i; static bool part() { return part_i++ % opts.nshards == opts.shard; }
// whole seconds, in slices so that every shard has a share; slices overlap by one tick so that order is checked across them
MC_CONFIG(secs, "whole-seconds", 8, 8) {
  init_lib(1000000000ull); std::vector<u64> secs = {0, 1782000000ull}; if (opts.thorough) for (u64 s : {1ull, 2ull, 4294967295ull, 4294967296ull, 1700000001ull, 18446744072ull, 9223372036ull, 2147483647ull, 2147483648ull, 123456789ull, 999999999ull, 1000000000ull}) secs.push_back(s);
  for (u64 s : secs) for (int k = 0; k < 40; k++) if (part()) { u64 lo = s * 1000000000ull + k * 25000000ull; both(lo ? lo - 1 : 0, lo + 25000000ull, k % 3 == 0 ? 0 : k % 3 == 1 ? s * 1000000000ull : 0x123456789abcdefull * k); }
  sample(strf("every tick of the seconds 0 and 1782000000%s", opts.thorough ? " and twelve more" : ""));
}
// windows around every power of two, as seconds and as ticks, and around many second boundaries, for factors of every width
MC_CONFIG(bounds, "boundaries", 8, 8) {
  init_lib(1000000000ull); int W = opts.thorough ? 20000 : 2500; std::vector<u64> at, fs = {0, 1, ~0ull, 1ull << 63, 999999999ull, 1000000000ull, ~0ull - 999999999ull};
  for (int k = 0; k <= 63; k++) { at.push_back(1ull << k); fs.push_back(1ull << k); fs.push_back(-(1ull << k)); if (k <= 34) for (int d = -1; d <= 1; d++) { u128 v = (u128)((1ull << k) + d) * 1000000000ull; if (v >> 64 == 0) at.push_back(v); } }
  at.push_back(0); at.push_back(~0ull); at.push_back(18446744073ull * 1000000000ull);
  for (u64 a : at) if (part()) for (u64 f : fs) both(a < (u64)W ? 0 : a - W, a > ~0ull - W ? ~0ull : a + W, f);
  int n = opts.thorough ? 200000 : 8000; for (int i = 0; i < n; i++) if (part()) { u64 s = 1500000000ull + i * (opts.thorough ? 2003ull : 50021ull); both(s * 1000000000ull - 1100, s * 1000000000ull + 1100, i & 1 ? 0 : s * 977); }
  sample(strf("windows of %d ticks around %zu boundaries for %zu conversion factors", 2 * W + 1, at.size(), fs.size()));
}
// other frequencies the library can be told (PowerPC time bases, cycle counters)
MC_CONFIG(freqs, "frequencies", 8, 8) {
  for (u64 f : {512000000ull, 25000000ull, 24000000ull, 100000000ull, 2400000000ull, 3700000000ull, 4999999999ull, 1000000ull, 999983ull, 1000003ull, 33333333ull, 1ull, 3ull, 7ull, 1000ull}) {
    if (!part()) continue; if (!init_lib(f)) return; int W = opts.thorough ? 100000 : 8000;
    for (u64 s : {0ull, 1ull, 2ull, 3600ull, 1ull << 20, 1700000000ull, 2147483647ull, 2147483648ull}) { u128 a = (u128)s * f; if (a >> 63) continue; for (u64 off : {(u64)0, f / 2, f / 3, f - 1}) { u64 c = (u64)a + off; both(c < (u64)W ? 0 : c - W, c + W, s * 12345); } }
    if (f <= 1000003) both(0, 3 * f + 10, 5);
    for (int k = 0; k < 64; k++) both((1ull << k) < (u64)W ? 0 : (1ull << k) - W, (1ull << k) + W - 1, 0);
    sample(strf("%llu ticks per second", (unsigned long long)f));
  }
}
// the factors taken at start, and the current time they give
MC_CONFIG(start, "start-up", 8, 8) {
  if (!__sphgtod_init || !__sphgettime_init) return; watchdog(60); sph_cpu_frequency = FREQ = 1000000000ull;
  std::vector<u64> clocks, tods; for (int k = 0; k < 60; k += opts.thorough ? 1 : 3) for (int d = -1; d <= 1; d++) clocks.push_back((1ull << k) + d);
  for (u64 s : {0ull, 1ull, 1699999999ull, 1700000000ull, 2147483647ull, 2147483648ull, 4294967295ull, 4294967296ull, 9000000000ull}) for (u64 u : {0ull, 1ull, 499999ull, 500000ull, 999999ull}) tods.push_back(s * 1000000 + u);
  for (u64 c : clocks) for (u64 t : tods) {
    if (!part()) continue; st.executions++; st.states++; fixed_time = c; fixed_tod = t; where = strf("started at clock %llu ns, time of day %llu us", (unsigned long long)c, (unsigned long long)t); path_names = {where}; __sphgtod_init(); __sphgettime_init();
    u64 ps = 0, pu = 0;
    for (u64 d : {0ull, 1ull, 2ull, 999ull, 1000ull, 1001ull, 500000000ull, 999999999ull, 1000000000ull, 86400000000000ull, 1000000000000000000ull}) {
      fixed_time = c + d; struct timeval tv; struct timespec ts; int r1 = sphgtod(&tv, 0), r2 = sphgettime(&ts); st.transitions++; st.evaluations++;
      // one unit of the result, plus one tick for the averaged reading of the clock
      __int128 want = (__int128)t * 1000 + d, got = (__int128)tv.tv_sec * 1000000000ll + (__int128)tv.tv_usec * 1000; MC_CHECK(r1 == 0 && tv.tv_usec >= 0 && tv.tv_usec < 1000000 && got - want <= 1001 && want - got <= 1001, "now-tod", "%llu ns after the start the time of day is %ld.%06ld", (unsigned long long)d, (long)tv.tv_sec, (long)tv.tv_usec);
      want = (__int128)c + d; got = (__int128)ts.tv_sec * 1000000000ll + ts.tv_nsec; MC_CHECK(r2 == 0 && ts.tv_nsec >= 0 && ts.tv_nsec < 1000000000 && got - want <= 2 && want - got <= 2, "now-clock", "%llu ns after the start the clock is %ld.%09ld", (unsigned long long)d, (long)ts.tv_sec, (long)ts.tv_nsec);
      MC_CHECK((u64)tv.tv_sec > ps || ((u64)tv.tv_sec == ps && (u64)tv.tv_usec >= pu), "now-monotone", "the time of day went back"); ps = tv.tv_sec; pu = tv.tv_usec;
      struct timeval tw; struct timespec tx; sphtb2gtod_withfactor(&tw, c + d, sphget_gtod_conv_factor()); sphtb2gettime_withfactor(&tx, c + d, sphget_gettime_conv_factor());
      MC_CHECK(tw.tv_sec == tv.tv_sec && tw.tv_usec == tv.tv_usec && tx.tv_sec == ts.tv_sec && tx.tv_nsec == ts.tv_nsec, "factor", "converting the current time base with the current factor differs from the current time");
    }
  }
  fixed_time = fixed_tod = -1; sample(strf("%zu clock values and %zu times of day at start-up", clocks.size(), tods.size()));
}
