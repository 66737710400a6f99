// G01/G02: lock-free loggers and their iterators, sequentially and under every interleaving of writers and readers.
#include "conc_common.h"
#include <unistd.h>
#include "sphthread.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
static char *AR; static const size_t ARN = 1 << 20;
static const unsigned char CAN = 0xC5;
static bool G1() { static int v = -1; if (v < 0) v = opts.prop == "G01"; return v; }
static int cat_of(int id) { static const int c[] = {0, 0xfff, 0x800, 1, 0x555, 0xaaa, 7, 0x7ff}; return c[id & 7]; }
static int sub_of(int id) { static const int c[] = {0xff, 0, 0x80, 1, 0x55, 0xaa, 7, 0x7f}; return c[(id + (id >> 3)) & 7]; }
__attribute__((no_sanitize("thread"))) static inline unsigned char pay(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
static size_t rnd(size_t s) { return (s + 15) & ~15ul; }
#define NS __attribute__((no_sanitize("thread"), noinline))
static NS void fill(char *e, int id, size_t from, size_t to) { if (from < to) conc_point(e + from, to - from, CONC_WRITE, (void *)1); for (size_t i = from; i < to; i++) e[i] = pay(id, i); }
static NS bool filled(char *e, int id, size_t from, size_t to) { if (from < to) conc_point(e + from, to - from, CONC_READ, (void *)2); for (size_t i = from; i < to; i++) if ((unsigned char)e[i] != pay(id, i)) return false; return true; }
static int do_complete(SPHLFLoggerHandle_t *h, int mode) { return mode == 0 ? SPHLFLoggerEntryComplete(h) : mode == 1 ? SPHLFLogEntryComplete(h) : mode == 2 ? SPHLFLogEntryStrongComplete(h) : SPHLFLogEntryWeakComplete(h); }
static const unsigned long HUGE_REQ[] = {~0ul, ~0ul - 15, ~0ul - 31, 1ul << 63, 1ul << 32};
// ---------------------------------------------------------------- sequential
struct GE { unsigned off, len; short id; signed char st, hdr; };         // st: 1 incomplete, 2 complete
struct GM { unsigned next; int n, cnt; bool wrapped, over; GE e[20]; };
enum { SIZED, STRIDE, RAW, COMPL, RESET, RESETFULL, PREF, HUGE_, IDENT };
struct GOp { int k; unsigned long size; bool nolock, newest; int var; std::string name; };
struct GSys : SeqSysT<GM> {
  SPHLFLogger_t lg = 0; char *base = 0, *endp = 0; unsigned cap = 0, stride = 0; bool circ = false; std::vector<GOp> ops; char *mem_end = 0; int maxe = 14;
  int nops() override { return ops.size(); }
  std::string name(int o) override { return ops[o].name; }
  bool enabled(int o) override { auto &p = ops[o]; if (p.k == SIZED || p.k == STRIDE || p.k == RAW) return m.n < maxe; if (p.k == COMPL) { int a = inc(false); return a >= 0 && (!p.newest || inc(true) != a); } return true; }
  int inc(bool newest) { int r = -1; for (int i = 0; i < m.n; i++) if (m.e[i].st == 1) { r = i; if (!newest) break; } return r; }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, 5); }
  void make(char *mem, size_t size, unsigned reqstride, unsigned options) {
    memset(&m, 0, sizeof m); circ = options & SPHLFLOGGER_CIRCULAR; stride = rnd(reqstride);
    lg = reqstride || options ? SPHLFLoggerInitWithStride(mem, size, reqstride, options) : SPHLFLoggerInit(mem, size);
    attach(mem, size);
  }
  void attach(char *mem, size_t size) {
    MC_CHECK(lg == mem, "create", "a log of %zu bytes was not created", size); base = mem + 256; endp = mem_end = mem + size; cap = size - 256;
    MC_CHECK(SPHLFLoggerEmpty(lg) == 1 && SPHLFLoggerFull(lg) == (cap == 0) && SPHLFLoggerFreeSpace(lg) == cap && SPHLFLoggerWrapped(lg) == 0, "fresh", "fresh log: empty %d full %d free %ld wrapped %d", SPHLFLoggerEmpty(lg), SPHLFLoggerFull(lg), (long)SPHLFLoggerFreeSpace(lg), SPHLFLoggerWrapped(lg));
  }
  void drop(unsigned off, unsigned len) { int k = 0; for (int i = 0; i < m.n; i++) if (m.e[i].off + m.e[i].len <= off || m.e[i].off >= off + len) m.e[k++] = m.e[i]; memset(m.e + k, 0, sizeof(GE) * (m.n - k)); m.n = k; }
  void alloc(const GOp &p) {
    int id = m.cnt; unsigned long len = p.k == STRIDE ? stride : p.k == RAW ? rnd(p.size) : rnd(p.size + 16); SPHLFLoggerHandle_t h, *r = 0; char *e = 0;
    fixed_time = 5000 + id; sphtimer_t now = sphgettimer(); memset(&h, 0x77, sizeof h); SPHLFLoggerHandle_t h0 = h;
    bool impossible = p.k == HUGE_ || len > cap || !len;
    bool ok = !impossible && (circ || (!m.over && m.next + len <= cap)); std::vector<char> img; if (impossible) img.assign((char *)lg, mem_end);
    switch (p.k) {
      case SIZED: case HUGE_: r = p.nolock ? SPHLFLoggerAllocTimeStampedNoLock(lg, cat_of(id), sub_of(id), p.size, &h) : SPHLFLoggerAllocTimeStamped(lg, cat_of(id), sub_of(id), p.size, &h); break;
      case STRIDE: r = p.nolock ? SPHLFLoggerAllocStrideTimeStampedNoLock(lg, cat_of(id), sub_of(id), &h) : SPHLFLoggerAllocStrideTimeStamped(lg, cat_of(id), sub_of(id), &h); break;
      case RAW: e = (char *)SPHLFLoggerAllocRaw(lg, p.size); break;
    }
    fixed_time = -1;
    if (p.k == HUGE_ && p.var == 1) e = (char *)SPHLFLoggerAllocRaw(lg, p.size);
    bool got = r || e;
    MC_CHECK(got == ok, "fit", "%s (%lu bytes) %s with %u of %u bytes taken%s", p.name.c_str(), len, got ? "succeeded" : "failed", m.next, cap, m.over ? ", log full" : "");
    if (impossible && !got) { MC_CHECK(!memcmp(img.data(), lg, img.size()), "impossible-changes", "%s was refused but changed the log", p.name.c_str()); return; }
    if (!got || !ok) { m.over = true; return; }
    if (m.next + len > cap) { m.next = 0; m.wrapped = true; }
    if (r) {
      e = (char *)h.entry; MC_CHECK(r == &h, "handle", "%s did not return the handle it was given", p.name.c_str());
      MC_CHECK(h.next == e + 16 && h.total_size == (unsigned short)len && h.remaining == (unsigned short)(len - 16), "handle", "%s: handle has next +%ld, total %u, remaining %u for an entry of %lu bytes", p.name.c_str(), (long)(h.next - e), h.total_size, h.remaining, len);
      MC_CHECK((long)h.entry->timeStamp == (long)now, "timestamp", "%s: time stamp %ld, the time is %ld", p.name.c_str(), (long)h.entry->timeStamp, (long)now);
      MC_CHECK(h.entry->PID == (sphpid16_t)procID && h.entry->TID == (sphpid16_t)threadID, "identity", "%s: stamped with process %u thread %u", p.name.c_str(), h.entry->PID, h.entry->TID);
      MC_CHECK(!h.entry->entryID.detail.valid && h.entry->entryID.detail.timestamped && h.entry->entryID.detail.category == (unsigned)cat_of(id) && h.entry->entryID.detail.subcat == (unsigned)sub_of(id), "header", "%s: header word %x", p.name.c_str(), h.entry->entryID.idUnit);
    } else { sphLogEntry_t t; t.idUnit = 0; t.detail.category = cat_of(id); t.detail.subcat = sub_of(id); t.detail.len = len / 16; ((SPHLFLogHeader_t *)e)->entryID.idUnit = t.idUnit; }
    MC_CHECK(e == base + m.next, "place", "%s returned offset %ld, expected %u", p.name.c_str(), (long)(e - base), m.next);
    if (e != base + m.next) return;
    drop(m.next, len); int hd = r ? 16 : 4; fill(e, id, hd, len);
    m.e[m.n++] = {m.next, (unsigned)len, (short)id, 1, (signed char)hd}; m.next += len; m.cnt = (m.cnt + 1) % 24; (void)h0;
  }
  void apply(int o) override {
    auto &p = ops[o]; where = p.name; st.evaluations++;
    switch (p.k) {
      case COMPL: { int i = inc(p.newest); SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)(base + m.e[i].off); MC_CHECK(!SPHLFLoggerEntryIsComplete(&h) && !SPHLFLoggerEntryIsTimestamped(&h), "complete", "an entry is reported complete before it was completed");
        int rc = do_complete(&h, m.e[i].id & 3); MC_CHECK(rc == 0, "complete-rc", "completing an entry returned %d", rc); m.e[i].st = 2; MC_CHECK(SPHLFLoggerEntryIsComplete(&h) && SPHLFLoggerEntryIsTimestamped(&h) == (m.e[i].hdr == 16), "complete", "a completed entry reports complete %d, time-stamped %d", SPHLFLoggerEntryIsComplete(&h), SPHLFLoggerEntryIsTimestamped(&h)); break; }
      case RESET: { int rc = SPHLFLoggerResetAsync(lg); MC_CHECK(rc == 0, "reset-rc", "reset returned %d", rc); clear(); break; }
      case RESETFULL: { bool full = m.over || m.next >= cap; int rc = SPHLFLoggerResetIfFullSync(lg); if (full) MC_CHECK(rc == 0, "reset-rc", "reset-if-full of a full log returned %d", rc); else if (cap - m.next > 128) MC_CHECK(rc == 1, "reset-rc", "reset-if-full with %u bytes free returned %d", cap - m.next, rc); if (rc == 0) clear(); break; }
      case PREF: { int rc = SPHLFLoggerSetCachePrefetch(lg, p.var); MC_CHECK(rc == 0, "prefetch", "set-cache-prefetch returned %d", rc); rc = SPHLFLoggerPrefetch(lg); MC_CHECK(rc == 0, "prefetch", "prefetch returned %d", rc); break; }
      case IDENT: threadID = 0x12340000 + (threadID * 7 + 3) % 0xffff; procID = 0x10000 * 5 + (procID * 5 + 1) % 0xffff; break;
      default: alloc(p);
    }
  }
  void clear() { m.n = 0; m.next = 0; m.wrapped = m.over = false; memset(m.e, 0, sizeof m.e); }
  void check() override {
    where = "status"; unsigned fs = m.over || m.next > cap ? 0 : cap - m.next;
    MC_CHECK(SPHLFLoggerFreeSpace(lg) == fs, "free-space", "free space is %ld, expected %u", (long)SPHLFLoggerFreeSpace(lg), fs);
    MC_CHECK(SPHLFLoggerFull(lg) == (fs == 0), "full", "full is %d with %u bytes free", SPHLFLoggerFull(lg), fs);
    MC_CHECK(SPHLFLoggerEmpty(lg) == (m.next == 0 && !m.over), "empty", "empty is %d with %d entries", SPHLFLoggerEmpty(lg), m.n);
    MC_CHECK(SPHLFLoggerWrapped(lg) == m.wrapped, "wrapped", "wrapped is %d, expected %d", SPHLFLoggerWrapped(lg), m.wrapped);
    for (int i = 0; i < m.n; i++) MC_CHECK(filled(base + m.e[i].off, m.e[i].id, m.e[i].hdr, m.e[i].len), "content", "the payload of a retained entry changed");
    for (char *p = mem_end; p < mem_end + 64 && p < AR + ARN; p++) MC_CHECK((unsigned char)*p == CAN || p < AR, "overrun", "byte %ld behind the log was overwritten", (long)(p - mem_end));
    where = "iterate"; SPHLFLogIterator_t it, *ip = SPHLFLoggerCreateIterator(lg, &it); MC_CHECK(ip == &it, "iterator", "no iterator");
    for (int i = 0; i <= m.n + 1; i++) {
      SPHLFLoggerHandle_t h, *r = SPHLFLoggerIteratorNext(&it, &h); bool want = i < m.n && m.e[i].st == 2;
      MC_CHECK((r != 0) == want, "iterate", "iteration %s after %d entries, the log retains %d of which the first %d are complete%s", r ? "goes on" : "ends", i, m.n, prefix(), m.wrapped ? " (wrapped)" : "");
      if (!r || !want) return;
      GE &e = m.e[i]; MC_CHECK((char *)h.entry == base + e.off, "iterate-order", "entry %d of the iteration is at offset %ld, expected %u", i, (long)((char *)h.entry - base), e.off);
      MC_CHECK(r == &h && h.next == base + e.off + e.hdr && h.total_size == e.len && h.remaining == e.len - e.hdr, "iterate-handle", "iteration handle: next +%ld, total %u, remaining %u for an entry of %u bytes", (long)(h.next - (char *)h.entry), h.total_size, h.remaining, e.len);
      MC_CHECK(SPHLFLogEntryIsComplete(&h) && SPHLFLogEntryCategory(&h) == cat_of(e.id) && SPHLFLogEntrySubcat(&h) == sub_of(e.id) && SPHLFLogEntryIsTimestamped(&h) == (e.hdr == 16), "iterate-header", "entry %d of the iteration has category %d, subcategory %d", i, SPHLFLogEntryCategory(&h), SPHLFLogEntrySubcat(&h));
      if (e.hdr == 16) MC_CHECK((long)SPHLFLogEntryTimeStamp(&h) == stamp(e.id), "iterate-stamp", "entry %d of the iteration has time stamp %ld", i, (long)SPHLFLogEntryTimeStamp(&h));
    }
  }
  long stamp(int id) { fixed_time = 5000 + id; long t = sphgettimer(); fixed_time = -1; return t; }
  int prefix() { int i = 0; while (i < m.n && m.e[i].st == 2) i++; return i; }
  void base_ops() {
    ops.push_back({COMPL, 0, false, false, 0, "complete oldest"}); ops.push_back({COMPL, 0, false, true, 0, "complete newest"});
    ops.push_back({RESET, 0, false, false, 0, "reset"}); ops.push_back({RESETFULL, 0, false, false, 0, "reset if full"});
    for (int i = 0; i < 4; i += 3) ops.push_back({PREF, 0, false, false, i, strf("cache prefetch %d", i)});
  }
  void sized(unsigned long s) { for (int nl = 0; nl < 2; nl++) ops.push_back({SIZED, s, (bool)nl, false, 0, strf("alloc %lu%s", s, nl ? " (no lock)" : "")}); }
  void strided() { for (int nl = 0; nl < 2; nl++) ops.push_back({STRIDE, 0, (bool)nl, false, 0, strf("alloc stride%s", nl ? " (no lock)" : "")}); }
  void huge() { int i = 0; for (unsigned long h : HUGE_REQ) { ops.push_back({HUGE_, h, (bool)(i & 1), false, 0, strf("alloc %lu", h)}); if (!circ) ops.push_back({HUGE_, h, false, false, 1, strf("alloc raw %lu", h)}); i++; } }
};
static bool inited;
static void init(bool region) {
  if (inited) return; inited = true; watchdog(20);
  if (region) { join_region(); track_region(); } else track_statics();
  AR = arena(ARN); track_add(AR, ARN); install_handlers(); threadID = 0x54321; 
}
static int part_i; static bool part() { return part_i++ % opts.nshards == opts.shard; }
static void run(size_t body, unsigned stride, unsigned options, std::vector<unsigned long> sizes, bool raw, int depth, bool dirty) {
  if (!part()) return; GSys s; track_push(); memset(AR, dirty ? 0xff : CAN, 256 + body); memset(AR + 256 + body, CAN, 128); if (dirty) { memset(AR, 0, 4096 < 256 + body ? 4096 : 256); for (size_t i = 256; i < 256 + body; i += 16) ((unsigned *)(AR + i))[0] = 0x01000001u + (i & 0xff0) * 16; }
  s.make(AR, 256 + body, stride, options); s.base_ops(); for (auto z : sizes) s.sized(z); if (stride) s.strided(); if (raw) for (unsigned long z : {4ul, 20ul}) s.ops.push_back({RAW, z, false, false, 0, strf("alloc raw %lu", z)});
  s.huge(); s.ops.push_back({SIZED, body - 15, false, false, 0, "alloc one more than the log"}); s.ops.push_back({IDENT, 0, false, false, 0, "other process and thread"});
  SeqOpts o; o.depth = depth; o.min_depth = depth < 6 ? depth : 6; sample(strf("log of %zu bytes, stride %u, options %x", body, stride, options)); seq_explore(s, o); track_pop();
}
MC_CONFIG(seqsimple, "simple-logs", 8, 8) {
  init(false); int d = opts.thorough ? 7 : 5;
  for (unsigned b : {0u, 8u, 15u}) run(96 + b, 0, 0, {0, 1, 32}, false, d, b & 1);
  run(160, 0, 0, {0, 17, 48}, true, d, true); run(200, 0, 0, {5, 40, 200 - 32}, true, d, false); run(96, 32, 0, {0, 16, 20}, false, d, true); run(128, 48, 0, {32, 0}, false, d, false); run(112, 48, SPHLFLOGGER_CACHE_PREFETCH0 | SPHLFLOGGER_CACHE_PREFETCH1, {16}, false, d, true);
  run(3 * 4096, 4096, 0, {}, false, d, true); run(2 * 8192 + 4000, 8192, 0, {}, false, d, false); run(1024, 0, 0, {500, 100}, false, d, true); run(48, 65535, 0, {0}, false, d, false);
}
MC_CONFIG(seqcirc, "circular-logs", 8, 8) {
  init(false); int d = opts.thorough ? 11 : 8;
  for (unsigned n = 1; n <= 3; n++) for (unsigned sd : {16u, 48u, 20u}) for (unsigned ex : {0u, 1u, 2u}) { unsigned s = rnd(sd); unsigned x = ex == 0 ? 0 : ex == 1 ? 8 : s - 1; run(n * s + x, sd, SPHLFLOGGER_CIRCULAR, {}, false, n == 3 ? d : d - 1, (n + ex) & 1); }
  run(4 * 32, 32, SPHLFLOGGER_CIRCULAR, {}, false, d, true); run(3 * 48 + 16, 48, SPHLFLOGGER_CIRCULAR, {32, 20}, false, d - 2, false); run(2 * 4096 + 100, 4096, SPHLFLOGGER_CIRCULAR, {}, false, d - 1, false); run(2 * 8192, 8190, SPHLFLOGGER_CIRCULAR, {}, false, d - 2, true); run(96, 65535, SPHLFLOGGER_CIRCULAR, {}, false, 4, false); run(32, 64, SPHLFLOGGER_CIRCULAR, {}, false, 4, false);
}
// whole logs of every size and stride, created in the region; iterated after every reservation through several wraps
MC_CONFIG(sizes, "sizes", 8, 8) {
  init(true);
  for (size_t size = 4096; size <= (opts.thorough ? 65536u : 16384u); size *= 2) for (int circ = 0; circ < 2; circ++)
    for (unsigned sd = 16; sd <= 4096 && sd < size - 256; sd += sd < 48 ? 8 : sd < 256 ? 40 : sd < 1024 ? 232 : 1000) {
      if (!part()) continue; heartbeat(); where = strf("log of %zu bytes, stride %u, %s", size, sd, circ ? "circular" : "simple"); path_names = {where};
      track_push(); SPHLFLogger_t lg = circ ? SPHLFCircularLoggerCreate(size, sd) : SPHLFLoggerCreate(size); MC_CHECK(lg != 0, "create", "no log of %zu bytes, stride %u", size, sd); if (!lg) continue;
      unsigned s = rnd(sd), n = (size - 256) / s; char *base = (char *)lg + 256; SPHLFLoggerHandle_t h, *r; int total = 0; bool sized = sd + 16 < size && sd <= 4080;
      if (!circ && !sized) { track_pop(); continue; }
      auto iterate = [&]() {
        int first = circ && total > (int)n ? total - n : 0, i = first; SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(lg, &it); SPHLFLoggerHandle_t g; st.transitions++;
        for (; i < total; i++) { SPHLFLoggerHandle_t *q = SPHLFLoggerIteratorNext(&it, &g); MC_CHECK(q, "iterate", "iteration ends after %d of %d retained entries (%d reserved)", i - first, total - first, total); if (!q) return; MC_CHECK((char *)g.entry == base + (i % n) * s && g.total_size == s && SPHLFLogEntryCategory(&g) == (i & 0xfff) && SPHLFLogEntrySubcat(&g) == (i >> 4 & 0xff), "iterate-order", "entry %d of the iteration is at slot %ld, expected %d", i - first, (long)((char *)g.entry - base) / s, i % n); }
        MC_CHECK(!SPHLFLoggerIteratorNext(&it, &g), "iterate", "iteration goes on after all %d retained entries (%d reserved)", total - first, total);
      };
      iterate(); unsigned lim = circ ? 2 * n + 3 : n + 2, step = n > 40 ? 7 : 1;
      for (unsigned k = 0; k < lim; k++) {
        r = circ ? SPHLFLoggerAllocStrideTimeStamped(lg, k & 0xfff, k >> 4 & 0xff, &h) : SPHLFLoggerAllocTimeStamped(lg, k & 0xfff, k >> 4 & 0xff, s - 16, &h); bool ok = circ || k < n;
        MC_CHECK((r != 0) == ok, "fit", "reservation %u of %u %s", k, n, r ? "succeeded" : "failed"); if (!r || !ok) continue;
        MC_CHECK((char *)h.entry == base + (k % n) * s, "place", "reservation %u is at offset %ld, expected slot %u of %u bytes", k, (long)((char *)h.entry - base), k % n, s);
        do_complete(&h, k & 3); total = k + 1; if (k % step == 0 || k % n >= n - 2 || k % n <= 1) iterate(); st.evaluations++;
      }
      iterate(); int rc = SPHLFLoggerResetAsync(lg); total = 0; MC_CHECK(rc == 0, "reset-rc", "reset returned %d", rc); iterate();
      rc = SPHLFLoggerDestroy(lg); MC_CHECK(rc == 0, "destroy", "destroy returned %d", rc); st.states++; st.executions++; track_pop();
    }
}
// entries of more than 4080 bytes
MC_CONFIG(over, "large-entries", 1, 1) {
  if (G1()) return; init(false);
  for (size_t body : {4064ul, 4065ul, 5000ul, 40000ul, 65504ul, 65520ul, 70000ul, 200000ul}) {
    track_push(); SPHLFLogger_t lg = SPHLFLoggerInit(AR, 512 * 1024); SPHLFLoggerHandle_t h[3]; where = strf("entries of %zu bytes", body); path_names = {where}; st.states++;
    for (int i = 0; i < 3; i++) { auto r = SPHLFLoggerAllocTimeStamped(lg, i + 1, i + 2, i == 1 ? body : 8, &h[i]); MC_CHECK(r == &h[i], "fit", "an entry of %zu bytes does not fit a log of 512K", body); if (r) SPHLFLogEntryComplete(r); st.transitions++; }
    if (body < 65520) MC_CHECK(h[1].remaining >= body, "handle", "handle of an entry of %zu bytes has %u remaining", body, h[1].remaining);
    SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(lg, &it); const char *bad = 0;
    for (int i = 0; i < 3; i++) { SPHLFLoggerHandle_t g, *q = SPHLFLoggerIteratorNext(&it, &g); if (!q || g.entry != h[i].entry || (g.remaining < body && i == 1 && body < 65520)) { bad = "wrong"; break; } }
    SPHLFLoggerHandle_t g; if (!bad && SPHLFLoggerIteratorNext(&it, &g)) bad = "wrong";
    MC_CHECK(!bad, body > 4064 ? "iterate-oversize-entry" : "iterate", "iterating over a simple log with an entry of %zu bytes does not yield exactly the entries", body);
    st.executions++; track_pop();
  }
}
// ---------------------------------------------------------------- concurrent
// program letters: t/T/U reserve sized (0/16/40 bytes), S reserve strided, K/k complete own oldest/newest, I iterate
struct CSys : ConcSys {
  std::string prog[5]; unsigned cap, stride; bool circ; int pre; SPHLFLogger_t lg; char *base; bool dirty = false;
  struct R { int tid, id, off; unsigned len; bool ok; int inv, res; bool done; char *e; }; std::vector<R> rs, rs0; int clk, clk0; bool wraps;
  CSys() { state_based = true; }
  uint64_t mhash() override { uint64_t h = mix(clk, 3); for (auto &r : rs) { h = mix(h, r.tid * 64 + r.id); h = mix(h, r.off * 4 + r.ok * 2 + r.done); h = mix(h, r.inv * 1000 + r.res); } return h; }
  void share() override { conc_share(AR, ARN); }
  void setup() override { rs = rs0; clk = clk0; }
  void prepare() {
    memset(AR, 0, 256 + cap + 64); memset(AR + 256 + cap, CAN, 64); lg = SPHLFLoggerInitWithStride(AR, 256 + cap, stride, circ ? SPHLFLOGGER_CIRCULAR : 0); base = AR + 256; rs.clear(); clk = 0;
    for (int i = 0; i < pre; i++) one(0, 'S'), comp(0, false);
    rs0 = rs; clk0 = clk;
  }
  unsigned len_of(char c) { return c == 'S' ? stride : rnd((c == 't' ? 0 : c == 'T' ? 16 : 40) + 16); }
  void one(int t, char c) {
    int v = clk++; conc_event(0); int k = 0; for (auto &r : rs) k += r.tid == t; int id = t * 8 + k; SPHLFLoggerHandle_t h, *r; unsigned len = len_of(c);
    size_t pos = rs.size(); rs.push_back({t, id, -1, len, false, v, 1 << 20, false, 0});
    r = c == 'S' ? SPHLFLoggerAllocStrideTimeStamped(lg, cat_of(id), sub_of(id), &h) : SPHLFLoggerAllocTimeStamped(lg, cat_of(id), sub_of(id), c == 't' ? 0 : c == 'T' ? 16 : 40, &h); conc_event(1);
    rs[pos].res = clk++; if (!r) return;
    MC_CHECK(h.next == (char *)h.entry + 16 && h.total_size == len && h.remaining == len - 16, "handle", "handle of a new entry: next +%ld, total %u, remaining %u", (long)(h.next - (char *)h.entry), h.total_size, h.remaining);
    long off = (char *)h.entry - base; MC_CHECK(off >= 0 && off % 16 == 0 && off + len <= cap, "bounds", "an entry of %u bytes at offset %ld leaves the log of %u", len, off, cap); if (off < 0 || off + len > cap) return;
    rs[pos].ok = true; rs[pos].off = off; rs[pos].e = (char *)h.entry;
    if (!wraps) for (size_t i = 0; i < rs.size(); i++) if (i != pos && rs[i].ok) MC_CHECK(rs[i].off + (int)rs[i].len <= off || rs[i].off >= off + (int)len, "overlap", "threads %d and %d were given overlapping entries", t, rs[i].tid);
    fill(base + off, id, 16, len);
  }
  const char *bad(R &r, bool done) {
    SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)r.e; unsigned w = h.entry->entryID.idUnit; sphLogEntry_t d; d.idUnit = w;
    if (d.detail.valid != done) return done ? "completion flag (missing)" : "completion flag (set early)";
    if (d.detail.category != (unsigned)cat_of(r.id)) return "category"; if (d.detail.subcat != (unsigned)sub_of(r.id)) return "subcategory"; if (!d.detail.timestamped) return "time-stamp flag";
    if ((long)h.entry->timeStamp != 1000 + r.tid && r.tid) return "time stamp"; if (h.entry->PID != (sphpid16_t)procID) return "process id"; if (h.entry->TID != (sphpid16_t)threadID) return "thread id";
    if (!filled(r.e, r.id, 16, r.len)) return "payload"; return 0;
  }
  void comp(int t, bool newest) {
    int k = -1; for (size_t i = 0; i < rs.size(); i++) if (rs[i].tid == t && rs[i].ok && !rs[i].done) { k = i; if (!newest) break; } if (k < 0) return;
    if (!wraps) { const char *b = bad(rs[k], false); MC_CHECK(!b, "intrusion", "the %s of an entry was changed by others while its writer was filling it", b); }
    SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)rs[k].e; do_complete(&h, t & 3); rs[k].done = true;
  }
  void iterate(int t) {
    SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(lg, &it); int off = 0; conc_event(2);
    for (int i = 0; i < 8; i++) {
      SPHLFLoggerHandle_t h, *r = SPHLFLoggerIteratorNext(&it, &h); if (!r) break; int o = (char *)h.entry - base;
      MC_CHECK(o == off, "reader-order", "a reader got an entry at offset %d, expected %d", o, off); if (o != off) return;
      R *x = 0; for (auto &q : rs) if (q.ok && q.off == o) x = &q;
      // (a writer that has completed its entry but not yet been told of the reservation cannot exist: the harness notes reservations at once)
      MC_CHECK(x, "reader-phantom", "a reader got an entry that nobody reserved"); if (!x) return;
      const char *b = bad(*x, true); MC_CHECK(!b, "reader-content", "a reader got an entry with a wrong %s", b); off += h.total_size;
    }
    (void)t;
  }
  void thread(int t) override { for (char c : prog[t]) { if (c == 'K' || c == 'k') comp(t, c == 'k'); else if (c == 'I') iterate(t); else one(t, c); } }
  void finish() override {
    st.evaluations++; unsigned used = 0; bool anyfail = false; int T = 0;
    for (auto &r : rs) { if (r.ok) { used += r.len; T++; } else anyfail = true; }
    for (char *p = base + cap; p < base + cap + 64; p++) MC_CHECK((unsigned char)*p == CAN, "overrun", "a byte behind the log was overwritten");
    if (circ) {
      MC_CHECK(!anyfail, "circular-refused", "a circular log refused a reservation"); int n = cap / stride; std::vector<int> cnt(n);
      for (auto &r : rs) { MC_CHECK(r.off % (int)stride == 0 && r.off / (int)stride < n, "slot", "entry at offset %d, stride %u", r.off, stride); cnt[r.off / stride]++; }
      for (int i = 0; i < n; i++) MC_CHECK(cnt[i] == T / n + (i < T % n), "lost", "slot %d of %d was handed out %d times in %d reservations", i, n, cnt[i], T);
      MC_CHECK(SPHLFLoggerWrapped(lg) == (T > n), "wrapped", "wrapped is %d after %d reservations of %d slots", SPHLFLoggerWrapped(lg), T, n);
      unsigned nx = T == 0 ? 0 : ((T - 1) % n + 1) * stride; MC_CHECK(SPHLFLoggerFreeSpace(lg) == cap - nx, "free-space", "free space is %ld after %d reservations of %d slots, expected %u", (long)SPHLFLoggerFreeSpace(lg), T, n, cap - nx);
      // the next one comes next, and a log in which everything is completed now is iterated oldest first
      SPHLFLoggerHandle_t h; auto r = SPHLFLoggerAllocStrideTimeStamped(lg, 1, 2, &h); MC_CHECK(r && (char *)h.entry == base + (T % n) * stride, "next", "the reservation after %d others is at slot %ld", T, r ? (long)((char *)h.entry - base) / (long)stride : -1L);
      for (int i = 0; i < n && i <= T; i++) ((SPHLFLogHeader_t *)(base + i * stride))->entryID.detail.valid = 1;
      SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(lg, &it); int tot = T + 1, first = tot > n ? tot - n : 0; for (int i = first; i < tot; i++) { auto q = SPHLFLoggerIteratorNext(&it, &h); MC_CHECK(q && (char *)h.entry == base + (i % n) * stride, "iterate", "iteration of the quiet log: entry %d is at slot %ld, expected %d", i - first, q ? (long)((char *)h.entry - base) / (long)stride : -1L, i % n); if (!q) return; }
      MC_CHECK(!SPHLFLoggerIteratorNext(&it, &h), "iterate", "iteration of the quiet log does not end");
      return;
    }
    // simple log: contiguous from the start, none overlapping, refusals justified
    std::map<int, R *> by; for (auto &r : rs) if (r.ok) { MC_CHECK(!by.count(r.off), "overlap", "two reservations at offset %d", r.off); by[r.off] = &r; }
    int off = 0; for (auto &x : by) { MC_CHECK(x.first == off, "lost", "the reservation at offset %d is followed by one at %d", off, x.first); off += x.second->len; const char *b = bad(*x.second, x.second->done); MC_CHECK(!b, "content", "the %s of an entry is wrong", b); }
    for (auto &r : rs) for (auto &s : rs) if (r.ok && s.ok && r.res < s.inv) MC_CHECK(r.off < s.off, "order", "a reservation made later lies before an earlier one");
    for (auto &r : rs) if (!r.ok) { unsigned sum = r.len; for (auto &s : rs) if (&s != &r && s.inv < r.res) sum += s.len; MC_CHECK(sum > cap, "refused", "a reservation of %u bytes was refused although at most %u of %u bytes were asked for by then", r.len, sum, cap); }
    MC_CHECK(SPHLFLoggerFreeSpace(lg) == (anyfail ? 0 : cap - used), "free-space", "free space is %ld after reservations of %u of %u bytes%s", (long)SPHLFLoggerFreeSpace(lg), used, cap, anyfail ? " and a refusal" : "");
    MC_CHECK(SPHLFLoggerFull(lg) == (anyfail || used == cap), "full", "full is %d after reservations of %u of %u bytes%s", SPHLFLoggerFull(lg), used, cap, anyfail ? " and a refusal" : "");
    MC_CHECK(SPHLFLoggerEmpty(lg) == (!used && !anyfail), "empty", "empty is %d after reservations of %u bytes", SPHLFLoggerEmpty(lg), used);
    SPHLFLogIterator_t it; SPHLFLoggerCreateIterator(lg, &it); SPHLFLoggerHandle_t h; bool stop = false;
    for (auto &x : by) { if (!x.second->done) { stop = true; break; } auto q = SPHLFLoggerIteratorNext(&it, &h); MC_CHECK(q && (char *)h.entry == x.second->e, "iterate", "iteration of the quiet log misses the entry at offset %d", x.first); if (!q) return; }
    (void)stop; MC_CHECK(!SPHLFLoggerIteratorNext(&it, &h), "iterate", "iteration of the quiet log goes on after the last complete entry");
  }
};
static void conc(unsigned cap, unsigned stride, bool circ, int pre, std::vector<std::string> progs, int pb) {
  CSys s; s.cap = cap; s.stride = stride; s.circ = circ; s.pre = pre; s.nthreads = progs.size(); std::string d; int tot = pre;
  for (size_t i = 0; i < progs.size(); i++) { s.prog[i + 1] = progs[i]; d += (i ? " | " : "") + progs[i]; for (char c : progs[i]) tot += c == 'S' || c == 't' || c == 'T' || c == 'U'; }
  s.wraps = circ && tot > (int)(cap / stride); ConcOpts o; o.preemptions = pb; track_push(); s.prepare(); conc_explore(s, o, strf("%s, %s log of %u bytes, stride %u, %d entries before, preemption bound %d", d.c_str(), circ ? "circular" : "simple", cap, stride, pre, pb)); track_pop();
}
MC_CONFIG(conc2, "two-writers", 8, 8) {
  init(false); fixed_time = -1;
  if (!G1()) { for (int pre = 0; pre < 2; pre++) for (auto p : std::vector<std::vector<std::string>>{{"SKSK", "II"}, {"TKtK", "I"}, {"TTkk", "II"}, {"SK", "SK", "I"}, {"SSkk", "TK", "I"}}) conc(256, 32, false, pre, p, p.size() == 2 ? -1 : opts.thorough ? 3 : 2); for (int pre = 0; pre < 3; pre++) conc(128, 32, true, 0, {"SKSK", "SK", "I"}, opts.thorough ? 3 : 2); return; }
  for (unsigned cap : {32u, 64u, 72u, 96u, 128u}) for (int pre = 0; pre < 3; pre++) if (pre * 32u <= cap) for (auto p : std::vector<std::vector<std::string>>{{"SKSK", "SKSK"}, {"TtK", "UkK"}, {"SSkk", "TUkK"}, {"tttKKK", "UUkk"}}) conc(cap, 32, false, pre, p, opts.thorough ? 6 : 4);
  for (unsigned n = 1; n <= 3; n++) for (unsigned x : {0u, 8u, 16u}) for (unsigned pre = 0; pre <= n; pre++) for (auto p : std::vector<std::vector<std::string>>{{"SKSK", "SKSK"}, {"SSkk", "SK"}, {"SSS", "SSS"}}) conc(n * 32 + x, 32, true, pre, p, opts.thorough ? 6 - (int)n / 2 : n == 1 ? 5 : 3);
}
MC_CONFIG(conc3, "three-writers", 8, 8) {
  if (!G1()) return; init(false); int b = opts.thorough ? 4 : 2;
  for (unsigned cap : {64u, 96u, 104u}) for (int pre = 0; pre < 2; pre++) for (auto p : std::vector<std::vector<std::string>>{{"SK", "SK", "SK"}, {"Tt", "UK", "tK"}}) conc(cap, 32, false, pre, p, b + 1);
  for (unsigned n = 1; n <= 3; n++) for (unsigned x : {0u, 8u}) for (unsigned pre = 0; pre <= n; pre++) for (auto p : std::vector<std::vector<std::string>>{{"SK", "SK", "SK"}, {"SS", "SS", "SS"}, {"SSS", "S", "S"}}) conc(n * 32 + x, 32, true, pre, p, b);
  for (unsigned n = 1; n <= 2; n++) for (unsigned pre = 0; pre <= n; pre++) conc(n * 32, 32, true, pre, {"S", "S", "S", "S"}, b);
}
// reservations and resets-if-full of a simple log at the same time: results and final state are those of a serial order
struct ZSys : ConcSys {
  std::string prog[5]; unsigned cap, stride; int pre; SPHLFLogger_t lg; char *base; struct C { int tid; char op; int inv, res; long r; }; std::vector<C> cs; int clk;
  ZSys() { state_based = true; }
  uint64_t mhash() override { uint64_t h = clk; for (auto &c : cs) h = mix(h, mix(c.tid * 256 + c.op, mix(c.inv * 1000 + c.res, c.r))); return h; }
  void share() override { conc_share(AR, ARN); }
  void setup() override { cs.clear(); clk = 0; }
  void prepare() { memset(AR, 0, 256 + cap + 64); lg = SPHLFLoggerInitWithStride(AR, 256 + cap, stride, 0); base = AR + 256; SPHLFLoggerHandle_t h; for (int i = 0; i < pre; i++) SPHLFLoggerAllocStrideTimeStamped(lg, 1, 2, &h); }
  void thread(int t) override { for (char c : prog[t]) { size_t at = cs.size(); cs.push_back({t, c, clk++, 1 << 20, 0}); conc_event(0); long r; if (c == 'Z') r = SPHLFLoggerResetIfFullSync(lg); else { SPHLFLoggerHandle_t h, *q = SPHLFLoggerAllocStrideTimeStamped(lg, 3, 4, &h); r = q ? (char *)h.entry - base : -1; } conc_event(1); cs[at].r = r; cs[at].res = clk++; } }
  struct Fin { long free; int full, empty, next; };
  bool serial(unsigned long done, unsigned next, bool over, std::vector<Fin> &out) {
    bool all = true, any = false; for (size_t i = 0; i < cs.size(); i++) if (!(done >> i & 1)) { all = false; bool first = true; for (size_t j = 0; j < cs.size(); j++) if (j != i && !(done >> j & 1) && cs[j].res < cs[i].inv) first = false; if (!first) continue;
      if (cs[i].op == 'Z') { bool full = over || next >= cap, near = over || cap - next <= 128; if (cs[i].r == 0 ? near : cs[i].r == 1 && !full) any |= serial(done | 1ul << i, cs[i].r == 0 ? 0 : next, cs[i].r == 0 ? false : over, out); }
      else if (over || next + stride > cap) { if (cs[i].r == -1) any |= serial(done | 1ul << i, next, true, out); } else if (cs[i].r == (long)next) any |= serial(done | 1ul << i, next + stride, false, out); }
    if (all) { out.push_back({over ? 0 : (long)(cap - next), over || next == cap, !over && next == 0, over || next + stride > cap ? -1 : (int)next}); return true; } return any; }
  void finish() override { st.evaluations++; std::string d; for (auto &c : cs) d += strf(" %d:%c=%ld", c.tid, c.op, c.r); std::vector<Fin> out; bool ok = serial(0, pre * stride > cap ? 0 : pre * stride, pre * stride > cap, out); MC_CHECK(ok, "not-serial", "reservations (place) and resets if full (S and Z), in a log of %u bytes with %d entries of %u before: no order of the calls gives%s", cap, pre, stride, d.c_str()); if (!ok) return;
    long f = SPHLFLoggerFreeSpace(lg); int fu = SPHLFLoggerFull(lg), e = SPHLFLoggerEmpty(lg); SPHLFLoggerHandle_t h, *q = SPHLFLoggerAllocStrideTimeStamped(lg, 3, 4, &h); int nx = q ? (char *)h.entry - base : -1;
    bool fits = false; for (auto &x : out) fits |= x.free == f && x.full == !!fu && x.empty == !!e && x.next == nx; MC_CHECK(fits, "not-serial", "after%s the log has %ld bytes free, full %d, empty %d, and the next entry goes to %d: no order of the calls gives that", d.c_str(), f, fu, e, nx); }
  std::string outcome() override { std::string s; for (auto &c : cs) s += strf("%d%c%ld ", c.tid, c.op, c.r); return s; }
};
MC_CONFIG(concz, "reset-if-full", 4, 8) {
  if (!G1()) return; init(false); fixed_time = -1; threadID = 1;
  for (unsigned cap : {256u, 264u, 512u}) for (unsigned sd : {64u, 96u}) for (unsigned pre : {0u, cap / sd - 2, cap / sd - 1, cap / sd, cap / sd + 1}) for (auto p : std::vector<std::vector<std::string>>{{"Z", "Z"}, {"ZS", "ZS"}, {"SZ", "SS"}, {"ZSS", "Z"}, {"SSZ", "SZ"}, {"S", "ZS", "Z"}, {"ZS", "ZS", "S"}, {"Z", "Z", "Z"}}) {
    ZSys s; s.cap = cap; s.stride = sd; s.pre = pre; s.nthreads = p.size(); std::string d; for (size_t i = 0; i < p.size(); i++) { s.prog[i + 1] = p[i]; d += (i ? " | " : "") + p[i]; }
    ConcOpts o; o.preemptions = p.size() == 2 ? (opts.thorough ? -1 : 6) : opts.thorough ? 4 : 2; track_push(); s.prepare(); conc_explore(s, o, strf("%s, simple log of %u bytes, stride %u, %d entries before, preemption bound %d", d.c_str(), cap, sd, pre, o.preemptions)); track_pop(); }
}
