// Q01/Q03: the single and the multi producer/consumer queues, sequentially and under every interleaving.
#define SPH_INTERNAL 1
#include "conc_common.h"
#include <unistd.h>
#include "sphsinglepcqueue.h"
#include "sphdirectpcqueue.h"
#include "sphmultipcqueue.h"
#include "sphlfentry.h"
__attribute__((no_sanitize("thread"))) static bool MP() { static int v = -1; if (v < 0) v = opts.prop == "Q03"; return v; }
static char *AR; static const size_t ARN = 1 << 20;
static const unsigned char CAN = 0xC5;
static int cat_of(int id) { static const int c[] = {0, 0xfff, 0x800, 1, 0x555, 0xaaa, 7, 0x7ff}; return c[id & 7]; }
static int sub_of(int id) { static const int c[] = {0xff, 0, 0x80, 1, 0x55, 0xaa, 7, 0x7f}; return c[(id + (id >> 3)) & 7]; }
__attribute__((no_sanitize("thread"))) static inline unsigned char pay(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
enum { FREE, ALLOC, COMP, GOT };
// ---- one queue, through whichever interface ----
struct Qu {
  void *q = 0; int n = 0; unsigned stride = 0; size_t size = 0; sphLFEntryID_t tpl = 0; char *base = 0; bool ts[64] = {}; bool seq = false;
  void make(size_t sz, unsigned reqstride, bool region = false) {
    size = sz; stride = (reqstride + 15) & ~15u;
    if (region) q = MP() ? SPHMPMCQCreateWithStride(sz, reqstride) : SPHSinglePCQueueCreateWithStride(sz, reqstride);
    else { memset(AR, CAN, sz + 64); q = MP() ? SPHMPMCQInitWithStride(AR, sz, reqstride, SPHMPMCQ_CIRCULAR) : SPHSinglePCQueueInitWithStride(AR, sz, reqstride, SPHSPCQUEUE_CIRCULAR); }
    MC_CHECK(q != 0, "create", "queue of %zu bytes and stride %u was not created", sz, reqstride); if (!q) return;
    tpl = MP() ? SPHMPMCQGetEntryTemplate(q) : SPHSinglePCQueueGetEntryTemplate(q);
    if (!MP()) { int s = SPHSinglePCQueueGetStride(q); MC_CHECK(s >= (int)reqstride && s % 16 == 0, "stride", "queue made with stride %u reports stride %d", reqstride, s); stride = s; }
    // the ring: allocate everything once, then reset
    n = 0; char *prev = 0;
    track_push();
    for (;;) {
      char *e = (char *)alloc('a', 0); if (!e) break;
      MC_CHECK((uintptr_t)e % 16 == 0, "alignment", "entry %d at %p is not aligned", n, e);
      MC_CHECK(e >= (char *)q && e + stride <= (char *)q + size, "bounds", "entry %d at offset %ld, stride %u, leaves the queue of %zu bytes", n, (long)(e - (char *)q), stride, size);
      if (!n) base = e; else MC_CHECK(e == prev + stride, "slots", "entry %d is at offset %ld, the one before at %ld, the stride is %u", n, (long)(e - (char *)q), (long)(prev - (char *)q), stride);
      prev = e; n++; if (n > 70000) { violation("capacity", "a queue of %zu bytes and stride %u never gets full", size, stride); break; }
    }
    track_pop();
    if (!MP()) n++;                                  // one slot always stays unused
    if (MP()) MC_CHECK(SPHMPMCQGetEntries(q) == n, "entries", "SPHMPMCQGetEntries is %d, but %d entries can be allocated", SPHMPMCQGetEntries(q), n);
    // nothing but a header's worth of the buffer is unused
    MC_CHECK((size_t)n * stride + stride + 512 > size, "capacity", "queue of %zu bytes and stride %u offers only %d entries", size, stride, n);
  }
  int slot(void *e) { long d = (char *)e - base; return d >= 0 && d % stride == 0 && d / stride < n ? d / stride : -1; }
  char *at(int s) { return base + (long)s * stride; }
  size_t hdr(int s) { return ts[s] ? sizeof(SPHLFEntryHeader_t) : sizeof(sphLFEntry_t); }
  // mode: MPMC a=Sync b=single; SPSC a=direct b=spin c=pause d=handle e=handle+timestamp f=raw
  void *alloc(int mode, int id, SPHLFEntryHandle_t *h = 0) {
    void *e = 0; SPHLFEntryHandle_t hh, *r = 0;
    if (MP()) e = mode == 'a' ? SPHMPMCQAllocStrideDirectSync(q) : SPHSPMCQAllocStrideDirect(q);
    else switch (mode) {
      case 'a': e = SPHSinglePCQueueAllocStrideDirect(q); break;
      case 'b': e = SPHSinglePCQueueAllocStrideDirectSpin(q); break;
      case 'c': e = SPHSinglePCQueueAllocStrideDirectSpinPause(q); break;
      case 'd': r = SPHSinglePCQueueAllocStrideEntry(q, cat_of(id), sub_of(id), h ? h : &hh); break;
      case 'e': r = SPHSinglePCQueueAllocStrideTimeStamped(q, cat_of(id), sub_of(id), h ? h : &hh); break;
      case 'f': e = SPHSinglePCQueueAllocRaw(q); break;
    }
    if (r) {
      e = r->entry; size_t hd = mode == 'e' ? sizeof(SPHLFEntryHeader_t) : sizeof(sphLFEntry_t);
      MC_CHECK(r->next == (char *)e + hd && r->total_size == (unsigned short)stride && r->remaining == (unsigned short)(stride - hd), "handle", "handle of a new entry: next at +%ld, total %u, remaining %u (stride %u)", (long)(r->next - (char *)e), r->total_size, r->remaining, stride);
    }
    int s = e ? slot(e) : -1; if (s >= 0 && s < 64) ts[s] = mode == 'e';
    return e;
  }
  // payload accesses are one scheduling point each
  #define NS __attribute__((no_sanitize("thread"), noinline))
  NS void fill(void *e, int id, size_t hd) { if (hd < stride) conc_point((char *)e + hd, stride - hd, CONC_WRITE, (void *)1); unsigned char *p = (unsigned char *)e; for (size_t i = hd; i < stride; i++) p[i] = pay(id, i); }
  NS bool payload_ok(void *e, int id, size_t hd) { if (hd < stride) conc_point((char *)e + hd, stride - hd, CONC_READ, (void *)2); unsigned char *p = (unsigned char *)e; for (size_t i = hd; i < stride; i++) if (p[i] != pay(id, i)) return false; return true; }
  const char *intact(void *e, int id, size_t hd, bool complete) {
    if (!payload_ok(e, id, hd)) return "payload";
    SPHLFEntryHeader_t *h = (SPHLFEntryHeader_t *)e;
    if (seq) { SPHLFEntryHandle_t eh; eh.entry = h; int c = MP() ? SPHMPMCQEntryDirectIsComplete(e) : SPHSinglePCQueueEntryIsCompleteDirect(e), c2 = MP() ? c : SPHSinglePCQueueEntryIsComplete(&eh); if ((c != 0) != complete || (c2 != 0) != complete) return "completion state reported by the queue"; }
    if (complete) { if (!SPHLFEntryDirectIsComplete(e)) return "complete flag"; if (SPHLFEntryDirectCategory(e) != cat_of(id)) return "category"; if (SPHLFEntryDirectSubcat(e) != sub_of(id)) return "subcategory"; if (SPHLFEntryDirectIsTimestamped(e) != (hd == 16)) return "timestamp flag"; }
    else if (h->entryID.detail.valid) return "incomplete flag";
    return 0;
  }
  void complete(void *e, int id, int mode) {
    if (mode == 'd' || mode == 'e') { SPHLFEntryHandle_t h; h.entry = (SPHLFEntryHeader_t *)e; int rc = SPHSinglePCQueueEntryComplete(&h); MC_CHECK(rc == 1, "complete-rc", "SPHSinglePCQueueEntryComplete returned %d", rc); }
    else SPHLFEntryDirectComplete(e, tpl, cat_of(id), sub_of(id));
  }
  void *get(int mode) {
    if (MP()) return mode == 'a' ? SPHMPMCQGetNextCompleteDirectSync(q) : SPHMPSCQGetNextCompleteDirect(q);
    switch (mode) {
      case 'a': return SPHSinglePCQueueGetNextCompleteDirect(q);
      case 'b': return SPHSinglePCQueueGetNextCompleteDirectSpin(q);
      case 'c': return SPHSinglePCQueueGetNextCompleteDirectSpinPause(q);
      default: { SPHLFEntryHandle_t h, *r = SPHSinglePCQueueGetNextComplete(q, &h); if (!r) return 0;
        int s = slot(r->entry); size_t hd = s >= 0 && s < 64 ? hdr(s) : 4;
        MC_CHECK(r->next == (char *)r->entry + hd && r->total_size == (unsigned short)stride && r->remaining == (unsigned short)(stride - hd), "handle", "handle of a delivered entry: next at +%ld, total %u, remaining %u (stride %u, header %zu)", (long)(r->next - (char *)r->entry), r->total_size, r->remaining, stride, hd);
        return r->entry; }
    }
  }
  int free(int mode, void *e) {
    if (MP()) return SPHMPMCQFreeEntryDirect(q, e);
    return mode == 'a' ? SPHSinglePCQueueFreeNextEntryDirect(q, e) : SPHSinglePCQueueFreeNextEntry(q);
  }
};
// ---------------------------------------------------------------- sequential
struct SM { int n, head, tail, cnt; signed char st[8], id[8], md[8]; };
struct SeqQ : SeqSysT<SM> {
  Qu q; std::vector<std::string> ops;
  void init() {
    memset(&m, 0, sizeof m); m.n = q.n;
    if (MP()) ops = {"alloc sync", "alloc single", "complete oldest", "complete newest", "get sync", "get single", "free oldest", "free newest", "reset", "prefetch"};
    else ops = {"alloc direct", "alloc direct spin", "alloc direct pause", "alloc handle", "alloc stamped", "alloc raw", "complete oldest", "complete newest", "get+free direct", "get+free direct spin", "get+free direct pause", "get+free handle", "reset", "prefetch"};
  }
  int cap() { return MP() ? m.n : m.n - 1; }
  bool can_alloc() { if (MP()) return m.st[m.head] == FREE; return (m.head + 1) % m.n != m.tail; }
  int nops() override { return ops.size(); }
  std::string name(int o) override { return ops[o]; }
  int find(int s, bool newest) { int r = -1; for (int i = 0; i < m.n; i++) { int k = (m.head + i) % m.n; if (m.st[k] == s) { r = k; if (!newest) break; } } return r; }
  bool enabled(int o) override {
    const std::string &s = ops[o];
    if (s.find("spin") != std::string::npos || s.find("pause") != std::string::npos) return s[0] == 'a' ? can_alloc() : m.st[m.tail] == COMP;   // would wait for ever
    if (s[0] == 'c') return find(ALLOC, s.back() == 't' && s.find("newest") != std::string::npos) >= 0 && (s.find("newest") == std::string::npos || find(ALLOC, true) != find(ALLOC, false));
    if (s.substr(0, 5) == "free ") { int a = find(GOT, false), b = find(GOT, true); return a >= 0 && (s == "free oldest" || a != b); }
    return true;
  }
  void apply(int o) override {
    const std::string &s = ops[o]; where = s; char nb[64];
    if (s.substr(0, 5) == "alloc") {
      int mode = MP() ? (o ? 'b' : 'a') : 'a' + o; int id = m.cnt; SPHLFEntryHandle_t h;
      void *e = q.alloc(mode, id, &h); bool ok = can_alloc();
      MC_CHECK(ok == (e != 0), "alloc-full", "%s %s with %d of %d entries in use", s.c_str(), e ? "succeeded" : "failed", used(), cap());
      if (!e || !ok) return;
      MC_CHECK(q.slot(e) == m.head, "alloc-order", "%s returned slot %d, the next one is %d", s.c_str(), q.slot(e), m.head); if (q.slot(e) != m.head) return;
      q.fill(e, id, q.hdr(m.head)); m.st[m.head] = ALLOC; m.id[m.head] = id; m.md[m.head] = mode; m.head = (m.head + 1) % m.n; m.cnt = (m.cnt + 1) % (m.n + 2);
    } else if (s.substr(0, 8) == "complete") {
      int k = find(ALLOC, s == "complete newest"); q.complete(q.at(k), m.id[k], m.md[k]); m.st[k] = COMP;
    } else if (s.substr(0, 3) == "get") {
      int mode = MP() ? (s == "get sync" ? 'a' : 'b') : s == "get+free direct" ? 'a' : s == "get+free direct spin" ? 'b' : s == "get+free direct pause" ? 'c' : 'd';
      void *e = q.get(mode); bool ok = m.st[m.tail] == COMP;
      MC_CHECK(ok == (e != 0), "get", "%s %s, the next entry is %s", s.c_str(), e ? "succeeded" : "failed", stn(m.st[m.tail])); if (!ok || !e) { if (!MP()) nofree(); return; }
      MC_CHECK(q.slot(e) == m.tail, "get-order", "%s returned slot %d, the next one is %d", s.c_str(), q.slot(e), m.tail);
      const char *bad = q.intact(e, m.id[m.tail], q.hdr(m.tail), true); MC_CHECK(!bad, "content", "%s: the %s of the delivered entry is wrong", s.c_str(), bad);
      if (MP()) { m.st[m.tail] = GOT; m.tail = (m.tail + 1) % m.n; }
      else { int rc = q.free(mode == 'd' ? 'd' : 'a', e); MC_CHECK(rc == 1, "free", "freeing the delivered entry returned %d", rc); m.st[m.tail] = FREE; m.tail = (m.tail + 1) % m.n; }
    } else if (s.substr(0, 5) == "free ") {
      int k = find(GOT, s == "free newest"); int rc = q.free('a', q.at(k)); MC_CHECK(rc == 1, "free", "freeing a delivered entry returned %d", rc); m.st[k] = FREE;
    } else if (s == "reset") {
      int rc = MP() ? SPHMPMCQResetAsync(q.q) : SPHSinglePCQueueResetAsync(q.q); MC_CHECK(rc == 0, "reset", "reset returned %d", rc);
      memset(m.st, 0, sizeof m.st); m.head = m.tail = 0;
    }
    else if (s == "prefetch") {
      int k = m.cnt % 3; int rc = MP() ? SPHMPMCQSetCachePrefetch(q.q, k) : SPHSinglePCQueueSetCachePrefetch(q.q, k); MC_CHECK(rc == 0, "prefetch", "setting cache prefetch %d returned %d", k, rc);
      rc = MP() ? SPHMPMCQPrefetch(q.q) : SPHSinglePCQueuePrefetch(q.q); MC_CHECK(rc == 0, "prefetch", "prefetch returned %d", rc);
      rc = MP() ? SPHMPMCQGetStride(q.q) : SPHSinglePCQueueGetStride(q.q); MC_CHECK(rc == (int)q.stride, "stride", "the queue's stride became %d, it was %u", rc, q.stride);
    }
    st.evaluations++;
  }
  void nofree() {          // nothing complete at the tail: nothing can be freed
    track_push(); int rc = SPHSinglePCQueueFreeNextEntry(q.q); track_pop(); MC_CHECK(rc == 0, "free", "SPHSinglePCQueueFreeNextEntry freed an entry that is %s", stn(m.st[m.tail]));
  }
  static const char *stn(int s) { static const char *n[] = {"free", "not complete", "complete", "being read"}; return n[s]; }
  int used() { int u = 0; for (int i = 0; i < m.n; i++) u += m.st[i] != FREE; return u; }
  void check() override {
    bool got = false; for (int i = 0; i < m.n; i++) {
      got |= m.st[i] == GOT; if (m.st[i] == FREE) continue; const char *bad;
      if (m.st[i] == ALLOC && m.md[i] == 'f') { bad = 0; unsigned char *p = (unsigned char *)q.at(i); for (size_t k = 4; k < q.stride; k++) if (p[k] != pay(m.id[i], k)) bad = "payload"; }
      else bad = q.intact(q.at(i), m.id[i], q.hdr(i), m.st[i] != ALLOC);
      MC_CHECK(!bad, "content", "the %s of a live entry (%s) changed", bad, stn(m.st[i]));
    }
    for (size_t i = 0; i < 64; i++) MC_CHECK((unsigned char)AR[q.size + i] == CAN || q.q != AR, "overrun", "byte %zu behind the queue was overwritten", i);
    int full = MP() ? SPHMPMCQIsFull(q.q) : SPHSinglePCQueueFull(q.q), empty = MP() ? SPHMPMCQIsEmpty(q.q) : SPHSinglePCQueueEmpty(q.q);
    size_t fs = MP() ? SPHMPMCQFreeSpace(q.q) : SPHSinglePCQueueFreeSpace(q.q);
    MC_CHECK(full == !can_alloc(), "full", "full is %d with %d of %d entries in use", full, used(), cap());
    if (!got) {
      if (!used() || m.st[m.tail] == COMP) MC_CHECK(empty == (used() == 0), "empty", "empty is %d with %d entries in use, the next one %s", empty, used(), stn(m.st[m.tail]));
      MC_CHECK(fs == (size_t)(cap() - used()) * q.stride, "free-space", "free space is %zu with %d of %d entries in use (stride %u)", fs, used(), cap(), q.stride);
    }
    void *nx = MP() ? SPHMPMCQGetNextEntry(q.q) : SPHSinglePCQueueGetNextEntryDirect(q.q);
    if (!(m.st[m.tail] == ALLOC && m.md[m.tail] == 'f')) {
      bool want = m.st[m.tail] == ALLOC || m.st[m.tail] == COMP;
      MC_CHECK(want ? nx == q.at(m.tail) : nx == 0, "next-entry", "get-next-entry returned slot %d, the tail is slot %d which is %s", nx ? q.slot(nx) : -1, m.tail, stn(m.st[m.tail]));
    }
  }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, 9); }
  void restore() override { SeqSysT<SM>::restore(); for (int i = 0; i < m.n && i < 8; i++) q.ts[i] = m.md[i] == 'e'; }
};
static bool inited;
static void init(bool region) {
  if (inited) return; inited = true;
  if (region) { join_region(); track_region(); } else track_statics();
  AR = arena(ARN); track_add(AR, ARN); install_handlers();
}
static void seqrun(size_t size, unsigned stride, int depth) {
  SeqQ s; s.q.seq = true; track_push(); s.q.make(size, stride); s.init();
  SeqOpts o; o.depth = depth; o.min_depth = depth; sample(strf("buffer %zu, stride %u: %d slots", size, stride, s.q.n));
  if (s.q.n <= 8) seq_explore(s, o);
  track_pop();
}
// a single-producer queue made without a stride has no entries: everything is refused and nothing is touched
static void nostride() {
  if (MP() || opts.shard) return;
  for (int region = 0; region < 2; region++) for (size_t size : {512u, 640u, 4096u}) {
    if (region && size < 4096) continue; track_push(); if (!region) memset(AR, CAN, size + 64); path_names = {strf("size %zu without a stride, %s", size, region ? "created" : "initialised")};
    SPHSinglePCQueue_t q = region ? SPHSinglePCQueueCreate(size) : SPHSinglePCQueueInit(AR, size); MC_CHECK(q != 0, "create", "queue of %zu bytes without a stride was not created", size); if (!q) { track_pop(); continue; }
    SPHLFEntryHandle_t h; uint64_t h0 = track_hash();
    MC_CHECK(SPHSinglePCQueueGetStride(q) == 0, "stride", "queue made without a stride reports stride %d", SPHSinglePCQueueGetStride(q));
    MC_CHECK(!SPHSinglePCQueueAllocStrideDirect(q) && !SPHSinglePCQueueAllocStrideEntry(q, 1, 2, &h) && !SPHSinglePCQueueAllocStrideTimeStamped(q, 1, 2, &h) && !SPHSinglePCQueueAllocRaw(q), "alloc-full", "a queue without entries allocated one");
    MC_CHECK(!SPHSinglePCQueueGetNextComplete(q, &h) && !SPHSinglePCQueueGetNextCompleteDirect(q) && !SPHSinglePCQueueFreeNextEntry(q), "get", "a queue without entries delivered one");
    MC_CHECK(SPHSinglePCQueueEmpty(q) == 1 && SPHSinglePCQueueFull(q) == 1, "empty", "a queue without entries is empty=%d full=%d", SPHSinglePCQueueEmpty(q), SPHSinglePCQueueFull(q));
    MC_CHECK(track_hash() == h0, "content", "calls on a queue without entries changed it");
    if (!region) for (size_t i = 0; i < 64; i++) MC_CHECK((unsigned char)AR[size + i] == CAN, "overrun", "byte %zu behind the queue was overwritten", i);
    if (region) { int rc = SPHSinglePCQueueDestroy(q); MC_CHECK(rc == 0, "destroy", "destroy returned %d", rc); }
    st.executions++; st.evaluations++; st.states++; track_pop();
  }
}
MC_CONFIG(seq, "sequences", 4, 8) {
  init(true); size_t hd = MP() ? 384 : 256; int d = opts.thorough ? 40 : 30;
  if (MP()) for (int n = 1; n <= (opts.thorough ? 4 : 3); n++) for (unsigned st : {16u, 48u, 24u, 128u}) { if (n == 3 && st != 48 && !opts.thorough) continue; seqrun(hd + n * ((st + 15) & ~15u), st, d); if (n == 2) seqrun(hd + n * ((st + 15) & ~15u) + 15, st, d); }
  else { int dd = opts.thorough ? 9 : 7; for (int n = 2; n <= 4; n++) for (unsigned st : {16u, 48u, 24u, 128u}) { seqrun(hd + n * ((st + 15) & ~15u), st, n == 2 ? dd + 2 : dd); if (n == 3) seqrun(hd + n * ((st + 15) & ~15u) + 15, st, dd - 1); } }
  nostride();
  seqrun(hd + 2 * 4096, 4096, 6); seqrun(hd + 2 * 8192, 8192, 6); seqrun(hd + 2 * 16384 + 100, 16384, 6);
}
// fill, wrap and drain whole queues of every size and stride
MC_CONFIG(sizes, "sizes", 4, 8) {
  init(true); int k = 0;
  for (int region = 0; region < 2; region++) for (size_t size = region ? 4096 : 640; size <= (opts.thorough ? 65536u : 16384u); size = region ? size * 2 : size + (size < 1400 ? 8 : size / 2 - 1))
    for (unsigned sd = 16; sd <= 2048 && sd + 512 < size; sd += sd < 64 ? 4 : sd < 200 ? 24 : 448) {
      if (k++ % opts.nshards != opts.shard) continue; heartbeat(); path_names = {strf("size %zu stride %u %s", size, sd, region ? "created" : "initialised")};
      track_push(); Qu q; q.make(size, sd, region); int cap = MP() ? q.n : q.n - 1;
      int nid = 0, gid = 0;
      auto put = [&](int want) { char *e = (char *)q.alloc('a', nid); MC_CHECK((e != 0) == (want != 0), "capacity", "allocation %d of %d %s", nid - gid, cap, e ? "succeeded" : "failed"); if (!e) return; q.fill(e, nid, 4); q.complete(e, nid, 'a'); nid++; };
      auto take = [&]() { void *e = q.get('a'); MC_CHECK(e != 0, "get", "get failed with %d entries queued", nid - gid); if (!e) return; const char *b = q.intact(e, gid, 4, true); MC_CHECK(!b, "content", "%s of entry %d is wrong", b, gid); MC_CHECK(q.free('a', e) == 1, "free", "free failed"); gid++; };
      for (int round = 0; round < 3; round++) { while (nid - gid < cap) put(1); put(0); int keep = round; while (nid - gid > keep && nid > gid) take(); }
      while (nid > gid) take();
      MC_CHECK(q.get('a') == 0, "get", "get from a drained queue succeeded");
      size_t fs = MP() ? SPHMPMCQFreeSpace(q.q) : SPHSinglePCQueueFreeSpace(q.q); MC_CHECK(fs == (size_t)cap * q.stride, "free-space", "free space of a drained queue of %d entries is %zu", cap, fs);
      if (region) { int rc = MP() ? SPHMPMCQDestroy(q.q) : SPHSinglePCQueueDestroy(q.q); MC_CHECK(rc == 0, "destroy", "destroy returned %d", rc); }
      st.executions++; st.evaluations += nid; st.states++; track_pop();
    }
}
// ---------------------------------------------------------------- concurrent
// program letters: A/a alloc (multi / single producer form), K complete oldest held, k complete newest held,
// G/g get, F free oldest held, f free newest held; for the SPSC queue: alloc modes a..e, get modes G (direct) S (spin) U (pause) H (handle), F/h free direct / handle
struct Ev { int kind, tid, s, inv, res, idx, id; };
struct QSys : ConcSys {
  int n; unsigned stride; int fill0, rot; std::string prog[5]; std::string nm; Qu q;
  std::vector<Ev> ev; int clk; int nextid;
  struct Held { void *e; int id, s; size_t hd; int mode; }; std::vector<Held> prod[5], cons[5]; int gotn[8], puts[8];
  bool lk = false; std::vector<Ev> ev0; int clk0, id0;
  QSys() { state_based = true; }
  uint64_t mhash() override {
    uint64_t h = mix(clk, nextid); for (auto &e : ev) h = hash_bytes(&e, sizeof e, h);
    for (int t = 1; t <= nthreads; t++) { for (auto &x : prod[t]) h = mix(h, x.s * 8 + x.id); for (auto &x : cons[t]) h = mix(h, x.s * 8 + x.id + 99); h = mix(h, 17); }
    return h;
  }
  void share() override { conc_share(AR, ARN); if (MP() && lk) share_locks(); else if (MP()) share_ideal_locks(); }
  void setup() override { memset(q.ts, 0, sizeof q.ts); ev = ev0; clk = clk0; nextid = id0; for (int i = 0; i < 5; i++) { prod[i].clear(); cons[i].clear(); } }
  void prepare() {
    ev.clear(); clk = 0; nextid = 0; for (int i = 0; i < 5; i++) { prod[i].clear(); cons[i].clear(); }
    q.make((MP() ? 384 : 256) + n * stride, stride);
    for (int i = 0; i < rot; i++) { void *e = q.alloc('a', 0); q.fill(e, 0, 4); q.complete(e, 0, 'a'); e = q.get('a'); q.free('a', e); }
    for (int i = 0; i < fill0; i++) { int id = nextid++; void *e = q.alloc('a', id); q.fill(e, id, 4); q.complete(e, id, 'a'); ev.push_back({'A', 0, q.slot(e), clk, clk, 0, id}); ev.push_back({'K', 0, q.slot(e), clk, clk, 0, id}); }
    clk++; ev0 = ev; clk0 = clk; id0 = nextid;
  }
  void op(int t, char c) {
    int v = clk++; conc_event(0);
    if (strchr("Aabcde", c) && (MP() ? c == 'A' || c == 'a' : true)) {
      int id = 8 * t + (int)prog[t].size() + (int)prod[t].size(); int mode = MP() ? (c == 'A' ? 'a' : 'b') : c; SPHLFEntryHandle_t h;
      // ids: one per allocation of this thread
      int k = 0; for (auto &e : ev) if (e.tid == t && e.kind == 'A') k++; id = t * 8 + k;
      void *e = q.alloc(mode, id, &h); conc_event(1);
      if (!e) { ev.push_back({'N', t, -1, v, clk++, 0, 0}); return; }
      int s = q.slot(e); MC_CHECK(s >= 0, "alloc-order", "allocation returned an address that is no entry"); if (s < 0) return;
      size_t hd = mode == 'e' && !MP() ? 16 : 4; ev.push_back({'A', t, s, v, clk++, 0, id});
      // the entry is this thread's alone until it completes it
      q.fill(e, id, hd); prod[t].push_back({e, id, s, hd, mode});
    } else if (c == 'K' || c == 'k') {
      auto &p = prod[t]; if (p.empty()) return; auto it = c == 'K' ? p.begin() : p.end() - 1; Held h = *it; p.erase(it);
      const char *b = q.intact(h.e, h.id, h.hd, false); MC_CHECK(!b, "intrusion", "the %s of an entry was changed by others while its producer was writing it", b);
      q.complete(h.e, h.id, MP() ? 'a' : h.mode); conc_event(1); ev.push_back({'K', t, h.s, v, clk++, 0, h.id});
    } else if (strchr(MP() ? "Gg" : "GSUH", c)) {
      void *e = q.get(MP() ? (c == 'G' ? 'a' : 'b') : c == 'G' ? 'a' : c == 'S' ? 'b' : c == 'U' ? 'c' : 'd'); conc_event(1);
      if (!e) { ev.push_back({'M', t, -1, v, clk++, 0, 0}); return; }
      int s = q.slot(e); MC_CHECK(s >= 0, "get-order", "get returned an address that is no entry"); if (s < 0) return;
      // which entry is it? the one most recently allocated in this slot
      int id = -1; for (auto &x : ev) if (x.kind == 'A' && x.s == s) id = x.id;
      bool comp = false; for (auto &x : ev) if (x.kind == 'K' && x.s == s && x.id == id) comp = true;
      for (int u = 0; u < 5; u++) for (auto &h : prod[u]) if (h.s == s) { MC_CHECK(comp || SPHLFEntryDirectIsComplete(e), "incomplete", "an entry that its producer has not completed was delivered"); }
      for (int u = 0; u < 5; u++) for (auto &h : cons[u]) MC_CHECK(h.s != s, "double-delivery", "an entry was delivered to thread %d while thread %d is still reading it", t, u);
      size_t hd = s < 64 ? q.hdr(s) : 4; const char *b = q.intact(e, id, hd, true); MC_CHECK(!b, "content", "the %s of a delivered entry is not what its producer stored", b);
      ev.push_back({'G', t, s, v, clk++, 0, id}); cons[t].push_back({e, id, s, hd, 0});
    } else if (c == 'F' || c == 'f' || c == 'h') {
      auto &p = cons[t]; if (p.empty()) return; auto it = c != 'f' ? p.begin() : p.end() - 1; Held h = *it; p.erase(it);
      const char *b = q.intact(h.e, h.id, h.hd, true); MC_CHECK(!b, "intrusion", "the %s of an entry changed while its consumer was reading it", b);
      int rc = q.free(c == 'h' ? 'd' : 'a', h.e); conc_event(1); MC_CHECK(rc == 1, "free", "freeing a delivered entry returned %d", rc); ev.push_back({'F', t, h.s, v, clk++, 0, h.id});
    }
  }
  void thread(int t) override { for (char c : prog[t]) op(t, c); }
  void finish() override {
    st.evaluations++;
    // complete what is allocated, then drain: everything not yet delivered must come out, in allocation order
    for (int t = 0; t < 5; t++) { for (auto &h : prod[t]) { q.complete(h.e, h.id, MP() ? 'a' : h.mode); ev.push_back({'K', t, h.s, clk, clk, 0, h.id}); clk++; } prod[t].clear(); }
    for (int t = 0; t < 5; t++) { for (auto &h : cons[t]) { q.free('a', h.e); ev.push_back({'F', t, h.s, clk, clk, 0, h.id}); clk++; } cons[t].clear(); }
    int A = 0, Gt = 0; for (auto &e : ev) { A += e.kind == 'A'; Gt += e.kind == 'G'; }
    int left = A - Gt; std::vector<int> drained;
    for (int i = 0; i <= left; i++) {
      void *e = q.get('a'); if (!e) break; int s = q.slot(e); MC_CHECK(s >= 0, "get-order", "get returned an address that is no entry"); if (s < 0) return;
      int id = -1; for (auto &x : ev) if (x.kind == 'A' && x.s == s) id = x.id;
      const char *b = q.intact(e, id, s < 64 ? q.hdr(s) : 4, true); MC_CHECK(!b, "content", "the %s of a delivered entry is not what its producer stored", b);
      ev.push_back({'G', 0, s, clk, clk, 0, id}); clk++; q.free('a', e); ev.push_back({'F', 0, s, clk, clk, 0, id}); clk++; drained.push_back(s);
    }
    MC_CHECK((int)drained.size() == left, "lost", "%d entries were completed and not delivered, %zu came out of the queue afterwards", left, drained.size());
    // allocation i must be in slot (i + rot) mod n, delivery likewise
    for (char kind : {'A', 'G'}) {
      int cnt[64] = {}, mx = 0; std::vector<Ev *> l; for (auto &e : ev) if (e.kind == kind) { int r = (e.s - rot % n + n) % n; e.idx = cnt[r]++ * n + r; l.push_back(&e); }
      std::set<int> idx; for (auto *e : l) { MC_CHECK(idx.insert(e->idx).second, "order", "two %ss in one place", kind == 'A' ? "allocation" : "deliverie"); }
      for (int i = 0; i < (int)l.size(); i++) MC_CHECK(idx.count(i), "order", "%s skipped a place of the ring: place %d of %zu is missing", kind == 'A' ? "allocation" : "delivery", i, l.size());
      for (auto *a : l) for (auto *b : l) if (a->res < b->inv) MC_CHECK(a->idx < b->idx, "order", "%s %d happened entirely before %s %d", kind == 'A' ? "allocation" : "delivery", a->idx, kind == 'A' ? "allocation" : "delivery", b->idx);
      (void)mx;
    }
    std::map<int, Ev *> aof, kof, gof, fof; std::map<int, int> idn; 
    for (auto &e : ev) if (e.kind == 'A') { aof[e.idx] = &e; idn[e.id] = e.idx; }
    for (auto &e : ev) { if (e.kind == 'K') kof[idn[e.id]] = &e; if (e.kind == 'G') { gof[e.idx] = &e; MC_CHECK(aof.count(e.idx) && aof[e.idx]->id == e.id, "order", "delivery %d is not allocation %d", e.idx, e.idx); } if (e.kind == 'F') fof[idn[e.id]] = &e; }
    // failures must be justified
    for (auto &e : ev) {
      if (e.kind == 'N') {
        int lo = 0, hi = 0; for (auto &x : aof) { lo += x.second->res < e.inv; hi += x.second->inv < e.res; }
        bool ok = false; for (int a = lo; a <= hi; a++) { if (MP()) { int occ = a - n; if (occ >= 0 && (!fof.count(occ) || fof[occ]->res > e.inv)) ok = true; } else { int occ = a - (n - 1); if (occ >= 0 && (!fof.count(occ) || fof[occ]->res > e.inv)) ok = true; } }
        MC_CHECK(ok, "alloc-failed", "an allocation failed although the queue was not full at any time during it");
      }
      if (e.kind == 'M') {
        int lo = 0, hi = 0; for (auto &x : gof) { lo += x.second->res < e.inv; hi += x.second->inv < e.res; }
        bool ok = false; for (int g = lo; g <= hi; g++) if (!kof.count(g) || kof[g]->res > e.inv) ok = true;
        MC_CHECK(ok, "get-failed", "a get failed although the next entry was complete all the time");
      }
    }
    // all slots are usable again
    int cap = MP() ? n : n - 1; size_t fs = MP() ? SPHMPMCQFreeSpace(q.q) : SPHSinglePCQueueFreeSpace(q.q);
    MC_CHECK(fs == (size_t)cap * stride, "free-space", "free space of the drained queue is %zu, its capacity is %u", fs, cap * stride);
    MC_CHECK((MP() ? SPHMPMCQIsEmpty(q.q) : SPHSinglePCQueueEmpty(q.q)) == 1, "empty", "the drained queue is not reported empty");
    int k = 0; while (k <= n && q.alloc('a', 0)) k++;
    MC_CHECK(k == cap, "slots-lost", "only %d of %d entries can be allocated afterwards", k, cap);
  }
};
static void conc(int n, int fill, int rot, std::vector<std::string> progs, int pb, bool real = false) {
  QSys s; s.n = n; s.stride = 16; s.fill0 = fill; s.rot = rot; s.nthreads = progs.size(); std::string d;
  for (size_t i = 0; i < progs.size(); i++) { s.prog[i + 1] = progs[i]; d += (i ? " | " : "") + progs[i]; }
  s.lk = real; ConcOpts o; o.preemptions = pb; track_push(); s.prepare(); conc_explore(s, o, strf("%s, %d slots, %d filled, rotated %d, preemption bound %d", d.c_str(), n, fill, rot, pb)); track_pop();
}
MC_CONFIG(conc2, "two-threads", 8, 8) {
  init(false); if (MP()) ideal_locks(); int deep = opts.thorough ? -1 : 4;
  if (MP()) {
    for (int n = 1; n <= 3; n++) for (int fill = 0; fill <= n; fill++) for (auto p : std::vector<std::vector<std::string>>{{"AK", "AK"}, {"AK", "GF"}, {"GF", "GF"}}) conc(n, fill, fill % n, p, -1);
    for (int n = 1; n <= 2; n++) for (int fill = 0; fill <= n; fill++) for (auto p : std::vector<std::vector<std::string>>{{"AKGF", "AKGF"}, {"AKAK", "GFGF"}, {"AAkk", "GGff"}, {"AK", "GFGF"}, {"AKAK", "GF"}, {"aKaK", "GFGF"}, {"AKAK", "gFgF"}, {"aKaK", "gFgF"}, {"GFGF", "GFGF"}, {"AKAK", "AKAK"}}) conc(n, fill, 0, p, deep);
  } else {
    for (int n = 2; n <= 3; n++) for (int fill = 0; fill < n; fill++) for (char a : std::string("ade")) for (char g : std::string("GH")) {
      std::string p = {a, 'K', a, 'K', a, 'K'}, c = {g, g == 'H' ? 'h' : 'F', g, g == 'H' ? 'h' : 'F', g, g == 'H' ? 'h' : 'F'};
      conc(n, fill, fill, {p, c}, -1);
    }
    // spinning forms: as many gets as puts, so both ends finish
    for (int n = 2; n <= 3; n++) for (int fill = 0; fill < n; fill++) for (char a : std::string("bc")) for (char g : std::string("SU")) {
      int k = opts.thorough ? 4 : 3; std::string p, c; for (int i = 0; i < k; i++) { p += a; p += 'K'; } for (int i = 0; i < k; i++) { c += g; c += 'F'; }
      conc(n, fill, 0, {p, c}, -1);
    }
    conc(3, 0, 0, {"aakk", "GFGF"}, -1); conc(3, 0, 1, {"aaKK", "GFGF"}, -1); conc(3, 0, 2, {"dekkaK", "HhHhHh"}, -1); conc(2, 1, 0, {"aKaKaKaK", "GFGFGFGF"}, -1); if (opts.thorough) conc(4, 1, 2, {"aakkaakk", "GFGFGFGF"}, -1); conc(2, 0, 0, {"bKbKbKbK", "SFSFSFSF"}, -1);
    conc(3, 0, 0, {"bKcKaK", "SFUFGF"}, -1); conc(2, 0, 0, {"eKdKeK", "HhHhHh"}, -1); conc(2, 0, 0, {"eKaKdK", "GFHhGF"}, -1);
  }
}
MC_CONFIG(conc3, "three-and-four-threads", 8, 8) {
  if (!MP()) return; init(false); ideal_locks(); int b3 = opts.thorough ? 4 : 2, b4 = opts.thorough ? 3 : 2;
  for (int n = 1; n <= 2; n++) for (int fill = 0; fill <= n; fill++) for (auto p : std::vector<std::vector<std::string>>{{"AK", "AK", "GF"}, {"AK", "GF", "GF"}, {"AK", "AK", "AK"}, {"GF", "GF", "GF"}, {"AKAK", "GF", "GF"}, {"aKaK", "GF", "GF"}, {"AK", "AK", "gFgF"}}) conc(n, fill, 0, p, b3);
  for (int n = 1; n <= 2; n++) for (int fill = 0; fill <= n; fill++) conc(n, fill, 0, {"AK", "AK", "GF", "GF"}, b4);
  conc(3, 1, 2, {"AK", "AK", "GF", "GF"}, b4); conc(3, 3, 1, {"AK", "GF", "GF", "GF"}, b4); conc(3, 0, 2, {"AK", "AK", "AK", "GF"}, b4);
}
// with the real address locks underneath
MC_CONFIG(conclk, "real-locks", 4, 8) {
  if (!MP()) return; init(true); int pb = opts.thorough ? 3 : 1;
  for (auto p : std::vector<std::vector<std::string>>{{"AK", "AK"}, {"AK", "GF"}, {"GF", "GF"}, {"AKGF", "AKGF"}}) for (int fill = 0; fill <= 2; fill++) conc(2, fill, 0, p, pb, true);
  conc(2, 1, 0, {"AK", "AK", "GF"}, 1, true); conc(2, 1, 0, {"AK", "GF", "GF"}, 1, true);
}
