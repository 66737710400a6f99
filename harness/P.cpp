// G03: log portals, sequentially and under every interleaving of adders, writers and readers.
#include "conc_common.h"
#include "sphthread.h"
#include "sphlflogger.h"
#include "sphlflogentry.h"
#include "sphlogportal.h"
static char *AR; static const size_t ARN = 1 << 20;
static const unsigned char CAN = 0xC5;
static int cat_of(int id) { static const int c[] = {0, 0xfff, 0x800, 1, 0x555, 0xaaa, 7, 0x7ff}; return c[id & 7]; }
static int sub_of(int id) { static const int c[] = {0xff, 0, 0x80, 1, 0x55, 0xaa, 7, 0x7f}; return c[(id + (id >> 3)) & 7]; }
#define NS __attribute__((no_sanitize("thread"), noinline))
static NS inline unsigned char pay(int id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
static size_t rnd(size_t s) { return (s + 15) & ~15ul; }
static NS void fill(char *e, int id, size_t from, size_t to) { if (from < to) conc_point(e + from, to - from, CONC_WRITE, (void *)1); for (size_t i = from; i < to; i++) e[i] = pay(id, i); }
static NS bool filled(char *e, int id, size_t from, size_t to) { if (from < to) conc_point(e + from, to - from, CONC_READ, (void *)2); for (size_t i = from; i < to; i++) if ((unsigned char)e[i] != pay(id, i)) return false; return true; }
static int do_complete(SPHLFLoggerHandle_t *h, int mode) { return mode == 0 ? SPHLFLoggerEntryComplete(h) : mode == 1 ? SPHLFLogEntryComplete(h) : mode == 2 ? SPHLFLogEntryStrongComplete(h) : SPHLFLogEntryWeakComplete(h); }
static bool inited;
static void init(bool region) {
  if (inited) return; inited = true; watchdog(20);
  if (region) { join_region(); track_region(); } else track_statics();
  AR = arena(ARN); track_add(AR, ARN); install_handlers(); threadID = 0x54321;
}
static int part_i; static bool part() { return part_i++ % opts.nshards == opts.shard; }
// a logger at slot k of the arena
static char *log_at(int k) { return AR + 8192 + 4096 * k; }
static SPHLFLogger_t make_log(int k, unsigned cap, unsigned stride, bool circ) {
  memset(log_at(k), 0, 256 + cap); memset(log_at(k) + 256 + cap, CAN, 64); return SPHLFLoggerInitWithStride(log_at(k), 256 + cap, stride, circ ? SPHLFLOGGER_CIRCULAR : 0);
}
static SPHLogPortal_t make_portal(int slots, bool dirty) {
  memset(AR, dirty ? 0x41 : 0, 256 + slots * 16); memset(AR + 256 + slots * 16, CAN, 256);
  if (dirty) for (int i = 0; i < slots * 2; i++) ((void **)(AR + 256))[i] = log_at(i % 3);
  return SPHLogPortalInit(AR, 256 + slots * 16);
}
// ---------------------------------------------------------------- sequential
struct PE { unsigned off, len; short id; signed char st, hdr; };
struct PL { unsigned next; int n; bool over; PE e[8]; };
struct PM { int n, cur, cnt; signed char list[8]; bool in[8]; PL l[6]; };
enum { ADD, SIZED, STRIDE, RAW, HUGE_, DIRECT, COMPL, RESETL, IDENT };
struct POp { int k; unsigned long size; int var; std::string name; };
struct PSys : SeqSysT<PM> {
  SPHLogPortal_t pt = 0; int slots = 0, nl = 0; unsigned cap[6], stride[6]; bool circ[6]; SPHLFLogger_t lg[6]; std::vector<POp> ops; bool again = false;
  int nops() override { return ops.size(); }
  std::string name(int o) override { return ops[o].name; }
  bool room() { for (int i = 0; i < nl; i++) if (m.l[i].n >= 7) return false; return true; }
  bool enabled(int o) override { auto &p = ops[o]; switch (p.k) { case ADD: return again || !m.in[p.var]; case SIZED: case STRIDE: case RAW: return room(); case DIRECT: return room(); case RESETL: return m.l[p.var].next || m.l[p.var].over; case COMPL: { int i, j; return inc(i, j, false); } } return true; }
  bool inc(int &li, int &ei, bool newest) { bool f = false; for (int i = 0; i < nl; i++) for (int j = 0; j < m.l[i].n; j++) if (m.l[i].e[j].st == 1 && (!f || newest)) li = i, ei = j, f = true; return f; }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, 5); }
  void make(int slots_, bool dirty, std::vector<std::array<unsigned, 3>> logs) {
    memset(&m, 0, sizeof m); slots = slots_; nl = logs.size();
    for (int i = 0; i < nl; i++) { cap[i] = logs[i][0]; stride[i] = logs[i][1]; circ[i] = logs[i][2]; lg[i] = make_log(i, cap[i], stride[i], circ[i]); }
    pt = make_portal(slots, dirty); MC_CHECK(pt == AR, "create", "no portal of %d slots", slots);
  }
  // one try at logger i, by the documented rules of a logger: >=0 offset, -1 refused (log then full), -2 can never fit
  int try_log(int i, unsigned long len) {
    PL &l = m.l[i]; if (!len || len > cap[i]) return -2;
    if (circ[i]) { if (l.next + len > cap[i]) { l.next = 0; } return l.next; }
    if (l.over || l.next + len > cap[i]) { l.over = true; return -1; }
    return l.next;
  }
  bool full(int i) { return m.l[i].over || m.l[i].next >= cap[i]; }
  void put(int i, unsigned off, unsigned len, int id, int hd) { PL &l = m.l[i]; int k = 0; for (int j = 0; j < l.n; j++) if (l.e[j].off + l.e[j].len <= off || l.e[j].off >= off + len) l.e[k++] = l.e[j]; memset(l.e + k, 0, sizeof(PE) * (l.n - k)); l.n = k; l.e[l.n++] = {off, len, (short)id, 1, (signed char)hd}; l.next = off + len; m.cnt = (m.cnt + 1) % 16; }
  void alloc(const POp &p) {
    int id = m.cnt, want = -1, off = -1, c = m.cur, hi = m.cur; unsigned long len = 0; SPHLFLoggerHandle_t h, *r = 0; char *e = 0; memset(&h, 0x77, sizeof h);
    while (c < m.n) { int i = m.list[c]; len = p.k == STRIDE ? stride[i] : p.k == RAW ? rnd(p.size) : p.k == HUGE_ ? ~0ul : rnd(p.size + 16); off = try_log(i, len); if (off >= 0) { want = c; break; } if (!full(i) || c + 1 >= m.n) break; c++; }
    hi = c;
    fixed_time = 5000 + id; sphtimer_t now = sphgettimer();
    switch (p.k) {
      case SIZED: r = SPHLogPortalAllocTimeStamped(pt, cat_of(id), sub_of(id), p.size, &h); break;
      case HUGE_: if (p.var) e = (char *)SPHLogPortalAllocRaw(pt, p.size); else r = SPHLogPortalAllocTimeStamped(pt, cat_of(id), sub_of(id), p.size, &h); break;
      case STRIDE: r = SPHLogPortalAllocStrideTimeStamped(pt, cat_of(id), sub_of(id), &h); break;
      case RAW: e = (char *)SPHLogPortalAllocRaw(pt, p.size); break;
    }
    fixed_time = -1; if (r) { MC_CHECK(r == &h, "handle", "%s did not return the handle it was given", p.name.c_str()); e = (char *)h.entry; }
    MC_CHECK((e != 0) == (want >= 0), "fit", "%s %s; the portal holds %d loggers, current %d", p.name.c_str(), e ? "succeeded" : "failed", m.n, m.cur);
    int ci = SPHLogPortalGetCurrentIndex(pt);
    if (!e || want < 0) { if (m.n) { MC_CHECK(ci >= m.cur && ci <= hi, "rotate", "after a refused reservation the current logger is %d, was %d", ci, m.cur); m.cur = ci; } return; }
    MC_CHECK(ci == want, "rotate", "%s: the current logger is %d, expected %d", p.name.c_str(), ci, want); m.cur = want; int i = m.list[want];
    MC_CHECK(e == log_at(i) + 256 + off, "place", "%s: entry in logger %ld at offset %ld, expected logger %d offset %d", p.name.c_str(), (long)(e - AR - 8192) / 4096, (long)(e - AR - 8192) % 4096 - 256, i, off); if (e != log_at(i) + 256 + off) return;
    if (r) {
      MC_CHECK(h.next == e + 16 && h.total_size == len && h.remaining == len - 16, "handle", "%s: handle has next +%ld, total %u, remaining %u for an entry of %lu bytes", p.name.c_str(), (long)(h.next - e), h.total_size, h.remaining, len);
      MC_CHECK((long)h.entry->timeStamp == (long)now && h.entry->PID == (sphpid16_t)procID && h.entry->TID == (sphpid16_t)threadID, "identity", "%s: stamped with time %ld process %u thread %u", p.name.c_str(), (long)h.entry->timeStamp, h.entry->PID, h.entry->TID);
      MC_CHECK(!h.entry->entryID.detail.valid && h.entry->entryID.detail.timestamped && h.entry->entryID.detail.category == (unsigned)cat_of(id) && h.entry->entryID.detail.subcat == (unsigned)sub_of(id), "header", "%s: header word %x", p.name.c_str(), h.entry->entryID.idUnit);
    } else header(e, id, len);
    fill(e, id, r ? 16 : 4, len); put(i, off, len, id, r ? 16 : 4);
  }
  void header(char *e, int id, unsigned len) { sphLogEntry_t t; t.idUnit = 0; t.detail.category = cat_of(id); t.detail.subcat = sub_of(id); t.detail.len = len / 16; ((SPHLFLogHeader_t *)e)->entryID.idUnit = t.idUnit; }
  void apply(int o) override {
    auto &p = ops[o]; where = p.name; st.evaluations++;
    switch (p.k) {
      case ADD: { SPHLFLogger_t r = SPHLogPortalAddLogger(pt, lg[p.var]); bool ok = m.n < slots; MC_CHECK(r == (ok ? lg[p.var] : 0), "add", "adding logger %d to a portal with %d of %d loggers %s", p.var, m.n, slots, r ? "succeeded" : "failed"); if (r && ok) m.list[m.n++] = p.var, m.in[p.var] = true; break; }
      case DIRECT: { int i = p.var, id = m.cnt, off = try_log(i, 32); SPHLFLoggerHandle_t h; fixed_time = 5000 + id; auto r = SPHLFLoggerAllocTimeStamped(lg[i], cat_of(id), sub_of(id), 16, &h); fixed_time = -1; if (r && off >= 0) { fill((char *)h.entry, id, 16, 32); put(i, off, 32, id, 16); } break; }
      case COMPL: { int i, j; inc(i, j, p.var); PE &e = m.l[i].e[j]; SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)(log_at(i) + 256 + e.off); do_complete(&h, e.id & 3); e.st = 2; break; }
      case RESETL: { SPHLFLoggerResetAsync(lg[p.var]); memset(&m.l[p.var], 0, sizeof(PL)); break; }
      case IDENT: threadID = 0x12340000 + (threadID * 7 + 3) % 0xffff; procID = 0x10000 * 5 + (procID * 5 + 1) % 0xffff; break;
      default: alloc(p);
    }
  }
  void check() override {
    where = "status";
    MC_CHECK(SPHLogPortalEntries(pt) == m.n, "entries", "the portal reports %d loggers, %d of at most %d were added", SPHLogPortalEntries(pt), m.n, slots);
    MC_CHECK(SPHLogPortalCapacity(pt) == slots, "capacity", "the portal reports a capacity of %d, expected %d", SPHLogPortalCapacity(pt), slots);
    MC_CHECK((SPHLogPortalEmpty(pt) != 0) == (m.n == 0), "empty", "empty is %d with %d loggers", SPHLogPortalEmpty(pt), m.n);
    MC_CHECK(SPHLogPortalGetCurrentIndex(pt) == (m.n ? m.cur : -1), "current-index", "the current index is %d, expected %d", SPHLogPortalGetCurrentIndex(pt), m.n ? m.cur : -1);
    SPHLFLogger_t c = SPHLogPortalGetCurrentLogger(pt), wc = m.n ? lg[(int)m.list[m.cur]] : 0; MC_CHECK(c == wc || (!c && m.cur == m.n - 1 && full(m.list[m.cur])), "current", "the current logger is %p, expected %p", c, wc);
    for (int i = 0; i <= slots + 2; i++) { SPHLFLogger_t g = SPHLogPortalGetLoggerByIndex(pt, i); MC_CHECK(g == (i < m.n ? lg[(int)m.list[i]] : 0), "by-index", "logger %d of the portal is %p, expected %p", i, g, i < m.n ? lg[(int)m.list[i]] : 0); }
    MC_CHECK(!SPHLogPortalGetLoggerByIndex(pt, -1), "by-index", "there is a logger -1");
    for (int i = 0; i < 256; i++) MC_CHECK((unsigned char)AR[256 + slots * 16 + i] == CAN, "overrun", "byte %d behind the portal was overwritten", i);
    for (int i = 0; i < nl; i++) {
      unsigned fs = full(i) ? 0 : cap[i] - m.l[i].next; MC_CHECK(SPHLFLoggerFreeSpace(lg[i]) == fs && SPHLFLoggerFull(lg[i]) == (fs == 0), "logger-space", "logger %d has %ld bytes free (full %d), expected %u", i, (long)SPHLFLoggerFreeSpace(lg[i]), SPHLFLoggerFull(lg[i]), fs);
      for (int j = 0; j < m.l[i].n; j++) MC_CHECK(filled(log_at(i) + 256 + m.l[i].e[j].off, m.l[i].e[j].id, m.l[i].e[j].hdr, m.l[i].e[j].len), "content", "the payload of an entry in logger %d changed", i);
      for (int j = 0; j < 64; j++) MC_CHECK((unsigned char)log_at(i)[256 + cap[i] + j] == CAN, "overrun", "byte %d behind logger %d was overwritten", j, i);
    }
    where = "iterate"; SPHLFPortalIterator_t it, *ip; memset(&it, 0, sizeof it); ip = SPHLFPortalCreateIterator(pt, &it); MC_CHECK(ip == (m.n ? &it : 0), "iterator", "the portal with %d loggers %s an iterator", m.n, ip ? "gave" : "refused"); if (!ip || !m.n) return;
    SPHLFLoggerHandle_t h, *r; int k = 0;
    for (int q = 0; q < m.n; q++) { PL &l = m.l[(int)m.list[q]];
      for (int j = 0; j < l.n && l.e[j].st == 2; j++, k++) {
        PE &e = l.e[j]; r = SPHLFPortalIteratorNext(&it, &h); MC_CHECK(r == &h, "iterate", "iteration ends after %d entries, before entry %d of logger %d", k, j, q); if (!r) return;
        MC_CHECK((char *)h.entry == log_at(m.list[q]) + 256 + e.off, "iterate-order", "entry %d of the iteration is in logger %ld at offset %ld, expected position %d offset %u", k, (long)((char *)h.entry - AR - 8192) / 4096, (long)((char *)h.entry - AR - 8192) % 4096 - 256, q, e.off);
        MC_CHECK(h.next == (char *)h.entry + e.hdr && h.total_size == e.len && h.remaining == e.len - e.hdr && SPHLFLogEntryCategory(&h) == cat_of(e.id) && SPHLFLogEntrySubcat(&h) == sub_of(e.id) && SPHLFLogEntryIsComplete(&h), "iterate-handle", "entry %d of the iteration: total %u, remaining %u, category %d", k, h.total_size, h.remaining, SPHLFLogEntryCategory(&h));
      } }
    for (int i = 0; i < 2; i++) MC_CHECK(!SPHLFPortalIteratorNext(&it, &h), "iterate", "iteration goes on after all %d entries", k);
  }
  void common(std::vector<unsigned long> sizes) {
    for (int i = 0; i < nl; i++) ops.push_back({ADD, 0, i, strf("add logger %d", i)});
    for (auto z : sizes) ops.push_back({SIZED, z, 0, strf("alloc %lu", z)});
    ops.push_back({STRIDE, 0, 0, "alloc stride"}); ops.push_back({COMPL, 0, 0, "complete first"}); ops.push_back({COMPL, 0, 1, "complete last"});
  }
};
static void run(int slots, bool dirty, std::vector<std::array<unsigned, 3>> logs, std::vector<unsigned long> sizes, int extra, int depth, bool again = false) {
  if (!part()) return; PSys s; track_push(); s.make(slots, dirty, logs); s.again = again; s.common(sizes);
  if (extra & 1) for (unsigned long z : {20ul}) s.ops.push_back({RAW, z, 0, strf("alloc raw %lu", z)});
  if (extra & 2) { s.ops.push_back({HUGE_, ~0ul - 20, 0, "alloc of 2^64-21"}); s.ops.push_back({HUGE_, ~0ul, 1, "alloc raw of 2^64-1"}); }
  if (extra & 4) for (int i = 0; i < s.nl; i++) s.ops.push_back({DIRECT, 0, i, strf("alloc from logger %d itself", i)});
  if (extra & 8) for (int i = 0; i < s.nl; i++) s.ops.push_back({RESETL, 0, i, strf("reset logger %d", i)});
  if (extra & 16) s.ops.push_back({IDENT, 0, 0, "other process and thread"});
  SeqOpts o; o.depth = depth; o.min_depth = depth; sample(strf("portal of %d slots, %zu loggers", slots, logs.size())); seq_explore(s, o); track_pop();
}
MC_CONFIG(seq, "sequences", 16, 16) {
  init(false); int d = opts.thorough ? 10 : 7;
  run(3, false, {{64, 32, 0}, {32, 32, 0}, {96, 32, 0}}, {0, 16}, 0, d);
  run(3, true, {{64, 32, 0}, {32, 32, 0}, {96, 32, 0}}, {16, 40}, 16, d);
  run(2, true, {{32, 16, 0}, {48, 32, 0}, {32, 32, 0}}, {0, 17}, 1, d);
  run(2, false, {{32, 32, 0}, {64, 48, 0}, {32, 32, 0}}, {16, 33}, 2, d);
  run(3, true, {{64, 32, 0}, {32, 32, 0}, {64, 32, 0}}, {16}, 4, d);
  run(3, false, {{64, 32, 0}, {32, 32, 0}, {64, 32, 0}}, {16}, 8, d);
  run(2, true, {{32, 32, 0}, {64, 32, 1}, {32, 32, 0}}, {16}, 0, d);
  run(1, true, {{32, 32, 0}, {32, 32, 0}}, {16, 0}, 1 | 8, d);
  run(0, true, {{32, 32, 0}, {32, 32, 0}}, {16}, 2, d);
  run(4, true, {{32, 32, 0}, {32, 32, 0}, {32, 32, 0}, {32, 32, 0}}, {16}, 0, d + 1);
  run(4, false, {{0, 32, 0}, {32, 32, 0}, {16, 16, 0}, {32, 32, 0}}, {16}, 0, d);
  run(5, true, {{32, 32, 0}, {64, 32, 0}}, {16}, 0, d, true);
  run(2, true, {{64, 32, 1}, {32, 32, 0}}, {16}, 8, d);
  run(3, true, {{48, 32, 0}, {72, 32, 0}, {40, 16, 0}}, {0, 8, 40}, 0, d);
}
// portals of every size up to their capacity, and long rotations
MC_CONFIG(sizes, "sizes", 8, 8) {
  init(true);
  for (size_t size = 4096; size <= (opts.thorough ? 8ul << 20 : 2ul << 20); size *= 2) {
    if (!part()) continue; heartbeat(); where = strf("portal of %zu bytes", size); path_names = {where}; track_push(); st.states++; st.executions++;
    SPHLogPortal_t pt = SPHLogPortalCreate(size); MC_CHECK(pt != 0, "create", "no portal of %zu bytes", size); if (!pt) { track_pop(); continue; }
    int cap = SPHLogPortalCapacity(pt); SPHLFLogger_t lg[3]; for (int i = 0; i < 3; i++) lg[i] = make_log(i, 64, 32, false);
    MC_CHECK(cap > 0, "capacity", "the portal of %zu bytes reports a capacity of %d", size, cap);
    int n = 0; for (; n < (int)(size / 8) + 2; n++) { SPHLFLogger_t r = SPHLogPortalAddLogger(pt, lg[n % 3]); st.transitions++; if (!r) break; MC_CHECK(r == lg[n % 3], "add", "adding a logger returned another one"); if (n % 97 < 3) { heartbeat(); MC_CHECK(SPHLogPortalEntries(pt) == n + 1, "entries", "the portal of capacity %d reports %d loggers after %d were added", cap, SPHLogPortalEntries(pt), n + 1); } }
    MC_CHECK(n == cap, "capacity", "the portal of %zu bytes took %d loggers and reports a capacity of %d", size, n, cap);
    for (int k = 0; k < 3; k++) { MC_CHECK(!SPHLogPortalAddLogger(pt, lg[0]), "add", "a full portal took another logger"); MC_CHECK(SPHLogPortalEntries(pt) == n, "entries", "the full portal of capacity %d reports %d loggers", cap, SPHLogPortalEntries(pt)); }
    for (int i = 0; i < n + 3; i++) { SPHLFLogger_t g = SPHLogPortalGetLoggerByIndex(pt, i); if (g != (i < n ? lg[i % 3] : 0)) { violation("by-index", "logger %d of %d of the portal of %zu bytes is %p", i, n, size, g); break; } st.evaluations++; }
    MC_CHECK(SPHLogPortalDestroy(pt) == 0, "destroy", "destroying the portal failed"); track_pop();
  }
  for (int n = 1; n <= (opts.thorough ? 60 : 40); n++) for (int shape = 0; shape < 3; shape++) {
    if (!part()) continue; heartbeat(); where = strf("rotation through %d loggers, shape %d", n, shape); path_names = {where}; track_push(); st.states++; st.executions++;
    SPHLogPortal_t pt = make_portal(64, true); std::vector<std::pair<int, unsigned>> exp; SPHLFLoggerHandle_t h;
    for (int i = 0; i < n; i++) { unsigned cap = shape == 0 ? 64 : shape == 1 ? (i % 3) * 32 : 40 + (i % 5) * 24; make_log(i, cap, 32, false); MC_CHECK(SPHLogPortalAddLogger(pt, log_at(i)) == log_at(i), "add", "logger %d was refused", i); for (unsigned o = 0; o + 32 <= cap; o += 32) exp.push_back({i, o}); }
    for (size_t k = 0; k <= exp.size() + 1; k++) {
      auto r = k & 1 ? SPHLogPortalAllocStrideTimeStamped(pt, k & 0xfff, 7, &h) : SPHLogPortalAllocTimeStamped(pt, k & 0xfff, 7, 16, &h); st.transitions++;
      MC_CHECK((r != 0) == (k < exp.size()), "fit", "reservation %zu of %zu %s", k, exp.size(), r ? "succeeded" : "failed"); if (!r || k >= exp.size()) continue;
      MC_CHECK((char *)h.entry == log_at(exp[k].first) + 256 + exp[k].second, "place", "reservation %zu is at logger %ld offset %ld, expected %d, %u", k, (long)((char *)h.entry - AR - 8192) / 4096, (long)((char *)h.entry - AR - 8192) % 4096 - 256, exp[k].first, exp[k].second); do_complete(&h, k & 3);
    }
    SPHLFPortalIterator_t it; if (SPHLFPortalCreateIterator(pt, &it)) { for (size_t k = 0; k < exp.size(); k++) { auto r = SPHLFPortalIteratorNext(&it, &h); MC_CHECK(r && (char *)h.entry == log_at(exp[k].first) + 256 + exp[k].second && SPHLFLogEntryCategory(&h) == (int)(k & 0xfff), "iterate", "entry %zu of %zu of the iteration is %s", k, exp.size(), r ? "another one" : "missing"); if (!r) break; st.evaluations++; } MC_CHECK(!SPHLFPortalIteratorNext(&it, &h), "iterate", "iteration does not end"); } else violation("iterator", "no iterator");
    track_pop();
  }
}
// ---------------------------------------------------------------- concurrent
// program letters: 0..7 add that logger, S reserve (stride 32), T reserve 32 bytes sized, U 48 bytes sized, R raw, K complete own oldest, I iterate, X read by index and current
struct CSys : ConcSys {
  std::string prog[5]; int slots, pre, nl; std::vector<unsigned> caps; SPHLogPortal_t pt; bool uniform = true;
  struct R { int tid, id; unsigned len; bool ok, raw, done; int inv, res; int l, off; char *e; }; std::vector<R> rs;
  struct A { int tid, l, inv, res; bool ok; }; std::vector<A> as; int clk;
  CSys() { state_based = true; }
  uint64_t mhash() override { uint64_t h = mix(clk, 3); for (auto &r : rs) { h = mix(h, r.tid * 64 + r.id); h = mix(h, r.off * 64 + r.l * 8 + r.ok * 2 + r.done); h = mix(h, r.inv * 1000 + r.res); } for (auto &a : as) { h = mix(h, a.tid * 8 + a.l); h = mix(h, a.inv * 1000 + a.res); h = mix(h, a.ok); } return h; }
  void share() override { conc_share(AR, ARN); }
  void setup() override { rs.clear(); as.clear(); clk = 0; for (int i = 0; i < pre; i++) as.push_back({0, i, -1, -1, true}); }
  void prepare() { nl = caps.size(); for (int i = 0; i < nl; i++) make_log(i, caps[i], 32, false); pt = make_portal(slots, true); for (int i = 0; i < pre; i++) SPHLogPortalAddLogger(pt, log_at(i)); }
  bool where_is(char *e, unsigned len, int &l, int &off) { long d = e - (AR + 8192); l = d / 4096; off = d % 4096 - 256; return d >= 0 && l < nl && off >= 0 && off % 16 == 0 && off + len <= caps[l]; }
  void one(int t, char c) {
    int v = clk++; conc_event(0); int k = 0; for (auto &r : rs) k += r.tid == t; int id = t * 8 + k; SPHLFLoggerHandle_t h, *r = 0; unsigned len = c == 'U' ? 48 : 32; char *e = 0;
    size_t pos = rs.size(); rs.push_back({t, id, len, false, c == 'R', false, v, 1 << 20, -1, -1, 0});
    if (c == 'S') r = SPHLogPortalAllocStrideTimeStamped(pt, cat_of(id), sub_of(id), &h); else if (c == 'R') e = (char *)SPHLogPortalAllocRaw(pt, 30); else r = SPHLogPortalAllocTimeStamped(pt, cat_of(id), sub_of(id), len - 16, &h); conc_event(1);
    rs[pos].res = clk++; if (!r && !e) return; if (r) e = (char *)h.entry;
    int l, off; bool in = where_is(e, len, l, off); MC_CHECK(in, "bounds", "an entry of %u bytes lies outside every logger", len); if (!in) return;
    bool inv = false; for (auto &a : as) inv |= a.l == l; MC_CHECK(inv, "foreign", "an entry was reserved in logger %d, which nobody added", l);
    rs[pos].ok = true; rs[pos].l = l; rs[pos].off = off; rs[pos].e = e;
    for (size_t i = 0; i < rs.size(); i++) if (i != pos && rs[i].ok && rs[i].l == l) MC_CHECK(rs[i].off + (int)rs[i].len <= off || rs[i].off >= off + (int)len, "overlap", "threads %d and %d were given overlapping entries", t, rs[i].tid);
    if (r) MC_CHECK(h.next == e + 16 && h.total_size == len && h.remaining == len - 16, "handle", "handle of a new entry: total %u, remaining %u", h.total_size, h.remaining);
    else raw_header(e, id, len);
    fill(e, id, r ? 16 : 4, len);
  }
  NS void raw_header(char *e, int id, unsigned len) { sphLogEntry_t x; x.idUnit = 0; x.detail.category = cat_of(id); x.detail.subcat = sub_of(id); x.detail.len = len / 16; conc_point(e, 4, CONC_WRITE, (void *)3); *(volatile unsigned *)e = x.idUnit; }
  const char *bad(R &r, bool done) {
    SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)r.e; sphLogEntry_t d; d.idUnit = h.entry->entryID.idUnit;
    if (d.detail.valid != done) return done ? "completion flag (missing)" : "completion flag (set early)";
    if (d.detail.category != (unsigned)cat_of(r.id)) return "category"; if (d.detail.subcat != (unsigned)sub_of(r.id)) return "subcategory"; if (d.detail.timestamped == r.raw) return "time-stamp flag";
    if (!r.raw) { if (r.tid && (long)h.entry->timeStamp != 1000 + r.tid) return "time stamp"; if (h.entry->PID != (sphpid16_t)procID || h.entry->TID != (sphpid16_t)threadID) return "identity"; }
    if (!filled(r.e, r.id, r.raw ? 4 : 16, r.len)) return "payload"; return 0;
  }
  void comp(int t) { for (auto &r : rs) if (r.tid == t && r.ok && !r.done) { const char *b = bad(r, false); MC_CHECK(!b, "intrusion", "the %s of an entry was changed by others while its writer was filling it", b); SPHLFLoggerHandle_t h; memset(&h, 0, sizeof h); h.entry = (SPHLFLogHeader_t *)r.e; do_complete(&h, t & 3); r.done = true; return; } }
  void add(int t, int l) { int v = clk++; conc_event(0); size_t p = as.size(); as.push_back({t, l, v, 1 << 20, false}); SPHLFLogger_t r = SPHLogPortalAddLogger(pt, log_at(l)); conc_event(1); as[p].res = clk++; as[p].ok = r == log_at(l); MC_CHECK(!r || r == log_at(l), "add", "adding logger %d returned another one", l); }
  int pos_of(SPHLFLogger_t g) { for (int i = 0; i < nl; i++) if (g == log_at(i)) return i; return -1; }
  void look(int) {
    conc_event(0); int sure = 0; for (auto &a : as) sure += a.ok && a.res < (1 << 20);
    int n = SPHLogPortalEntries(pt); conc_event(2); MC_CHECK(n >= sure && n <= slots, "entries", "the portal reports %d loggers with %d added, capacity %d", n, sure, slots);
    for (int i = 0; i < n && i < slots; i++) { SPHLFLogger_t g = SPHLogPortalGetLoggerByIndex(pt, i); int l = pos_of(g); bool ok = false; for (auto &a : as) ok |= l >= 0 && a.l == l; MC_CHECK(ok, "by-index", "logger %d of %d is %p, which nobody added", i, n, g); }
    MC_CHECK(!SPHLogPortalGetLoggerByIndex(pt, slots), "by-index", "there is a logger at the capacity");
    SPHLFLogger_t c = SPHLogPortalGetCurrentLogger(pt); if (c || sure) { int l = pos_of(c); bool ok = false; for (auto &a : as) ok |= l >= 0 && a.l == l; if (!c) for (int i = 0; i < nl; i++) ok |= SPHLFLoggerFull(log_at(i)) != 0; MC_CHECK(ok, "current", "the current logger is %p, which nobody added", c); }
  }
  void iterate(int) {
    conc_event(0); SPHLFPortalIterator_t it; bool sure = false; for (auto &a : as) sure |= a.ok && a.res < (1 << 20);
    if (!SPHLFPortalCreateIterator(pt, &it)) { MC_CHECK(!sure, "iterator", "no iterator for a portal with a logger"); return; } conc_event(2);
    int lastpos = -1, lastoff = -1; std::vector<SPHLFLogger_t> order;
    for (int i = 0; i < 12; i++) {
      SPHLFLoggerHandle_t h, *r = SPHLFPortalIteratorNext(&it, &h); if (!r) break; int l = 0, off = 0; bool in = where_is((char *)h.entry, 16, l, off); MC_CHECK(in, "reader-phantom", "a reader got an entry outside every logger"); if (!in) return;
      int p = -1; for (int k = 0; k < slots; k++) if (SPHLogPortalGetLoggerByIndex(pt, k) == log_at(l)) { p = k; break; }
      MC_CHECK(p > lastpos || (p == lastpos && off > lastoff), "reader-order", "a reader got entry (%d,%d) after (%d,%d)", p, off, lastpos, lastoff); lastpos = p; lastoff = off;
      R *x = 0; for (auto &q : rs) if (q.ok && q.l == l && q.off == off) x = &q; MC_CHECK(x, "reader-phantom", "a reader got an entry that nobody reserved"); if (!x) return;
      const char *b = bad(*x, true); MC_CHECK(!b, "reader-content", "a reader got an entry with a wrong %s", b);
    }
  }
  void thread(int t) override { for (char c : prog[t]) { if (c == 'K') comp(t); else if (c == 'I') iterate(t); else if (c == 'X') look(t); else if (c >= '0' && c <= '7') add(t, c - '0'); else one(t, c); } }
  void finish() override {
    st.evaluations++; for (int i = 0; i < 256; i++) MC_CHECK((unsigned char)AR[256 + slots * 16 + i] == CAN, "overrun", "a byte behind the portal was overwritten");
    int n = 0, tried = as.size(); for (auto &a : as) n += a.ok; int wantn = tried < slots ? tried : slots;
    MC_CHECK(n == wantn, "add", "%d of %d loggers were accepted by a portal of %d", n, tried, slots);
    MC_CHECK(SPHLogPortalEntries(pt) == n && SPHLogPortalCapacity(pt) == slots && (SPHLogPortalEmpty(pt) != 0) == (n == 0), "entries", "the portal reports %d loggers of %d, empty %d; %d were added", SPHLogPortalEntries(pt), SPHLogPortalCapacity(pt), SPHLogPortalEmpty(pt), n);
    std::vector<int> at(nl, -1), list; for (int i = 0; i <= slots; i++) { SPHLFLogger_t g = SPHLogPortalGetLoggerByIndex(pt, i); if (i >= n) { MC_CHECK(!g, "by-index", "there is a logger %d of %d", i, n); continue; } int l = pos_of(g); bool ok = l >= 0 && at[l] < 0; bool added = false; for (auto &a : as) added |= a.ok && a.l == l; MC_CHECK(ok && added, "by-index", "logger %d of %d is %p (%s)", i, n, g, l < 0 ? "unknown" : added ? "twice" : "never accepted"); if (!ok) return; at[l] = i; list.push_back(l); }
    for (auto &a : as) for (auto &b : as) if (a.ok && b.ok && a.res < b.inv) MC_CHECK(at[a.l] < at[b.l], "add-order", "logger %d was added before logger %d but comes after it", a.l, b.l);
    for (auto &a : as) if (!a.ok) { int c = 0; for (auto &b : as) c += &b != &a && b.inv < a.res; MC_CHECK(c >= slots, "add", "a logger was refused although at most %d of %d could be in the portal", c, slots); }
    // linked list of loggers is not part of the property; entries are
    for (auto &r : rs) if (r.ok) { const char *b = bad(r, r.done); MC_CHECK(!b, "content", "the %s of an entry is wrong", b); }
    for (auto &r : rs) for (auto &s : rs) if (r.ok && s.ok && r.res < s.inv) MC_CHECK(at[r.l] < at[s.l] || (r.l == s.l && r.off < s.off), "order", "a reservation made later lies before an earlier one");
    if (uniform) for (auto &r : rs) if (!r.ok) { unsigned have = 0, used = 0; for (auto &a : as) if (a.ok && a.res < r.inv) have += caps[a.l] / 32; for (auto &s : rs) used += &s != &r && s.inv < r.res; MC_CHECK(used >= have, "refused", "a reservation was refused although at most %u of %u entries were taken", used, have); }
    // fill up: every entry of every logger was handed out exactly once
    unsigned total = 0, ok = 0, before = 0; for (int l : list) total += caps[l] / 32; for (auto &r : rs) before += r.ok;
    for (unsigned k = 0; k <= total; k++) { SPHLFLoggerHandle_t h, *r = SPHLogPortalAllocTimeStamped(pt, 1, 1, 16, &h); if (!r) break; int l, off; bool in = where_is((char *)h.entry, 32, l, off); MC_CHECK(in, "bounds", "an entry lies outside every logger"); if (!in) return; for (auto &s : rs) if (s.ok && s.l == l) MC_CHECK(s.off + (int)s.len <= off || s.off >= off + 32, "overlap", "a reservation overlaps an earlier one"); ok++; }
    if (uniform) MC_CHECK(before + ok == total, "lost", "%u entries were reserved in all, the loggers have %u", before + ok, total);
    // all completed: iteration yields everything in logger order
    for (int l : list) { unsigned o = 0; while (o < caps[l]) { SPHLFLogHeader_t *e = (SPHLFLogHeader_t *)(log_at(l) + 256 + o); unsigned len = e->entryID.detail.len * 16; if (!len) break; e->entryID.detail.valid = 1; o += len; } }
    if (!n) return; SPHLFPortalIterator_t it; MC_CHECK(SPHLFPortalCreateIterator(pt, &it) == &it, "iterator", "no iterator"); SPHLFLoggerHandle_t h;
    for (int l : list) { unsigned o = 0; while (o < caps[l]) { SPHLFLogHeader_t *e = (SPHLFLogHeader_t *)(log_at(l) + 256 + o); unsigned len = e->entryID.detail.len * 16; if (!len) break; auto q = SPHLFPortalIteratorNext(&it, &h); MC_CHECK(q && h.entry == e, "iterate", "iteration of the quiet portal misses the entry at offset %u of logger %d", o, l); if (!q) return; o += len; } }
    MC_CHECK(!SPHLFPortalIteratorNext(&it, &h), "iterate", "iteration of the quiet portal does not end");
  }
};
static void conc(int slots, int pre, std::vector<unsigned> caps, std::vector<std::string> progs, int pb) {
  CSys s; s.slots = slots; s.pre = pre; s.caps = caps; s.nthreads = progs.size(); std::string d;
  for (size_t i = 0; i < progs.size(); i++) { s.prog[i + 1] = progs[i]; d += (i ? " | " : "") + progs[i]; if (progs[i].find('U') != std::string::npos) s.uniform = false; }
  for (auto c : caps) if (c % 32) s.uniform = false;
  ConcOpts o; o.preemptions = pb; track_push(); s.prepare(); conc_explore(s, o, strf("%s, portal of %d, %d loggers in it at first, preemption bound %d", d.c_str(), slots, pre, pb)); track_pop();
}
MC_CONFIG(cadd, "adders", 8, 8) {
  init(false); int b = -1;
  for (int slots = 0; slots <= 3; slots++) for (int pre = 0; pre <= slots && pre < 2; pre++) for (auto p : std::vector<std::vector<std::string>>{{"23", "45"}, {"2", "X"}, {"2X", "3X"}, {"23", "XX"}, {"2", "3", "4"}, {"2", "3", "X"}, {"2SK", "I"}, {"2S", "3S"}, {"23", "SS"}, {"2SK", "3", "I"}})
    conc(slots, pre, {32, 32, 32, 64, 32, 32}, p, p.size() == 2 ? b : opts.thorough ? 5 : 3);
}
MC_CONFIG(cwrite, "writers", 8, 8) {
  init(false); int b = opts.thorough ? 8 : 5;
  for (auto caps : std::vector<std::vector<unsigned>>{{32, 32}, {32, 64}, {64, 32, 32}, {32, 0, 64}, {40, 64}}) for (auto p : std::vector<std::vector<std::string>>{{"SKSK", "SKSK"}, {"TR", "SK"}, {"TTKK", "UK"}, {"RK", "RK"}}) conc(3, caps.size(), caps, p, b);
  for (auto caps : std::vector<std::vector<unsigned>>{{32, 32}, {32, 64}, {32, 32, 32}}) for (auto p : std::vector<std::vector<std::string>>{{"SK", "SK", "SK"}, {"S", "T", "R"}, {"SK", "TK", "I"}, {"UK", "SK", "TK"}}) conc(3, caps.size(), caps, p, opts.thorough ? 6 : 3);
  for (auto caps : std::vector<std::vector<unsigned>>{{32, 32}, {32, 64}}) for (auto p : std::vector<std::vector<std::string>>{{"SKSK", "II"}, {"SKTK", "XX"}, {"TRK", "I"}, {"SK2SK", "I"}, {"S2S", "S"}, {"S", "2S"}}) { auto c2 = caps; c2.push_back(32); conc(3, 2, c2, p, -1); }
}
