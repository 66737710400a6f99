// G04: field streams of log and queue entries: every sequence of adds on every entry size, read back in order.
#include "conc_common.h"
#include <unistd.h>
#include <limits.h>
#include <float.h>
#include "sphlfentry.h"
#include "sphlflogentry.h"
#include "sphlflogger.h"
#include "sphsinglepcqueue.h"
#include "sphthread.h"
static char *AR; static const size_t ARN = 1 << 16;      // ends at an inaccessible page
static const unsigned char CAN = 0xA7;
enum Kind { CHAR, SHORT, INT, LONG, PTR, LL, FLOAT, DOUBLE, STR, STRUCT };
struct Op { Kind k; unsigned long size, align; int var; std::string name; int rel; };   // rel: 1 = exactly the space left, 2 = one more
template <class H> struct Api { };
#define API(H, P, PL) template <> struct Api<H> { \
  static int add(H *h, Kind k, long v, void *d, const char *s) { (void)d; switch (k) { \
    case CHAR: return P##AddChar(h, (char)v); case SHORT: return P##AddShort(h, (short)v); case INT: return P##AddInt(h, (int)v); case LONG: return P##AddLong(h, v); \
    case PTR: return P##AddPtr(h, (void *)v); case LL: return P##AddLongLong(h, v); case FLOAT: { float f; int i = (int)v; memcpy(&f, &i, 4); return P##AddFloat(h, f); } \
    case DOUBLE: { double f; memcpy(&f, &v, 8); return P##AddDouble(h, f); } case STR: return P##AddString(h, s); default: return -9; } } \
  static long get(H *h, Kind k) { switch (k) { \
    case CHAR: return P##GetNextChar(h); case SHORT: return P##GetNextShort(h); case INT: return P##GetNextInt(h); case LONG: return P##GetNextLong(h); \
    case PTR: return (long)P##GetNextPtr(h); case LL: return P##GetNextLongLong(h); case FLOAT: { float f = P##GetNextFloat(h); int i; memcpy(&i, &f, 4); return i; } \
    case DOUBLE: { double f = P##GetNextDouble(h); long i; memcpy(&i, &f, 8); return i; } case STR: return (long)P##GetNextString(h); default: return -9; } } \
  static void *alloc_struct(H *h, unsigned long s, unsigned long a) { return P##AllocStruct(h, s, a); } \
  static void *get_struct(H *h, unsigned long s, unsigned long a) { return P##GetStructPtr(h, s, a); } \
  static void *freeptr(H *h) { return PL##GetFreePtr(h); } \
  static int complete(H *h, int m) { return m == 0 ? PL##Complete(h) : m == 1 ? PL##StrongComplete(h) : PL##WeakComplete(h); } \
  static int iscomplete(H *h) { return PL##IsComplete(h); } static int isstamped(H *h) { return PL##IsTimestamped(h); } \
  static long stamp(H *h) { return PL##TimeStamp(h); } static int pid(H *h) { return PL##PID(h); } static int tid(H *h) { return PL##TID(h); } \
  static void *header(H *h) { return PL##Header(h); } static int cat(H *h) { return PL##Category(h); } static int sub(H *h) { return PL##Subcat(h); } };
API(SPHLFEntryHandle_t, SPHLFEntry, SPHLFEntry)
API(SPHLFLoggerHandle_t, SPHLFlogEntry, SPHLFLogEntry)
static const int CATS[] = {0, 0xfff, 0x5a5}, SUBS[] = {0xff, 0, 0xa5};
static unsigned long ksize(Kind k) { switch (k) { case CHAR: return 1; case SHORT: return 2; case INT: case FLOAT: return 4; default: return 8; } }
static long value(Kind k, int n) {                   // distinct, with the top and bottom bits of the type exercised
  long v = (long)(0x9e3779b97f4a7c15ull * (n + 1)) ^ (n & 1 ? 0 : (long)0x8000000000000001ull);
  switch (k) { case CHAR: return (char)(v >> 56) | 1; case SHORT: return (short)(v >> 48) | 1; case INT: return (int)(v >> 32); case FLOAT: { float f = -1.5f * (n + 1); int i; memcpy(&i, &f, 4); return i; } case DOUBLE: { double f = 1e300 / (n + 3); memcpy(&v, &f, 8); return v; } default: return v; }
}
static char strbuf[8][70000];
struct F { short op; unsigned short off; unsigned short len; };
struct EM { int n; unsigned pos; unsigned short total; F f[8]; };
template <class H> struct Ent : SeqSysT<EM> {
  typedef Api<H> A; std::vector<Op> ops; char *e = 0; size_t hdr = 16, size = 0; H wh; std::vector<H> hs; int cat = 0, sub = 0; bool stamped = true; bool structs_only = false; int variant = 0;
  std::function<bool(H *)> reader;                    // the handle a reader gets
  int nops() override { return ops.size(); }
  std::string name(int o) override { return ops[o].name; }
  void save() override { SeqSysT<EM>::save(); hs.push_back(wh); }
  void restore() override { SeqSysT<EM>::restore(); wh = hs.back(); hs.pop_back(); }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, hash_bytes(&wh, sizeof wh - 0, 1)); }
  unsigned rem() { return size - m.pos; }
  const char *str(unsigned len, int n) { char *s = strbuf[n & 7]; for (unsigned i = 0; i < len; i++) s[i] = "qwertyuiopas"[(i + n) % 12]; s[len] = 0; return s; }
  void apply(int o) override {
    const Op &op = ops[o]; where = op.name; int n = m.n; unsigned long sz = op.size, al = op.align;
    if (op.rel) sz = rem() + (op.rel - 1);
    if (op.k == STR) { if (op.rel) { if (!sz) return; } else sz++; al = 1; }                      // sz counts the NUL
    uintptr_t at = (uintptr_t)e + m.pos, ap = (at + al - 1) & ~(al - 1); unsigned long pad = ap - at; bool fit = pad <= rem() && sz <= rem() - pad;
    H before = wh; std::vector<char> img(AR, AR + ARN);
    long v = value(op.k, n); const char *s = op.k == STR ? str(sz - 1, n) : 0; bool ok; void *p = 0;
    if (op.k == STRUCT) { p = A::alloc_struct(&wh, sz, al); ok = p != 0; }
    else { int rc = A::add(&wh, op.k, v, 0, s); ok = rc == 0; MC_CHECK(rc == 0 || rc == -1, "add-rc", "%s returned %d", op.name.c_str(), rc); }
    MC_CHECK(ok == fit, "fit", "%s (%lu bytes, alignment %lu) %s with %u of %zu bytes left (%lu of padding)", op.name.c_str(), sz, al, ok ? "succeeded" : "failed", rem(), size, pad);
    if (!ok || !fit) {
      MC_CHECK(wh.next == before.next && wh.remaining == before.remaining && wh.total_size == before.total_size && wh.entry == before.entry, "refused-handle", "%s failed but changed the handle", op.name.c_str());
      MC_CHECK(!memcmp(AR, img.data(), ARN), "refused-memory", "%s failed but wrote to the entry or around it", op.name.c_str());
      return;
    }
    if (op.k == STRUCT) { MC_CHECK((uintptr_t)p == ap, "struct-place", "%s returned +%ld, expected +%ld", op.name.c_str(), (long)((char *)p - e), (long)(ap - (uintptr_t)e)); MC_CHECK(!memcmp(AR, img.data(), ARN), "struct-write", "%s wrote to memory", op.name.c_str()); memset(p, 0x80 | n, sz); }
    else {
      // exactly the value's bytes changed
      MC_CHECK(op.k == STR ? !memcmp((char *)ap, s, sz) : !memcmp((char *)ap, &v, sz), "value", "%s did not store its value at +%ld", op.name.c_str(), (long)(ap - (uintptr_t)e));
      memcpy(img.data() + (ap - (uintptr_t)AR), (char *)ap, sz); MC_CHECK(!memcmp(AR, img.data(), ARN), "stray-write", "%s wrote outside its own bytes", op.name.c_str());
    }
    m.f[n] = {(short)o, (unsigned short)(ap - (uintptr_t)e), (unsigned short)sz}; m.n++; m.pos = ap + sz - (uintptr_t)e;
    MC_CHECK(wh.next == e + m.pos && wh.remaining == rem() && wh.entry == before.entry && wh.total_size == before.total_size, "handle", "after %s: next +%ld remaining %u, expected +%u and %u", op.name.c_str(), (long)(wh.next - e), wh.remaining, m.pos, rem());
    MC_CHECK(A::freeptr(&wh) == wh.next, "freeptr", "GetFreePtr does not return the next free byte");
  }
  void header(H *h, bool done) {
    where = "header accessors";
    MC_CHECK(A::iscomplete(h) == done, "h-complete", "IsComplete is %d", A::iscomplete(h));
    MC_CHECK(A::isstamped(h) == (done && stamped), "h-stamped", "IsTimestamped is %d on a%s entry", A::isstamped(h), stamped ? " stamped" : "n unstamped");
    MC_CHECK(A::cat(h) == (done ? cat : -1), "h-category", "Category is %d, expected %d", A::cat(h), done ? cat : -1);
    MC_CHECK(A::sub(h) == (done ? sub : -1), "h-subcat", "Subcat is %d, expected %d", A::sub(h), done ? sub : -1);
    MC_CHECK(A::header(h) == (done ? e : 0), "h-header", "Header is %p, the entry is at %p", A::header(h), e);
    MC_CHECK(A::pid(h) == (done && stamped ? (int)(getpid() & 0xffff) : 0), "h-pid", "PID is %d, the process is %d", A::pid(h), getpid());
    MC_CHECK(A::tid(h) == (done && stamped ? (int)(gettid() & 0xffff) : 0), "h-tid", "TID is %d, the thread is %d", A::tid(h), gettid());
    MC_CHECK((A::stamp(h) != 0) == (done && stamped), "h-timestamp", "TimeStamp is %ld", (long)A::stamp(h));
  }
  void readback(H h) {
    where = "read back";
    MC_CHECK(h.entry == (void *)e && h.next == e + hdr && h.total_size == (unsigned short)size && h.remaining == size - hdr, "read-handle", "reader's handle: next +%ld total %u remaining %u, entry of %zu bytes", (long)(h.next - e), h.total_size, h.remaining, size);
    for (int i = 0; i < m.n; i++) {
      const Op &op = ops[m.f[i].op]; where = "get after " + op.name; unsigned off = m.f[i].off, len = m.f[i].len;
      if (op.k == STRUCT) { char *p = (char *)A::get_struct(&h, len, op.align); MC_CHECK(p == e + off, "get-struct", "field %d (%s): read at +%ld, stored at +%u", i, op.name.c_str(), p ? (long)(p - e) : -1, off); bool ok = p; for (unsigned j = 0; ok && j < len; j++) if ((unsigned char)p[j] != (0x80 | i)) ok = false; MC_CHECK(ok, "struct-content", "field %d (%s): content changed", i, op.name.c_str()); }
      else if (op.k == STR) { char *p = (char *)A::get(&h, STR); std::string s = str(len - 1, i); MC_CHECK(p == e + off && s == p, "get-string", "field %d (%s): read \"%.20s\" at +%ld, stored \"%.20s\" at +%u", i, op.name.c_str(), p ? p : "NULL", p ? (long)(p - e) : -1, s.c_str(), off); }
      else { long g = A::get(&h, op.k), v = value(op.k, i); MC_CHECK(g == v, "get-value", "field %d (%s): stored %lx, read %lx", i, op.name.c_str(), v, g); }
      unsigned end = off + len;
      MC_CHECK(h.next == e + end && h.remaining == size - end, "get-handle", "after field %d (%s): next +%ld remaining %u, expected +%u and %zu", i, op.name.c_str(), (long)(h.next - e), h.remaining, end, size - end);
    }
    // reading on: whatever does not fit in what is left yields nothing and changes nothing
    unsigned left = rem(); H h0 = h;
    auto same = [&](const char *n) { MC_CHECK(h.next == h0.next && h.remaining == h0.remaining, "past-end-handle", "%s past the end changed the handle (remaining %u -> %u)", n, h0.remaining, h.remaining); h = h0; };
    static const Kind ks[] = {CHAR, SHORT, INT, LONG, PTR, LL, FLOAT, DOUBLE}; static const char *kn[] = {"GetNextChar", "GetNextShort", "GetNextInt", "GetNextLong", "GetNextPtr", "GetNextLongLong", "GetNextFloat", "GetNextDouble"};
    for (int i = 0; i < 8; i++) { unsigned long sz = ksize(ks[i]), pad = -(uintptr_t)(e + m.pos) & (sz - 1); if (pad + sz <= left) continue; where = kn[i]; long g = A::get(&h, ks[i]); MC_CHECK(g == 0, "past-end", "%s with %u bytes left returned %lx", kn[i], left, g); same(kn[i]); }
    for (auto &sa : std::vector<std::pair<unsigned long, unsigned long>>{{1, 1}, {left + 1, 1}, {1, 64}, {1, 4096}, {65536, 8}, {ULONG_MAX, 1}, {(1ul << 32) + 1, 16}}) { unsigned long pad = -(uintptr_t)(e + m.pos) & (sa.second - 1); if (pad <= left && sa.first <= left - pad) continue; where = "GetStructPtr"; void *p = A::get_struct(&h, sa.first, sa.second); MC_CHECK(!p, "past-end-struct", "GetStructPtr(%lu, %lu) with %u bytes left returned +%ld", sa.first, sa.second, left, (long)((char *)p - e)); same("GetStructPtr"); }
    // the unused tail holds no NUL (the entry was pre-filled), so there is no further string
    bool nul = memchr(e + m.pos, 0, left); if (!nul) { where = "GetNextString"; char *p = (char *)A::get(&h, STR); MC_CHECK(!p, "past-end-string", "GetNextString with %u bytes left and no string there returned +%ld", left, (long)(p - e)); same("GetNextString"); }
  }
  void check() override {                             // in every state: complete, read back, undo
    for (char *p = AR + 512; p < e; p++) if ((unsigned char)*p != CAN && p >= lo) { violation("before", "byte %ld before the entry changed", (long)(e - p)); break; }
    for (char *p = e + size; p < AR + ARN; p++) MC_CHECK((unsigned char)*p == CAN, "after", "byte %ld after the end of the entry changed", (long)(p - e - size));
    if (structs_only) { H h = wh; h.next = e + hdr; h.remaining = size - hdr; readback(h); return; }
    track_push(); H h = wh, r; header(&h, false); where = "complete"; int rc = A::complete(&h, m.n % 3); MC_CHECK(rc == 0, "complete-rc", "completing the entry returned %d", rc); header(&h, true);
    memset(&r, 0, sizeof r); where = "reader"; if (reader(&r)) { header(&r, true); readback(r); } else violation("no-reader", "the completed entry is not found by its reader");
    track_pop();
  }
  char *lo = 0;
  void alphabet(bool small) {
    auto b = [&](Kind k, const char *n) { ops.push_back({k, ksize(k), ksize(k), 0, n, 0}); };
    b(CHAR, "AddChar"); b(SHORT, "AddShort"); b(INT, "AddInt"); b(LONG, "AddLong"); b(PTR, "AddPtr"); b(LL, "AddLongLong"); b(FLOAT, "AddFloat"); b(DOUBLE, "AddDouble");
    for (int l : {0, 1, 7}) ops.push_back({STR, (unsigned long)l, 1, 0, strf("AddString(%d chars)", l), 0});
    ops.push_back({STR, 0, 1, 0, "AddString(exactly the space left)", 1}); ops.push_back({STR, 0, 1, 0, "AddString(one too long)", 2});
    if (!small) for (unsigned long l : {65535ul, 65536ul}) ops.push_back({STR, l, 1, 0, strf("AddString(%lu chars)", l), 0});
    auto s = [&](unsigned long z, unsigned long a) { ops.push_back({STRUCT, z, a, 0, strf("AllocStruct(%lu, %lu)", z, a), 0}); };
    s(3, 1); s(12, 4); s(16, 16); s(0, 8); s(24, 32); s(8, 64); s(1, 256); if (!small) { s(1, 4096); s(65536, 1); s(1ul << 32, 8); s(ULONG_MAX, 1); s(ULONG_MAX - 15, 16); s(32, 16); }
    ops.push_back({STRUCT, 0, 1, 0, "AllocStruct(exactly the space left)", 1}); ops.push_back({STRUCT, 0, 1, 0, "AllocStruct(one too many)", 2});
  }
};
static void setup() { AR = arena(ARN + 4096); mprotect(AR + ARN, 4096, PROT_NONE); track_statics(); track_add(AR, ARN); install_handlers(); ideal_locks(); watchdog(30); threadID = gettid(); }   // threads identify themselves first (SASThreadSetUp)
// ---- log entries (16-byte header).  The entry ends at the end of the memory, or is followed by room. ----
static void logent(size_t body, bool at_end, int var) {
  static char *log; size_t total = (body + 16 + 15) & ~15ul;
  Ent<SPHLFLoggerHandle_t> s; s.cat = CATS[var % 3]; s.sub = SUBS[var % 3];
  track_push(); memset(AR, CAN, ARN);
  size_t lsz = at_end ? 256 + total : 256 + total + 512; log = AR + ARN - lsz;
  SPHLFLogger_t lg = SPHLFLoggerInit(log, lsz); MC_CHECK(lg != 0, "create", "logger not created");
  SPHLFLoggerHandle_t h; auto r = var & 1 ? SPHLFLoggerAllocTimeStampedNoLock(lg, s.cat, s.sub, body, &h) : SPHLFLoggerAllocTimeStamped(lg, s.cat, s.sub, body, &h);
  MC_CHECK(r == &h, "log-alloc", "an entry of %zu bytes was not allocated in an empty log of %zu", body, lsz); if (r != &h) { track_pop(); return; }
  s.e = (char *)h.entry; s.size = total; s.wh = h; s.lo = log + 256; memset(&s.m, 0, sizeof s.m); s.m.pos = 16; s.m.total = total;
  MC_CHECK(s.e == log + 256 && h.next == s.e + 16 && h.remaining == total - 16 && h.total_size == total, "alloc-handle", "handle of a new %zu-byte entry: next +%ld remaining %u total %u", total, (long)(h.next - s.e), h.remaining, h.total_size);
  s.reader = [&](SPHLFLoggerHandle_t *r) { SPHLFLogIterator_t it; return SPHLFLoggerCreateIterator(lg, &it) && SPHLFLoggerIteratorNext(&it, r) == r; };
  s.alphabet(!opts.thorough && total > 64); SeqOpts o; o.depth = opts.thorough ? 5 : 4; if (total > 96) o.depth--; o.dedup = true; seq_explore(s, o);
  track_pop();
}
static bool part(int &i) { return (i++ % opts.nshards) == opts.shard; }
// ---- queue entries (4-byte header, or 16 with a time stamp) ----
static void qent(unsigned stride, bool stamped, bool at_end, int var) {
  Ent<SPHLFEntryHandle_t> s; s.cat = CATS[var % 3]; s.sub = SUBS[var % 3]; s.stamped = stamped; s.hdr = stamped ? 16 : 4;
  track_push(); memset(AR, CAN, ARN);
  size_t n = at_end ? 3 : 5, qsz = 512 + n * stride; char *qb = AR + ARN - qsz;
  SPHSinglePCQueue_t q = SPHSinglePCQueueInitWithStride(qb, qsz, stride, SPHSPCQUEUE_CIRCULAR); SPHLFEntryHandle_t h, *r = 0;
  // advance to the last usable slot
  for (size_t i = 0; i < 100; i++) {
    track_push();
    r = stamped ? SPHSinglePCQueueAllocStrideTimeStamped(q, s.cat, s.sub, &h) : SPHSinglePCQueueAllocStrideEntry(q, s.cat, s.sub, &h);
    bool last = r && (char *)h.entry + 2 * stride > qb + qsz; track_pop();
    if (!r) break;
    r = stamped ? SPHSinglePCQueueAllocStrideTimeStamped(q, s.cat, s.sub, &h) : SPHSinglePCQueueAllocStrideEntry(q, s.cat, s.sub, &h);
    if (last || !at_end) break;
    SPHSinglePCQueueEntryComplete(&h); SPHLFEntryHandle_t g; SPHSinglePCQueueGetNextComplete(q, &g); SPHSinglePCQueueFreeNextEntry(q);
  }
  MC_CHECK(r == &h, "queue-alloc", "no entry from an empty queue"); if (r != &h) { track_pop(); return; }
  s.e = (char *)h.entry; s.size = stride; s.wh = h; s.lo = qb + 512; memset(&s.m, 0, sizeof s.m); s.m.pos = s.hdr;
  // the slots around are the queue's own: fill them so that any write shows
  for (char *p = s.e + s.hdr; p < AR + ARN; p++) *p = CAN;
  s.lo = s.e;
  MC_CHECK(h.next == s.e + s.hdr && h.remaining == stride - s.hdr && h.total_size == stride, "alloc-handle", "handle of a new %u-byte queue entry: next +%ld remaining %u total %u", stride, (long)(h.next - s.e), h.remaining, h.total_size);
  s.reader = [&](SPHLFEntryHandle_t *r) { return SPHSinglePCQueueGetNextComplete(q, r) == r; };
  s.alphabet(!opts.thorough && stride > 64); SeqOpts o; o.depth = opts.thorough ? 5 : 4; if (stride > 96) o.depth--; seq_explore(s, o);
  track_pop();
}
MC_CONFIG(cfg_log, "log", 8, 8) { setup(); int i = 0; for (size_t b : {1, 16, 17, 32, 48, 64, 100, 128, 240}) for (int e = 0; e < 2; e++) if (part(i)) logent(b, e, i); }
MC_CONFIG(cfg_queue, "queue", 8, 8) { setup(); int i = 0; for (unsigned b : {16, 32, 48, 64, 80, 128, 256}) for (int t = 0; t < 2; t++) for (int e = 0; e < 2; e++) if (part(i)) qent(b, t, e, i); }
// ---- every value of the narrow types, boundary patterns of the wide ones ----
template <class H> static void values(char *b) {
  typedef Api<H> A; auto rt = [&](Kind k, long v) { H h; memset(&h, 0, sizeof h); h.entry = (decltype(h.entry))b; h.next = b + 16; h.total_size = 64; h.remaining = 48; H r = h; A::add(&h, k, v, 0, 0); long g = A::get(&r, k); st.evaluations++; st.transitions++; MC_CHECK(g == v, "round-trip", "kind %d: stored %lx, read %lx", k, v, g); };
  for (int v = -128; v < 128; v++) rt(CHAR, v);
  for (int v = -32768; v < 32768; v++) rt(SHORT, v);
  std::vector<long> pat; for (int i = 0; i < 64; i++) for (int j = 0; j <= i; j++) { long one = 1ul << i, m = (one - (1l << j)); pat.push_back(one); pat.push_back(~one); pat.push_back(m); pat.push_back(~m); pat.push_back(one | 1ul << j); } pat.push_back(0); pat.push_back(-1);
  for (long v : pat) { rt(INT, (int)v); rt(LONG, v); rt(LL, v); rt(PTR, v); rt(DOUBLE, v); float f; int iv = (int)v; memcpy(&f, &iv, 4); if (f == f) rt(FLOAT, iv); }
  st.executions++; st.nontrivial += pat.size();
}
MC_CONFIG(cfg_values, "values", 1, 1) { setup(); st.states = 1; values<SPHLFEntryHandle_t>(AR); values<SPHLFLoggerHandle_t>(AR); }
