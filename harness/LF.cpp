// M09: the lock-free heap, sequentially.
#include "conc_common.h"
#include "sphlockfreeheap.h"
static char *AR; static const size_t ARN = 1 << 22; static const unsigned char CAN = 0xC5;
static inline unsigned char pay(int id, size_t i) { return (unsigned char)(id * 41 + i * 7 + 3); }
static bool inited;
static void init(bool region) { if (inited) return; inited = true; if (region) { join_region(); track_region(); } else track_statics(); AR = arena(ARN, 0x200000000000ul); track_add(AR, ARN); install_handlers(); watchdog(10); }
struct Heap {
  char *h = 0; size_t size, unit; int nu, first; size_t cap;         // units in all; the first one that can be allocated
  bool make(size_t sz, size_t u, bool region) {
    size = sz; unit = u; nu = sz / u;
    if (!region) { memset(AR, CAN, sz + 64); h = (char *)SPHLockFreeHeapInit(AR, SAS_RUNTIME_LOCKFREEHEAP, sz, u); if (h == (char *)-1) h = 0; }
    else h = (char *)SPHLockFreeHeapCreate(sz, u);
    return h != 0;
  }
  int unit_of(void *p) { long d = (char *)p - h; return d >= 0 && (size_t)d < size && d % unit == 0 ? d / unit : -1; }
  // which units can be allocated: take them all one by one, overwrite them, give them all back
  void probe() {
    cap = SPHLockFreeHeapFreeSpace(h); std::vector<char> got(nu, 0); std::vector<void *> v;
    MC_CHECK(SPHLockFreeHeapEmpty(h), "empty", "a new heap is not empty");
    for (;;) { char *p = (char *)SPHLockFreeHeapAlloc(h, unit); if (!p) break; int k = unit_of(p); MC_CHECK(k >= 0, "bounds", "allocation at offset %ld of a heap of %zu bytes, unit %zu", (long)(p - h), size, unit); if (k < 0) break;
      if (got[k]) { violation("overlap", "unit %d was allocated twice", k); break; } got[k] = 1; v.push_back(p); memset(p, 0xEE, unit); if ((int)v.size() > nu) break; }
    MC_CHECK(v.size() * unit == cap, "free-space", "free space of the new heap is %zu, %zu units of %zu could be allocated", cap, v.size(), unit);
    MC_CHECK(SPHLockFreeHeapFull(h) && SPHLockFreeHeapFreeSpace(h) == 0, "full", "all units allocated, but full is %d and free space %lu", SPHLockFreeHeapFull(h), SPHLockFreeHeapFreeSpace(h));
    first = nu; for (int i = 0; i < nu; i++) if (got[i]) { first = i; break; }
    for (int i = first; i < nu; i++) MC_CHECK(got[i], "lost-space", "unit %d of %d can never be allocated (the first one that can is %d)", i, nu, first);
    size_t ctl = 128 + 64 + 2 * 8 * ((nu + 63) / 64) + 64; MC_CHECK((size_t)first * unit <= ctl + unit, "lost-space", "the heap's first %zu bytes cannot be allocated (%d bit-vector words)", first * unit, (nu + 63) / 64);
    for (void *p : v) { int rc = SPHLockFreeHeapFree(h, p); MC_CHECK(rc == 0, "free", "freeing a live unit returned %d", rc); }
    MC_CHECK(SPHLockFreeHeapEmpty(h) && SPHLockFreeHeapFreeSpace(h) == cap, "recover", "everything freed: empty is %d, free space %lu of %zu", SPHLockFreeHeapEmpty(h), SPHLockFreeHeapFreeSpace(h), cap);
  }
  void canary() { if (h == AR) for (int i = 0; i < 64; i++) MC_CHECK((unsigned char)AR[size + i] == CAN, "overrun", "byte %d behind the heap was overwritten", i); }
};
// is there a run of n free units starting at a multiple of au within one 64-unit group?
static int find_run(const std::vector<char> &fr, int n, int au) {
  int nu = fr.size(); for (int g = 0; g < nu; g += 64) for (int p = g; p + n <= g + 64 && p + n <= nu; p += au) { bool ok = true; for (int i = 0; i < n && ok; i++) ok = fr[p + i]; if (ok) return p; } return -1;
}
struct Al { short p, u; unsigned size; unsigned char id; };
struct LM { int n, nid; Al a[24]; };
struct LS : SeqSysT<LM> {
  Heap hp; struct Op { char k; size_t size, al; int i; }; std::vector<Op> ops; void *last_freed;
  int nops() override { return ops.size(); }
  std::string name(int o) override { auto &x = ops[o]; switch (x.k) { case 'a': return strf("alloc(%zu)", x.size); case 'A': return strf("alignalloc(%zu, %zu)", x.size, x.al); case 'f': return strf("free #%d", x.i); case 'c': return strf("freechk #%d", x.i); default: return "bad frees"; } }
  bool enabled(int o) override { auto &x = ops[o]; return x.k == 'a' || x.k == 'A' ? m.n < 24 : x.k == 'b' ? true : x.i < m.n; }
  std::vector<char> freemap() { std::vector<char> f(hp.nu, 1); for (int i = 0; i < hp.first; i++) f[i] = 0; for (int i = 0; i < m.n; i++) for (int k = 0; k < m.a[i].u; k++) f[m.a[i].p + k] = 0; return f; }
  void apply(int o) override {
    auto &x = ops[o];
    if (x.k == 'a' || x.k == 'A') {
      int n = (x.size + hp.unit - 1) / hp.unit, au = x.k == 'A' ? std::max<int>(1, x.al / hp.unit) : 1; bool room = x.size > 0 && x.size < 32 * hp.unit && find_run(freemap(), n, au) >= 0;
      if (x.k == 'A' && x.al > hp.unit * 64) room = false;
      char *p = (char *)(x.k == 'a' ? SPHLockFreeHeapAlloc(hp.h, x.size) : SPHLockFreeHeapAlignAlloc(hp.h, x.size, x.al));
      MC_CHECK(room == (p != 0), room ? "refused" : "accepted", "%s %s although %s", name(o).c_str(), p ? "succeeded" : "failed", room ? "there is room" : "there is no room or the request is not valid"); if (!p) return;
      MC_CHECK(x.k == 'a' || (uintptr_t)p % x.al == 0, "misaligned", "%s gave offset 0x%lx", name(o).c_str(), (long)(p - hp.h));
      int k = hp.unit_of(p); MC_CHECK(k >= hp.first && k + n <= hp.nu, "bounds", "%s gave offset %ld", name(o).c_str(), (long)(p - hp.h)); if (k < 0) return;
      auto f = freemap(); for (int i = 0; i < n; i++) MC_CHECK(f[k + i], "overlap", "%s gave unit %d, which is in use", name(o).c_str(), k + i);
      Al a = {(short)k, (short)n, (unsigned)(n * hp.unit), (unsigned char)(m.nid++ & 63)}; for (size_t i = 0; i < a.size; i++) p[i] = pay(a.id, i);
      int i = m.n++; for (; i > 0 && m.a[i - 1].p > a.p; i--) m.a[i] = m.a[i - 1]; m.a[i] = a;
    } else if (x.k == 'b') bad();
    else {
      Al a = m.a[x.i]; char *p = hp.h + a.p * hp.unit; int rc;
      if (x.k == 'c') {
        for (int d : {-1, 1, 3}) if (a.u + d > 0) { rc = SPHLockFreeHeapFreeChk(hp.h, p, (a.u + d) * hp.unit); MC_CHECK(rc != 0, "wrong-size-freed", "an allocation of %d units was freed as one of %d", a.u, a.u + d); }
        rc = SPHLockFreeHeapFreeChk(hp.h, p, a.u == 32 ? a.size - 1 : a.size);
      } else rc = m.nid & 1 ? SPHLockFreeHeapFree(hp.h, p) : SPHLockFreeHeapFreeIn(hp.h, p);
      MC_CHECK(rc == 0, "free", "%s of a live allocation of %d units returned %d", x.k == 'c' ? "checked free" : "free", a.u, rc);
      for (int i = x.i; i + 1 < m.n; i++) m.a[i] = m.a[i + 1]; m.n--; memset(&m.a[m.n], 0, sizeof(Al));
      rc = SPHLockFreeHeapFree(hp.h, p); MC_CHECK(rc != 0, "double-free", "freeing an allocation a second time returned 0");
      rc = SPHLockFreeHeapFreeChk(hp.h, p, a.u == 32 ? a.size - 1 : a.size); MC_CHECK(rc != 0, "double-free", "freeing an allocation a second time (checked) returned 0");
    }
    st.evaluations++;
  }
  void bad() {
    auto f = freemap(); int rc;
    for (long off : {-(long)hp.unit, (long)hp.size, (long)(hp.size + hp.unit), (long)(hp.size * 2)}) { rc = SPHLockFreeHeapFree(hp.h, hp.h + off); MC_CHECK(rc != 0, "foreign-free", "freeing an address at offset %ld of a heap of %zu bytes returned 0", off, hp.size); }
    for (int i = hp.first; i < hp.nu; i++) if (f[i]) { rc = SPHLockFreeHeapFree(hp.h, hp.h + i * hp.unit); MC_CHECK(rc != 0, "free-of-free", "freeing unit %d, which is free, returned 0", i); rc = SPHLockFreeHeapFreeChk(hp.h, hp.h + i * hp.unit, hp.unit); MC_CHECK(rc != 0, "free-of-free", "freeing unit %d, which is free, returned 0", i); }
    char save[128]; memcpy(save, hp.h, 128); ((SASBlockHeader *)hp.h)->blockType = SAS_SIMPLEHEAP_TYPE;
    MC_CHECK(!SPHLockFreeHeapAlloc(hp.h, hp.unit) && !SPHLockFreeHeapAlignAlloc(hp.h, hp.unit, hp.unit) && SPHLockFreeHeapFree(hp.h, hp.h + hp.first * hp.unit) && SPHLockFreeHeapDestroy(hp.h), "wrong-kind", "an operation on a block of another kind succeeded");
    memcpy(hp.h, save, 128);
  }
  void check() override {
    size_t live = 0; for (int i = 0; i < m.n; i++) { auto &a = m.a[i]; live += a.size; unsigned char *p = (unsigned char *)hp.h + a.p * hp.unit; for (size_t k = 0; k < a.size; k++) if (p[k] != pay(a.id, k)) { violation("overlap", "byte %zu of the live allocation at unit %d was changed", k, a.p); break; } }
    size_t fs = SPHLockFreeHeapFreeSpace(hp.h); MC_CHECK(fs == hp.cap - live, "free-space", "free space is %zu, the capacity %zu, %zu bytes are allocated", fs, hp.cap, live);
    int e = SPHLockFreeHeapEmpty(hp.h), f = SPHLockFreeHeapFull(hp.h); MC_CHECK(!!e == (live == 0), "empty", "empty is %d with %zu bytes allocated", e, live); MC_CHECK(!!f == (live == hp.cap), "full", "full is %d with %zu of %zu bytes allocated", f, live, hp.cap);
    hp.canary();
  }
  void leaf() override {
    for (int i = 0; i < m.n; i++) { int rc = SPHLockFreeHeapFree(hp.h, hp.h + m.a[i].p * hp.unit); MC_CHECK(rc == 0, "free", "freeing a live allocation returned %d", rc); }
    MC_CHECK(SPHLockFreeHeapFreeSpace(hp.h) == hp.cap && SPHLockFreeHeapEmpty(hp.h), "recover", "everything freed: free space %lu of %zu, empty %d", SPHLockFreeHeapFreeSpace(hp.h), hp.cap, SPHLockFreeHeapEmpty(hp.h));
  }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, 5); }
};
static void seqrun(size_t size, size_t unit, std::vector<std::pair<double, int>> sizes, int depth, double prefill) {
  LS s; memset(&s.m, 0, sizeof s.m); track_push();
  if (!s.hp.make(size, unit, false)) { violation("create", "a heap of %zu bytes with unit %zu was refused", size, unit); track_pop(); return; }
  s.hp.probe();
  for (auto &z : sizes) s.ops.push_back({(char)(z.second ? 'A' : 'a'), (size_t)(z.first * unit + 0.5), (size_t)(z.second < 0 ? 2 : z.second * unit), 0});
  for (int i = 0; i < 4; i++) s.ops.push_back({'f', 0, 0, i}); for (int i = 0; i < 2; i++) s.ops.push_back({'c', 0, 0, i}); s.ops.push_back({'b', 0, 0, 0});
  // fill the heap up to a level so that the sequences meet a full heap
  while (prefill > 0 && s.m.n < 24) { size_t left = SPHLockFreeHeapFreeSpace(s.hp.h) / unit; size_t target = s.hp.cap / unit * (1 - prefill); if (left <= target) break; int n = std::min<size_t>(32, left - target); void *p = 0; while (n && !(p = SPHLockFreeHeapAlloc(s.hp.h, n * unit))) n--; if (!p) break; Al a = {(short)s.hp.unit_of(p), (short)n, (unsigned)(n * unit), (unsigned char)(s.m.nid++)}; for (size_t i = 0; i < a.size; i++) ((unsigned char *)p)[i] = pay(a.id, i); s.m.a[s.m.n++] = a; }
  std::sort(s.m.a, s.m.a + s.m.n, [](const Al &x, const Al &y) { return x.p < y.p; });
  sample(strf("heap of %zu bytes, unit %zu, capacity %zu units, first allocatable unit %d, %zu free at the start", size, unit, s.hp.cap / unit, s.hp.first, SPHLockFreeHeapFreeSpace(s.hp.h) / unit));
  SeqOpts o; o.depth = depth; o.leaf = true; seq_explore(s, o); track_pop();
}
MC_CONFIG(seq, "sequences", 8, 8) {
  init(false); int d = opts.thorough ? 6 : 4; double e = 0.01;
  for (auto hu : std::vector<std::pair<size_t, size_t>>{{2048, 16}, {4096, 16}, {16384, 128}, {2048, 8}, {65536, 512}})
    for (double pf : {0.0, 0.85, 1.0}) {
      seqrun(hu.first, hu.second, {{e * 0 + 1.0 / hu.second, 0}, {1, 0}, {3, 0}, {8, 0}, {31.5, 0}, {32, 0}, {32 + 1.0 / hu.second, 0}, {0, 0}, {1, 1}, {3, 4}, {5, 16}, {31.5, 32}, {9, 64}, {2, 128}, {1, -1}}, d, pf);
      seqrun(hu.first, hu.second, {{2, 0}, {17, 0}, {30, 0}, {31.75, 64}, {4, 8}, {31, 2}}, d + 1, pf);
    }
}
// every fragmentation pattern of 14 units around a word boundary (and at the start and the end of a word), every request
MC_CONFIG(frag, "fragmentation", 8, 8) {
  init(false); int nb = opts.thorough ? 16 : 12;
  for (auto hu : std::vector<std::pair<size_t, size_t>>{{2048, 16}, {32768, 256}}) {
    track_push(); LS s; memset(&s.m, 0, sizeof s.m); if (!s.hp.make(hu.first, hu.second, false)) { violation("create", "a heap of %zu bytes with unit %zu was refused", hu.first, hu.second); return; } s.hp.probe();
    Heap &h = s.hp; std::vector<void *> all(h.nu, (void *)0); for (;;) { void *p = SPHLockFreeHeapAlloc(h.h, h.unit); if (!p) break; all[h.unit_of(p)] = p; }
    for (int at : {64 - nb / 2, 64, h.nu - nb}) for (int pat = opts.shard; pat < 1 << nb; pat += opts.nshards) {
      heartbeat(); track_push(); st.states++; std::vector<char> fr(h.nu, 0); path_names = {strf("heap %zu/%zu, all taken but units %d + %x", h.size, h.unit, at, pat)};
      for (int i = 0; i < nb; i++) if (pat >> i & 1) { SPHLockFreeHeapFree(h.h, all[at + i]); fr[at + i] = 1; }
      size_t fs = SPHLockFreeHeapFreeSpace(h.h); MC_CHECK(fs == __builtin_popcount(pat) * h.unit, "free-space", "free space is %zu with %d free units", fs, __builtin_popcount(pat));
      for (int n = 1; n <= nb; n++) for (int au : {0, 1, 2, 4, 8, 16, 32, 64}) {
        bool room = find_run(fr, n, au ? au : 1) >= 0; where = path_names[0] + strf(", allocating %d units aligned to %d", n, au);
        char *p = (char *)(au ? SPHLockFreeHeapAlignAlloc(h.h, n * h.unit, au * h.unit) : SPHLockFreeHeapAlloc(h.h, n * h.unit)); st.transitions++;
        MC_CHECK(room == (p != 0), room ? "refused" : "accepted", "allocation of %d units (alignment %d) %s", n, au, p ? "succeeded without room" : "failed although there is room"); if (!p) continue;
        int k = h.unit_of(p); MC_CHECK(k >= 0 && (!au || k % au == 0), "misaligned", "allocation of %d units (alignment %d) gave offset %ld", n, au, (long)(p - h.h)); if (k < 0) continue;
        for (int i = 0; i < n; i++) MC_CHECK(fr[k + i], "overlap", "allocation of %d units gave unit %d, which is taken", n, k + i);
        MC_CHECK(SPHLockFreeHeapFreeSpace(h.h) == fs - n * h.unit, "free-space", "free space is %lu after allocating %d of %zu", SPHLockFreeHeapFreeSpace(h.h), n, fs / h.unit);
        int rc = n & 1 ? SPHLockFreeHeapFree(h.h, p) : SPHLockFreeHeapFreeChk(h.h, p, n * h.unit); MC_CHECK(rc == 0, "free", "freeing %d units returned %d", n, rc);
        MC_CHECK(SPHLockFreeHeapFreeSpace(h.h) == fs, "free-space", "free space is %lu after freeing, it was %zu", SPHLockFreeHeapFreeSpace(h.h), fs);
      }
      st.evaluations++; track_pop();
    }
    track_pop();
  }
  sample(strf("every pattern of %d units around a word boundary, in the second word and at the heap's end; sizes 1..%d, eight alignments", nb, nb));
}
// every heap size and unit size; every request size; filling and emptying in several orders
MC_CONFIG(sizes, "sizes", 8, 8) {
  init(true); int k = 0; size_t maxs = opts.thorough ? 1 << 20 : 1 << 18;
  for (int region = 0; region < 2; region++) for (size_t size = region ? 4096 : 1024; size <= maxs; size *= 2) for (size_t unit = 8; unit <= 16384; unit *= 2) {
    if (k++ % opts.nshards != opts.shard) continue; heartbeat(); path_names = {strf("heap of %zu bytes, unit %zu, %s", size, unit, region ? "created" : "initialised")}; where = path_names[0];
    if (!region && size < 128 * unit) continue;                                           // Init has no size check
    track_push(); Heap h; size_t ctl = 128 + 24 + 24 + 16 * (size / unit / 64); bool fits = size > 64 * unit && (ctl + 64) <= 64 * unit, sure_not = size <= 64 * unit || ctl - 64 > 64 * unit;
    void *probe0 = region ? SASBlockAlloc(size) : 0; if (region) SASBlockDealloc(probe0, size);
    bool ok = h.make(size, unit, region); MC_CHECK(!fits || ok, "create", "a heap of %zu bytes with unit %zu was refused", size, unit); MC_CHECK(!sure_not || !ok, "create", "a heap of %zu bytes with unit %zu was made (its control data does not fit or it has too few units)", size, unit);
    if (!ok) { if (region) { void *p = SASBlockAlloc(size); MC_CHECK(p == probe0, "refused-leak", "the block of a heap that could not be made was not given back"); } track_pop(); continue; }
    st.states++; h.probe(); h.canary();
    for (int n = 1; n <= 33; n++) {
      heartbeat(); if (n > 8 && size > 65536 && n % 5) continue;
      int want = 0; for (int g = 0; g < h.nu; g += 64) { int a = std::max(g, h.first), b = std::min(g + 64, h.nu); if (b > a && n <= 32) want += (b - a) / n; }
      std::vector<char *> v; std::vector<char> used(h.nu, 0); size_t req = n == 33 ? 32 * unit + (unit & 16) : n == 32 ? n * unit - 1 : n * unit - (n & 1 ? unit - 1 : 0); int id = 0;
      for (;;) { char *p = (char *)SPHLockFreeHeapAlloc(h.h, req); st.transitions++; if (!p) break; int u = h.unit_of(p); if (u < h.first || u + n > h.nu) { violation("bounds", "allocation of %zu bytes at offset %ld", req, (long)(p - h.h)); break; } bool ov = false; for (int i = 0; i < n; i++) { ov |= used[u + i]; used[u + i] = 1; } if (ov) { violation("overlap", "allocation of %zu bytes at unit %d overlaps another", req, u); break; } memset(p, pay(id++, 0), n * unit); v.push_back(p); if ((int)v.size() > h.nu) break; }
      MC_CHECK((int)v.size() == want, "capacity", "%zu allocations of %d units succeeded in an empty heap, there is room for %d", v.size(), n, want);
      size_t fs = SPHLockFreeHeapFreeSpace(h.h); MC_CHECK(fs == h.cap - v.size() * n * unit, "free-space", "free space is %zu with %zu allocations of %d units, capacity %zu", fs, v.size(), n, h.cap);
      for (size_t i = 0; i < v.size(); i++) { unsigned char c = pay(i, 0); for (size_t b : {(size_t)0, n * unit / 2, n * unit - 1}) MC_CHECK((unsigned char)v[i][b] == c, "overlap", "byte %zu of allocation %zu changed", b, i); }
      std::vector<int> ord; int N = v.size(); if (n % 3 == 0) for (int i = 0; i < N; i++) ord.push_back(i); else if (n % 3 == 1) for (int i = N - 1; i >= 0; i--) ord.push_back(i); else { for (int i = 0; i < N; i += 2) ord.push_back(i); for (int i = 1; i < N; i += 2) ord.push_back(i); }
      for (int i : ord) { int rc = n & 2 ? SPHLockFreeHeapFreeChk(h.h, v[i], req) : SPHLockFreeHeapFree(h.h, v[i]); if (rc) { violation("free", "freeing allocation %d of %d units returned %d", i, n, rc); break; } }
      MC_CHECK(SPHLockFreeHeapFreeSpace(h.h) == h.cap && SPHLockFreeHeapEmpty(h.h), "recover", "everything freed: free space %lu of %zu", SPHLockFreeHeapFreeSpace(h.h), h.cap); h.canary();
      st.evaluations++;
    }
    if (region) { MC_CHECK(SPHLockFreeHeapDestroy(h.h) == 0, "destroy", "destroy failed"); void *p = SASBlockAlloc(size); MC_CHECK(p == probe0, "destroy", "the block of a destroyed heap was not given back"); }
    st.executions++; track_pop();
  }
  // sizes that are not powers of two
  if (opts.shard == 0) for (size_t s : {5000ul, 12288ul, 4095ul, 0ul}) for (size_t u : {16ul, 24ul, 0ul}) { void *p = SPHLockFreeHeapCreate(s, u); MC_CHECK(!p, "create", "a heap of %zu bytes with unit %zu was made", s, u); }
  // control data that cannot fit: huge heaps of small units (never touched beyond the vectors)
  if (opts.shard == 1 || opts.nshards == 1) for (auto su : std::vector<std::pair<size_t, size_t>>{{1ul << 28, 16}, {1ul << 28, 64}, {1ul << 26, 16}, {1ul << 24, 16}, {1ul << 22, 16}}) {
    char *big = arena(su.first, 0x210000000000ul); void *h = SPHLockFreeHeapInit(big, SAS_RUNTIME_LOCKFREEHEAP, su.first, su.second);
    if (h && h != (void *)-1) { size_t fs = SPHLockFreeHeapFreeSpace(h), n = su.first / su.second / 64; MC_CHECK(fs + 64 * su.second + 16 * n + 256 >= su.first, "create", "a heap of %zu bytes with unit %zu has only %zu bytes to offer", su.first, su.second, fs); }
    munmap(big, su.first);
  }
}
