// M10: the lock-free heap under every interleaving.
#include "conc_common.h"
#include "sphlockfreeheap.h"
static char *AR; static const size_t ARN = 1 << 16;
#define NS __attribute__((no_sanitize("thread"), noinline))
struct HSys : ConcSys {
  size_t size = 2048, unit = 16; char *h; size_t cap; std::vector<std::string> prog; std::string freepat, nm;
  struct Al { int p, n, t; unsigned char id; bool freeing; }; std::vector<Al> live, live0; int clk, nid; size_t fs0; int active = 0, maxact[8];
  HSys() { state_based = true; }
  uint64_t mhash() override { uint64_t x = mix(nid, 5); for (auto &a : live) x = mix(x, a.p * 4096 + a.n * 64 + a.t * 8 + a.freeing + a.id * 1000003ull); for (int i = 0; i < 8; i++) x = mix(x, maxact[i]); return mix(x, active); }
  void share() override { conc_share(AR, ARN); }
  NS void fill(Al &a) { conc_point(h + a.p * unit, a.n * unit, CONC_WRITE, (void *)1); unsigned char *p = (unsigned char *)h + a.p * unit; for (size_t i = 0; i < a.n * unit; i++) p[i] = a.id * 31 + i; }
  NS bool ok(Al &a) { conc_point(h + a.p * unit, a.n * unit, CONC_READ, (void *)2); unsigned char *p = (unsigned char *)h + a.p * unit; for (size_t i = 0; i < a.n * unit; i++) if (p[i] != (unsigned char)(a.id * 31 + i)) return false; return true; }
  // freepat: units free at the start, as "first-last,first-last"
  void prepare() {
    memset(AR, 0, ARN); h = (char *)SPHLockFreeHeapInit(AR, SAS_RUNTIME_LOCKFREEHEAP, size, unit); cap = SPHLockFreeHeapFreeSpace(h); live0.clear();
    int nu = size / unit; std::vector<char> fr(nu, 0); const char *s = freepat.c_str(); while (*s) { char *e; int a = strtol(s, &e, 10), b = a; if (*e == '-') b = strtol(e + 1, &e, 10); for (int i = a; i <= b; i++) fr[i] = 1; s = *e ? e + 1 : e; }
    std::vector<char *> v; for (;;) { char *p = (char *)SPHLockFreeHeapAlloc(h, unit); if (!p) break; v.push_back(p); }
    for (char *p : v) if (fr[(p - h) / unit]) SPHLockFreeHeapFree(h, p); else live0.push_back({(int)((p - h) / unit), 1, 0, 0, false});
    fs0 = SPHLockFreeHeapFreeSpace(h); nid = 1;
    // allocations the threads hold at the start: "<thread><units>" prefix letters h
    for (size_t t = 0; t < prog.size(); t++) while (prog[t].size() > 1 && prog[t][0] == 'h') { int n = prog[t][1] - '0'; char *p = (char *)SPHLockFreeHeapAlloc(h, n * unit); if (p) { Al a = {(int)((p - h) / unit), n, (int)t + 1, (unsigned char)(nid++), false}; live0.push_back(a); unsigned char *q = (unsigned char *)p; for (size_t i = 0; i < n * unit; i++) q[i] = a.id * 31 + i; } prog[t] = prog[t].substr(2); }
  }
  void setup() override { live = live0; active = 0; memset(maxact, 0, sizeof maxact); }
  bool room(int n, int au, bool certain) {   // certain: units being freed or claimed do not count
    int nu = size / unit; std::vector<char> f(nu, 1); int first = nu - cap / unit; for (int i = 0; i < first; i++) f[i] = 0; for (auto &a : live) for (int i = 0; i < a.n; i++) f[a.p + i] = 0;
    for (int g = 0; g < nu; g += 64) for (int p = g; p + n <= g + 64; p += au) { bool o = true; for (int i = 0; i < n && o; i++) o = f[p + i]; if (o) return true; } return false;
  }
  void enter(int t) { active++; for (int i = 1; i < 8; i++) maxact[i] = maxact[i] | (active > 1); maxact[t] = active > 1; }
  void thread(int t) override {
    const std::string &p = prog[t - 1];
    for (size_t i = 0; i < p.size(); i++) {
      char c = p[i]; conc_event(0);
      if (c == 'a' || c == 'A') {
        int n = p[++i] - '0', au = c == 'A' ? 1 << (p[++i] - '0') : 1; enter(t); bool could = room(n, au, true);
        char *q = (char *)(c == 'a' ? SPHLockFreeHeapAlloc(h, n * unit) : SPHLockFreeHeapAlignAlloc(h, n * unit, au * unit)); conc_event(1); active--;
        if (!q) { MC_CHECK(!could || maxact[t], "refused", "an allocation of %d units failed although there was room and no other call was under way", n); continue; }
        MC_CHECK(q >= h && q + n * unit <= h + size && (q - h) % (au * unit) == 0, "bounds", "allocation of %d units (alignment %d) at offset %ld", n, au, (long)(q - h)); int k = (q - h) / unit;
        MC_CHECK(k >= (int)(size / unit - cap / unit), "bounds", "allocation at offset %ld is inside the control data", (long)(q - h));
        for (auto &a : live) MC_CHECK(a.freeing || k + n <= a.p || a.p + a.n <= k, "overlap", "thread %d was given units %d..%d while thread %d holds %d..%d", t, k, k + n - 1, a.t, a.p, a.p + a.n - 1);
        live.push_back({k, n, t, (unsigned char)(t * 16 + i), false}); Al cp = live.back(); fill(cp);
      } else if (c == 'f' || c == 'c' || c == 'F') {            // free oldest / checked / newest held
        int x = -1; for (size_t j = 0; j < live.size(); j++) if (live[j].t == t && !live[j].freeing) { x = j; if (c != 'F') break; } if (x < 0) continue;
        Al a = live[x]; bool good = ok(a); MC_CHECK(good, "overlap", "units %d..%d, held by thread %d, were overwritten", a.p, a.p + a.n - 1, t);
        for (size_t j = 0; j < live.size(); j++) if (live[j].p == a.p && live[j].t == t && live[j].id == a.id) live[j].freeing = true;
        enter(t); int rc = c == 'c' ? SPHLockFreeHeapFreeChk(h, h + a.p * unit, a.n * unit) : SPHLockFreeHeapFree(h, h + a.p * unit); conc_event(1); active--;
        MC_CHECK(rc == 0, "free", "freeing a live allocation of %d units returned %d", a.n, rc);
        for (size_t j = 0; j < live.size(); j++) if (live[j].p == a.p && live[j].t == t && live[j].id == a.id && live[j].freeing) { live.erase(live.begin() + j); break; }
      } else if (c == 's') {
        std::set<int> held; for (auto &a : live) if (!a.freeing) for (int k = 0; k < a.n; k++) held.insert(a.p + k);
        enter(t); size_t fs = SPHLockFreeHeapFreeSpace(h); int full = SPHLockFreeHeapFull(h), empty = SPHLockFreeHeapEmpty(h); conc_event(1); active--;
        std::set<int> still; for (auto &a : live) for (int k = 0; k < a.n; k++) if (held.count(a.p + k)) still.insert(a.p + k);
        if (!maxact[t]) { MC_CHECK(fs == cap - held.size() * unit, "free-space", "free space is %zu with %zu of %zu units taken", fs, held.size(), cap / unit); MC_CHECK(!!full == (held.size() * unit == cap) && !!empty == held.empty(), "full-empty", "full %d, empty %d with %zu of %zu units taken", full, empty, held.size(), cap / unit); }
        MC_CHECK(fs <= cap - 0, "free-space", "free space %zu exceeds the capacity %zu", fs, cap);
      }
    }
  }
  void finish() override {
    st.evaluations++; size_t taken = 0; for (auto &a : live) taken += a.n * unit;
    size_t fs = SPHLockFreeHeapFreeSpace(h); MC_CHECK(fs == cap - taken, "free-space", "afterwards the free space is %zu, the capacity %zu, %zu bytes are allocated", fs, cap, taken);
    for (auto &a : live) { if (a.id) MC_CHECK(ok(a), "overlap", "units %d..%d, still held by thread %d, were overwritten", a.p, a.p + a.n - 1, a.t); int rc = SPHLockFreeHeapFreeChk(h, h + a.p * unit, a.n * unit); MC_CHECK(rc == 0, "free", "freeing a live allocation of %d units afterwards returned %d", a.n, rc); }
    fs = SPHLockFreeHeapFreeSpace(h); MC_CHECK(fs == cap && SPHLockFreeHeapEmpty(h), "recover", "everything freed: free space %zu of %zu, empty %d", fs, cap, SPHLockFreeHeapEmpty(h));
    size_t n = 0; for (int k : {32, 1}) while (SPHLockFreeHeapAlloc(h, k * unit)) n += k * unit; MC_CHECK(n == cap, "recover", "everything freed, but only %zu of %zu bytes can be allocated again", n, cap);
  }
};
static bool inited; static void init() { if (inited) return; inited = true; track_statics(); AR = arena(ARN); track_add(AR, ARN); install_handlers(); }
static void go(const char *freepat, std::vector<std::string> p, int pb, size_t size = 2048, size_t unit = 16) {
  init(); HSys s; s.size = size; s.unit = unit; s.freepat = freepat; s.prog = p; s.nthreads = p.size(); std::string d; for (auto &x : p) d += (d.empty() ? "" : " | ") + x;
  s.nm = d; ConcOpts o; o.preemptions = pb; track_push(); s.prepare(); conc_explore(s, o, strf("%s, free units %s, preemption bound %d", d.c_str(), freepat, pb)); track_pop();
}
static const char *FP[] = {"40-45", "62-65", "40,42,44-46", "63,64", "40-42,70-72"};
MC_CONFIG(two, "two-threads", 8, 8) {
  for (const char *f : FP) for (auto p : std::vector<std::vector<std::string>>{{"a1", "a1"}, {"a2", "a2"}, {"a1f", "a1f"}, {"a2fa1", "a1fa2"}, {"h1f", "a2"}, {"h1fa1", "a1f"}, {"h2f", "h1f"}, {"h1fa2f", "h2fa1f"}, {"h1h1fF", "a2f"}, {"A21", "A11"}, {"A21f", "a2f"}, {"h2ca1", "a3c"}, {"a1a1ff", "a1a1FF"}, {"a3f", "a3f"},}) go(f, p, -1);
  for (const char *f : FP) for (auto p : std::vector<std::vector<std::string>>{{"h2fs", "a2s"}, {"a1s", "h1fs"}, {"s", "h1fa1f"}}) go(f, p, opts.thorough ? 4 : 2);
  go("40-45", {"a2fa2f", "a2fa2f"}, opts.thorough ? -1 : 4); go("40-44", {"a1a2fFa3", "a2a1Ffa2"}, opts.thorough ? 6 : 4); go("62-66", {"A20fa1", "A21ca2"}, opts.thorough ? -1 : 4);
}
MC_CONFIG(three, "three-threads", 8, 8) {
  int pb = opts.thorough ? 5 : 3;
  for (const char *f : FP) for (auto p : std::vector<std::vector<std::string>>{{"a1", "a1", "a1"}, {"a2", "a2", "a2"}, {"a1f", "a1f", "a1f"}, {"h1f", "a2", "a1"}, {"h1f", "h1f", "a2"}, {"h1fa1", "h1fa2", "a1f"}, {"h2f", "h1f", "h1f"}, {"a2f", "h1fa1", "A11f"}}) go(f, p, pb);
  if (opts.thorough) for (const char *f : FP) for (auto p : std::vector<std::vector<std::string>>{{"a1f", "a1f", "a1f", "a1f"}, {"h1f", "h1f", "a2", "a1"}, {"a2", "a2", "a1f", "h1f"}}) go(f, p, 3);
}
