// M01/M02: the block allocator of the region, every bounded history of allocations and frees, against the set of live
// blocks and the region's own lists; segments are created in a virtual file system whose every call can be made to fail.
#include "mc.h"
#include <string.h>
#include <algorithm>
extern "C" {
#include "sasalloc.h"
#include "sassim.h"
}
using namespace mc;
typedef unsigned long U;
extern "C" U getMemLow(); extern "C" U getMemHigh();
static bool M1, M2;
static std::string g_at;
#define RUN(what) do { g_at = (what); where = g_at; heartbeat(); } while (0)
static U LO; static const U SEG = SegmentSize, ANCHOR = 1 << 20;
static std::string rel(U a) { return strf("region+%#lx", a - LO); }
static void mark(char *p, U n, int how) { auto f = [&](char *x, U k) { for (U i = 0; i < k; i++) { char want = (char)((((U)x + i) * 0x9e3779b97f4a7c15ull >> 56) | 1); if (how) { if (x[i] != want) { violation("clobbered", "after %s: a live block of %lu bytes at %s was changed at +%lu", g_at.c_str(), n, rel((U)p).c_str(), (U)(x + i - p)); return; } } else x[i] = want; } };
  if (n <= 8192) f(p, n); else { f(p, 64); f(p + 4096, 64); f(p + n / 2, 64); f(p + n - 64, 64); } }
typedef std::vector<std::pair<U, U>> Iv;
static Iv raw(void (*f)(void **, U *, int *)) { static void *a[300000]; static U n[300000]; int c = 0; f(a, n, &c); Iv r; for (int i = 0; i < c; i++) r.push_back({(U)a[i], (U)a[i] + n[i]}); std::sort(r.begin(), r.end()); return r; }
static Iv merged(Iv a) { std::sort(a.begin(), a.end()); Iv r; for (auto &x : a) if (!r.empty() && r.back().second == x.first) r.back().second = x.second; else r.push_back(x); return r; }
static std::string show(const Iv &v) { std::string s; int k = 0; for (auto &x : v) { if (k++ > 12) { s += " ..."; break; } s += strf(" %#lx-%#lx", x.first - LO, x.second - LO); } return s; }
static bool disjoint(const Iv &v) { for (size_t i = 1; i < v.size(); i++) if (v[i - 1].second > v[i].first) return false; return true; }
static bool covers(const Iv &v, U a, U b) { for (auto &x : v) if (x.first <= a && b <= x.second) return true; return false; }
struct Blk { char *p; U n; };
struct M { std::vector<Blk> v; std::map<std::string, long> files; bool compact = true; };
struct Lists { Iv used, free, unc, seg, region; bool operator==(const Lists &o) const { return merged(used) == merged(o.used) && free == o.free && unc == o.unc && seg == o.seg && region == o.region; } };
static Lists lists() { return {raw(SASListInUseMem), raw(SASListFreeMem), raw(SASListUncommittedMem), raw(SASListAllocatedRegion), raw(SASListFreeRegion)}; }
static bool light = false;
static void state(const M &m) {
  if (M1) for (auto &b : m.v) mark(b.p, b.n, 1);
  if (!M2) return;
  Lists l = lists(); Iv live{{LO, LO + ANCHOR}}; for (auto &b : m.v) live.push_back({(U)b.p, (U)b.p + b.n}); live = merged(live);
  MC_CHECK(disjoint(l.used) && merged(l.used) == live, "in-use", "after %s: listed as in use%s; live are%s", g_at.c_str(), show(l.used).c_str(), show(live).c_str());
  Iv all = l.free; all.insert(all.end(), l.unc.begin(), l.unc.end()); all.insert(all.end(), l.used.begin(), l.used.end()); std::sort(all.begin(), all.end());
  MC_CHECK(disjoint(all), "both", "after %s: free, uncommitted and in-use blocks overlap: free%s uncommitted%s in use%s", g_at.c_str(), show(l.free).c_str(), show(l.unc).c_str(), show(l.used).c_str());
  MC_CHECK(merged(all) == merged(l.seg), "neither", "after %s: the segments%s are not accounted for: free%s uncommitted%s in use%s", g_at.c_str(), show(l.seg).c_str(), show(l.free).c_str(), show(l.unc).c_str(), show(l.used).c_str());
  for (const Iv *f : {&l.free, &l.unc}) for (size_t i = 0; i < f->size(); i++) { U a = (*f)[i].first - LO, s = (*f)[i].second - (*f)[i].first; MC_CHECK(s && !(s & (s - 1)) && a % s == 0, "list-align", "after %s: a listed free block of %lu bytes at region+%#lx", g_at.c_str(), s, a); if (f == &l.free && !(a & s)) MC_CHECK(i + 1 >= f->size() || (*f)[i + 1] != std::make_pair(LO + a + s, LO + a + 2 * s), "not-coalesced", "after %s: the two free halves of %lu bytes at region+%#lx remain apart", g_at.c_str(), s, a); }
  Iv reg = l.region; reg.insert(reg.end(), l.seg.begin(), l.seg.end()); std::sort(reg.begin(), reg.end());
  MC_CHECK(disjoint(reg) && merged(reg) == Iv({{LO, LO + RegionSize}}), "region", "after %s: the region's segments and free ranges are%s", g_at.c_str(), show(merged(reg)).c_str());
  MC_CHECK(vfs.files.size() == l.seg.size() || !vfs.on, "files", "after %s: %zu segment files for %zu segments", g_at.c_str(), vfs.files.size(), l.seg.size());
  for (auto &f : vfs.files) MC_CHECK(f.second == (long)SEG, "file-size", "after %s: the segment file %s has %ld bytes", g_at.c_str(), f.first.c_str(), f.second);
}
static bool fits(const Lists &l, U n) { for (const Iv *f : {&l.free, &l.unc}) for (auto &x : *f) if (x.second - x.first >= n) return true; return false; }
static char *raw_alloc(U n) { char *p = nullptr; guarded([&] { p = (char *)SASBlockAlloc(n); }); return p; }
static void alloc(M &m, U n, int fault = -1) {
  RUN(strf("allocating a block of %lu bytes%s", n, fault >= 0 ? strf(" while system call %d of the segment's creation fails", fault).c_str() : "")); Lists l0 = lists(); auto files0 = vfs.files; bool here = fits(l0, n); vfs.calls = 0; vfs.fail_at = fault; vfs.failed = false; char *p = raw_alloc(n); vfs.fail_at = -1; std::string fc = vfs.failed_call; int nopen = vfs_open(); vfs_close(); MC_CHECK(!nopen, "descriptor-leak", "%s left %d segment files open", g_at.c_str(), nopen);
  if (!p) { MC_CHECK(vfs.failed, "refused", "%s was refused though free%s uncommitted%s", g_at.c_str(), show(l0.free).c_str(), show(l0.unc).c_str()); Lists l1 = lists(); MC_CHECK(l1 == l0 && vfs.files == files0, "refusal-changed", "%s (%s) was refused but changed the region: segments%s free ranges%s, %zu files; before: segments%s free ranges%s, %zu files", g_at.c_str(), fc.c_str(), show(l1.seg).c_str(), show(l1.region).c_str(), vfs.files.size(), show(l0.seg).c_str(), show(l0.region).c_str(), files0.size()); return; }
  U a = (U)p; Lists l1 = lists();
  if (M1) {
    MC_CHECK(a % n == 0, "align", "%s returned %s, not aligned to its size", g_at.c_str(), rel(a).c_str());
    MC_CHECK(covers(merged(l1.seg), a, a + n), "outside", "%s returned %s, outside the segments%s", g_at.c_str(), rel(a).c_str(), show(l1.seg).c_str());
    MC_CHECK(a >= LO + ANCHOR, "anchor", "%s returned %s, in the anchor", g_at.c_str(), rel(a).c_str());
    for (auto &b : m.v) MC_CHECK(a + n <= (U)b.p || a >= (U)b.p + b.n, "overlap", "%s returned %s, overlapping the %lu live bytes at %s", g_at.c_str(), rel(a).c_str(), b.n, rel((U)b.p).c_str());
    MC_CHECK(!here || l1.seg == l0.seg, "extra-segment", "%s created a segment though free%s uncommitted%s", g_at.c_str(), show(l0.free).c_str(), show(l0.unc).c_str());
    mark(p, n, 0);
  }
  m.v.push_back({p, n});
}
static void release(M &m, size_t i, int part = 0) {      // part: 0 all, 1 lower half, 2 upper half, 3 second quarter
  Blk b = m.v[i]; U off = part == 2 ? b.n / 2 : part == 3 ? b.n / 4 : 0, len = part == 0 ? b.n : part == 3 ? b.n / 4 : b.n / 2;
  RUN(strf("freeing %lu bytes at %s+%lu", len, rel((U)b.p).c_str(), off)); guarded([&] { SASBlockDealloc(b.p + off, len); }); m.v.erase(m.v.begin() + i);
  if (part) { std::vector<Blk> r; if (part == 1) r = {{b.p + b.n / 2, b.n / 2}}; if (part == 2) r = {{b.p, b.n / 2}}; if (part == 3) r = {{b.p, b.n / 4}, {b.p + b.n / 2, b.n / 2}}; for (auto &x : r) { mark(x.p, x.n, 0); m.v.push_back(x); } }
}
static std::vector<U> SZ; static size_t MAXLIVE = 6; static bool parts = false, modes = false; static int faults = 0;
struct Sys : SeqSysT<M> {
  int np() { return parts ? 4 : 1; }
  int nops() override { return SZ.size() * (1 + faults) + MAXLIVE * np() + 1; }
  bool enabled(int o) override { if (o < (int)SZ.size()) return m.v.size() < MAXLIVE; o -= SZ.size(); if (o < (int)SZ.size() * faults) return m.v.size() < MAXLIVE && !fits(lists(), SZ[o % SZ.size()]); o -= SZ.size() * faults; if (o == (int)MAXLIVE * np()) return modes; size_t i = o / np(); return i < m.v.size() && (o % np() == 0 || m.v[i].n >= (o % np() == 3 ? 16384u : 8192u)); }
  void apply(int o) override { if (o < (int)SZ.size()) { alloc(m, SZ[o]); return; } o -= SZ.size(); if (o < (int)SZ.size() * faults) { alloc(m, SZ[o % SZ.size()], o / SZ.size()); return; } o -= SZ.size() * faults; if (o == (int)MAXLIVE * np()) { m.compact = !m.compact; RUN("changing the in-use list's mode"); if (m.compact) setSASCompactUseList(); else setSASLinearUseList(); return; } release(m, o / np(), o % np()); }
  std::string name(int o) override { if (o < (int)SZ.size()) return strf("alloc %#lx", SZ[o]); o -= SZ.size(); if (o < (int)SZ.size() * faults) return strf("alloc %#lx, call %lu fails", SZ[o % SZ.size()], o / SZ.size()); o -= SZ.size() * faults; if (o == (int)MAXLIVE * np()) return "mode"; return strf("free #%d part %d", o / np(), o % np()); }
  uint64_t mhash() override { U h = m.compact; for (auto &b : m.v) h = mix(mix(h, (U)b.p), b.n); for (auto &f : vfs.files) h = mix(h, f.second + f.first[f.first.size() - 5]); return h; }
  void check() override { state(m); }
  void save() override { m.files = vfs.files; SeqSysT<M>::save(); }
  void restore() override { SeqSysT<M>::restore(); vfs.files = m.files; }
};
static const int NSEG = 26;
static void setup(bool compact) {
  M1 = opts.prop != "M02"; M2 = opts.prop != "M01"; vfs_arena((void *)__SAS_BASE_ADDRESS, SEG * NSEG); ideal_locks(); join_region(); LO = getMemLow(); install_handlers(); watchdog(20); crash_sig = "crash";
  if (!compact) setSASLinearUseList(); RUN("the first join"); M m; state(m);
}
static void explore(M m, int depth) { track_region(); Sys s; s.m = m; s.m.files = vfs.files; s.check(); SeqOpts o; o.depth = depth; seq_explore(s, o); }
static const U K = 1024, MB = 1 << 20;
static int D(int q, int t) { return opts.thorough ? t : q; }
#ifndef R_NOCONFIG
MC_CONFIG(r1, "blocks/compact", 1, 1) { setup(true); SZ = {4 * K, 8 * K, 64 * K, 128 * MB}; explore(M(), D(7, 10)); }
MC_CONFIG(r2, "blocks/linear", 1, 1) { setup(false); SZ = {4 * K, 16 * K, MB, 64 * MB}; M m; m.compact = false; explore(m, D(7, 10)); }
MC_CONFIG(r3, "blocks/parts", 1, 1) { setup(true); SZ = {8 * K, 32 * K}; parts = true; explore(M(), D(6, 9)); }
MC_CONFIG(r4, "blocks/parts-linear", 1, 1) { setup(false); SZ = {8 * K, 32 * K}; parts = true; M m; m.compact = false; explore(m, D(6, 9)); }
MC_CONFIG(r5, "blocks/modes", 1, 1) { setup(true); SZ = {4 * K, 32 * K}; modes = true; MAXLIVE = 5; explore(M(), D(9, 12)); }
// past 4 GiB: with segments on both sides of the boundary live or free
static void far(bool compact, int held, std::vector<U> z, int depth) { setup(compact); M m; m.compact = compact; for (int i = 0; i < 21; i++) alloc(m, SEG); state(m); std::vector<Blk> keep; while ((int)m.v.size() > held) release(m, compact ? m.v.size() - 1 : m.v.size() / 2); state(m);
  SZ = z; MAXLIVE = held + 5; explore(m, depth); }
MC_CONFIG(f1, "far/free", 1, 1) { far(true, 0, {4 * K, MB, 128 * MB, SEG}, D(7, 9)); }
MC_CONFIG(f2, "far/above-4g", 1, 1) { far(true, 16, {4 * K, 64 * K, SEG}, D(4, 6)); }
MC_CONFIG(f3, "far/linear", 1, 1) { far(false, 3, {4 * K, 8 * K, 128 * MB}, D(6, 8)); }
MC_CONFIG(f4, "far/one-by-one", 1, 1) {   // every segment up to past 6 GiB is created by small requests, then used and freed
  setup(true); track_region(); track_push(); M m; for (int i = 0; i < 23; i++) { alloc(m, 128 * MB); alloc(m, 64 * MB); alloc(m, 32 * MB); alloc(m, 4 * K); alloc(m, 4 * K); alloc(m, 16 * MB); state(m); st.states++; st.transitions += 6; }
  for (int order = 0; order < 4; order++) { track_push(); auto files = vfs.files; M k = m; U s = 12345; while (!k.v.empty()) { s = s * 6364136223846793005ul + 1442695040888963407ul; size_t i = order == 0 ? 0 : order == 1 ? k.v.size() - 1 : order == 2 ? k.v.size() / 2 : (s >> 33) % k.v.size(); release(k, i); st.transitions++; if (k.v.size() % 8 == 0) { state(k); st.states++; } } state(k);
    for (int i = 0; i < 20; i++) { size_t nf = vfs.files.size(); alloc(k, 128 * MB); if (M2) MC_CHECK(vfs.files.size() == nf, "not-reused", "%s takes a new segment though everything is free", g_at.c_str()); } state(k); vfs.files = files; track_pop(); }
  track_pop();
}
// segment creation under every failure of every system call, and retries
MC_CONFIG(c1, "create/faults", 1, 1) { setup(true); SZ = {256 * MB, 128 * MB}; faults = 8; MAXLIVE = 5; explore(M(), D(7, 9)); }
MC_CONFIG(c2, "create/faults-linear", 1, 1) { setup(false); SZ = {256 * MB, 4 * K, 128 * MB}; faults = 8; MAXLIVE = 5; M m; m.compact = false; explore(m, D(6, 8)); }
// every order of freeing a set of blocks
static void orders(bool compact, std::vector<U> z) { setup(compact); M m; m.compact = compact; for (U n : z) alloc(m, n); track_region(); SZ.clear(); MAXLIVE = z.size(); Sys s; s.m = m; s.m.files = vfs.files; s.check(); SeqOpts o; o.depth = z.size(); seq_explore(s, o); }
MC_CONFIG(o1, "orders/compact", 1, 1) { orders(true, {4 * K, 4 * K, 8 * K, 4 * K, 32 * K, 16 * K, 4 * K, 64 * K}); }
MC_CONFIG(o2, "orders/linear", 1, 1) { orders(false, {4 * K, 4 * K, 8 * K, 4 * K, 32 * K, 16 * K, 4 * K, 64 * K}); }
MC_CONFIG(o3, "orders/large", 1, 1) { orders(true, {SEG / 2, SEG / 4, SEG, SEG / 2, SEG / 2, SEG, 4 * K}); }
// every set of free pages of a 64K block
static void patterns(bool compact, int pages) {
  setup(compact); track_region(); track_push(); M m; m.compact = compact; char *b = raw_alloc(128 * K); RUN("preparing"); guarded([&] { SASBlockDealloc(b, 128 * K); }); for (int i = 0; i < pages; i++) alloc(m, 4 * K); state(m);
  for (U set = 0; set < 1ul << pages; set++) for (int dir = 0; dir < 2; dir++) { track_push(); M k = m; for (int j = 0; j < pages; j++) { int i = dir ? pages - 1 - j : (j * 5) % pages; if (set >> i & 1) { for (size_t x = 0; x < k.v.size(); x++) if (k.v[x].p == m.v[i].p) { release(k, x); break; } } } RUN(strf("freeing the pages %#lx of %d", set, pages)); state(k);
    alloc(k, 8 * K); alloc(k, 4 * K); alloc(k, 16 * K); state(k); st.transitions += pages; st.states++; track_pop(); }
  track_pop(); }
MC_CONFIG(t1, "patterns/compact", 1, 1) { patterns(true, D(10, 16)); }
MC_CONFIG(t2, "patterns/linear", 1, 1) { patterns(false, D(10, 16)); }
// every size
MC_CONFIG(z1, "sizes", 1, 1) {
  setup(true); track_region(); track_push(); M m; std::vector<U> z; for (U n = 0; n <= 70000; n += (n < 20000 || n % 4096 < 3 || n % 4096 > 4093) ? 1 : 13) z.push_back(n); for (int b = 16; b < 64; b++) for (long d : {-4096L, -1L, 0L, 1L, 4096L}) z.push_back((1ul << b) + d); z.push_back(~0ul);
  for (U n : z) { track_push(); auto files = vfs.files; M k = m; st.states++; st.transitions++; bool ok = n && !(n & (n - 1)) && n <= SEG; if (n >= 4 * K && ok) { alloc(k, n); state(k); release(k, 0); state(k); }
    else { RUN(strf("allocating a block of %lu bytes", n)); Lists l0 = lists(); char *p = raw_alloc(n); if (p) { Lists l1 = lists(); U got = 0; for (auto &x : l1.used) got += x.second - x.first; for (auto &x : l0.used) got -= x.second - x.first; MC_CHECK(got >= n, "short", "%s returned %s with only %lu bytes", g_at.c_str(), rel((U)p).c_str(), got); k.v.push_back({p, got}); mark(p, got, 0); state(k); if (ok) { guarded([&] { SASBlockDealloc(p, n); }); k.v.clear(); state(k); } } else { MC_CHECK(!ok || n < 256, "refused", "%s was refused", g_at.c_str()); MC_CHECK(lists() == l0, "refusal-changed", "%s was refused but changed the region", g_at.c_str()); } }
    vfs.files = files; track_pop(); }
  track_pop();
}
// as many scattered blocks as the anchor can account for
MC_CONFIG(a1, "anchor", 1, 1) {
  setup(true); if (opts.prop != "M01") return; crash_sig = "anchor-exhausted"; M m; track_region(); track_push(); int N = 65536 - 256 - 8; bool ok = true; std::vector<char *> b; RUN("allocating and freeing scattered pages of 4096 bytes");
  for (int i = 0; i < N && ok; i++) { ok = guarded([&] { b.push_back((char *)SASBlockAlloc(4096)); }); st.transitions++; if (i % 256 == 0) heartbeat(); }
  for (size_t i = 0; i < b.size() && ok; i += 2) { ok = guarded([&] { SASBlockDealloc(b[i], 4096); }); st.transitions++; if (i % 256 == 0) heartbeat(); } st.states = 1; if (ok) { M k; for (size_t i = 1; i < b.size(); i += 2) if (b[i]) k.v.push_back({b[i], 4096}); M1 = false; state(k); } track_pop();
}
#endif
