// M05-M08: the simple heap, the compound heap, the simple stack and the simple space, each against an exact model of what it has handed out,
// through every bounded history of operations, plus every size and every address around every boundary.
#include "mc.h"
#include <string.h>
#include <algorithm>
#include <errno.h>
#include <sys/mman.h>
extern "C" {
#include "sasalloc.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sphsinglepcqueue.h"
#include "sasmsync.h"
#include "sassim.h"
}
using namespace mc;
typedef unsigned long U;
static inline U up(U n, U a) { return (n + a - 1) / a * a; }
static inline unsigned char pat(const char *p) { U x = (U)p * 0x9e3779b97f4a7c15ull; return (unsigned char)(x >> 56) | 1; }
static const U BIG = 1 << 18;     // of larger pieces only the two ends are followed
static void fill(char *p, U n) { if (n > BIG) { fill(p, BIG / 4); fill(p + n - BIG / 4, BIG / 4); return; } for (U i = 0; i < n; i++) p[i] = pat(p + i); }
static bool intact(char *p, U n) { if (n > BIG) return intact(p, BIG / 4) && intact(p + n - BIG / 4, BIG / 4); for (U i = 0; i < n; i++) if ((unsigned char)p[i] != pat(p + i)) return false; return true; }
struct Obj { char *p; U n, ext; bool operator<(const Obj &o) const { return p < o.p; } };
struct Live { std::vector<Obj> v; U mh() const { U h = 7; for (auto &o : v) h = mix(mix(h, (U)o.p), o.n); return h; } };
// ---- the region's own books: byte ranges in use ----
typedef std::vector<std::pair<U, U>> Iv;
static Iv merged(Iv a) { std::sort(a.begin(), a.end()); Iv r; for (auto &x : a) if (!r.empty() && r.back().second == x.first) r.back().second = x.second; else r.push_back(x); return r; }
static Iv listing(void (*f)(void **, U *, int *)) { static void *a[8192]; static U n[8192]; int c = 0; f(a, n, &c); Iv r; for (int i = 0; i < c; i++) r.push_back({(U)a[i], (U)a[i] + n[i]}); return merged(r); }
static Iv used() { return listing(SASListInUseMem); }
static Iv freemem() { return listing(SASListFreeMem); }
static U total(const Iv &v) { U t = 0; for (auto &x : v) t += x.second - x.first; return t; }
static bool covers(const Iv &v, U a, U b) { for (auto &x : v) if (x.first <= a && b <= x.second) return true; return false; }
static bool meets(const Iv &v, U a, U b) { for (auto &x : v) if (x.first < b && a < x.second) return true; return false; }
static std::string show(const Iv &v) { std::string s; for (auto &x : v) s += strf(" %lx-%lx", x.first, x.second); return s; }
static void setup(bool dirty) {
  join_region(); ideal_locks(11); install_handlers(); watchdog(20);
  if (dirty) { char *b = (char *)SASBlockAlloc(4 << 20); for (U i = 0; i < 16; i++) fill(b + (i << 18), 1 << 18); SASBlockDealloc(b, 4 << 20); SASBlockAlloc(8192); }   // later blocks are carved from a used one
}
#define RUN(what) do { g_at = (what); where = g_at; heartbeat(); } while (0)
static std::string g_at;

// =====================================================================  M05
#ifdef HM05
namespace m05 {
static char *H; static U HS, CAP; static int variants;
static U sumext(const Live &m) { U s = 0; for (auto &o : m.v) s += o.ext; return s; }
static U maxgap(Live m) { std::sort(m.v.begin(), m.v.end()); U at = (U)H + heap_offset, g = 0; for (auto &o : m.v) { g = std::max(g, (U)o.p - at); at = (U)o.p + o.ext; } return std::max(g, (U)H + HS - at); }
static const char *AV[] = {"Alloc", "AllocNoLock", "NearAlloc(heap)", "NearAlloc(live)", "SASNearAlloc", "NearAllocNoLock", "SASSOMHeapAlloc"};
static const char *FV[] = {"Free", "FreeNoLock", "NearDealloc", "SASNearDealloc", "NearDeallocNoLock", "SASSOMHeapDealloc"};
static char *do_alloc(const Live &m, int v, U n) {
  char *near = m.v.empty() ? H + HS - 1 : m.v.back().p + (m.v.back().n ? m.v.back().n - 1 : 0);
  switch (v) { case 0: return (char *)SASSimpleHeapAlloc(H, n); case 1: return (char *)SASSimpleHeapAllocNoLock(H, n); case 2: return (char *)SASSimpleHeapNearAlloc(H, n); case 3: return (char *)SASSimpleHeapNearAlloc(near, n); case 4: return (char *)SASNearAlloc(near, n); case 6: return (char *)SASSOMHeapAlloc((SASBlockHeader *)H, n); default: return (char *)SASSimpleHeapNearAllocNoLock(near, n); } }
static int do_free(int v, void *p, U n) { switch (v) { case 0: return SASSimpleHeapFree(H, p, n); case 1: return SASSimpleHeapFreeNoLock(H, p, n); case 2: SASSimpleHeapNearDealloc(p, n); return 0; case 3: SASNearDealloc(p, n); return 0; case 5: SASSOMHeapDealloc((SASBlockHeader *)H, p, n); return 0; default: SASSimpleHeapNearDeallocNoLock(p, n); return 0; } }
static void state(const Live &m) {
  U fs = SASSimpleHeapFreeSpace(H), f2 = SASSimpleHeapFreeSpaceNoLock(H), want = CAP - sumext(m);
  MC_CHECK(fs == want && f2 == want, "space", "after %s: free space is %lu (%lu without the lock), should be %lu", g_at.c_str(), fs, f2, want);
  int e = SASSimpleHeapEmpty(H), e2 = SASSimpleHeapEmptyNoLock(H); MC_CHECK(!e == !m.v.empty() && !e2 == !m.v.empty(), "empty", "after %s: Empty says %d (%d), %zu allocations live", g_at.c_str(), e, e2, m.v.size());
  for (auto &o : m.v) MC_CHECK(intact(o.p, o.n), "clobbered", "after %s: the %lu bytes at heap+%ld were changed by the heap", g_at.c_str(), o.n, o.p - H);
}
static void alloc(Live &m, int v, U n) {
  U g = maxgap(m), r = n > ~0ul - 16 ? ~0ul : up(n, 16), f0 = SASSimpleHeapFreeSpace(H); RUN(strf("%s of %lu bytes", AV[v], n));
  track_push(); uint64_t h0 = track_hash(); track_pop(); char *p = nullptr; guarded([&] { p = do_alloc(m, v, n); });
  if (!p) { MC_CHECK(n == 0 || r > g, "refused", "%s was refused though %lu contiguous bytes are free", g_at.c_str(), g); MC_CHECK(track_hash() == h0, "refusal-changed", "%s was refused but changed the heap", g_at.c_str()); return; }
  MC_CHECK(n == 0 || r <= g, "granted", "%s returned heap+%ld though only %lu contiguous bytes are free", g_at.c_str(), p - H, g);
  U ext = n ? r : f0 - SASSimpleHeapFreeSpace(H); MC_CHECK(n || ext == 16, "zero", "a request for no bytes was granted at heap+%ld and took %lu bytes", p - H, ext);
  MC_CHECK((U)p % 16 == 0, "align", "%s returned heap+%ld, not aligned", g_at.c_str(), p - H);
  MC_CHECK(p >= H + heap_offset && p + ext <= H + HS, "bounds", "%s returned heap+%ld of a %lu byte heap", g_at.c_str(), p - H, HS);
  for (auto &o : m.v) MC_CHECK(p + ext <= o.p || p >= o.p + o.ext, "overlap", "%s returned heap+%ld, overlapping the %lu live bytes at heap+%ld", g_at.c_str(), p - H, o.n, o.p - H);
  fill(p, n); m.v.push_back({p, n, ext});
}
static void release(Live &m, int v, size_t i) { RUN(strf("%s of %lu bytes at heap+%ld", FV[v], m.v[i].n, m.v[i].p - H)); int rc = -9; guarded([&] { rc = do_free(v, m.v[i].p, m.v[i].n); }); MC_CHECK(rc == 0, "free-refused", "%s returned %d", g_at.c_str(), rc); m.v.erase(m.v.begin() + i); }
// everything freed, in every order: the heap is empty and can be allocated as one piece
static void drain(const Live &m0) {
  std::vector<int> ord; for (size_t i = 0; i < m0.v.size(); i++) ord.push_back(i); int cnt = 0;
  do { track_push(); Live m = m0; std::string what; for (int i : ord) { what += strf(" heap+%ld", m0.v[i].p - H); size_t j = 0; while (m.v[j].p != m0.v[i].p) j++; release(m, cnt % variants, j); state(m); }
    RUN("freeing everything, in order:" + what); U c = SASSimpleHeapFreeSpace(H); MC_CHECK(c == CAP, "leak", "after %s: free space is %lu of %lu", g_at.c_str(), c, CAP);
    char *p = (char *)SASSimpleHeapAlloc(H, CAP); MC_CHECK(p == H + heap_offset, "not-whole", "after %s: the whole space of %lu bytes cannot be allocated as one piece", g_at.c_str(), CAP); if (p) { fill(p, CAP); Live w; w.v.push_back({p, CAP, CAP}); state(w); release(w, cnt % variants, 0); state(w); }
    st.transitions += m0.v.size() + 2; track_pop(); if (++cnt >= 24) break; } while (std::next_permutation(ord.begin(), ord.end()));
}
static std::vector<U> SZ; static std::set<U> drained; static size_t MAXLIVE = 6;
struct Sys : SeqSysT<Live> {
  int nv = 6, nf = 5;
  int nops() override { return SZ.size() * nv + MAXLIVE * nf; }
  bool enabled(int o) override { if (o < (int)SZ.size() * nv) return m.v.size() < MAXLIVE; return (size_t)(o - SZ.size() * nv) / nf < m.v.size(); }
  void apply(int o) override { if (o < (int)SZ.size() * nv) alloc(m, o % nv, SZ[o / nv]); else { o -= SZ.size() * nv; release(m, o % nf, o / nf); } }
  std::string name(int o) override { if (o < (int)SZ.size() * nv) return strf("%s %lu", AV[o % nv], SZ[o / nv]); o -= SZ.size() * nv; return strf("%s #%d", FV[o % nf], o / nf); }
  uint64_t mhash() override { return m.mh(); }
  void check() override { state(m); if (drained.insert(mix(m.mh(), track_hash())).second) drain(m); }
};
static void make(U size, int how) {
  if (how == 2) { char *b = (char *)SASBlockAlloc(size * 2); H = (char *)SASSimpleHeapInit(b + size, SAS_RUNTIME_SIMPLEHEAP, size); } else H = (char *)SASSimpleHeapCreate(size);
  if (!H) { violation("setup", "no heap of %lu bytes", size); return; } HS = size; CAP = size - heap_offset; ideal_lock_touch(H);
}
static void hist(U size, int how, bool dirty, std::vector<U> sizes, int depth) {
  setup(dirty); make(size, how); track_region(); SZ = sizes; variants = 5; Sys s; SeqOpts o; o.depth = depth; seq_explore(s, o); }
MC_CONFIG(h1, "heap/thirds", 1, 1) { hist(4096, 0, false, {0, 1, 656, 1328, 3967}, opts.thorough ? 10 : 7); }
MC_CONFIG(h2, "heap/halves-dirty", 1, 1) { hist(4096, 0, true, {16, 17, 1984, 1985, 3968}, opts.thorough ? 10 : 7); }
MC_CONFIG(h3, "heap/initialised-512", 1, 1) { hist(512, 2, true, {16, 32, 48, 336, 384}, opts.thorough ? 10 : 7); }
MC_CONFIG(h4, "heap/64k", 1, 1) { hist(65536, 0, true, {15, 8000, 30000, 65408, ~0ul}, opts.thorough ? 8 : 5); }
// every request size, in a fresh and in a fragmented heap
MC_CONFIG(h5, "heap/sizes", 1, 1) {
  setup(true); make(4096, 0); track_region(); track_push(); variants = 5; std::vector<U> z; for (U n = 0; n <= 4200; n++) z.push_back(n); for (int b = 12; b < 64; b++) for (long d = -17; d <= 17; d++) z.push_back((1ul << b) + d); for (U d = 0; d < 200; d++) { z.push_back(~0ul - d); z.push_back(~0ul - 4096 - d); }
  for (int frag = 0; frag < 3; frag++) { track_push(); Live m; if (frag) { alloc(m, 0, 640); alloc(m, 0, 640); alloc(m, 0, 640); release(m, 0, frag - 1); }
    for (U n : z) for (int v = 0; v < 7; v++) { if (v >= 2 && (long)n < 0) continue; track_push(); Live k = m; alloc(k, v, n); state(k); if (k.v.size() > m.v.size()) { release(k, v == 6 ? 5 : n % 5, k.v.size() - 1); state(k); } st.transitions += 2; st.evaluations++; track_pop(); } track_pop(); }
  st.states = z.size() * 3; track_pop();
}
// a range outside the heap cannot be freed
MC_CONFIG(h6, "heap/outside", 1, 1) {
  setup(true); char *blk = (char *)SASBlockAlloc(16384); fill(blk, 16384); H = (char *)SASSimpleHeapInit(blk + 4096, SAS_RUNTIME_SIMPLEHEAP, 4096); HS = 4096; CAP = HS - heap_offset; ideal_lock_touch(H); track_region(); track_push(); Live m; alloc(m, 0, 512); alloc(m, 0, 512); alloc(m, 0, CAP - 1024);
  for (int full = 0; full < 3; full++) { track_push(); Live k = m; if (full == 1) release(k, 0, 1); if (full == 2) release(k, 0, 2);
    std::vector<long> at; for (long d = -128; d <= 256; d += 16) at.push_back(d), at.push_back(HS + d); at.push_back(2048); at.push_back(4000);
    for (long d : at) for (U n : {(U)1, (U)16, (U)17, (U)128, (U)512, CAP - 16, CAP - 1, CAP, CAP + 1, HS, HS * 2, (U)1 << 32, (U)1 << 63, ~0ul - 4096, ~0ul - 16, ~0ul - 15, ~0ul}) {
      char *p = H + d; U r = n > ~0ul - 16 ? ~0ul : up(n, 16); if (d >= heap_offset && d < (long)HS && r <= HS - d) continue;
      for (int v = 0; v < 5; v++) { if (v >= 2 && (d < 0 || d >= (long)HS)) continue; if (v == 3) continue; track_push(); RUN(strf("%s of %lu bytes at heap+%ld", FV[v], n, d)); uint64_t h0 = track_hash(); int rc = -9; guarded([&] { rc = do_free(v, p, n); });
        if (v < 2) MC_CHECK(rc != 0, "outside-accepted", "%s reported success", g_at.c_str()); MC_CHECK(track_hash() == h0, "outside-changed", "%s changed the heap or its surroundings", g_at.c_str()); st.transitions++; st.evaluations++; track_pop(); } }
    track_pop(); }
  st.states = 3; track_pop();
}
// every size a heap can have
MC_CONFIG(h7, "heap/created", 1, 1) {
  setup(false); track_region(); track_push();
  for (int l = 12; l <= 24; l++) { track_push(); U u0 = total(used()), f0 = total(freemem()); make(1ul << l, 0); Live m; state(m); alloc(m, 0, CAP); state(m); release(m, 0, 0); state(m); RUN(strf("destroying a heap of %lu bytes", HS)); MC_CHECK(SASSimpleHeapDestroy(H) == 0, "destroy", "destroy failed"); MC_CHECK(total(used()) == u0 && total(freemem()) >= f0, "leak-block", "%s does not return its block", g_at.c_str()); st.states++; st.transitions += 4; track_pop(); }
  track_pop();
}
}
#endif
// =====================================================================  M06
#ifdef HM06
namespace m06 {
static char *H; static U HS, PG, HDR; static bool expanding; static int load; static Iv U0, F0; static bool queues; static int grow0;
struct Sub { char *p; bool q; bool operator<(const Sub &o) const { return p < o.p; } };
struct M { std::vector<Sub> v; int blocks = 1; };
static size_t MAXLIVE = 6;
static const char *AV[] = {"Alloc", "AllocNoLock", "NearAlloc(heap)", "NearAllocNoLock(live)", "NearAlloc(live)"};
static const char *FV[] = {"Free", "FreeNoLock", "NearDealloc", "NearDeallocNoLock(inside)"};
static char *do_alloc(const M &m, bool q, int v) {
  char *near = m.v.empty() ? H + 64 : m.v.back().p + (m.v.back().q ? 16 : 200);
  if (q) switch (v) { case 0: return (char *)SPHCompoundPCQAlloc(H); case 1: return (char *)SPHCompoundPCQAllocNoLock(H); case 2: return (char *)SPHCompoundPCQNearAlloc(H); case 3: return (char *)SPHCompoundPCQNearAllocNoLock(near); default: return (char *)SPHCompoundPCQNearAlloc(near); }
  switch (v) { case 0: return (char *)SASCompoundHeapAlloc(H); case 1: return (char *)SASCompoundHeapAllocNoLock(H); case 2: return (char *)SASCompoundHeapNearAlloc(H); case 3: return (char *)SASCompoundHeapNearAllocNoLock(near); default: return (char *)SASCompoundHeapNearAlloc(near); } }
static bool may_refuse;
static int owned() { return (int)((total(used()) - total(U0)) / HS); }
static Iv mine() { Iv r, u = used(); for (auto x : u) { U a = x.first; for (auto &y : U0) { if (y.second <= a || y.first >= x.second) continue; if (y.first > a) r.push_back({a, y.first}); a = std::max(a, y.second); } if (a < x.second) r.push_back({a, x.second}); } return merged(r); }
static U perblock() { return (HS - HDR) / PG; }
static void state(const M &m) {
  U want = (U)m.blocks * (HS - HDR) - m.v.size() * PG, f = SASCompoundHeapFreeSpace(H), f2 = SASCompoundHeapFreeSpaceNoLock(H), a = SASCompoundHeapAllocSpace(H);
  MC_CHECK(f == want && f2 == want, "space", "after %s: free space is %lu (%lu), should be %lu (%d blocks, %zu sub-heaps live)", g_at.c_str(), f, f2, want, m.blocks, m.v.size());
  MC_CHECK(a == (U)m.blocks * HS, "allocspace", "after %s: allocated space is %lu, should be %lu", g_at.c_str(), a, (U)m.blocks * HS);
  MC_CHECK(owned() == m.blocks || m.blocks > 250, "blocks", "after %s: %d blocks are in use for a heap that has %d", g_at.c_str(), owned(), m.blocks);
  MC_CHECK(SASCompoundHeapAllocSize(H) == PG, "pagesize", "page size reported as %lu", SASCompoundHeapAllocSize(H));
  for (auto &s : m.v) MC_CHECK(intact(s.p + heap_offset + 640, PG - heap_offset - 640), "clobbered", "after %s: the contents of the sub-heap at %p changed", g_at.c_str(), (void *)s.p);
  for (auto &s : m.v) if (!s.q) { U sf = SASSimpleHeapFreeSpaceNoLock(s.p); MC_CHECK(sf == 0, "subheap", "after %s: the full sub-heap at %p reports %lu bytes free", g_at.c_str(), (void *)s.p, sf); }
}
static void use(char *p, bool q) {      // the sub-heap is ready for use, and its whole page is the owner's
  if (!q) { U c = SASSimpleHeapFreeSpace(p); MC_CHECK(c == PG - heap_offset, "unready", "a new sub-heap has %lu bytes free, not %lu", c, PG - heap_offset); char *x = (char *)SASSimpleHeapAlloc(p, PG - heap_offset); MC_CHECK(x == p + heap_offset, "unready", "a new sub-heap does not give its space"); }
  else { SPHSinglePCQueue_t sq = (SPHSinglePCQueue_t)p; MC_CHECK(SPHSinglePCQueueEmpty(sq) == 1, "unready", "a new queue is not empty"); SPHLFEntryHandle_t e, *h = SPHSinglePCQueueAllocStrideEntry(sq, 1, 2, &e); MC_CHECK(h != nullptr, "unready", "a new queue does not take an entry"); MC_CHECK(!h || ((char *)e.entry >= p + heap_offset && (char *)e.entry + 128 <= p + PG), "queue-bounds", "a queue's entry is outside its page"); }
  fill(p + heap_offset + 640, PG - heap_offset - 640);
}
static void alloc(M &m, bool q, int v) {
  RUN(strf("%s%s", q ? "PCQ" : "", AV[v])); bool room = m.v.size() < (U)m.blocks * perblock(), compoundable = PG < HS; char *p = nullptr; U f0 = total(freemem()); (void)f0; uint64_t h0 = track_hash(); guarded([&] { p = do_alloc(m, q, v); });
  int nb = owned(); if (m.blocks > 250 && nb > m.blocks) nb = (int)(SASCompoundHeapAllocSpace(H) / HS);
  if (!p) { MC_CHECK(!compoundable || (!expanding && !room) || may_refuse, "refused", "%s was refused with %zu of %lu pages in use", g_at.c_str(), m.v.size(), m.blocks * perblock()); MC_CHECK(track_hash() == h0 || may_refuse, "refusal-changed", "%s was refused but changed the heap", g_at.c_str()); return; }
  MC_CHECK(nb == m.blocks || (expanding && nb == m.blocks + 1), "grew", "%s took the heap from %d to %d blocks", g_at.c_str(), m.blocks, nb);
  MC_CHECK(room || nb == m.blocks + 1, "granted", "%s returned %p though every page is in use", g_at.c_str(), (void *)p); m.blocks = nb;
  MC_CHECK((U)p % PG == 0, "align", "%s returned %p, not aligned to the page size %lu", g_at.c_str(), (void *)p, PG);
  MC_CHECK(covers(mine(), (U)p, (U)p + PG), "not-owned", "%s returned %p, outside the heap's blocks%s", g_at.c_str(), (void *)p, show(mine()).c_str());
  MC_CHECK((U)p % HS >= HDR && (U)p % HS + PG <= HS, "header", "%s returned %p, in a block's header", g_at.c_str(), (void *)p);
  for (auto &s : m.v) MC_CHECK(p + PG <= s.p || s.p + PG <= p, "overlap", "%s returned %p, overlapping the live one at %p", g_at.c_str(), (void *)p, (void *)s.p);
  use(p, q); m.v.push_back({p, q});
}
static void release(M &m, int v, size_t i) {
  char *p = m.v[i].p; bool q = m.v[i].q; if (q) v &= 1; RUN(strf("%s%s of the one at %p", q ? "PCQ" : "", FV[v], (void *)p));
  guarded([&] { if (q) { if (v == 0) SPHCompoundPCQFree(H, (SPHSinglePCQueue_t)p); else SPHCompoundPCQFreeNoLock(H, (SPHSinglePCQueue_t)p); } else switch (v) { case 0: SASCompoundHeapFree(H, p); break; case 1: SASCompoundHeapFreeNoLock(H, p); break; case 2: SASCompoundHeapNearDealloc(p); break; default: SASCompoundHeapNearDeallocNoLock(p + PG - 1); } });
  m.v.erase(m.v.begin() + i);
}
static void expand(M &m) { RUN("ExpandCreate"); void *n = nullptr; guarded([&] { n = SASCompoundHeapExpandCreate(H); }); int nb = owned(); MC_CHECK(n && nb == m.blocks + 1, "expand", "forcing an expansion returned %p and took the heap from %d to %d blocks", n, m.blocks, nb); m.blocks = nb; }
static void destroy(const M &m, bool nolock) {
  track_push(); RUN(strf("destroying the heap of %d blocks with %zu sub-heaps live", m.blocks, m.v.size())); guarded([&] { if (nolock) SASCompoundHeapDestroyNoLock(H); else SASCompoundHeapDestroy(H); });
  Iv u = used(); MC_CHECK(u == U0, "leak-block", "after %s the region has in use%s, before its creation%s", g_at.c_str(), show(u).c_str(), show(U0).c_str()); track_pop(); st.transitions++; }
static void drain(const M &m0) {
  std::vector<int> ord; for (size_t i = 0; i < m0.v.size(); i++) ord.push_back(i); int cnt = 0;
  do { track_push(); M m = m0; for (int i : ord) { size_t j = 0; while (m.v[j].p != m0.v[i].p) j++; release(m, cnt % 4, j); state(m); } size_t all = m.blocks * perblock(); int b0 = m.blocks;
    if (load == 100) { for (size_t i = 0; i < all && i < 64; i++) alloc(m, queues && (i & 1), cnt % 2); state(m); MC_CHECK(m.blocks == b0, "not-recycled", "after every sub-heap was freed, filling the heap's %zu pages took a further block", all); }
    st.transitions += m0.v.size() + all; track_pop(); if (++cnt >= 6) break; } while (std::next_permutation(ord.begin(), ord.end()));
}
static std::set<U> drained;
#ifdef HM12
static void sync_all(const M &);
#define EACH_STATE(m) sync_all(m)
#else
#define EACH_STATE(m) (drain(m), destroy(m, m.v.size() & 1))
#endif
struct Sys : SeqSysT<M> {
  int nv = 5, nf = 4;
  int na() { return nv * (queues ? 2 : 1); }
  int nops() override { return na() + MAXLIVE * nf + 1; }
  bool enabled(int o) override { if (o < na()) return m.v.size() < MAXLIVE; o -= na(); if ((size_t)o == MAXLIVE * nf) return expanding && m.blocks < 4; return (size_t)(o / nf) < m.v.size() && (!m.v[o / nf].q || o % nf < 2); }
  void apply(int o) override { if (o < na()) alloc(m, o >= nv, o % nv); else { o -= na(); if ((size_t)o == MAXLIVE * nf) expand(m); else release(m, o % nf, o / nf); } }
  std::string name(int o) override { if (o < na()) return strf("%s%s", o >= nv ? "PCQ" : "", AV[o % nv]); o -= na(); if ((size_t)o == MAXLIVE * nf) return "ExpandCreate"; return strf("%s #%d", FV[o % nf], o / nf); }
  uint64_t mhash() override { U h = m.blocks; for (auto &s : m.v) h = mix(h, (U)s.p + s.q); return h; }
  void check() override { state(m); if (drained.insert(mix(mhash(), track_hash())).second) { EACH_STATE(m); } }
};
static void make(U size, U page, bool exp, int ld) {
  HS = size; PG = page; HDR = std::max(page, (U)default_page); expanding = exp; load = exp ? ld : 100; U0 = used(); F0 = freemem();
  H = (char *)(exp ? page == default_page ? SASCompoundHeapCreate(size) : SASCompoundHeapCreatePageSize(size, page) : SASCompoundFixedHeapCreate(size)); if (!H) { violation("setup", "no compound heap of %lu bytes", size); return; } ideal_lock_touch(H);
  if (exp) { SASCompoundHeapSetLoadFactor((SASCompoundHeap_t *)H, ld); MC_CHECK(SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)H) == ld, "load", "the load factor reads back as %d, not %d", SASCompoundHeapGetLoadFactor((SASCompoundHeap_t *)H), ld); }
}
static void hist(U size, U page, bool exp, int ld, bool q, bool dirty, size_t live, int depth) { setup(dirty); track_region(); track_push(); make(size, page, exp, ld); MAXLIVE = live; queues = q; Sys s; SeqOpts o; o.depth = depth; seq_explore(s, o); track_pop(); }
#ifdef HM12
#include "H12.inc"
#else
MC_CONFIG(c1, "compound/expanding-16k", 1, 1) { hist(16384, 4096, true, 100, false, true, 7, opts.thorough ? 11 : 8); }
MC_CONFIG(c2, "compound/expanding-75", 1, 1) { hist(16384, 4096, true, 75, true, true, 5, opts.thorough ? 8 : 5); }
MC_CONFIG(c3, "compound/fixed-16k", 1, 1) { hist(16384, 4096, false, 100, true, true, 5, opts.thorough ? 9 : 6); }
MC_CONFIG(c4, "compound/pages-1k", 1, 1) { hist(8192, 1024, true, 100, false, true, 6, opts.thorough ? 10 : 7); }
MC_CONFIG(c5, "compound/queues-8k-pages", 1, 1) { hist(32768, 8192, true, 100, true, true, 5, opts.thorough ? 8 : 5); }
MC_CONFIG(c6, "compound/load-0", 1, 1) { hist(16384, 4096, true, 0, false, false, 4, opts.thorough ? 8 : 6); }
// expansion past the built-in list of blocks, to the end of the extended one (which takes what a block less its header page
// holds: two words and a word for each block), and back; somebody else's block follows each of the heap's
static U listed() { return (HS - default_page) / 8 - 2; }
static void longrun(U size, U page, int past, int step) {
  setup(true); std::vector<char *> guard; U nblocks = (size - default_page) / 8 + 20; { std::vector<char *> hole; for (U i = 0; i < nblocks; i++) { hole.push_back((char *)SASBlockAlloc(size)); guard.push_back((char *)SASBlockAlloc(size)); } for (char *g : guard) fill(g, size); for (char *h : hole) SASBlockDealloc(h, size); }
  auto others = [&] { for (char *g : guard) MC_CHECK(intact(g, size), "outside", "after %s: the contents of a block of %lu bytes that is not the heap's, at %p, changed", g_at.c_str(), size, (void *)g); };
  track_region(); track_push(); make(size, page, true, 100); M m; U most = listed() * perblock(), n = past < 0 ? most - past : past, refused = 0;
  for (U i = 0; i < n; i++) { may_refuse = m.v.size() >= most; size_t had = m.v.size(); Iv u = used(); if (may_refuse) { alloc(m, false, i % 5); if (m.v.size() == had) { MC_CHECK(used() == u, "refusal-changed", "%s was refused but the region's blocks in use changed", g_at.c_str()); state(m); others(); refused++; } may_refuse = false; st.transitions++; continue; }
    alloc(m, false, i % 5); U near = m.blocks % 254; if (i % step == 0 || near < 2 || near > 252 || i + 3 > n || m.v.size() + 3 > most) { state(m); others(); } st.transitions++; }
  st.states = m.blocks; sample(strf("%zu sub-heaps in %d blocks, then %lu refused", m.v.size(), m.blocks, refused));
  destroy(m, false); others(); M k = m; for (size_t i = 0; k.v.size() > 3; i++) { release(k, i % 4, (i * 7919) % k.v.size()); if (i % step == 0) state(k); st.transitions++; } state(k); others(); int b = k.blocks; for (size_t i = 0; i < m.v.size() - 3; i++) { alloc(k, false, i % 2); st.transitions++; } state(k); MC_CHECK(k.blocks == b, "not-recycled", "freed pages were not handed out again: %d blocks became %d", b, k.blocks); others(); destroy(k, true); others(); track_pop(); }
MC_CONFIG(c7, "compound/many-blocks", 1, 1) { longrun(8192, 4096, -5, 20); }
MC_CONFIG(c8, "compound/list-limit", 1, 1) { longrun(8192, 2048, opts.thorough ? -5 : 530, 50); }
// every size of heap and page
MC_CONFIG(c9, "compound/created", 1, 1) {
  setup(true); track_region(); track_push();
  for (int fixed = 0; fixed < 2; fixed++) for (int l = 12; l <= 20; l++) for (int pl = 10; pl <= l; pl++) { if (fixed && pl != 12) continue; track_push(); U size = 1ul << l, page = 1ul << pl; RUN(strf("creating a compound heap of %lu bytes with pages of %lu", size, page)); U0 = used();
    if (size <= std::max(page, (U)default_page)) { char *h = (char *)(fixed ? SASCompoundFixedHeapCreate(size) : SASCompoundHeapCreatePageSize(size, page)); MC_CHECK(h == nullptr && used() == U0, "too-small", "%s succeeded though not one page fits", g_at.c_str()); st.states++; track_pop(); continue; }
    make(size, page, !fixed, 100); queues = false; M m; state(m); U n = perblock() + (fixed ? 0 : 1); for (U i = 0; i < n; i++) { alloc(m, false, i % 5); if (i < 8 || i + 3 > n) state(m); } state(m); MC_CHECK(m.blocks == (fixed ? 1 : 2), "capacity", "%lu pages took %d blocks", n, m.blocks);
    if (fixed) { alloc(m, false, 0); alloc(m, true, 1); alloc(m, false, 2); state(m); } destroy(m, fixed); while (!m.v.empty()) { release(m, m.v.size() % 4, m.v.size() / 2); } state(m); destroy(m, !fixed); st.states++; st.transitions += 2 * n; track_pop(); }
  track_pop();
}
#endif
}
#endif
// =====================================================================  M07
#ifdef HM07
namespace m07 {
static char *H; static U HS, CAP; static std::vector<U> SZ; static size_t MAXLIVE = 6;
static const char *AV[] = {"Alloc", "AllocNoLock", "NearAlloc", "NearAllocNoLock"};
static U top(const Live &m) { return m.v.empty() ? 0 : m.v.back().p + m.v.back().ext - (H + default_page); }
static void state(const Live &m) {
  U want = CAP - top(m), f = SASSimpleStackFreeSpace(H), f2 = SASSimpleStackFreeSpaceNoLock(H); MC_CHECK(f == want && f2 == want, "space", "after %s: free space is %lu (%lu), should be %lu", g_at.c_str(), f, f2, want);
  for (auto &o : m.v) MC_CHECK(intact(o.p, o.n), "clobbered", "after %s: the %lu bytes at stack+%ld were changed by the stack", g_at.c_str(), o.n, o.p - H); }
static void alloc(Live &m, int v, U n) {
  U r = n > ~0ul - 16 ? ~0ul : up(n, 16), room = CAP - top(m); RUN(strf("%s of %lu bytes", AV[v], n)); char *near = m.v.empty() ? H + HS - 1 : m.v[0].p; uint64_t h0 = track_hash(); char *p = nullptr;
  guarded([&] { p = (char *)(v == 0 ? SASSimpleStackAlloc(H, n) : v == 1 ? SASSimpleStackAllocNoLock(H, n) : v == 2 ? SASSimpleStackNearAlloc(near, n) : SASSimpleStackNearAllocNoLock(near, n)); });
  if (!p) { MC_CHECK(n == 0 || r > room, "refused", "%s was refused though %lu bytes are free", g_at.c_str(), room); MC_CHECK(track_hash() == h0, "refusal-changed", "%s was refused but changed the stack", g_at.c_str()); return; }
  MC_CHECK(r <= room, "granted", "%s returned stack+%ld though only %lu bytes are free", g_at.c_str(), p - H, room);
  MC_CHECK((U)p % 16 == 0, "align", "%s returned stack+%ld, not aligned", g_at.c_str(), p - H); MC_CHECK(p >= H + 128 && p + r <= H + HS, "bounds", "%s returned stack+%ld of a %lu byte stack", g_at.c_str(), p - H, HS);
  for (auto &o : m.v) MC_CHECK(p + r <= o.p || p >= o.p + o.ext, "overlap", "%s returned stack+%ld, overlapping the %lu live bytes at stack+%ld", g_at.c_str(), p - H, o.n, o.p - H);
  if (n) { fill(p, n); m.v.push_back({p, n, r}); }
}
static void release(Live &m, int v, size_t i) { RUN(strf("%s to stack+%ld", v ? "DeallocNoLock" : "Dealloc", m.v[i].p - H)); int rc = -9; guarded([&] { rc = v ? SASSimpleStackDeallocNoLock(H, m.v[i].p) : SASSimpleStackDealloc(H, m.v[i].p); }); MC_CHECK(rc == 0, "dealloc-refused", "%s returned %d", g_at.c_str(), rc); m.v.resize(i); }
static std::vector<long> BAD;
static void bad(const Live &m, int v, long d, const char *cls) { track_push(); RUN(strf("%s to stack+%ld (%s)", v ? "DeallocNoLock" : "Dealloc", d, cls)); uint64_t h0 = track_hash(); int rc = 0; guarded([&] { rc = v ? SASSimpleStackDeallocNoLock(H, H + d) : SASSimpleStackDealloc(H, H + d); });
  MC_CHECK(rc != 0, std::string("accepted-") + cls, "%s reported success, the stack's top is stack+%ld", g_at.c_str(), (long)(top(m) + default_page)); MC_CHECK(track_hash() == h0, std::string("changed-") + cls, "%s changed the stack", g_at.c_str()); st.evaluations++; st.transitions++; track_pop(); }
static void bads(const Live &m, bool all) {
  for (int v = 0; v < 2; v++) { for (long d : {0L, 16L, 112L, 128L, 4080L, (long)HS + 16, (long)HS + 4096, -16L, -4096L, (long)HS * 1000}) bad(m, v, d, "outside");
    long t = top(m) + default_page; for (long d : {t + 16, t + 32, t + 1024, (long)HS - 16, (long)HS}) if (d > t && d <= (long)HS) bad(m, v, d, "above-top");
    if (all) for (long d = default_page; d < t; d += (t - d < 80 || d < default_page + 80 || t < 6000 ? 1 : std::max(61L, t / 300 | 1))) if (d % 16) bad(m, v, d, "misaligned"); }
}
static std::set<U> seen;
struct Sys : SeqSysT<Live> {
  int nv = 4; int nops() override { return SZ.size() * nv + MAXLIVE * 2; }
  bool enabled(int o) override { if (o < (int)SZ.size() * nv) return m.v.size() < MAXLIVE; return (size_t)(o - SZ.size() * nv) / 2 < m.v.size(); }
  void apply(int o) override { if (o < (int)SZ.size() * nv) alloc(m, o % nv, SZ[o / nv]); else { o -= SZ.size() * nv; release(m, o % 2, o / 2); } }
  std::string name(int o) override { if (o < (int)SZ.size() * nv) return strf("%s %lu", AV[o % nv], SZ[o / nv]); o -= SZ.size() * nv; return strf("Dealloc%s #%d", o % 2 ? "NoLock" : "", o / 2); }
  uint64_t mhash() override { return m.mh(); }
  void check() override { state(m); if (seen.insert(m.mh()).second) bads(m, false); }
};
static void make(U size, bool init) { if (init) { char *b = (char *)SASBlockAlloc(size * 2); fill(b, size * 2); H = (char *)SASSimpleStackInit(b + size, size); } else H = (char *)SASSimpleStackCreate(size); if (!H) violation("setup", "no stack of %lu bytes", size); ideal_lock_touch(H); HS = size; CAP = size - default_page; }
static void hist(U size, bool init, std::vector<U> z, int depth) { setup(true); make(size, init); track_region(); SZ = z; Sys s; SeqOpts o; o.depth = depth; seq_explore(s, o); }
MC_CONFIG(s1, "stack/8k", 1, 1) { hist(8192, false, {0, 1, 16, 1360, 4081, 4096}, opts.thorough ? 9 : 6); }
MC_CONFIG(s2, "stack/init-64k", 1, 1) { hist(65536, true, {17, 20000, 31, 61440, ~0ul}, opts.thorough ? 9 : 6); }
MC_CONFIG(s3, "stack/sizes", 1, 1) {
  setup(true); make(8192, false); track_region(); track_push(); std::vector<U> z; for (U n = 0; n <= 4300; n++) z.push_back(n); for (int b = 12; b < 64; b++) for (long d = -17; d <= 17; d++) z.push_back((1ul << b) + d); for (U d = 0; d < 300; d++) { z.push_back(~0ul - d); z.push_back(~0ul - (U)H - d); z.push_back(~0ul - (U)H - 4096 - d); z.push_back(~0ul - (U)H - 4400 - d); }
  for (int pre = 0; pre < 4; pre++) { track_push(); Live m; for (int i = 0; i < pre; i++) alloc(m, 0, i == 2 ? 3000 : 100); for (U n : z) for (int v = 0; v < 4; v++) { track_push(); Live k = m; alloc(k, v, n); state(k); if (k.v.size() > m.v.size()) { release(k, v & 1, k.v.size() - 1); state(k); } st.transitions += 2; st.evaluations++; track_pop(); } bads(m, true); track_pop(); }
  st.states = z.size() * 4; track_pop();
}
MC_CONFIG(s4, "stack/created", 1, 1) {
  setup(true); track_region(); track_push(); for (int l = 13; l <= 24; l++) for (int nl = 0; nl < 2; nl++) { track_push(); Iv u0 = used(); make(1ul << l, false); Live m; state(m); alloc(m, nl, CAP); state(m); alloc(m, nl, 1); state(m); bads(m, true); release(m, nl, 0); state(m); bads(m, false); RUN(strf("destroying a stack of %lu bytes", HS)); int rc = nl ? SASSimpleStackDestroyNoLock(H) : SASSimpleStackDestroy(H); MC_CHECK(rc == 0 && used() == u0, "leak-block", "%s does not return its block", g_at.c_str()); st.states++; st.transitions += 5; track_pop(); }
  track_pop();
}
}
#endif
// =====================================================================  M08
#ifdef HM08
namespace m08 {
static char *SP; static U BS;
static void judge(char *s, U want, U block) {
  char *a = (char *)SASSimpleSpaceToAddr(s); MC_CHECK(a != nullptr, "no-address", "%s: no address", g_at.c_str()); if (!a) return;
  MC_CHECK((U)a % 16 == 0, "align", "%s: the user area at space+%ld is not aligned", g_at.c_str(), a - s); MC_CHECK(a >= s + 128 && a <= s + block && want <= (U)(s + block - a), "bounds", "%s: the user area is at space+%ld of a block of %lu bytes", g_at.c_str(), a - s, block);
  U f = SASSimpleSpaceFreeSpace(s), e = block - (a - s) - want; MC_CHECK(f == e, "space", "%s: free space is %lu, should be %lu", g_at.c_str(), f, e);
  std::set<U> at{0}; if (want) for (U d : {(U)1, (U)15, (U)16, (U)4095, (U)4096, (U)4097, (U)8192, (U)65536, want / 2, want - 1}) if (d < want) at.insert(d); if (a == s + block) at.clear();
  for (U d : at) { char *r = (char *)SASSimpleSpaceFromAddr(a + d); MC_CHECK(r == s, d ? "from-inside" : "from-start", "%s: the space of area+%lu is %p, not %p", g_at.c_str(), d, (void *)r, (void *)s); }
}
MC_CONFIG(p1, "space/created", 1, 1) {
  setup(true); SASBlockDealloc(SASBlockAlloc(SegmentSize), SegmentSize);    // a whole segment, so that every size can be had
  track_region(); track_push(); std::vector<U> z; for (U n = 0; n <= 70000; n += (n < 13000 || n % 4096 < 20 || n % 4096 > 4076) ? 1 : opts.thorough ? 3 : 97) z.push_back(n); for (int b = 16; b < 64; b++) for (long d : {-4200L, -4097L, -4096L, -4095L, -4080L, -17L, -1L, 0L, 1L, 16L}) z.push_back((1ul << b) + d); for (U d = 0; d < 4200; d += 61) z.push_back(~0ul - d); z.push_back(~0ul - 4095); z.push_back(~0ul - 4096);
  for (U n : z) { RUN(strf("creating a space of %lu bytes", n)); track_push(); Iv u0 = used(); uint64_t h0 = track_hash(); char *s = nullptr; guarded([&] { s = (char *)SASSimpleSpaceCreate(n); }); st.states++; st.transitions++; st.evaluations++;
    if (!s) { MC_CHECK(n > SegmentSize - 4096, "refused", "%s was refused", g_at.c_str()); MC_CHECK(track_hash() == h0, "refusal-changed", "%s was refused but changed the region", g_at.c_str()); track_pop(); continue; }
    Iv u = used(); U block = total(u) - total(u0); MC_CHECK(covers(u, (U)s, (U)s + n) && !meets(u0, (U)s, (U)s + n), "not-owned", "%s: %p is not a new block", g_at.c_str(), (void *)s); MC_CHECK(n <= block, "small-block", "%s: the block has %lu bytes", g_at.c_str(), block); judge(s, n, block);
    char *a = (char *)SASSimpleSpaceToAddr(s); if (a && n < 1 << 22 && n <= block) { fill(a, n); judge(s, n, block); MC_CHECK(intact(a, n), "clobbered", "%s: the user area was changed", g_at.c_str()); }
    int rc = n & 1 ? SASSimpleSpaceDestroy(s) : SASSimpleSpaceDestroyNoLock(s); MC_CHECK(rc == 0 && used() == u0, "leak-block", "%s: destroying it leaves in use%s, before%s", g_at.c_str(), show(used()).c_str(), show(u0).c_str()); track_pop(); }
  track_pop();
}
MC_CONFIG(p2, "space/initialised", 1, 1) {
  setup(true); char *b = (char *)SASBlockAlloc(1 << 20); fill(b, 1 << 20); track_region(); track_push();
  for (U block = 4096; block <= 262144; block *= 2) { std::vector<U> z; for (long d = -20; d <= 20; d++) { z.push_back(block - 4096 + d); z.push_back(block + d); z.push_back(~0ul - 4096 + d); z.push_back(~0ul - block + d); z.push_back((1ul << 63) + d); } for (U n = 0; n <= block; n += (block > 16384 ? block / 64 - 1 : 7)) z.push_back(n);
    for (U n : z) { RUN(strf("initialising a space of %lu bytes in a block of %lu", n, block)); track_push(); char *s = b + 512 * 1024; uint64_t h0 = track_hash(); char *r = nullptr; guarded([&] { r = (char *)SASSimpleSpaceInit(s, block, n); }); st.states++; st.transitions++; st.evaluations++; bool fits = n <= block - 4096;
      MC_CHECK(fits ? r == s : r == nullptr, fits ? "refused" : "too-big", "%s returned %p", g_at.c_str(), (void *)r); if (!r) MC_CHECK(track_hash() == h0, "refusal-changed", "%s was refused but changed the block", g_at.c_str()); else if (fits) { char *a = (char *)SASSimpleSpaceToAddr(s); MC_CHECK(a && intact(s - 4096, 4096) && intact(s + block, 4096), "overrun", "%s wrote outside the block", g_at.c_str()); judge(s, n, block); }
      track_pop(); } }
  track_pop();
}
// several spaces side by side: each address finds its own, addresses in none find none
struct SpM { std::vector<Obj> v; };
static std::vector<U> SZ;
struct Sys : SeqSysT<SpM> {
  int nops() override { return SZ.size() + 4; }
  bool enabled(int o) override { return o < (int)SZ.size() ? m.v.size() < 4 : (size_t)o - SZ.size() < m.v.size(); }
  void apply(int o) override {
    if (o < (int)SZ.size()) { U n = SZ[o]; RUN(strf("creating a space of %lu bytes", n)); Iv u0 = used(); char *s = (char *)SASSimpleSpaceCreate(n); MC_CHECK(s != nullptr, "refused", "%s was refused", g_at.c_str()); if (!s) return; U block = total(used()) - total(u0); MC_CHECK(!meets(u0, (U)s, (U)s + block), "overlap", "%s: overlaps a block in use", g_at.c_str()); char *a = (char *)SASSimpleSpaceToAddr(s); if (a) fill(a, n); m.v.push_back({s, n, block}); }
    else { o -= SZ.size(); RUN(strf("destroying the space at %p", (void *)m.v[o].p)); U t0 = total(used()); int rc = SASSimpleSpaceDestroy(m.v[o].p); MC_CHECK(rc == 0 && total(used()) == t0 - m.v[o].ext, "leak-block", "%s returned %d and %lu bytes of %lu", g_at.c_str(), rc, t0 - total(used()), m.v[o].ext); m.v.erase(m.v.begin() + o); } }
  std::string name(int o) override { return o < (int)SZ.size() ? strf("create %lu", SZ[o]) : strf("destroy #%zu", o - SZ.size()); }
  uint64_t mhash() override { U h = 3; for (auto &o : m.v) h = mix(mix(h, (U)o.p), o.n); return h; }
  void check() override { for (auto &o : m.v) { judge(o.p, o.n, o.ext); char *a = (char *)SASSimpleSpaceToAddr(o.p); MC_CHECK(!a || intact(a, o.n), "clobbered", "after %s: the user area of the space at %p changed", g_at.c_str(), (void *)o.p);
      for (long d : {1L, 16L, 128L, 4095L}) MC_CHECK(!SASSimpleSpaceFromAddr(o.p + d), "from-outside", "an address in the header of a space belongs to no user area"); if (a && o.n && o.p + o.ext > a + o.n) MC_CHECK(!SASSimpleSpaceFromAddr(a + o.n), "from-outside", "the address past the user area of %lu bytes belongs to no space", o.n); } }
};
MC_CONFIG(p3, "space/histories", 1, 1) { setup(true); track_region(); SZ = {0, 1, 4096, 5000, 12288, 100000}; Sys s; SeqOpts o; o.depth = opts.thorough ? 7 : 5; seq_explore(s, o); }
}
#endif
