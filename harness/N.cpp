// M11: every address inside every live object resolves to its own innermost container, for every kind and size of container and in every
// bounded history of creating, filling, emptying and destroying containers on reused memory; the near functions serve exactly that container.
#include "mc.h"
#include <string.h>
#include <algorithm>
extern "C" {
#include "sasalloc.h"
#include "sasindexkey.h"
#include "freenode.h"
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sassimplespace.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sasstringbtree.h"
#include "sasindex.h"
#include "sphcontext.h"
#include "sphlockfreeheap.h"
#include "sphlflogger.h"
#include "sphlogportal.h"
#include "sphsinglepcqueue.h"
#include "sphmultipcqueue.h"
#include "sassim.h"
}
#include "sasstringbtreenode.h"
#include "sasindexnode.h"
using namespace mc;
typedef unsigned long U;
extern "C" U getMemLow();
enum Kind { SH, ST, SP, CH, CQ, SB, IX, PQ, TQ, LG, PT, LF, CX, SO, NK };
static const char *KN[] = {"simple heap", "simple stack", "simple space", "compound heap", "compound heap of queues", "string tree", "index", "single-producer queue", "multi-producer queue", "logger", "log portal", "lock-free heap", "context", "typed block"};
struct In { char *p; U n; };
struct Obj { int k; char *p; U n; std::vector<In> in; };
static std::string g_at; static U LO;
#define RUN(what) do { g_at = (what); where = g_at; heartbeat(); } while (0)
static bool heapish(int k) { return k == SH || k == CX; }
static bool tree(int k) { return k == SB || k == IX; }
static bool comp(int k) { return k == CH || k == CQ; }
static U page_of(const Obj &o) { return tree(o.k) ? (o.k == SB ? SASStringBTreeAllocSize(o.p) : SASIndexAllocSize(o.p)) : SASCompoundHeapAllocSize(o.p); }
static std::string at(const void *a) { return strf("region+%#lx", (U)a - LO); }
static Obj make(int k, U n) {
  char *p = nullptr; RUN(strf("creating a %s of %#lx bytes", KN[k], n));
  guarded([&] { switch (k) {
    case SH: p = (char *)SASSimpleHeapCreate(n); break; case ST: p = (char *)SASSimpleStackCreate(n); break; case SP: p = (char *)SASSimpleSpaceCreate(n - 4096); break;
    case CH: case CQ: p = (char *)SASCompoundHeapCreatePageSize(n, n >= (1 << 20) ? 65536 : 4096); break; case SB: p = (char *)SASStringBTreeCreate(n); break; case IX: p = (char *)SASIndexCreate(n); break;
    case PQ: p = (char *)SPHSinglePCQueueCreateWithStride(n, 256); break; case TQ: p = (char *)SPHMPMCQCreateWithStride(n, 256); break; case LG: p = (char *)SPHLFLoggerCreate(n); break; case PT: p = (char *)SPHLogPortalCreate(n); break;
    case LF: p = (char *)SPHLockFreeHeapCreate(n, 64); break; case CX: p = (char *)SPHContextCreate(n); break; case SO: p = (char *)SASSOMAlloc(n, n); break; } });
  return {k, p, n, {}};
}
static void destroy(Obj &o) {
  RUN(strf("destroying the %s at %s", KN[o.k], at(o.p).c_str())); auto p = o.p;
  guarded([&] { switch (o.k) { case SH: SASSimpleHeapDestroy(p); break; case ST: SASSimpleStackDestroy(p); break; case SP: SASSimpleSpaceDestroy(p); break; case CH: case CQ: SASCompoundHeapDestroy(p); break; case SB: SASStringBTreeDestroy(p); break; case IX: SASIndexDestroy(p); break;
    case PQ: SPHSinglePCQueueDestroy(p); break; case TQ: SPHMPMCQDestroy(p); break; case LG: SPHLFLoggerDestroy(p); break; case PT: SPHLogPortalDestroy(p); break; case LF: SPHLockFreeHeapDestroy(p); break; case CX: SPHContextDestroy(p); break; case SO: SASSOMDestroy(p, o.n); break; } });
}
static const In *inner(const Obj &o, U a) { for (auto &i : o.in) if (a >= (U)i.p && a < (U)i.p + i.n) return &i; return nullptr; }
static bool inside(const Obj &o, U a) { return inner(o, a) || (a >= (U)o.p && a < (U)o.p + o.n); }
// the free pages of a tree, from its own free list
static bool free_page(const Obj &o, U a) { for (freeNode *f = ((SASBlockHeader *)o.p)->blockFreeSpace; f; f = f->nextNode) if (a >= (U)f && a < (U)f + f->nodeSize) return true; return false; }
static void resolve(const Obj &o, U a) {
  SASBlockHeader *h = nullptr; where = g_at + strf(": looking up %s, inside the %s of %#lx bytes at %s", at((void *)a).c_str(), KN[o.k], o.n, at(o.p).c_str()); guarded([&] { h = SASFindHeader((void *)a); }); st.evaluations++;
  if (o.k == SO) return;
  if (const In *i = inner(o, a)) { MC_CHECK((char *)h == i->p, "resolve-inner", "after %s: %s, inside the sub-heap of %#lx bytes at %s of a %s, resolves to %s", g_at.c_str(), at((void *)a).c_str(), i->n, at(i->p).c_str(), KN[o.k], h ? at(h).c_str() : "nothing"); return; }
  if (tree(o.k) && (char *)h != o.p && h && (char *)h > o.p && (U)h < (U)o.p + o.n && !free_page(o, a) && SOMSASCheckBlockSig(h) && a - (U)h < (U)h->blockSize && h->baseBlock == (SASBlockHeader *)o.p && ((U)h - (U)o.p) % page_of(o) == 0) return;   // one of the tree's nodes
  MC_CHECK((char *)h == o.p, "resolve", "after %s: %s, inside the %s of %#lx bytes at %s, resolves to %s", g_at.c_str(), at((void *)a).c_str(), KN[o.k], o.n, at(o.p).c_str(), h ? at(h).c_str() : "nothing");
}
static void probes(const Obj &o, const std::function<void(U)> &f, bool all) {
  U b = (U)o.p; std::set<U> s; auto ends = [&](U x, U n) { for (U d : {0ul, 1ul, 8ul, 63ul, 64ul, 128ul, 256ul, 511ul, 512ul, 1024ul, 2048ul, n / 2 - 1, n / 2, n - 512, n - 64, n - 8, n - 1}) if (d < n) s.insert(x + d); };
  ends(b, o.n); U step = all || o.n <= (1 << 18) ? 4096 : o.n / 64; for (U d = 0; d < o.n; d += step) { s.insert(b + d); if (d) s.insert(b + d - 1); s.insert(b + d + 65); }
  for (U d = 512; d < o.n; d *= 2) { s.insert(b + d); s.insert(b + d - 1); s.insert(b + d + 1); s.insert(b + o.n - d); s.insert(b + o.n - d - 1); }
  for (auto &i : o.in) ends((U)i.p, i.n); for (U a : s) f(a);
}
struct M { std::vector<Obj> v; };
struct Space { std::vector<std::pair<void *, U>> v; };
static Space spaces(const M &m) { Space s; for (auto &o : m.v) { U f = 0; switch (o.k) { case SH: f = SASSimpleHeapFreeSpace(o.p); break; case CX: f = SPHContextFreeSpace(o.p); break; case ST: f = SASSimpleStackFreeSpace(o.p); break; case CH: case CQ: f = SASCompoundHeapFreeSpace(o.p); break; case LF: f = SPHLockFreeHeapFreeSpace(o.p); break; case SB: f = SASStringBTreeFreeSpace(o.p); break; case IX: f = SASIndexFreeSpace(o.p); break; case LG: f = SPHLFLoggerFreeSpace(o.p); break; case PQ: f = SPHSinglePCQueueFreeSpace(o.p); break; case TQ: f = SPHMPMCQFreeSpace(o.p); break; case SP: f = SASSimpleSpaceFreeSpace(o.p); break; } s.v.push_back({o.p, f}); if (o.k == CH) for (auto &i : o.in) s.v.push_back({i.p, SASSimpleHeapFreeSpace(i.p)}); } return s; }
// only container c changed, by d bytes
static void changed(const Space &a, const Space &b, void *c, long d, const char *what) { for (size_t i = 0; i < a.v.size(); i++) { long x = (long)(a.v[i].second - b.v[i].second); MC_CHECK(x == (a.v[i].first == c ? d : 0), "accounting", "%s: the free space of the container at %s went from %lu to %lu (%s the container at %s)", g_at.c_str(), at(a.v[i].first).c_str(), a.v[i].second, b.v[i].second, what, at(c).c_str()); } }
static void near_heap(const M &m, U a, char *c, U n) {     // a simple heap c of n bytes
  auto f0 = spaces(m); U room = SASSimpleHeapFreeSpace(c); if (room < 4096 - 256 && n >= 4096 && room < 200) return;
  for (int v = 0; v < 3; v++) { track_push(); static const char *VN[] = {"SASNearAlloc", "SASSimpleHeapNearAlloc", "SASSimpleHeapNearAllocNoLock"}; std::string save = g_at; RUN(save + strf(", %s near %s", VN[v], at((void *)a).c_str()));
    char *p = nullptr; guarded([&] { switch (v) { case 0: p = (char *)SASNearAlloc((void *)a, 48); break; case 1: p = (char *)SASSimpleHeapNearAlloc((void *)a, 48); break; case 2: p = (char *)SASSimpleHeapNearAllocNoLock((void *)a, 48); break;  } });
    MC_CHECK(p && p >= c && p + 48 <= c + n, "near-alloc", "%s, inside the heap of %#lx bytes at %s, returned %s", g_at.c_str(), n, at(c).c_str(), p ? at(p).c_str() : "nothing");
    if (p) { changed(f0, spaces(m), c, 48, "allocating near"); RUN(save + strf(", freeing %s near", at(p).c_str())); guarded([&] { switch (v) { case 0: SASNearDealloc(p, 48); break; case 1: SASSimpleHeapNearDealloc(p, 48); break; case 2: SASSimpleHeapNearDeallocNoLock(p, 48); break;  } }); changed(spaces(m), f0, c, 0, "freeing near"); }
    g_at = save; track_pop(); }
  MC_CHECK((char *)SASSimpleHeapNearFind((void *)a) == c, "near-find", "%s: SASSimpleHeapNearFind(%s) does not find the heap at %s", g_at.c_str(), at((void *)a).c_str(), at(c).c_str());
}
// a typed near operation on an address whose container is of another kind refuses and changes nothing
static void refuses(U a, const char *fn, const std::function<void *()> &f) { uint64_t h = track_hash(); void *p = nullptr; std::string save = g_at; RUN(save + strf(", %s near %s", fn, at((void *)a).c_str())); guarded([&] { p = f(); }); MC_CHECK(!p, "wrong-kind", "%s, whose container is of another kind, returned %s", g_at.c_str(), at(p).c_str()); MC_CHECK(track_hash() == h, "wrong-kind-changed", "%s, whose container is of another kind, changed the region", g_at.c_str()); g_at = save; }
static void near_ops(const M &m, const Obj &o) {
  std::vector<U> as{(U)o.p + 200, (U)o.p + o.n / 2 + 8, (U)o.p + o.n - 1};
  for (U a : as) { track_push();
    const In *i = inner(o, a); bool h = heapish(o.k) || (i && o.k == CH); bool node = tree(o.k) && (char *)SASFindHeader((void *)a) != o.p;
    if (h) near_heap(m, a, i ? i->p : o.p, i ? i->n : o.n);
    else if (!node) { refuses(a, "SASSimpleHeapNearAlloc", [&] { return SASSimpleHeapNearAlloc((void *)a, 48); }); refuses(a, "SASSimpleHeapNearAllocNoLock", [&] { return SASSimpleHeapNearAllocNoLock((void *)a, 48); }); refuses(a, "SASSimpleHeapNearFind", [&] { return SASSimpleHeapNearFind((void *)a); }); }
    if (o.k == ST) { auto f0 = spaces(m); U room = SASSimpleStackFreeSpace(o.p); for (int v = 0; v < 2; v++) { track_push(); std::string save = g_at; RUN(save + strf(", SASSimpleStackNearAlloc near %s", at((void *)a).c_str())); char *p = (char *)(v ? SASSimpleStackNearAllocNoLock((void *)a, 64) : SASSimpleStackNearAlloc((void *)a, 64)); MC_CHECK(p ? p >= o.p && p + 64 <= o.p + o.n : room < 64, "near-alloc", "%s, inside the stack at %s, returned %s", g_at.c_str(), at(o.p).c_str(), p ? at(p).c_str() : "nothing"); if (p) changed(f0, spaces(m), o.p, 64, "allocating near"); g_at = save; track_pop(); } }
    else refuses(a, "SASSimpleStackNearAlloc", [&] { return SASSimpleStackNearAlloc((void *)a, 64); });
    if (o.k == LF) { MC_CHECK((char *)SPHLockFreeHeapNearFind((void *)a) == o.p, "near-find", "%s: SPHLockFreeHeapNearFind(%s) does not find the heap at %s", g_at.c_str(), at((void *)a).c_str(), at(o.p).c_str()); auto f0 = spaces(m); for (int v = 0; v < 2; v++) { track_push(); std::string save = g_at; RUN(save + strf(", SPHLockFreeHeapNearAlloc near %s", at((void *)a).c_str())); char *p = (char *)SPHLockFreeHeapNearAlloc((void *)a, 64); MC_CHECK(p && p >= o.p && p + 64 <= o.p + o.n, "near-alloc", "%s, inside the lock-free heap at %s, returned %s", g_at.c_str(), at(o.p).c_str(), p ? at(p).c_str() : "nothing");
        if (p) { changed(f0, spaces(m), o.p, 64, "allocating near"); int rc = v ? SPHLockFreeHeapFreeNearChk(p, 64) : SPHLockFreeHeapFreeNear(p); MC_CHECK(rc == 0, "near-free", "%s, then freed near, returned %d", g_at.c_str(), rc); changed(spaces(m), f0, o.p, 0, "freeing near"); } g_at = save; track_pop(); } }
    else { refuses(a, "SPHLockFreeHeapNearAlloc", [&] { return SPHLockFreeHeapNearAlloc((void *)a, 64); }); refuses(a, "SPHLockFreeHeapNearFind", [&] { return SPHLockFreeHeapNearFind((void *)a); }); }
    if (comp(o.k) && !(i && o.k == CQ)) for (int v = 0; v < 2; v++) { U ps = page_of(o); track_push(); std::string save = g_at; RUN(save + strf(", SASCompoundHeapNearAlloc near %s", at((void *)a).c_str())); U b = SASCompoundHeapFreeSpace(o.p); char *p = (char *)(v ? SASCompoundHeapNearAllocNoLock((void *)a) : SASCompoundHeapNearAlloc((void *)a));
        MC_CHECK(p && (U)p % ps == 0 && ((p > o.p && p + ps <= o.p + o.n) || b < ps), "near-alloc", "%s, inside the compound heap at %s with %lu free bytes, returned %s", g_at.c_str(), at(o.p).c_str(), b, p ? at(p).c_str() : "nothing");
        if (p) { MC_CHECK((char *)SASFindHeader(p + ps - 1) == p && (char *)SASFindHeader(p) == p, "resolve-inner", "%s: the new sub-heap at %s does not resolve to itself", g_at.c_str(), at(p).c_str()); if (v) SASCompoundHeapNearDeallocNoLock(p); else SASCompoundHeapNearDealloc(p); SASBlockHeader *r = SASFindHeader(p + 100); MC_CHECK((char *)r != p, "resolve-freed", "%s: an address in the freed sub-heap at %s still resolves to it", g_at.c_str(), at(p).c_str()); U e = SASCompoundHeapFreeSpace(o.p); if (b >= ps) MC_CHECK(e == b, "accounting", "%s and freeing it near: free space went from %lu to %lu", g_at.c_str(), b, e); } g_at = save; track_pop(); }
    // a general near allocation next to a container that is not a heap of bytes: memory of that container or nothing, and the container stays usable
    if (!h && !node && o.k != SO) { track_push(); std::string save = g_at; RUN(save + strf(", SASNearAlloc near %s", at((void *)a).c_str())); char *p = nullptr; guarded([&] { p = (char *)SASNearAlloc((void *)a, 48); }); MC_CHECK(!p || (p >= o.p && p + 48 <= o.p + o.n), "near-alloc", "%s, inside the %s at %s, returned %s", g_at.c_str(), KN[o.k], at(o.p).c_str(), p ? at(p).c_str() : "nothing");
      if (comp(o.k)) { U ps = page_of(o); char *q = nullptr; guarded([&] { q = (char *)(o.k == CH ? SASCompoundHeapAlloc(o.p) : (void *)SPHCompoundPCQAlloc(o.p)); }); if (q) MC_CHECK((U)q % ps == 0 && (char *)SASFindHeader(q + ps - 1) == q, "page-alignment", "%s, and then the %s hands out the page %s", g_at.c_str(), KN[o.k], at(q).c_str()); }
      g_at = save; track_pop(); }
    track_pop(); }
}
static bool NEAR = true, ALL = false;
static void state(const M &m) { for (auto &o : m.v) { probes(o, [&](U a) { resolve(o, a); }, ALL); if (NEAR) near_ops(m, o); } }
static U salt;
static bool populate(Obj &o) {      // one more inner container, or one more entry
  RUN(strf("filling the %s at %s", KN[o.k], at(o.p).c_str())); bool ok = false; guarded([&] { switch (o.k) {
    case CH: for (int i = 0; i < 3; i++) { char *p = (char *)SASCompoundHeapAlloc(o.p); if (p) o.in.push_back({p, page_of(o)}), ok = true; } break;
    case CQ: for (int i = 0; i < 3; i++) { char *p = (char *)SPHCompoundPCQAlloc(o.p); if (p) o.in.push_back({p, page_of(o)}), ok = true; } break;
    case SB: for (U i = 0; i < 200; i++) { char k[64]; snprintf(k, sizeof k, "%lu-a key that is long enough to fill the nodes", (o.in.size() * 0 + i * 7919) % 1000); SASStringBTreePut(o.p, k, o.p + 8); } ok = true; break;
    case IX: for (U i = 0; i < 300; i++) { SASIndexKey_t k; SASIndexKeyInitUInt64(&k, (i * 7919) % 1000); SASIndexPut(o.p, &k, o.p + 8); } ok = true; break;
    case ST: ok = SASSimpleStackAlloc(o.p, 4096) != nullptr; break; case SH: ok = SASSimpleHeapAlloc(o.p, o.n / 2) != nullptr; break; default: break; } });
  return ok;
}
static bool shrink(Obj &o, int which) {
  RUN(strf("emptying the %s at %s", KN[o.k], at(o.p).c_str())); bool ok = false; guarded([&] { switch (o.k) {
    case CH: case CQ: if (!o.in.empty()) { size_t i = which ? o.in.size() - 1 : o.in.size() / 2; auto x = o.in[i]; o.in.erase(o.in.begin() + i); if (o.k == CH) SASCompoundHeapFree(o.p, x.p); else SPHCompoundPCQFree(o.p, (SPHSinglePCQueue_t)x.p); ok = true; } break;
    case SB: for (U i = 0; i < 200; i++) { char k[64]; snprintf(k, sizeof k, "%lu-a key that is long enough to fill the nodes", (i * 7919) % 1000); SASStringBTreeRemove(o.p, k); } ok = true; break;
    case IX: for (U i = 0; i < 300; i++) { SASIndexKey_t k; SASIndexKeyInitUInt64(&k, (i * 7919) % 1000); SASIndexRemove(o.p, &k); } ok = true; break;
    default: break; } });
  return ok;
}
static std::vector<std::pair<int, U>> KS; static size_t SLOTS = 3;
struct Sys : SeqSysT<M> {
  int nops() override { return KS.size() + 4 * SLOTS; }
  bool enabled(int o) override { if (o < (int)KS.size()) return m.v.size() < SLOTS; o -= KS.size(); size_t s = o / 4; if (s >= m.v.size()) return false; int k = m.v[s].k; switch (o % 4) { case 0: return true; case 1: return comp(k) || tree(k); default: return comp(k) ? !m.v[s].in.empty() : tree(k) && o % 4 == 2; } }
  void apply(int o) override {
    if (o < (int)KS.size()) { Obj x = make(KS[o].first, KS[o].second); MC_CHECK(x.p, "create", "%s failed", g_at.c_str()); if (!x.p) return;
      if (x.k == SO) for (U i = 0; i < x.n; i += 8) if (*(U *)(x.p + i)) { violation("not-zero", "%s: the block at %s is not zero at +%#lx", g_at.c_str(), at(x.p).c_str(), i); break; }
      if (x.k == SO) { memset(x.p, 0x5a, x.n); } m.v.push_back(x); return; }
    o -= KS.size(); size_t s = o / 4; switch (o % 4) { case 0: destroy(m.v[s]); m.v.erase(m.v.begin() + s); break; case 1: populate(m.v[s]); break; default: shrink(m.v[s], o % 4 == 2); } }
  std::string name(int o) override { if (o < (int)KS.size()) return strf("create %s %#lx", KN[KS[o].first], KS[o].second); o -= KS.size(); static const char *n[] = {"destroy", "fill", "empty last", "empty middle"}; return strf("%s #%d", n[o % 4], o / 4); }
  uint64_t mhash() override { U h = 1; for (auto &o : m.v) { h = mix(mix(h, (U)o.p), o.k); for (auto &i : o.in) h = mix(h, (U)i.p); } return h; }
  void check() override { auto at0 = g_at; state(m); g_at = at0; }
};
static void setup() { join_region(); ideal_locks(); LO = getMemLow(); install_handlers(); watchdog(60); crash_sig = "crash"; }
static int D(int q, int t) { return opts.thorough ? t : q; }
static void hist(std::vector<std::pair<int, U>> ks, size_t slots, int depth) { setup(); KS = ks; SLOTS = slots; track_region(); Sys s; RUN("joining"); SeqOpts o; o.depth = depth; seq_explore(s, o); }
static const U K = 1024, MB = 1 << 20;
MC_CONFIG(h1, "reuse/compound-heap", 2, 4) { hist({{CH, 64 * K}, {SH, 64 * K}, {SH, 16 * K}}, 2, D(7, 9)); }
MC_CONFIG(h2, "reuse/compound-stack", 2, 4) { hist({{CH, 32 * K}, {ST, 32 * K}, {LF, 16 * K}}, 2, D(7, 9)); }
MC_CONFIG(h3, "reuse/queues", 2, 4) { hist({{CQ, 32 * K}, {SH, 32 * K}, {PQ, 16 * K}, {TQ, 8 * K}}, 2, D(6, 8)); }
MC_CONFIG(h4, "reuse/string-tree", 2, 4) { hist({{SB, 64 * K}, {SH, 64 * K}, {LG, 32 * K}}, 2, D(6, 7)); }
MC_CONFIG(h5, "reuse/index", 2, 4) { hist({{IX, 64 * K}, {SH, 64 * K}, {SP, 32 * K}}, 2, D(6, 7)); }
MC_CONFIG(h6, "reuse/typed-block", 2, 4) { hist({{SO, 16 * K}, {SO, 4 * K}, {CH, 16 * K}, {PT, 16 * K}}, 3, D(6, 8)); }
MC_CONFIG(h7, "reuse/context", 1, 2) { hist({{CX, 64 * K}, {SH, MB}, {SH, 64 * K}}, 2, D(5, 7)); }
MC_CONFIG(h8, "reuse/two-trees", 2, 4) { hist({{SB, 64 * K}, {IX, 64 * K}, {ST, 16 * K}}, 3, D(5, 7)); }
MC_CONFIG(h9, "reuse/large", 1, 2) { hist({{CH, MB}, {SH, MB}, {ST, MB / 4}}, 2, D(6, 8)); }
// every kind at every size: every page boundary and both ends
MC_CONFIG(sz, "sizes", 4, 4) {
  setup(); track_region(); int n = 0; U top = opts.thorough ? 128 * MB : 64 * MB;   // a new segment could not be undone
  for (int k = 0; k < NK; k++) for (U z = 4 * K; z <= top; z *= 2) { if ((k == SP || k == SB || k == IX || comp(k)) && z < 8 * K) continue; if ((k == CX && z < 8 * K) || (k == LF && z < 16 * K)) continue; if (n++ % opts.nshards != opts.shard) continue;
    if ((k == SO || k == LF) && z > 4 * MB) continue;
    track_push(); M m; for (int side = 0; side < 2; side++) { Obj x = make(k, z); if (!x.p) { if (!side && !(k == TQ || k == PQ || k == LG || k == PT || (k == LF && z > 64 * K))) violation("create", "%s failed", g_at.c_str()); continue; } m.v.push_back(x); if (z >= 64 * MB) break; }
    if (comp(k) || tree(k)) for (auto &o : m.v) populate(o); ALL = z <= 16 * MB; sample(strf("%s of %#lx bytes", KN[k], z)); state(m); st.states++; st.transitions += 2; for (auto &o : m.v) destroy(o); m.v.clear(); track_pop(); }
}
// every size of typed block: zero, of the size class that covers the request, and returned in full
static U in_use() { static void *a[8192]; static U n[8192]; int c = 0; SASListInUseMem(a, n, &c); U t = 0; for (int i = 0; i < c; i++) t += n[i]; return t; }
MC_CONFIG(ty, "typed-blocks", 2, 2) {
  setup(); track_region(); std::vector<U> z; for (int b = 0; b <= 24; b++) for (long d : {-1, 0, 1}) z.push_back((1ul << b) + d); for (U x : {3000ul, 5000ul, 20000ul, 70000ul, 300000ul, 1500000ul, 5000000ul, 20ul * MB, 40ul * MB}) z.push_back(x); if (opts.thorough) for (U x : {33ul * MB, 64ul * MB, 100ul * MB, 256ul * MB}) z.push_back(x); for (U x : {257ul * MB, 512ul * MB, 1ul << 33, ~0ul >> 1}) z.push_back(x);
  { track_push(); char *b = (char *)SASBlockAlloc(32 * MB); memset(b, 0x77, 4 * MB); for (U i = 0; i < 32 * MB; i += 4096) b[i + 4088] = 0x77; SASBlockDealloc(b, 32 * MB); SASBlockAlloc(4 * K); }
  int n = 0; for (U x : z) { if (n++ % opts.nshards != opts.shard) continue; track_push(); U u0 = in_use(); RUN(strf("allocating a typed block of %lu bytes", x)); char *p = nullptr; bool ok = guarded([&] { p = (char *)SASSOMAlloc((long)x, (long)x); }); st.states++; st.transitions += 2; st.evaluations++;
    if (ok && p) { U u1 = in_use(); MC_CHECK(u1 - u0 >= x, "short", "%s: only %lu more bytes are in use", g_at.c_str(), u1 - u0); for (U i = 0; i < u1 - u0; i += 8) if (*(U *)(p + i)) { violation("not-zero", "%s: not zero at +%#lx of %#lx", g_at.c_str(), i, u1 - u0); break; }
      RUN(strf("freeing a typed block of %lu bytes", x)); guarded([&] { SASSOMDestroy(p, (long)x); }); MC_CHECK(in_use() == u0, "leak", "%s: %lu bytes are in use, %lu before it was allocated", g_at.c_str(), in_use(), u0); }
    else if (ok) { MC_CHECK(x > SegmentSize, "refused", "%s was refused", g_at.c_str()); MC_CHECK(in_use() == u0, "leak", "%s was refused but %lu bytes remain in use", g_at.c_str(), in_use() - u0); }
    sample(g_at); track_pop(); }
  if (opts.shard == 0) for (U x = 1; x <= 70000; x += x < 200 ? 1 : 997) { RUN(strf("allocating %lu bytes of local memory", x)); char *p = (char *)SASLocalAlloc(x); MC_CHECK(p, "refused", "%s was refused", g_at.c_str()); if (p) { memset(p, 1, x); bool out = (U)p < LO || (U)p >= LO + RegionSize; MC_CHECK(out, "not-local", "%s returned %s", g_at.c_str(), at(p).c_str()); SASLocalDealloc(p, x); } st.transitions += 2; }
}
// addresses outside the region, at both of its ends and elsewhere: no container
MC_CONFIG(ou, "outside", 1, 1) {
  setup(); track_region(); static char mine[4096] __attribute__((aligned(4096))); U hi = LO + RegionSize; std::vector<U> as{0, 1, 8, 4096, LO - 1, LO - 8, LO - 4096, LO - (256 * MB), hi, hi + 1, hi + 4096, (U)mine, (U)&mine[4095], (U)&as, ~0ul, ~0ul - 4095};
  for (U a : as) { RUN(strf("looking up the address %#lx", a)); SASBlockHeader *h = (SASBlockHeader *)1; guarded([&] { h = SASFindHeader((void *)a); }); MC_CHECK(!h, "outside", "%#lx, outside the region, resolves to %p", a, h); st.states++;
    refuses(a, "SASSimpleHeapNearAlloc", [&] { return SASSimpleHeapNearAlloc((void *)a, 48); }); refuses(a, "SASSimpleHeapNearFind", [&] { return SASSimpleHeapNearFind((void *)a); }); refuses(a, "SASSimpleStackNearAlloc", [&] { return SASSimpleStackNearAlloc((void *)a, 64); }); refuses(a, "SPHLockFreeHeapNearAlloc", [&] { return SPHLockFreeHeapNearAlloc((void *)a, 64); }); refuses(a, "SPHLockFreeHeapNearFind", [&] { return SPHLockFreeHeapNearFind((void *)a); }); refuses(a, "SASCompoundHeapNearAlloc", [&] { return SASCompoundHeapNearAlloc((void *)a); }); refuses(a, "SPHCompoundPCQNearAlloc", [&] { return (void *)SPHCompoundPCQNearAlloc((void *)a); }); refuses(a, "SASStringBTreeNearAlloc", [&] { return (void *)SASStringBTreeNearAlloc((void *)a); });
    uint64_t t = track_hash(); RUN(strf("SASNearAlloc near %#lx", a)); char *p = nullptr; guarded([&] { p = (char *)SASNearAlloc((void *)a, 48); }); MC_CHECK(p && ((U)p < LO || (U)p >= hi), "local", "%s returned %p", g_at.c_str(), p); if (p) { memset(p, 1, 48); guarded([&] { SASNearDealloc(p, 48); }); } MC_CHECK(track_hash() == t, "local-changed", "%s changed the region", g_at.c_str()); st.transitions += 10; }
}
