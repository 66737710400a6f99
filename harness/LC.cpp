// L03: the locking operations of the containers, by two and three threads, under every interleaving. The locks are ideal ones (the lock
// manager is the business of L01 and L02). Every result and the final content must be those of some serial order of the calls, which
// keeps the order of calls that did not overlap; the serial orders are run on the same code.
#include "map_common.h"
#include "conc_common.h"
#include <algorithm>
extern "C" {
#include "sassimpleheap.h"
#include "sassimplestack.h"
#include "sascompoundheap.h"
#include "sphcompoundpcqheap.h"
#include "sphsinglepcqueue.h"
#include "sphcontext.h"
#include "sasalloc.h"
}
typedef unsigned long U; typedef std::string S; typedef std::vector<S> Prog;
static int D(int q, int t) { return opts.thorough ? t : q; }
static U in_use() { static void *a[8192]; static U n[8192]; int c = 0; SASListInUseMem(a, n, &c); U t = 0; for (int i = 0; i < c; i++) t += n[i]; return t; }
struct Kind {
  struct Held { char *p; U n; }; std::vector<Held> held[5], held0[5];
  virtual ~Kind() {}
  virtual void make(const S &how) = 0;
  virtual long exec(int t, const S &op) = 0;
  virtual S other(const S &) { return ""; }   // what a call may also be taken for: a near allocation is free to give up on nearness while others use the heap
  virtual std::vector<long> observe() = 0;
  virtual void reset() { for (int i = 0; i < 5; i++) held[i] = held0[i]; }
  void ready() { for (int i = 0; i < 5; i++) held0[i] = held[i]; }
  void distinct(char *p, U n, int t) { for (int i = 0; i < 5; i++) for (auto &h : held[i]) MC_CHECK(p + n <= h.p || h.p + h.n <= p, "overlap", "thread %d was given %p (%lu bytes) while thread %d holds %p (%lu bytes)", t, p, n, i, h.p, h.n); }
  long took(int t, char *p, U n) { if (p) { distinct(p, n, t); held[t].push_back({p, n}); } return (long)p; }
  Held drop(int t, bool last = false) { if (held[t].empty()) return {0, 0}; Held h = last ? held[t].back() : held[t].front(); held[t].erase(last ? held[t].end() - 1 : held[t].begin()); return h; }
};
struct Sys : ConcSys {
  Kind *k; std::vector<Prog> prog; struct Rec { int t, i, inv, ret; long res; }; std::vector<Rec> recs; int clk;
  struct Serial { std::vector<int> order; std::vector<std::vector<long>> res; std::vector<long> obs; S crash; }; std::vector<Serial> serial;
  Sys() { state_based = true; }
  uint64_t mhash() override { U h = clk; for (auto &r : recs) h = mix(h, mix(r.t * 64 + r.i, mix(r.inv * 64 + r.ret, r.res))); return h; }
  void share() override { conc_share((void *)__SAS_BASE_ADDRESS, SegmentSize); share_ideal_locks(); }
  void setup() override { k->reset(); recs.clear(); clk = 0; }
  void thread(int t) override { for (size_t i = 0; i < prog[t - 1].size(); i++) { conc_event(0); size_t at = recs.size(); recs.push_back({t, (int)i, clk++, -1, 0}); long r = k->exec(t, prog[t - 1][i]); conc_event(1); recs[at].res = r; recs[at].ret = clk++; } }
  void orders(std::vector<int> &cur, std::vector<int> left, std::vector<std::vector<int>> &out) { bool any = false; for (size_t t = 0; t < left.size(); t++) if (left[t]) { any = true; left[t]--; cur.push_back(t + 1); orders(cur, left, out); cur.pop_back(); left[t]++; } if (!any) out.push_back(cur); }
  void run_serial() { std::vector<int> cur, left; for (auto &p : prog) left.push_back(p.size()); std::vector<std::vector<int>> os; orders(cur, left, os); serial.clear();
    std::vector<std::pair<int, int>> alt; for (size_t t = 0; t < prog.size(); t++) for (size_t i = 0; i < prog[t].size(); i++) if (!k->other(prog[t][i]).empty()) alt.push_back({(int)t, (int)i}); auto keep = prog;
    for (int mask = 0; mask < 1 << alt.size(); mask++) { auto prog = keep; for (size_t i = 0; i < alt.size(); i++) if (mask >> i & 1) { auto &x = prog[alt[i].first][alt[i].second]; x = k->other(x); }
    for (auto &o : os) { track_push(); k->reset(); Serial s; s.order = o; s.res.resize(prog.size()); std::vector<int> at(prog.size(), 0); S d; for (int t : o) { d += strf(" %d:%s", t, prog[t - 1][at[t - 1]].c_str()); where = "the calls one after the other" + d; heartbeat(); s.res[t - 1].push_back(k->exec(t, prog[t - 1][at[t - 1]++])); S l = locks_held(); MC_CHECK(l.empty(), "lock-kept", "after%s, one after the other, locks are held:%s", d.c_str(), l.c_str()); st.transitions++; } s.obs = k->observe(); serial.push_back(s); track_pop(); } } }
  bool fits(const Serial &s) { std::vector<int> at(prog.size(), 0); std::vector<std::vector<int>> pos(prog.size()); int n = 0; for (int t : s.order) { pos[t - 1].push_back(n++); (void)at; }
    for (auto &r : recs) if (s.res[r.t - 1][r.i] != r.res) return false;
    for (auto &a : recs) for (auto &b : recs) if (a.ret < b.inv && pos[a.t - 1][a.i] > pos[b.t - 1][b.i]) return false; return true; }
  S calls() { std::vector<std::pair<int, S>> e; for (auto &r : recs) { e.push_back({r.inv, strf(" %d:%s{", r.t, prog[r.t - 1][r.i].c_str())}); e.push_back({r.ret, strf(" %d}=%#lx", r.t, r.res)}); } std::sort(e.begin(), e.end()); S d; for (auto &x : e) d += x.second; return d; }
  void finish() override { st.evaluations++; S l = locks_held(); MC_CHECK(l.empty(), "lock-kept", "after%s locks are held:%s", calls().c_str(), l.c_str());
    where = "looking at the content after" + calls(); auto obs = k->observe(); bool r = false, both = false; for (auto &s : serial) if (fits(s)) { r = true; if (s.obs == obs) { both = true; break; } }
    MC_CHECK(r, "not-serial", "no serial order of the calls gives these results:%s", calls().c_str());
    if (r && !both) { S o; for (long x : obs) o += strf(" %#lx", x); S e; for (auto &s : serial) if (fits(s)) { for (long x : s.obs) e += strf(" %#lx", x); e += " or"; } MC_CHECK(both, "content", "the final content fits no serial order with the results%s: it is%s, should be%s", calls().c_str(), o.c_str(), e.substr(0, e.size() - 3).c_str()); } }
  S outcome() override { S s; for (auto &r : recs) s += strf("%d:%lx ", r.t, r.res); return s; }
};
static void init() { static bool done; if (done) return; done = true; join_region(); ideal_locks(); heap_arena(); track_region(); track_statics(); install_handlers(); watchdog(60); }
static Prog split(const S &s) { Prog p; S w; for (char c : s + " ") if (c == ' ') { if (!w.empty()) p.push_back(w); w = ""; } else w += c; return p; }
static std::vector<std::vector<S>> pairs(std::vector<S> z) { std::vector<std::vector<S>> r; for (size_t i = 0; i < z.size(); i++) for (size_t j = i; j < z.size(); j++) r.push_back({z[i], z[j]}); return r; }
static void go(Kind *k, std::vector<S> hows, std::vector<std::vector<S>> progs, int bound) {
  init(); for (auto &how : hows) { track_push(); where = "preparing " + how; k->make(how); k->ready(); for (auto &p : progs) { Sys s; s.k = k; s.nthreads = p.size(); S d; for (auto &x : p) { s.prog.push_back(split(x)); d += (d.empty() ? "" : " | ") + x; } s.run_serial(); ConcOpts o; o.preemptions = bound; conc_explore(s, o, strf("%s: %s, preemption bound %d", how.c_str(), d.c_str(), bound)); } track_pop(); for (int i = 0; i < 5; i++) k->held[i].clear(); } }
// ---- simple heap
struct HeapK : Kind {
  SASSimpleHeap_t h; U size;
  void make(const S &how) override { size = how == "heap of 4K" || how == "holes" ? 4096 : 65536; h = SASSimpleHeapCreate(size); for (int i = 0; i < 5; i++) held[i].clear();
    if (how == "holes") for (int i = 0; i < 6; i++) took(1 + i % 2, (char *)SASSimpleHeapAlloc(h, 256 + 16 * i), 256 + 16 * i); }
  long exec(int t, const S &op) override { U n = op[1] == '1' ? 64 : op[1] == '2' ? 1024 : op[1] == '3' ? 2300 : 100; Held x; switch (op[0]) {
    case 'a': return took(t, (char *)SASSimpleHeapAlloc(h, n), n); case 'n': return took(t, (char *)SASSimpleHeapNearAlloc((char *)h + 600, n), n);
    case 'f': case 'F': x = drop(t, op[0] == 'F'); return x.p ? SASSimpleHeapFree(h, x.p, x.n) : -99; case 'd': x = drop(t); if (x.p) SASSimpleHeapNearDealloc(x.p, x.n); return !!x.p; case 'D': x = drop(t); if (x.p) SASNearDealloc(x.p, x.n); return !!x.p;
    case 's': return SASSimpleHeapFreeSpace(h); case 'e': return SASSimpleHeapEmpty(h); case 'x': return SASSimpleHeapFree(h, (char *)h + size, 64); case 'w': return SASSimpleHeapAlloc(h, size) != nullptr; } return -98; }
  std::vector<long> observe() override { std::vector<long> o{(long)SASSimpleHeapFreeSpace(h), SASSimpleHeapEmpty(h)}; for (int i = 0; i < 5; i++) for (auto &x : held[i]) { o.push_back((long)x.p); o.push_back(SASSimpleHeapFree(h, x.p, x.n)); } o.push_back(SASSimpleHeapFreeSpace(h)); o.push_back(SASSimpleHeapEmpty(h)); return o; } };
struct StackK : Kind {
  SASSimpleStack_t h;
  void make(const S &how) override { h = SASSimpleStackCreate(4096); if (how == "stack in use") for (int t = 1; t <= 2; t++) for (int i = 0; i < 2; i++) took(t, (char *)SASSimpleStackAlloc(h, 160), 160); }
  // a dealloc gives back everything above, the other thread's too
  long exec(int t, const S &op) override { U n = op[1] == '1' ? 64 : op[1] == '2' ? 1024 : 2300; switch (op[0]) {
    case 'a': { char *p = (char *)SASSimpleStackAlloc(h, n); if (p) held[t].push_back({p, n}); return (long)p; } case 'n': { char *p = (char *)SASSimpleStackNearAlloc((char *)h + 300, n); if (p) held[t].push_back({p, n}); return (long)p; }
    case 'f': { Held x = drop(t, true); if (x.p) SASSimpleStackDealloc(h, x.p); return !!x.p; } case 'F': { Held x = drop(t); if (x.p) SASSimpleStackDealloc(h, x.p); return !!x.p; } case 's': return SASSimpleStackFreeSpace(h); case 'x': SASSimpleStackDealloc(h, (char *)h + 70000); return 1; } return -98; }
  std::vector<long> observe() override { return {(long)SASSimpleStackFreeSpace(h), (long)SASSimpleStackAlloc(h, 16)}; } };
// compound heaps of pages; which page is given is not compared
struct CompK : Kind {
  SASCompoundHeap_t h; U page = 4096; U base; bool queues;
  CompK(bool q) { queues = q; }
  char *get() { return (char *)(queues ? (void *)SPHCompoundPCQAlloc(h) : (void *)SASCompoundHeapAlloc(h)); }
  char *mid = nullptr;   // in the second of three blocks
  char *middle(int t) { for (size_t i = 0; i < held[t].size(); i++) if ((U)held[t][i].p >> 14 == (U)mid >> 14) { char *p = held[t][i].p; held[t].erase(held[t].begin() + i); return p; } return nullptr; }
  char *near_(void *n) { return (char *)(queues ? (void *)SPHCompoundPCQNearAlloc(n) : (void *)SASCompoundHeapNearAlloc(n)); }
  void put(char *p) { if (queues) SPHCompoundPCQFree(h, (SPHSinglePCQueue_t)p); else SASCompoundHeapFree(h, (SASSimpleHeap_t)p); }
  S other(const S &op) override { return op == "n" || op == "m" ? "a" : ""; }
  void make(const S &how) override { base = in_use(); h = how[0] == 'f' ? SASCompoundFixedHeapCreate(16384) : SASCompoundHeapCreatePageSize(16384, page); int n = atoi(strrchr(how.c_str(), ' ')); for (int i = 0; i < n; i++) { char *last = nullptr; for (auto &v : held) if (!v.empty() && (!last || v.back().p > last)) last = v.back().p; took(1 + (n - 1 - i) % 2, (how[0] == 'p' || how[0] == 'h') && last ? near_(last) : get(), page); mid = i == 4 && !held[1].empty() ? held[1].back().p : mid; } if (how[0] == 'h') { for (int t : {2, 1}) if (char *p = middle(t)) { put(p); break; } } }   // packed: every block is full before the next is taken; holed: and then one of the middle block is freed
  long exec(int t, const S &op) override { Held x; switch (op[0]) {
    case 'a': return !!took(t, get(), page); case 'n': return !!took(t, near_(held[t].empty() ? (char *)h : held[t].back().p), page); case 'm': return !!took(t, near_(held[t].empty() ? (char *)h : held[t].front().p), page);
    case 'f': x = drop(t); if (x.p) put(x.p); return !!x.p; case 'F': x = drop(t, true); if (x.p) put(x.p); return !!x.p; case 'd': x = drop(t); if (x.p) SASCompoundHeapNearDealloc(x.p); return !!x.p; case 'D': x = drop(t, true); if (x.p) SASCompoundHeapNearDealloc(x.p); return !!x.p;
    case 'M': { char *p = middle(t); if (p) SASCompoundHeapNearDealloc(p); return !!p; } case 'N': { char *p = middle(t); if (p) put(p); return !!p; } case 's': return SASCompoundHeapFreeSpace(h); case 'S': return SASCompoundHeapAllocSpace(h); case '1': return SASCompoundHeapWriteAll(h, 1); case '2': return SASCompoundHeapPurgeAll(h, 1); case '3': return SASCompoundHeapReleaseAll(h); case '4': return SASCompoundHeapBringAll(h); case '5': return SASCompoundHeapSeqAccessAll(h); case '6': return SASCompoundHeapRandomAccessAll(h); case 'x': if (queues) SPHCompoundPCQFree(h, (SPHSinglePCQueue_t)((char *)h + (1 << 20))); else SASCompoundHeapFree(h, (SASSimpleHeap_t)((char *)h + (1 << 20))); return 1; case 'b': return SASCompoundHeapNearAlloc((char *)__SAS_BASE_ADDRESS + 64) != nullptr; } return -98; }
  std::vector<long> observe() override { std::vector<long> o{(long)SASCompoundHeapFreeSpace(h), (long)SASCompoundHeapAllocSpace(h)}; for (int i = 0; i < 5; i++) { o.push_back(held[i].size()); for (auto &x : held[i]) put(x.p); } o.push_back(SASCompoundHeapFreeSpace(h)); SASCompoundHeapDestroy(h); o.push_back(in_use() - base); return o; } };
// string trees and indexes
struct MapK : Kind {
  Map *m; int have = 0; void *en[5]; S kind, fam; std::vector<int> fresh;
  MapK(const S &k, const S &f) { kind = k; fam = f; m = make_map(k, f, f == "pfx" ? 12 : 2001); memset(en, 0, sizeof en); }
  // how many keys, inserted in ascending order, until the next one splits a node (1), or takes another block (2)
  int until(int what) { track_push(); m->create(65536, false, 0); int n = 0; for (;; n++) { track_push(); U u = in_use(); size_t f = m->freespace(); m->put(2 * n + 1, 9); bool s = m->freespace() != f && n > 0, b = in_use() != u; track_pop(); if (what == 1 ? s : b) break; m->put(2 * n + 1, 9); heartbeat(); } track_pop(); return n; }
  void make(const S &how) override { have = how == "empty" ? 0 : how == "one key" ? 1 : how == "three keys" ? 3 : how == "before a split" ? until(1) : how == "after a split" ? until(1) + 1 : how == "two levels" ? 2 * until(1) + 5 : until(2); m->create(65536, false, 0); for (int i = 0; i < have; i++) m->put(2 * i + 1, (2 * i + 2) * 8); }
  void reset() override { Kind::reset(); memset(en, 0, sizeof en); }
  // keys: 0 below the least, 1 the least, 2 between, 3 the second; 4 a middle one, 5 next to it; 6 the last, 7 above the last
  int key(char c) { int last = std::max(1, 2 * have - 1); switch (c) { case '0': return 0; case '1': return 1; case '2': return 2; case '3': return 3; case '4': return have / 2 * 2 + 1; case '5': return have / 2 * 2; case '6': return last; default: return last + 1; } }
  long exec(int t, const S &op) override { int k = op.size() > 1 ? key(op[1]) : 0; switch (op[0]) {
    case 'p': return m->put(k, (k + 1) * 8 + t); case 'r': return m->remove(k); case 'g': return m->get(k); case 'x': return m->replace(k, (k + 1) * 8 + 4 + t); case 'c': return !!m->contains(k); case 'n': return m->count(); case 'e': return m->empty(); case 'v': return m->modcount() > 0; case 's': return m->freespace();
    case 'k': return kind == "str" ? SASStringBTreeGetMinKey(m->h) != nullptr : SASIndexGetMinKey(m->h) != nullptr; case 'K': return kind == "str" ? SASStringBTreeGetMaxKey(m->h) != nullptr : SASIndexGetMaxKey(m->h) != nullptr;
    case 'o': en[t] = m->ecreate(-1); return !!en[t]; case 'i': return en[t] ? m->enext(en[t]) : -1; case 'h': return en[t] ? m->emore(en[t]) : -1; case 'q': if (en[t]) m->edestroy(en[t]); en[t] = 0; return 0; } return -98; }
  std::vector<long> observe() override { std::vector<long> o; long keys = 0; o.push_back(m->count()); o.push_back(m->empty()); o.push_back(m->minkey()); o.push_back(m->maxkey()); std::set<int> ks; for (int i = 0; i <= 2 * have + 4; i++) if (have < 20 || i < 6 || abs(i - have) < 6 || i > 2 * have - 6) ks.insert(i); for (int k : ks) o.push_back(m->get(k)); void *e = m->ecreate(-1); while (e && m->emore(e) && keys < 5000) { m->enext(e); keys++; } if (e) m->edestroy(e); o.push_back(keys); o.push_back(m->freespace()); return o; } };
static const char *NAMES[] = {"a", "ab", "", "0123456789abcdef"};
struct CtxK : Kind {
  SPHContext_t c; char *ad;
  void make(const S &how) override { ad = (char *)SASSimpleHeapCreate(4096) + 512; c = SPHContextCreate(how == "narrow context" ? 4096 : 65536); if (how == "narrow context") { U n = SPHContextFreeSpace(c) - 48; static char big[8192]; memset(big, 'x', sizeof big); while (n > 16) { U z = std::min(n, 512ul); big[z - 1] = 0; SPHContextAddName(c, big, ad + 1024 + n); big[z - 1] = 'x'; n -= (z + 15) / 16 * 16; big[0]++; } } else { SPHContextAddName(c, NAMES[1], ad + 64); if (how == "used context") SPHContextAddName(c, NAMES[3], ad + 192); } }
  long exec(int t, const S &op) override { const char *n = NAMES[op[1] - '0']; char *a = ad + 64 * (op[1] - '0'); char *b = op.size() > 2 ? ad + 64 * (op[2] - '0') : a; switch (op[0]) {
    case 'a': return SPHContextAddName(c, n, b); case 'r': return SPHContextRename(c, n, NAMES[op[2] - '0'], a); case 'd': return SPHContextRemoveByName(c, n); case 'D': return SPHContextRemoveByAddr(c, a); case 'f': { void *v = SPHContextFindByName(c, n); return v ? (char *)v - ad : -1; } case 'F': return SPHContextFindByAddr(c, a) != nullptr; case 's': return SPHContextFreeSpace(c); } return -98; }
  std::vector<long> observe() override { std::vector<long> o; for (auto n : NAMES) { char *v = (char *)SPHContextFindByName(c, n); o.push_back(v ? v - ad : -1); } for (int i = 0; i < 4; i++) { char *s = (char *)SPHContextFindByAddr(c, ad + 64 * i); int w = -1; for (int j = 0; s && j < 4; j++) if (!strcmp(s, NAMES[j])) w = j; o.push_back(w); } o.push_back(SPHContextFreeSpace(c)); return o; } };
struct ProjK : Kind {
  U u0; std::vector<SPHContext_t> ps;
  void make(const S &how) override { u0 = in_use(); if (how == "one project") SPHSetupAltProjectContext("p0"); }
  long exec(int t, const S &op) override { S n = strf("p%c", op[1]); switch (op[0]) { case 'P': return SPHSetupProjectContext(n.c_str()) != nullptr; case 'A': return SPHSetupAltProjectContext(n.c_str()) != nullptr; case 'R': return SPHRemoveProjectContext(n.c_str()) != nullptr; case 'D': return SPHDestroyProjectContext(n.c_str()); case 'G': return getProjectContextByName(n.c_str()) != nullptr; } return -98; }
  std::vector<long> observe() override { std::vector<long> o; void *seen[2]; for (int i = 0; i < 2; i++) { SPHContext_t c = getProjectContextByName(strf("p%d", i).c_str()); seen[i] = c; o.push_back(!!c); if (c) o.push_back(SPHContextAddName(c, "x", (char *)c + 64)); } o.push_back(seen[0] && seen[0] == seen[1]); o.push_back(in_use() - u0); return o; } };
#define CFG(id, nm, ...) MC_CONFIG(id, nm, 4, 8) { __VA_ARGS__; }
CFG(c1, "simple-heap", HeapK k; go(&k, {"heap of 4K", "holes", "heap of 64K"}, pairs({"a1", "a2 f", "a3 s", "n1 d", "f s", "F a1", "x e", "w", "s e"}), D(6, -1)))
CFG(c2, "simple-heap-three", HeapK k; go(&k, {"heap of 4K", "holes"}, {{"a1", "a3", "f"}, {"n1", "a2", "s"}, {"f a1", "F", "n1"}, {"a1 f", "a1 f", "s e"}}, D(3, 6)))
CFG(c3, "stack", StackK k; go(&k, {"stack", "stack in use"}, pairs({"a1", "a2 f", "a3 s", "n1", "f s", "F a1", "x a2"}), D(6, -1)))
CFG(c4, "compound", CompK k(false); go(&k, {"expanding with 0", "expanding with 2", "expanding with 3", "expanding with 5", "packed with 6", "packed with 7", "fixed with 2", "fixed with 3"}, pairs({"a", "a f", "n", "m d", "f a", "F s", "D S", "x", "b"}), D(3, -1)))
CFG(c5, "compound-three", CompK k(false); go(&k, {"expanding with 2", "expanding with 5", "packed with 6", "fixed with 2"}, {{"a", "n", "f"}, {"n", "n", "s"}, {"a f", "d", "m"}, {"a", "a", "a"}}, D(2, 4)))
CFG(c12, "compound-middle", CompK k(false); go(&k, {"packed with 9", "holed with 9"}, pairs({"a", "M", "N", "M a", "n", "a M"}), D(3, -1)))
CFG(c6, "compound-queues", CompK k(true); go(&k, {"expanding with 0", "expanding with 2", "expanding with 3", "expanding with 5", "packed with 6", "packed with 7", "fixed with 3"}, pairs({"a", "a f", "n", "m F", "f a", "F s", "x"}), D(3, -1)))
static std::vector<S> TP() { std::vector<S> v{"p0", "p7 g7", "r1", "r6 p6", "g1 c2", "x4", "e n"}; if (opts.thorough) for (auto x : {"p2", "p5 r5", "s k"}) v.push_back(x); return v; }
static std::vector<S> hows(std::vector<S> q) { return opts.thorough ? std::vector<S>{"empty", "one key", "three keys", "before a split", "after a split"} : q; }
CFG(c7, "tree", MapK k("str", "short"); go(&k, hows({"empty", "three keys", "before a split"}), pairs(TP()), D(2, 6)))
CFG(c8, "index", MapK k("idx", "u64"); go(&k, hows({"one key", "before a split"}), pairs(TP()), D(2, 6)))
CFG(c9, "tree-growing", MapK k("str", "short"); go(&k, {"before another block", "two levels"}, {{"p7", "p0"}, {"p7", "g1"}, {"p7", "r1"}, {"p7", "r6"}, {"p7 r7", "p5"}, {"p7", "s"}, {"p5", "e n"}, {"x1", "p7"}, {"r4", "r6"}}, D(3, 6)))
CFG(d1, "index-growing", MapK k("idx", "w2"); go(&k, {"before another block", "two levels"}, {{"p7", "p0"}, {"p7", "g1"}, {"p7", "r1"}, {"p7", "r6"}, {"p7 r7", "p5"}, {"p7", "s"}, {"p5", "e"}, {"x1", "p7"}, {"r4", "r6"}}, D(3, 6)))
static const std::vector<std::vector<S>> EP{{"o i i q", "r1"}, {"o i i q", "p0"}, {"o h i q", "r1 p1"}, {"o i h", "r6"}, {"o i i q", "x3"}, {"o i q", "o i q"}, {"i", "p2"}};
CFG(d2, "tree-enumerated", MapK k("str", "short"); go(&k, {"one key", "three keys", "after a split"}, EP, D(4, 8)))
CFG(d3, "index-enumerated", MapK k("idx", "u64"); go(&k, {"one key", "three keys", "after a split"}, EP, D(4, 8)))
CFG(d4, "maps-three", MapK k("str", "pfx"); go(&k, {"empty", "three keys"}, {{"p0", "p0", "g0"}, {"p2", "r1", "n"}, {"r1", "r1", "p1"}, {"x1", "g1", "r1"}}, D(1, 4)); MapK j("idx", "mixw"); go(&j, {"empty", "three keys"}, {{"p0", "p0", "g0"}, {"p2", "r1", "e"}, {"r1", "r1", "p1"}, {"x1", "g1", "r1"}}, D(1, 4)))
CFG(d5, "context", CtxK k; go(&k, {"context", "used context", "narrow context"}, pairs({"a00", "a01 f0", "a10 d0", "r12", "d1", "D1 s", "f1 F1", "a22 D2", "r13 f3"}), D(4, 8)))
CFG(d6, "projects", ProjK k; go(&k, {"no project", "one project"}, pairs({"P0", "A0", "P1", "R0", "D0", "G0 G1"}), D(2, 6)))
CFG(d7, "compound-written", CompK k(false); go(&k, {"expanding with 2", "expanding with 3", "packed with 6"}, {{"1", "a"}, {"2", "a"}, {"3", "n"}, {"4", "a"}, {"5", "n"}, {"6", "a"}, {"1 1", "a a"}, {"1", "d m"}, {"S", "a a"}}, D(3, -1)))
