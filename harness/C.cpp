// C01: contexts: every bounded history of add, rename, remove and lookup against a plain map, with names of all shapes, lack of space in
// the context, in its trees and in the region, and the project contexts of the region.
#include "mc.h"
#include <string.h>
#include <algorithm>
extern "C" {
#include "sasalloc.h"
#include "sasstringbtree.h"
#include "sasstringbtreeenum.h"
#include "sphcontext.h"
#include "sphcontextpriv.h"
#include "sassimpleheap.h"
#include "sassim.h"
}
using namespace mc;
typedef unsigned long U; typedef std::string S;
static S g_at; static char *SC;               // scratch for arguments
#define RUN(what) do { g_at = (what); where = g_at; heartbeat(); } while (0)
static S q(const S &s) { return s.size() <= 24 ? "\"" + s + "\"" : strf("\"%s...\" (%zu bytes)", s.substr(0, 12).c_str(), s.size()); }
static std::vector<S> NM; static std::vector<char *> AD; static char **addr_base;
static int anum(void *p) { for (size_t i = 0; i < AD.size(); i++) if (AD[i] == p) return i; return -1; }
struct M { std::map<S, char *> n; };
static char *of(const M &m, const S &s) { auto i = m.n.find(s); return i == m.n.end() ? nullptr : i->second; }
static const S *named(const M &m, char *a) { for (auto &x : m.n) if (x.second == a) return &x.first; return nullptr; }
static SPHContext_t C; static U CAP; static bool roomy;      // roomy: refusals for lack of space are impossible
static void state(const M &m) {
  U used = 0; for (auto &x : m.n) used += (x.first.size() + 16) / 16 * 16;
  U fs = SPHContextFreeSpace(C); MC_CHECK(fs == CAP - used, "storage", "after %s: %lu bytes are free, %lu should be", g_at.c_str(), fs, CAP - used);
  for (auto &s : NM) { void *v = SPHContextFindByName(C, s.c_str()), *w = of(m, s); MC_CHECK(v == w, "by-name", "after %s: the name %s finds address %d, should find %d", g_at.c_str(), q(s).c_str(), anum(v), anum(w)); }
  for (auto a : AD) { char *s = (char *)SPHContextFindByAddr(C, a); const S *w = named(m, a); MC_CHECK(w ? s && *w == s : !s, "by-address", "after %s: address %d finds the name %s, should find %s", g_at.c_str(), anum(a), s ? q(s).c_str() : "none", w ? q(*w).c_str() : "none"); }
  std::vector<S> l, w; for (auto &x : m.n) w.push_back(x.first); if (SASStringBTreeEnum_t e = SPHContextGetNameEnum(C)) { for (int i = 0; i < 5000; i++) { if (!SASStringBTreeEnumHasMore(e)) break; void *v = SASStringBTreeEnumNext(e); char *k = SASStringBTreeEnumCurrent(e); if (!k) break; l.push_back(k); MC_CHECK(v == of(m, k), "list", "after %s: the list of names gives address %d for %s", g_at.c_str(), anum(v), q(k).c_str()); } SASStringBTreeEnumDestroy(e); }
  MC_CHECK(l == w, "list", "after %s: the list of names has %zu entries, should have %zu", g_at.c_str(), l.size(), w.size());
  st.evaluations += NM.size() + AD.size() + 1;
}
// how the arguments are given: in memory of the caller, or as the context's own pointers from a lookup by address
static const char *arg(const S &s, bool own, const M &m) { if (own) if (char *a = of(m, s)) if (const char *p = (const char *)SPHContextFindByAddr(C, a)) return p; strcpy(SC, s.c_str()); return SC; }
static void add(M &m, const S &s, char *a) {
  RUN(strf("adding %s for address %d", q(s).c_str(), anum(a))); int rc = 0; const char *k = arg(s, false, m); guarded([&] { rc = SPHContextAddName(C, k, a); });
  bool may = a && !of(m, s) && !named(m, a); MC_CHECK(!rc || may, "add-accepted", "%s was accepted though %s", g_at.c_str(), !a ? "it is no address" : of(m, s) ? "the name is taken" : "the address has a name"); MC_CHECK(rc || !may || !roomy, "add-refused", "%s was refused", g_at.c_str());
  if (rc && may) m.n[s] = a; }
static void rename_(M &m, const S &o, const S &s, char *a, int own) {
  RUN(strf("renaming %s to %s for address %d%s", q(o).c_str(), q(s).c_str(), anum(a), own == 1 ? " (the old name as found)" : own == 2 ? " (the new name a tail of the old as found)" : "")); int rc = 0; static char n2[70000]; const char *k = arg(o, own != 0, m), *k2 = strcpy(n2, s.c_str()); if (own == 2 && s.size() <= o.size() && o.substr(o.size() - s.size()) == s) k2 = k + (o.size() - s.size()); guarded([&] { rc = SPHContextRename(C, k, k2, a); });
  bool may = a && of(m, o) == a && (s == o || !of(m, s)); MC_CHECK(!rc || may, "rename-accepted", "%s was accepted", g_at.c_str()); MC_CHECK(rc || !may || !roomy, "rename-refused", "%s was refused", g_at.c_str());
  if (rc && may) { m.n.erase(o); m.n[s] = a; } }
static void rm_name(M &m, const S &s, bool own) { RUN(strf("removing the name %s%s", q(s).c_str(), own ? " (as found)" : "")); int rc = -9; const char *k = arg(s, own, m); guarded([&] { rc = SPHContextRemoveByName(C, k); }); bool may = of(m, s); MC_CHECK((rc == 0) == may, "remove", "%s returned %d", g_at.c_str(), rc); if (may) m.n.erase(s); }
static void rm_addr(M &m, char *a) { RUN(strf("removing address %d", anum(a))); int rc = -9; guarded([&] { rc = SPHContextRemoveByAddr(C, a); }); const S *s = named(m, a); MC_CHECK((rc == 0) == (s != nullptr), "remove", "%s returned %d", g_at.c_str(), rc); if (s) { S k = *s; m.n.erase(k); } }
struct Sys : SeqSysT<M> {
  int N() { return NM.size(); } int A() { return AD.size(); }
  int nops() override { return N() * A() + N() * N() + 2 * N() + A() + 3; }
  void apply(int o) override { if (o < N() * A()) { add(m, NM[o / A()], AD[o % A()]); return; } o -= N() * A(); if (o < N() * N()) { char *a = of(m, NM[o / N()]); rename_(m, NM[o / N()], NM[o % N()], a ? a : AD[0], (o / N() + o % N()) % 3); return; } o -= N() * N(); if (o < 2 * N()) { rm_name(m, NM[o / 2], o % 2); return; } o -= 2 * N(); if (o < A()) { rm_addr(m, AD[o]); return; } o -= A();
    if (o == 0) add(m, NM[0], nullptr); else if (o == 1) rename_(m, NM[1], NM[0], AD.back(), 0); else rename_(m, NM[0], NM[1], nullptr, 0); }
  std::string name(int o) override { if (o < N() * A()) return strf("add %s %d", q(NM[o / A()]).c_str(), o % A()); o -= N() * A(); if (o < N() * N()) return strf("rename %s %s", q(NM[o / N()]).c_str(), q(NM[o % N()]).c_str()); o -= N() * N(); if (o < 2 * N()) return strf("remove %s%s", q(NM[o / 2]).c_str(), o % 2 ? " as found" : ""); o -= 2 * N(); if (o < A()) return strf("remove address %d", o); o -= A(); return o == 0 ? "add without an address" : o == 1 ? "rename with a wrong address" : "rename without an address"; }
  uint64_t mhash() override { U h = 5; for (auto &x : m.n) { h = mix(h, anum(x.second)); for (char c : x.first) h = mix(h, c); } return h; }
  void check() override { auto a = g_at; state(m); }
  void leaf() override { if (m.n.empty()) return; track_push(); M k = m; auto a = g_at; int i = 0; while (!k.n.empty()) { S s = i % 2 ? k.n.begin()->first : k.n.rbegin()->first; if (i % 3 == 2) rm_addr(k, k.n[s]); else rm_name(k, s, i % 2); i++; state(k); } g_at = a; track_pop(); }
};
static void setup() { join_region(); ideal_locks(); install_handlers(); watchdog(30); crash_sig = "crash"; SC = (char *)malloc(70000); }
static int D(int q, int t) { return opts.thorough ? t : q; }
static void addresses(int n, U step) { char *b = (char *)SASSimpleHeapCreate(65536); AD.clear(); for (int i = 0; i < n; i++) AD.push_back(b + 512 + i * step); }
static void hist(U size, std::vector<S> names, int na, U step, int depth, bool r) { setup(); addresses(na, step); NM = names; roomy = r; RUN("creating the context"); guarded([&] { C = SPHContextCreate(size); }); MC_CHECK(C, "create", "cannot create a context of %lu bytes", size); if (!C) return; CAP = SPHContextFreeSpace(C); track_region(); Sys s; s.check(); SeqOpts o; o.depth = depth; o.leaf = true; seq_explore(s, o); }
MC_CONFIG(h1, "small", 4, 4) { hist(65536, {"a", "ab", ""}, 3, 64, D(6, 9), true); }
MC_CONFIG(h2, "lengths", 4, 4) { hist(65536, {S(15, 'x'), S(16, 'x'), S(32, 'x'), "x"}, 2, 8, D(5, 7), true); }
MC_CONFIG(h3, "prefixes", 4, 4) { hist(65536, {"name", "name2", "nam", "ame"}, 3, 1, D(4, 6), true); }
MC_CONFIG(h4, "no-space", 4, 4) { hist(4096, {S(1500, 'a'), S(1300, 'a'), S(1400, 'b'), "c"}, 4, 64, D(4, 6), false); }
MC_CONFIG(h5, "too-long", 4, 4) { hist(4096, {S(1900, 'a'), S(3900, 'b'), S(4000, 'a'), "c"}, 3, 64, D(4, 6), false); }
MC_CONFIG(h6, "tree-refuses", 4, 4) { hist(65536, {S(3000, 'a'), S(5000, 'b'), S(40000, 'a'), "c"}, 3, 64, D(4, 6), false); }
MC_CONFIG(h7, "exact-space", 4, 4) { hist(4096, {S(3966, 'a'), S(1982, 'b'), S(1983, 'c'), "d"}, 3, 64, D(4, 6), false); }
// every length of name
MC_CONFIG(len, "name-lengths", 4, 4) { setup(); addresses(3, 64); C = SPHContextCreate(65536); CAP = SPHContextFreeSpace(C); roomy = false; track_region(); track_push(); U top = opts.thorough ? 6000 : 2200; for (U n = opts.shard; n <= top; n += opts.nshards) for (int how = 0; how < 5; how++) { track_push(); NM = {S(n, 'k'), S(n + 1, 'k'), n ? S(n - 1, 'k') + "j" : S("z"), "y"}; M m; roomy = n < 560; add(m, NM[0], AD[0]); state(m); add(m, NM[2], AD[1]); state(m); switch (how) { case 0: rm_name(m, NM[0], false); break; case 1: rm_name(m, NM[0], true); break; case 2: rm_addr(m, AD[0]); break; case 3: rename_(m, NM[0], NM[1], AD[0], 0); break; case 4: rename_(m, NM[0], NM[2], AD[0], 0); break; } state(m); add(m, NM[3], AD[2]); state(m); rm_addr(m, AD[0]); rm_addr(m, AD[1]); rm_addr(m, AD[2]); state(m); st.states++; st.transitions += 7; track_pop(); } track_pop(); }
// a long history: many names, removed in every one of several orders, and again
MC_CONFIG(many, "many-names", 1, 1) {
  setup(); C = SPHContextCreate(65536); CAP = SPHContextFreeSpace(C); track_region(); track_push(); int K = D(300, 1200); char *b = (char *)SASSimpleHeapCreate(65536); AD.clear(); NM.clear(); for (int i = 0; i < K; i++) { AD.push_back(b + 256 + i * 8); NM.push_back(strf("%d-%s", (i * 7919) % 10007, S(i % 23, 'n').c_str())); } roomy = true; M m;
  for (int round = 0; round < 3; round++) { for (int i = 0; i < K; i++) { add(m, NM[i], AD[(i * 17) % K]); if (i % 50 == 0) state(m); st.transitions++; } state(m); for (int i = 0; i < K; i++) { int j = round == 0 ? i : round == 1 ? K - 1 - i : (i * 101) % K; if (i % 2) rm_name(m, NM[j], i % 4 == 1); else if (char *a = of(m, NM[j])) rm_addr(m, a); if (i % 50 == 0) state(m); st.transitions++; } for (auto &s : NM) if (of(m, s)) rm_name(m, s, false); state(m); st.states++; } track_pop(); }
// ---- the region is short of space ----
static U in_use() { static void *a[8192]; static U n[8192]; int c = 0; SASListInUseMem(a, n, &c); U t = 0; for (int i = 0; i < c; i++) t += n[i]; return t; }
struct P { std::map<S, SPHContext_t> p; SPHContext_t cur = nullptr; std::vector<SPHContext_t> out; };
static std::vector<S> PN; static U PSZ;
static void pstate(P &m) {
  for (auto &s : PN) { void *v = getProjectContextByName(s.c_str()); auto i = m.p.find(s); void *w = i == m.p.end() ? nullptr : i->second; MC_CHECK(v == w, "project", "after %s: the project %s is %p, should be %p", g_at.c_str(), q(s).c_str(), v, w); }
  MC_CHECK(getCurrentProjectContext() == m.cur, "current", "after %s: the current project is %p, should be %p", g_at.c_str(), getCurrentProjectContext(), m.cur);
  for (auto &x : m.p) { U f = SPHContextFreeSpace(x.second); MC_CHECK(f > 1000000, "project-usable", "after %s: the context of project %s has %lu free bytes", g_at.c_str(), q(x.first).c_str(), f); MC_CHECK(SPHContextFindByName(x.second, "mine") == (char *)x.second + 64, "project-content", "after %s: the context of project %s has lost its own name", g_at.c_str(), q(x.first).c_str()); }
  for (auto c : m.out) MC_CHECK(SPHContextFindByName(c, "mine") == (char *)c + 64, "project-content", "after %s: a removed project context has lost its own name", g_at.c_str());
}
static void psetup(P &m, const S &s, bool alt, bool may_fail = false) {
  RUN(strf("setting up the project %s%s", q(s).c_str(), alt ? " (not as the current one)" : "")); SPHContext_t r = nullptr, c0 = m.cur; U u0 = in_use(); bool have = m.p.count(s); guarded([&] { r = alt ? SPHSetupAltProjectContext(s.c_str()) : SPHSetupProjectContext(s.c_str()); });
  if (!r) { MC_CHECK(may_fail && !have, "project-refused", "%s failed", g_at.c_str()); if (!alt) m.cur = getCurrentProjectContext() ? c0 : nullptr; MC_CHECK(m.cur == getCurrentProjectContext(), "current", "%s failed and changed the current project", g_at.c_str()); (void)u0; return; }
  if (have) MC_CHECK(r == m.p[s], "project", "%s returned %p, it is %p", g_at.c_str(), r, m.p[s]); else { for (auto &x : m.p) MC_CHECK(x.second != r, "project", "%s returned another project's context", g_at.c_str()); m.p[s] = r; int ok = SPHContextAddName(r, "mine", (char *)r + 64); MC_CHECK(ok, "project-usable", "%s: the new context refuses a name", g_at.c_str()); }
  if (!alt) m.cur = r; }
struct PSys : SeqSysT<P> {
  int nops() override { return 4 * PN.size(); }
  bool enabled(int o) override { return o % 4 != 2 || m.out.size() < 2; }
  void apply(int o) override { const S &s = PN[o / 4]; bool have = m.p.count(s); switch (o % 4) {
    case 0: psetup(m, s, false); break; case 1: psetup(m, s, true); break;
    case 2: { RUN(strf("removing the project %s", q(s).c_str())); SPHContext_t r = nullptr; guarded([&] { r = SPHRemoveProjectContext(s.c_str()); }); MC_CHECK(r == (have ? m.p[s] : nullptr), "remove-project", "%s returned %p", g_at.c_str(), r); if (have) { m.out.push_back(m.p[s]); if (m.cur == m.p[s]) m.cur = nullptr; m.p.erase(s); } break; }
    case 3: { RUN(strf("destroying the project %s", q(s).c_str())); int rc = -9; U u0 = in_use(); guarded([&] { rc = SPHDestroyProjectContext(s.c_str()); }); MC_CHECK((rc == 0) == have, "destroy-project", "%s returned %d", g_at.c_str(), rc); U u1 = in_use(); MC_CHECK(u0 - u1 == (have ? PSZ : 0), "project-storage", "%s freed %lu bytes", g_at.c_str(), u0 - u1); if (have) { if (m.cur == m.p[s]) m.cur = nullptr; m.p.erase(s); } break; } } }
  std::string name(int o) override { static const char *n[] = {"set up", "set up aside", "remove", "destroy"}; return strf("%s %s", n[o % 4], q(PN[o / 4]).c_str()); }
  uint64_t mhash() override { U h = (U)m.cur; for (auto &x : m.p) h = mix(mix(h, (U)x.second), x.first.size()); for (auto c : m.out) h = mix(h, (U)c); return h; }
  void check() override { pstate(m); }
};
MC_CONFIG(pr, "projects", 4, 4) { setup(); RUN("measuring"); { U u0 = in_use(); SPHContext_t c = SPHContextCreate(1 << 20); PSZ = in_use() - u0; SPHContextDestroy(c); MC_CHECK(in_use() == u0, "project-storage", "creating and destroying a context left %ld bytes more in use", (long)(in_use() - u0)); } track_region(); track_statics(); PN = {"p", "pp", "project"}; PSys s; RUN("joining"); seq_explore(s, {D(5, 7), 1, true, false}); }
// the region can give only the first k of the blocks that creating a context, or a project, takes
MC_CONFIG(fail, "region-full", 1, 1) {
  vfs_arena((void *)__SAS_BASE_ADDRESS, 2 * SegmentSize); setup(); track_region(); track_statics(); vfs.fail_errno = ENOSPC; PN = {"p", "q", S(100, 'r')};
  for (int what = 0; what < 3; what++) for (U sixteen = 0; sixteen < 6; sixteen++) for (U rest : {0ul, 4096ul, 32768ul, 65536ul, 131072ul, 983040ul, 1ul << 20, (1ul << 20) + 65536, 2ul << 20}) for (int warm = 0; warm < 2; warm++) {
    track_push(); auto files = vfs.files; P m; RUN("joining"); if (warm) psetup(m, "p", false); U leave = sixteen * (16 << 20) + rest; char *extra = (char *)SASBlockAlloc(128 << 20); std::vector<std::pair<char *, U>> rs; for (U b = 64 << 20; b >= 4096; b >>= 1) if (leave & b) rs.push_back({(char *)SASBlockAlloc(b), b});
    vfs.fail_all = true; for (U b = SegmentSize; b >= 4096; b >>= 1) while (SASBlockAlloc(b)) heartbeat(); for (auto &r : rs) SASBlockDealloc(r.first, r.second); U u0 = in_use(); st.states++; st.transitions++; S d = strf(" with %lu bytes left in the region", leave); sample(d);
    if (what == 0) { RUN("creating a context of 65536 bytes" + d); SPHContext_t c = nullptr; bool ok = guarded([&] { c = SPHContextCreate(65536); }); if (ok && c) { C = c; CAP = SPHContextFreeSpace(c); NM = {"a", "b"}; AD = {(char *)c + 4096, (char *)c + 8192}; roomy = true; M k; g_at = "creating a context" + d; add(k, "a", AD[0]); state(k); add(k, "b", AD[1]); state(k); rm_name(k, "a", false); state(k); RUN("destroying the context" + d); guarded([&] { SPHContextDestroy(c); }); } if (ok) MC_CHECK(in_use() == u0, "full-leak", "%s (%s) left %ld bytes more in use", g_at.c_str(), c ? "created and destroyed" : "refused", (long)(in_use() - u0)); }
    else { S n = warm ? "q" : "p"; psetup(m, n, what == 2, true); g_at += d; pstate(m); if (!m.p.count(n) && warm) MC_CHECK(in_use() == u0, "full-leak", "%s was refused and left %ld bytes more in use", g_at.c_str(), (long)(in_use() - u0)); if (!m.p.count(n)) { psetup(m, n, what != 2, true); g_at += d; pstate(m); } SASBlockDealloc(extra, 128 << 20); psetup(m, n, what == 2); g_at += d + " and then 128M more"; pstate(m); }
    vfs.fail_all = false; vfs_close(); vfs.files = files; track_pop(); }
}
