// configurations shared by the string tree (T01) and the index (T03); KIND is "str" or "idx"
#include "map_common.h"
#include <algorithm>
// small universe, every sequence of put/remove/replace up to a depth
static void small(const char *fam, int n, bool nolock, int dq, int dt, size_t block = 65536, bool fixed = false) {
  Map *t = make_map(KIND, fam, n); t->nolock = nolock; join_region(); t->create(block, fixed, 0);
  MC_CHECK(t->h, "create", "create failed");
  track_region();
  MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init(); s.fixed = fixed;
  sample(strf("%d keys such as %s, %s", n, t->kname(0).c_str(), t->kname(n - 1).c_str()));
  s.check(); seq_explore(s, {opts.thorough ? dt : dq});
}
// prefilled with `have` of 2*have+1 keys (the odd ones), inserted in `ord`; every sequence over all keys up to `depth`
static void prefilled(const char *fam, const char *ord, int have, bool nolock, int depth, size_t block = 65536) {
  int n = 2 * have + 1; Map *t = make_map(KIND, fam, n); t->nolock = nolock; join_region(); t->create(block, false, 0);
  MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.ops_mask = 3; s.init();
  where = "building"; s.lookups = false;
  for (int i : order(ord, have)) { s.step(0, 2 * i + 1); s.check_counts(); heartbeat(); }
  s.check(); track_region();
  sample(strf("%d keys inserted %s, then every sequence of %d operations over %d keys", have, ord, depth, n));
  SeqOpts o; o.depth = depth; o.min_depth = depth > 1 ? 1 : depth; seq_explore(s, o);
}
// n keys in, removed in `drain` order; at every `step`-th stage every single operation on every key is tried
static void drain(const char *fam, const char *fill, const char *drainord, int n, int stages, bool nolock, size_t block = 65536, int cycles = 1) {
  Map *t = make_map(KIND, fam, n); t->nolock = nolock; join_region(); t->create(block, false, 0);
  MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init(); track_region();
  if (opts.thorough) stages *= 4;
  std::vector<std::pair<int, int>> hist; for (int c = 0; c < cycles; c++) { for (int k : order(fill, n)) hist.push_back({0, k}); for (int k : order(drainord, n)) hist.push_back({1, k}); }
  bool rp = !opts.replay.empty(); std::vector<int> rpath = path; path.clear();
  long total = hist.size(), done = 0; int stage = 0; long every = std::max(1L, total / stages);
  auto perturb = [&](int only) {
    for (int op = 0; op < s.nops(); op++) {
      if (only >= 0 && op != only) continue;
      // all operations around the extremes and a full residue class elsewhere
      track_push(); s.save(); path.push_back(op); path_names.push_back("then " + s.name(op)); where = path_names.back(); heartbeat();
      s.apply(op); s.check_counts();
      // the neighbours of the key, and a residue class of all the others that differs from operation to operation
      int kk = s.univ[op % s.nk()]; for (int k = std::max(0, kk - 4); k <= std::min(n - 1, kk + 4); k++) s.check_key(k);
      for (int k = op % 61; k < n; k += 61) s.check_key(k);
      st.transitions++; st.states++; st.executions++;
      path.pop_back(); path_names.pop_back(); s.restore(); track_pop();
    }
  };
  for (auto &h : hist) {
    where = strf("history step %ld of %s/%s", done, fill, drainord); heartbeat();
    s.step(h.first, h.second); s.check_counts(); st.transitions++; st.states++; done++;
    s.check_key(h.second); if (h.second) s.check_key(h.second - 1); if (h.second + 1 < n) s.check_key(h.second + 1);
    if (done % every == 0 || done == total) {
      bool mine = stage++ % opts.nshards == opts.shard;
      if (rp) { path = {(int)done}; path_names = {strf("history of %ld steps (fill %s, drain %s)", done, fill, drainord)}; s.check(); if (rpath.size() > 1 && rpath[0] == done) { perturb(rpath[1]); return; } continue; }
      if (!mine) continue;
      path = {(int)done}; path_names = {strf("history of %ld steps (fill %s, drain %s)", done, fill, drainord)};
      s.check(); st.executions++;
      if (stages > 1 && !out_of_time()) perturb(-1);
      if (out_of_time()) st.exhaustive = false;
    } else path = {(int)done};
  }
  st.depth = total; sample(strf("%d keys filled %s and drained %s in %ld steps, %d stages perturbed", n, fill, drainord, total, stage));
}
// steady use: the same fill/drain cycle again and again must neither fail nor use up space
static void churn(const char *fam, const char *fill, const char *drainord, int n, int cycles, bool keep, size_t block, bool fixed) {
  Map *t = make_map(KIND, fam, n); join_region(); t->create(block, fixed, 0);
  MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init(); if (opts.thorough) cycles *= 5;
  crash_sig = "churn-crash"; auto fo = order(fill, n), dor = order(drainord, n);
  for (int c = 0; c < cycles; c++) {
    path = {c}; path_names = {strf("cycle %d", c)}; where = strf("cycle %d of repeated fill/drain", c); heartbeat(); crash_sig = strf(c < 200 ? "churn-crash" : "churn-exhausted-%s-%s-%s-%d", fam, fill, drainord, n);
    for (int k : fo) if (!s.m.m.count(k)) s.step(0, k);
    if (c < 4 || c % 64 == 0) s.check(); else s.check_counts();
    for (int k : dor) { if (keep && k % 4 == 0) continue; s.step(1, k); }
    if (c < 4 || c % 64 == 0) s.check(); else s.check_counts();
    st.executions++; st.transitions += 2 * n; st.states++;
    if (out_of_time()) { st.exhaustive = false; break; }
  }
  sample(strf("%d %s keys in a %s tree of %zu bytes, filled %s and drained %s%s %d times over", n, fam, fixed ? "fixed" : "expanding", block, fill, drainord, keep ? " down to a quarter" : "", cycles));
  st.depth = cycles;
}
// growth to many keys of one size: every put is honoured or refused, whatever storage that needs
static void grow(const char *fam, const char *fill, int n, size_t block) {
  Map *t = make_map(KIND, fam, n); join_region(); t->create(block, false, 0);
  MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init();
  crash_sig = strf("put-spill-exhausted-%s-%s-%d", fam, fill, n);
  guarded([&]() { int c = 0; for (int k : order(fill, n)) { path = {c++}; where = strf("put number %d of keys in %s order", c, fill); heartbeat(); s.step(0, k); s.check_counts(); st.transitions++; st.states++; } s.check(); });
  crash_sig = "crash"; st.executions++; sample(strf("%d %s keys put in %s order", n, fam, fill));
}
// to the end of the list of blocks and beyond; with content checks before the last block is full
static void grow_limit(const char *fam, const char *fill, int before, int n, size_t block) {
  Map *t = make_map(KIND, fam, n); join_region(); t->create(block, false, 0); MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init();
  guarded([&]() { int c = 0; for (int k : order(fill, n)) { path = {c++}; where = strf("put number %d of keys in %s order", c, fill); heartbeat(); if (c == before) s.check(); if (c >= before) crash_sig = strf("list-full-%d", c); s.step(0, k); s.check_counts(); st.transitions++; st.states++; } s.check(); });
  crash_sig = "crash"; st.executions++; sample(strf("%d %s keys put in %s order", n, fam, fill)); }
// two trees share nothing; destroy gives every block back
static size_t free_region() {
  static void *a[20000]; static unsigned long z[20000]; unsigned long t = 0; int n = 20000; SASListFreeMem(a, z, &n); for (int i = 0; i < n; i++) t += z[i];
  n = 20000; SASListUncommittedMem(a, z, &n); for (int i = 0; i < n; i++) t += z[i]; return t;
}
static void destroy_gives_back(const char *fam, int n, size_t block, bool fixed) {
  Map *t = make_map(KIND, fam, n); join_region();
  void *warm = SASBlockAlloc(4096); (void)warm;
  for (int have = 0; have <= n; have += std::max(1, n / 16)) {
    size_t f0 = free_region(); t->create(block, fixed, 0); MapSys s; s.t = t; for (int i = 0; i < n; i++) s.univ.push_back(i); s.init();
    for (int k = 0; k < have; k++) s.step(0, k);
    s.check(); t->destroy(); size_t f1 = free_region(); st.executions++; st.states++; st.transitions += have;
    path = {have};
    MC_CHECK(f1 == f0, "destroy-leak", "create, %d puts, destroy: free region memory went from %zu to %zu", have, f0, f1);
  }
}
