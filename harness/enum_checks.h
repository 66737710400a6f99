// enumeration of the string tree (T02) and the index (T04); KIND is "str" or "idx"
#include "map_common.h"
#include <algorithm>
struct EModel { std::map<int, long> m; std::set<int> must; bool open, refused; int last, start; };   // must: keys present since the enumeration started, not yet passed
struct EnumSys : SeqSysT<EModel> {
  Map *t; std::vector<int> univ; void *e = 0; bool starts = false; long V(int k) { return (k + 1) * 8L + 1; }
  EnumSys() { m.open = m.refused = false; m.last = m.start = -1; }
  std::string nm(int k) { return k < 0 ? strf("no key(%d)", k) : t->kname(k); }
  int nk() { return univ.size(); }
  int nops() override { return 1 + 2 * nk(); }          // next, put k, remove k
  std::string name(int o) override { return o == 0 ? "next" : strf("%s(%s)", o <= nk() ? "put" : "remove", t->kname(univ[(o - 1) % nk()]).c_str()); }
  bool enabled(int o) override { if (o == 0) return m.open && (t->emore(e) || !m.must.empty()); int k = univ[(o - 1) % nk()]; return o <= nk() ? !m.m.count(k) : m.m.count(k); }
  void put(int k) { int rc = t->put(k, V(k)); MC_CHECK(rc == 1, "put", "put of a new key returned %d", rc); m.m[k] = V(k); }
  void remove(int k) { long r = t->remove(k); MC_CHECK(r == V(k), "remove", "remove of a present key returned %#lx", r); m.m.erase(k); m.must.erase(k); }
  // open an enumeration, from the start or from a key
  void open(int start) {
    where = start < 0 ? "creating an enumeration" : "creating an enumeration from " + nm(start);
    e = t->ecreate(start); m.must.clear(); m.start = start; m.last = -1; for (auto &x : m.m) if (x.first >= start) m.must.insert(x.first);
    m.open = e != 0; m.refused = !e; st.evaluations++;
    if (!e) MC_CHECK(m.must.empty(), "create", "%s was refused although %zu keys lie in it, the first is %s", where.c_str(), m.must.size(), nm(*m.must.begin()).c_str());
    if (e && start >= 0) MC_CHECK(!m.must.empty(), "create", "%s was not refused although every key is less", where.c_str());
    if (e) { int hm = t->emore(e); MC_CHECK(!!hm == !m.must.empty(), "has-more", "a new enumeration %sreports has-more %d with %zu keys to come", start < 0 ? "" : ("from " + nm(start) + " ").c_str(), hm, m.must.size()); if (t->is_string && start < 0) cnt(m.m.size()); }
  }
  void cnt(long want) { long c = SASStringBTreeEnumCount(e); MC_CHECK(c == want, "enum-count", "the enumeration count is %ld with %ld keys to come", c, want); }
  void close() { if (e) t->edestroy(e); e = 0; m.open = false; }
  void next(bool plain) {
    long v = t->enext(e); st.transitions++; int k = v ? (int)(v / 8 - 1) : -1;
    std::string at = m.last < 0 ? "at its start" : "after " + nm(m.last);
    if (!v) { MC_CHECK(m.must.empty(), "skipped", "the enumeration %s ended, but %s is still to come", at.c_str(), nm(*m.must.begin()).c_str()); MC_CHECK(!t->emore(e), "has-more", "the enumeration ended but reports more"); return; }
    MC_CHECK(k >= 0 && k < t->nkeys() && m.m.count(k) && m.m[k] == v, "invented", "the enumeration %s delivered the value %#lx, which no present key has", at.c_str(), v); if (k < 0 || k >= t->nkeys()) return;
    MC_CHECK(k > m.last && k >= m.start, "order", "the enumeration %s delivered %s%s", at.c_str(), nm(k).c_str(), k == m.last ? " again" : "");
    if (!m.must.empty()) MC_CHECK(*m.must.begin() >= k, "skipped", "the enumeration %s delivered %s and skipped %s", at.c_str(), nm(k).c_str(), nm(*m.must.begin()).c_str());
    int c = t->ecur(e); if (c != -3) MC_CHECK(c == k, "current", "the current key is %s after the value of %s", nm(c).c_str(), nm(k).c_str());
    m.must.erase(k); m.last = k;
    int hm = t->emore(e); auto it = m.m.upper_bound(k);
    MC_CHECK(!!hm == (it != m.m.end()), "has-more", "after %s the enumeration reports has-more %d, %s", nm(k).c_str(), hm, it == m.m.end() ? "it was the last key" : "there are greater keys");
    if (plain && t->is_string && m.start < 0) cnt(m.must.size());
  }
  // everything that is left, without further modifications
  void rest(bool plain, int limit = 1 << 30) { int n = 0; where = "enumerating"; while (t->emore(e) && n < limit) { next(plain); if (++n > t->nkeys() + 5) { violation("endless", "the enumeration does not end"); break; } } if (n < limit) MC_CHECK(m.must.empty(), "skipped", "the enumeration ended but %s is still to come", nm(*m.must.begin()).c_str()); }
  void all(int start) { open(start); if (e) rest(true); close(); st.executions++; st.states++; }
  void apply(int o) override { where = name(o); if (o == 0) next(false); else if (o <= nk()) put(univ[o - 1]); else remove(univ[o - 1 - nk()]); }
  void check() override { if (m.open && !m.must.empty() && m.last >= 0) { /* keys to come were there at the last step */ MC_CHECK(t->emore(e), "has-more", "the enumeration reports no more although %s is to come", nm(*m.must.begin()).c_str()); } }
  void leaf() override { if (m.open) rest(false); st.evaluations++; }
  uint64_t mhash() override { uint64_t h = m.open * 3 + m.last * 7; for (auto &x : m.m) h = mix(h, x.first); h = mix(h, 77); for (int k : m.must) h = mix(h, k); return h; }
};
static void setup(EnumSys &s, const char *fam, int n, bool nolock) {
  s.t = make_map(KIND, fam, n); s.t->nolock = nolock; join_region(); heap_arena(); s.t->create(65536, false, 0); MC_CHECK(s.t->h, "create", "create failed"); track_region(); for (int i = 0; i < n; i++) s.univ.push_back(i);
}
// every content over a small universe, every start
static void contents(const char *fam, int n, bool nolock) {
  EnumSys s; setup(s, fam, n, nolock); bool str = s.t->is_string;
  for (int sub = 0; sub < 1 << n; sub++) {
    if (sub % opts.nshards != opts.shard && opts.replay.empty()) continue; heartbeat(); path = {sub}; path_names = {strf("content %#x of %d keys", sub, n)};
    track_push(); s.save(); for (int j = 0; j < n; j++) { int k = (j * 5 + sub) % n; if (n % 5 == 0) k = j; if (sub >> k & 1) s.put(k); }
    for (int st0 = -1; st0 < (str ? n : 0); st0++) { track_push(); s.save(); size_t u = heap_used(); s.all(st0); MC_CHECK(heap_used() == u, "leak", "destroying the enumeration left %zu allocations behind", heap_used() - u); s.restore(); track_pop(); }
    s.restore(); track_pop();
  }
  st.depth = n; sample(strf("all %d contents over %s..%s", 1 << n, s.nm(0).c_str(), s.nm(n - 1).c_str()));
}
// every sequence of next, put and remove, from every content
static void mods(const char *fam, int n, bool nolock, int depth) {
  EnumSys s; setup(s, fam, n, nolock); bool str = s.t->is_string; std::vector<int> rp = path; int c = 0;
  for (int sub = 0; sub < 1 << n; sub++) for (int st0 = -1; st0 < (str ? n : 0); st0++) {
    int me = c++; if (opts.replay.empty() ? me % opts.nshards != opts.shard : me != (rp.empty() ? 0 : rp[0])) continue;
    track_push(); s.save(); for (int k = 0; k < n; k++) if (sub >> k & 1) s.put(k);
    s.open(st0); if (s.e) { SeqOpts o; o.depth = depth; o.min_depth = depth; o.leaf = true; where = strf("content %#x, start %d", sub, st0); int ns = opts.nshards; opts.nshards = 1; int sh = opts.shard; opts.shard = 0; path.clear(); seq_explore(s, o); opts.nshards = ns; opts.shard = sh; }
    s.restore(); track_pop();
  }
  sample(strf("every content over %d keys, every start, sequences of %d steps and modifications", n, depth));
}
// multi-level trees: every start; every single modification at many positions, then the rest
static void deep(const char *fam, const char *ord, int have, bool nolock, int near, int every, int limit) {
  int n = 2 * have + 1; EnumSys s; setup(s, fam, n, nolock);
  for (int i : order(ord, have)) { s.put(2 * i + 1); heartbeat(); }
  if (opts.shard == 0 || !opts.replay.empty()) s.all(-1);
  if (s.t->is_string) for (int k = opts.shard; k < n; k += opts.nshards) { path_names = {"start at " + s.nm(k)}; heartbeat(); s.open(k); if (s.e) s.rest(true, limit); s.close(); s.m.last = -1; st.executions++; st.states++; }
  s.open(-1);
  for (int p = 0; p <= have; p++) {
    if (p % every == 0 && (p / every) % opts.nshards == opts.shard) for (int k = 0; k < n; k++) {
      if (abs(k - s.m.last) > near && k > 3 && k < n - 4 && k % 61 != p % 61) continue; heartbeat();
      track_push(); s.save(); bool had = s.m.m.count(k); path_names = {strf("%d steps, then %s(%s)", p, had ? "remove" : "put", s.nm(k).c_str())};
      where = path_names[0]; if (had) s.remove(k); else s.put(k); s.check(); s.rest(false, limit); st.states++; st.executions++;
      s.restore(); track_pop();
    }
    if (p < have) { where = strf("step %d", p); s.next(true); }
  }
  s.close(); sample(strf("%d keys inserted %s: every single modification at every %dth position", have, ord, every));
}
