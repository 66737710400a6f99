// M01/M02: block allocation and freeing by several threads, every interleaving.
#define R_NOCONFIG
#include "R.cpp"
#include "conc_common.h"
extern "C" int sasClearOnDealloc;
struct BSys : ConcSys {
  std::vector<std::string> prog; M m, m0; struct Al { char *p; U n; int t; bool freeing; }; std::vector<Al> live, live0; Iv free0, taken;
  BSys() { state_based = true; }
  uint64_t mhash() override { uint64_t x = 3; for (auto &a : live) x = mix(x, (U)a.p + a.n * 31 + a.t * 2 + a.freeing); for (auto &f : vfs.files) x = mix(x, f.second + 1); for (auto &b : taken) x = mix(x, b.first * 3 + b.second); return x; }
  void share() override { conc_share((void *)LO, ANCHOR); if (sasClearOnDealloc) for (auto &a : live0) if (a.n > 4096) conc_share(a.p + 4096, 1); }   // the clearing of a freed block, and its next owner's first access, are steps of their own
  void setup() override { live = live0; taken.clear(); vfs.files = m0.files; vfs_close(); }
  static U size(char c) { switch (c) { case 'a': return 4096; case 'b': return 8192; case 'c': return 65536; case 'h': return SEG / 2; default: return SEG; } }
  void thread(int t) override {
    for (char c : prog[t - 1]) { conc_event(0);
      if (c == 'f' || c == 'l') { int x = -1; for (size_t j = 0; j < live.size(); j++) if (live[j].t == t && !live[j].freeing) { x = j; if (c == 'f') break; } if (x < 0) continue; Al a = live[x]; if (M1) mark(a.p, a.n, 1); for (auto &b : live) if (b.p == a.p && b.t == t) b.freeing = true; SASBlockDealloc(a.p, a.n); conc_event(1); for (size_t j = 0; j < live.size(); j++) if (live[j].p == a.p && live[j].t == t && live[j].freeing) { live.erase(live.begin() + j); break; } }
      else if (c == 'L' || c == 'F') { std::vector<Al> before = live; Iv l = raw(c == 'L' ? SASListInUseMem : SASListFreeMem); conc_event(1); if (!M2) continue; MC_CHECK(disjoint(l), "list", "thread %d's listing of %s blocks gave%s", t, c == 'L' ? "in-use" : "free", show(l).c_str());
        for (auto &a : before) { if (a.freeing) continue; bool still = false; for (auto &b : live) still |= b.p == a.p && b.t == a.t && !b.freeing; if (!still) continue; bool in = covers(merged(l), (U)a.p, (U)a.p + a.n), some = in; for (auto &x : l) some |= x.first < (U)a.p + a.n && (U)a.p < x.second; if (c == 'L') MC_CHECK(in, "list", "thread %d's listing of in-use blocks gave%s, without the block at %s that was live all the while", t, show(l).c_str(), rel((U)a.p).c_str()); else MC_CHECK(!some, "list", "thread %d's listing of free blocks gave%s, with the block at %s that was live all the while", t, show(l).c_str(), rel((U)a.p).c_str()); }
        if (c == 'F') for (auto &x : free0) { bool touched = false; for (auto &b : taken) touched |= b.first < x.second && x.first < b.second; if (!touched) MC_CHECK(covers(merged(l), x.first, x.second), "list", "thread %d's listing of free blocks gave%s, without %s that was free all the while", t, show(l).c_str(), rel(x.first).c_str()); } }
      else { U n = size(c); char *p = (char *)SASBlockAlloc(n); conc_event(1); MC_CHECK(p, "refused", "thread %d's request of %lu bytes was refused", t, n); if (!p) continue; if (M1) { MC_CHECK((U)p % n == 0 && (U)p >= LO + ANCHOR, "align", "thread %d was given %s for %lu bytes", t, rel((U)p).c_str(), n); for (auto &a : live) MC_CHECK(p + n <= a.p || p >= a.p + a.n || a.freeing, "overlap", "thread %d was given %s (%lu bytes) while thread %d holds %s (%lu bytes)", t, rel((U)p).c_str(), n, a.t, rel((U)a.p).c_str(), a.n); }
        taken.push_back({(U)p, (U)p + n}); live.push_back({p, n, t, false}); if (M1) mark(p, n, 0); } } }
  void finish() override { st.evaluations++; M k; for (auto &a : live) k.v.push_back({a.p, a.n}); RUN("the threads' calls"); if (M1) for (auto &a : live) mark(a.p, a.n, 1); M1 = false; ::state(k); M1 = opts.prop != "M02"; }
  std::string outcome() override { std::string s; for (auto &a : live) s += strf("%d:%s ", a.t, rel((U)a.p).c_str()); return s; }
};
static void go(bool compact, std::vector<std::vector<std::string>> progs, const char *held, int bound, int clear = 0) {
  setup(compact); sasClearOnDealloc = clear; track_region(); track_push(); BSys s; M m; for (const char *h = held; *h; h++) if (*h == '-') { release(m, 0); s.live0.erase(s.live0.begin()); } else { alloc(m, BSys::size(*h)); s.live0.push_back({m.v.back().p, m.v.back().n, *h == 'S' ? 9 : 1 + (int)(s.live0.size() % progs[0].size()), false}); } ::state(m); s.m0.files = vfs.files; s.free0 = raw(SASListFreeMem);
  for (auto &p : progs) { s.prog = p; s.nthreads = p.size(); std::string d; for (auto &x : p) d += (d.empty() ? "" : " | ") + x; ConcOpts o; o.preemptions = bound; conc_explore(s, o, strf("%s, live at the start: %s, preemption bound %d", d.c_str(), held, bound)); }
  track_pop(); }
static std::vector<std::vector<std::string>> pairs(std::vector<std::string> z) { std::vector<std::vector<std::string>> r; for (size_t i = 0; i < z.size(); i++) for (size_t j = i; j < z.size(); j++) r.push_back({z[i], z[j]}); return r; }
MC_CONFIG(b1, "threads/fresh", 2, 8) { go(true, pairs({"a", "af", "ab", "hf", "S"}), "", D(5, -1)); }
MC_CONFIG(b2, "threads/used", 2, 8) { go(true, pairs({"f", "fa", "bf", "al", "ff"}), "aaaabbc", D(5, -1)); }
MC_CONFIG(b3, "threads/linear", 2, 8) { go(false, pairs({"f", "fa", "abl"}), "aaaabb", D(5, -1)); }
MC_CONFIG(b4, "threads/clearing", 2, 8) { go(true, pairs({"f", "fa", "c", "b"}), "ccbb", D(5, -1), 1); }
MC_CONFIG(b5, "threads/segments", 2, 8) { go(true, pairs({"S", "h", "Sf"}), "S", D(5, -1)); }
MC_CONFIG(b7, "threads/lists", 2, 8) { go(true, {{"f", "L"}, {"f", "F"}, {"a", "F"}, {"a", "L"}, {"c", "F"}, {"ff", "FL"}, {"fa", "F"}, {"fb", "L"}, {"S", "L"}, {"S", "F"}}, "aaaabbc--", D(5, -1)); }
MC_CONFIG(b8, "threads/lists-root", 2, 8) { go(true, {{"F", "f"}, {"F", "a"}, {"F", "b"}, {"L", "f"}, {"L", "a"}, {"F", "ff"}, {"F", "fa"}}, "aaaabbc-", D(5, -1)); }
MC_CONFIG(b6, "threads/three", 2, 8) { go(true, {{"a", "b", "f"}, {"af", "f", "f"}, {"a", "a", "a"}}, "aaab", D(2, 4)); }
