// U01: the command-line tool, run by processes of their own on stores with every small history of blocks, while another
// process is joined, has left or was killed.  What it prints is parsed and compared with what the processes know.
#define PR_U01
#include "PR.cpp"
#include <getopt.h>
extern "C" int sasutil_main(int, char **);
struct Big { int n[5]; std::pair<U, U> v[5][40000]; long dreg, duse, anchor, flag; };
static Big *big; static char *args; static const int NARGS = 8192;
static S uo, ue;
static void util_exec(U *a, long *r) { switch (my().cmd) {
  case UTIL: { std::vector<char *> v; static char nm[] = "sasutil"; v.push_back(nm); char *p = args; for (U i = 0; i < a[0]; i++) { v.push_back(p); p += strlen(p) + 1; } v.push_back(0);
    unsetenv("SASSTOREPATH"); if (a[1] == 1) setenv("SASSTOREPATH", dirs[a[2]].c_str(), 1); if (chdir(a[1] == 2 ? dirs[a[2]].c_str() : opts.scratch.c_str())) _exit(99); fflush(stdout); fflush(stderr); int o = open(uo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(ue.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600); dup2(o, 1); dup2(e, 2); optind = 0; _exit(sasutil_main(a[0] + 1, &v[0])); }
  case BIG: { Lister *f[] = {SASListInUseMem, SASListAllocatedRegion, SASListFreeMem, SASListUncommittedMem, SASListFreeRegion}; static void *x[40000]; static U n[40000]; for (int k = 0; k < 5; k++) { int c = 0; f[k](x, n, &c); big->n[k] = c; for (int i = 0; i < c; i++) big->v[k][i] = {(U)x[i], n[i]}; } big->dreg = SASMaxDepthAllocatedRegion(); big->duse = SASMaxDepthUseMem(); big->anchor = SASAnchorFreeSpace(); big->flag = getSASUseListFlag(); break; }
  case HOLD: SASLock((vm_address_t)(__SAS_BASE_ADDRESS + LX), SasUserLock__WRITE); if (a[0]) SASSeize(); break;
  case MANY: { static std::vector<char *> v; if (a[2] & 1) setSASLinearUseList(); U z = a[2] & ~1ul; if (!z) z = 4096; for (U i = 0; i < a[0]; i++) { char *p = (char *)SASBlockAlloc(z); if (!p) { r[0] = 1; return; } v.push_back(p); } for (size_t i = 0; i < v.size() && a[1]; i++) if (i % 2 == 0) SASBlockDealloc(v[i], z); else { *(U *)(v[i] + 8) = i; } v.clear(); break; } } }
// ---- running it, and reading what it says
static S out, err; static int rc; static bool signalled; static U runs;
static S slurp(const S &f) { S s; FILE *h = fopen(f.c_str(), "r"); if (!h) return s; static char b[1 << 16]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n); fclose(h); return s; }
static bool hung; static bool util(const std::vector<S> &v, int how, int store, int limit = 20000) {
  const int i = 3; spawn(i); char *p = args; for (auto &x : v) { strcpy(p, x.c_str()); p += x.size() + 1; } start(i, UTIL, v.size(), how, store); until_rest(i, limit); st.transitions++; st.evaluations++; st.executions++; runs++; Slot &s = ctl->s[i];
  S d = "sasutil"; for (auto &x : v) d += " " + x; hung = s.st != GONE; if (hung) { kill_(i); if (limit < 20000) return true; violation("hang", "%s did not come to an end, %s", d.c_str(), where.c_str()); return false; }
  out = slurp(uo); err = slurp(ue); signalled = !strncmp(s.what, "signal", 6) || out.find("SIGSEGV@") != S::npos; rc = signalled ? -1 : atoi(s.what + 5); return true; }
static std::vector<S> lines(const S &s) { std::vector<S> v; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == S::npos) b = s.size(); v.push_back(s.substr(a, b - a)); a = b + 1; } return v; }
static std::vector<U> numbers(const S &s) { std::vector<U> v; for (size_t i = 0; i < s.size();) { if (isdigit(s[i]) && (!i || !isalnum(s[i - 1]))) { char *e; bool hex = s[i] == '0' && s[i + 1] == 'x'; U x = strtoul(s.c_str() + i, &e, hex ? 16 : 10); v.push_back(x); i = e - s.c_str(); } else i++; } return v; }
static bool has(const S &l, const char *w) { return l.find(w) != S::npos; }
static S where0;
static void crashfree(const char *cmd) { MC_CHECK(!signalled, "crash", "sasutil %s ended by a signal, %s", cmd, where.c_str()); MC_CHECK(signalled || rc == 0, "exit", "sasutil %s ended with status %d (%s), %s", cmd, rc, err.c_str(), where.c_str()); }
static U total(int k) { U t = 0; for (int i = 0; i < big->n[k]; i++) t += big->v[k][i].second; return t; }
static void expect(const char *cmd, const char *what, const std::vector<U> &got, const std::vector<U> &want) { if (got == want) return; S g, w; for (U x : got) g += strf(" %lu", x); for (U x : want) w += strf(" %lu", x); violation("numbers", "sasutil %s says%s for \"%s\", it is%s, %s", cmd, g.c_str(), what, w.c_str(), where.c_str()); }
// stat and detail: the totals, depths and counts; detail: every list
static void totals(const char *cmd, const std::vector<S> &ls, bool detail) {
  static const char *L[] = {"Total in use", "Total Region used", "Total free", "Total Uncommitted", "Total Region free"}; int seen = 0, depth = 0; for (size_t k = 0; k < ls.size(); k++) { const S &l = ls[k]; for (int x = 0; x < 5; x++) if (has(l, L[x])) { seen++; expect(cmd, L[x], numbers(l), {total(x) / 1024}); if (x < 2) { MC_CHECK(k + 1 < ls.size() && has(ls[k + 1], "Max Tree Depth"), "output", "sasutil %s shows no depth below \"%s\", %s", cmd, L[x], where.c_str()); if (k + 1 < ls.size()) { depth++; expect(cmd, x ? "Max Tree Depth of the regions" : "Max Tree Depth of the memory in use", numbers(ls[k + 1]), {(U)(x ? big->dreg : big->duse), (U)big->n[x]}); } } }
    if (has(l, "Anchor Free Space")) { seen++; expect(cmd, "Anchor Free Space", numbers(l), {(U)big->anchor}); } if (has(l, "Use List Flag")) { seen++; MC_CHECK(has(l, big->flag == 1 ? "compact" : "linear"), "output", "sasutil %s says \"%s\", the flag is %ld, %s", cmd, l.c_str(), big->flag, where.c_str()); } }
  MC_CHECK(seen == 7 && depth == 2, "output", "sasutil %s shows %d of 7 facts, %s", cmd, seen, where.c_str());
  if (!detail) return; static const char *H[] = {"Memory in use", "Region allocated", "Memory free", "Memory uncommitted", "Region free"}; int cur = -1; std::vector<std::pair<U, U>> got[5]; for (auto &l : ls) { for (int x = 0; x < 5; x++) if (has(l, H[x]) && l.back() == ':') cur = x; if (cur >= 0 && isdigit(l[0]) && has(l, "0x")) { auto v = numbers(l); if (v.size() == 3) { MC_CHECK(v[0] == got[cur].size(), "output", "sasutil detail numbers an entry %lu after %zu others, %s", v[0], got[cur].size(), where.c_str()); got[cur].push_back({v[1], v[2]}); } } if (has(l, "Total")) cur = -1; }
  for (int x = 0; x < 5; x++) { bool same = (int)got[x].size() == big->n[x]; for (int i = 0; same && i < big->n[x]; i++) same = got[x][i].first == big->v[x][i].first && got[x][i].second == big->v[x][i].second / 1024; MC_CHECK(same, "lists", "sasutil detail shows other entries under \"%s\" (%zu) than the region has (%d), %s", H[x], got[x].size(), big->n[x], where.c_str()); } }
// what is in a block, as its owner wrote it
static std::map<U, U> content(const std::vector<Blk> &b) { std::map<U, U> m; for (auto &x : b) for (U o : offs(x.n)) m[(U)x.p + o] = word(x.p, o, x.tag); return m; }
// list: every entry, and every word that is not zero in every live block
static std::set<U> stale;   // words that were written in blocks freed since
static void listed(const std::vector<S> &ls, const std::vector<Blk> &live, bool strict) {
  size_t n = 0; std::map<U, U> got; bool sum = false; for (auto &l : ls) { if (isdigit(l[0]) && has(l, "0x") && has(l, "KB")) { auto v = numbers(l); MC_CHECK(v.size() == 3 && v[0] == n && (int)n < big->n[0] && v[1] == big->v[0][n].first && v[2] == big->v[0][n].second / 1024, "lists", "sasutil list shows \"%s\" as entry %zu, %s", l.c_str(), n, where.c_str()); n++; } else if (has(l, " @ 0x") && l.compare(0, 5, "scane") == 0) { U w = 0, a = 0; if (sscanf(l.c_str(), "%*s %lx @ %lx", &w, &a) == 2) got[a] = w; } else if (has(l, "Total in use")) { sum = true; expect("list", "Total in use", numbers(l), {total(0) / 1024}); } }
  MC_CHECK(sum && (int)n == big->n[0], "lists", "sasutil list shows %zu of %d entries, %s", n, big->n[0], where.c_str());
  auto want = content(live); for (auto &x : want) { auto f = got.find(x.first); if (f == got.end() || f->second != x.second) { violation("list-dump", "sasutil list shows %s at %#lx, which holds %#lx in a block in use, %s", f == got.end() ? "nothing" : "something else", x.first, x.second, where.c_str()); break; } }
  if (strict) for (auto &x : got) { bool in = false; for (auto &b : live) in = in || (x.first >= (U)b.p && x.first < (U)b.p + b.n); if (in && !want.count(x.first) && !stale.count(x.first)) { violation("list-dump", "sasutil list shows %#lx at %#lx, which holds zero, %s", x.second, x.first, where.c_str()); break; } } }
// dump: every line is the sixteen bytes at its address; what a freed block left in a later one is not judged
static void dumped(const std::vector<S> &ls, const std::vector<std::pair<U, U>> &ranges, const std::vector<Blk> &live) {
  auto c = content(live); auto byte = [&](U a) -> int { if (!c.count(a & ~7ul) && stale.count(a & ~7ul)) return -1; auto f = c.find(a & ~7ul); return f == c.end() ? 0 : f->second >> (a & 7) * 8 & 255; }; std::vector<U> want; for (auto &r : ranges) for (U a = r.first; a < r.first + r.second; a += 16) want.push_back(a); size_t n = 0, starts = 0; for (auto &l : ls) { if (has(l, "Start address")) { auto v = numbers(l); MC_CHECK(v.size() == 2 && starts < ranges.size() && v[0] == ranges[starts].first && v[1] == ranges[starts].second, "output", "sasutil dump says \"%s\", %s", l.c_str(), where.c_str()); starts++; continue; } if (l.compare(0, 2, "0x")) continue;
    U a; unsigned w[4]; int at = 0; if (sscanf(l.c_str(), "%lx %x %x %x %x %n", &a, w, w + 1, w + 2, w + 3, &at) != 5) { violation("output", "sasutil dump says \"%s\", %s", l.c_str(), where.c_str()); return; } if (n >= want.size() || a != want[n]) { violation("dump", "sasutil dump shows %#lx in line %zu, %s", a, n, where.c_str()); return; } n++; S t; for (int i = 0; i < 16; i++) { int k = byte(a + i); unsigned x = k < 0 ? w[i / 4] >> i % 4 * 8 & 255 : k; t += x < 32 || x > 126 ? '.' : (char)x; if ((w[i / 4] >> i % 4 * 8 & 255) != x) { violation("dump", "sasutil dump shows \"%s\", the byte at %#lx is %#x, %s", l.c_str(), a + i, x, where.c_str()); return; } } MC_CHECK(l.substr(at) == "<" + t + ">", "dump", "sasutil dump shows \"%s\", the characters are \"%s\", %s", l.c_str(), t.c_str(), where.c_str()); }
  MC_CHECK(n == want.size() && starts == ranges.size(), "dump", "sasutil dump shows %zu of %zu lines, %s", n, want.size(), where.c_str()); }
// ---- the states: every short history of blocks
struct UOp { char c; int x; };
static const U USZ[] = {4096, 65536, 1 << 20, 16 << 20};
static std::vector<Blk> live; static std::vector<UOp> hist_;
static void world(const std::vector<UOp> &h, bool second) { wipe(); live.clear(); stale.clear(); spawn(0); S d = "preparing"; where = d; call(0, JOIN, 0); MC_CHECK(!res(0), "join", "joining returned %ld", res(0)); U tag = 1; S t; for (auto &o : h) { if (o.c == 'a') { call(0, ALLOC, USZ[o.x], ++tag); MC_CHECK(res(0), "refused", "a block of %lu bytes was refused", USZ[o.x]); live.push_back({(char *)res(0), USZ[o.x], tag}); t += strf("; a block of %lu bytes", USZ[o.x]); } else if (o.c == 'l') { call(0, MANY, 0, 0, 1); t += "; linear in-use list"; } else { size_t k = o.c == 'f' ? 0 : live.size() - 1; Blk b = live[k]; live.erase(live.begin() + k); for (U x : offs(b.n)) stale.insert((U)b.p + x); call(0, FREE, (U)b.p, b.n); t += o.c == 'f' ? "; the oldest block freed" : "; the newest block freed"; } }
  call(0, BIG); U use = 1 << 20; for (auto &b : live) use += b.n; MC_CHECK(total(0) == use, "use-list", "%lu bytes are listed in use, %lu should be, %s", total(0), use, t.c_str()); call(0, LISTS); where0 = "on a store after" + (t.empty() ? S(" joining") : t.substr(1)); where = where0; }
static void intact(int i, long h, const char *cmd) { ctl->nblk = 0; for (auto &b : live) ctl->blk[ctl->nblk++] = b; call(i, VERIFY); MC_CHECK(!res(i), "changed", "sasutil %s: %s, %s", cmd, ctl->text[i], where.c_str()); call(i, LISTS); MC_CHECK(res(i) == h, "changed", "the region's lists are not what they were before sasutil %s, %s", cmd, where.c_str()); call(i, LOCKED, 1); MC_CHECK(!ctl->text[i][0], "lock", "%s after sasutil %s, %s", ctl->text[i], cmd, where.c_str()); }
static std::vector<S> with(int how, std::vector<S> v) { if (how == 0) { v.insert(v.begin(), dirs[0]); v.insert(v.begin(), "-p"); } return v; }
static S hx(U a, U n) { return strf("%lx:%lu", a, n); }
static void commands(const std::vector<UOp> &h, int k) {
  U n = h.size(); path_names.clear(); path.clear(); for (auto &o : h) { path.push_back(o.c * 16 + o.x); path_names.push_back(o.c == 'a' ? strf("allocate %lu", USZ[o.x]) : o.c == 'l' ? S("linear") : o.c == 'f' ? S("free the oldest") : S("free the newest")); }
  st.states++; world(h, false); long lh = res(0); sample(where0); bool left = k % 2; if (left) { call(0, CLEANUP); where = where0 + ", its user gone"; } else where = where0 + ", its user there";
  int how = k % 3; static const char *HOW[] = {", named by -p", ", named by the environment", ", in the working directory"}; S w = where; auto at = [&](int x) { where = w + HOW[x % 3]; return x % 3; };
  int x = at(how); if (util(with(x, {"stat"}), x, 0)) { crashfree("stat"); totals("stat", lines(out), false); } x = at(how + 1); if (util(with(x, {"detail"}), x, 0)) { crashfree("detail"); totals("detail", lines(out), true); } x = at(how + 2); if (util(with(x, {"list"}), x, 0)) { crashfree("list"); listed(lines(out), live, false); }
  std::vector<std::pair<U, U>> r; std::vector<S> v{"dump"}; for (auto &b : live) { for (auto q : {std::make_pair(48ul, 32ul), std::make_pair(b.n - 32, 32ul), std::make_pair(64ul, 160ul)}) { r.push_back({(U)b.p + q.first, q.second}); v.push_back(hx(r.back().first, r.back().second)); } } x = at(how); if (util(with(x, v), x, 0)) { crashfree("dump"); dumped(lines(out), r, live); }
  where = w; if (left) { call(0, JOIN, 0); MC_CHECK(!res(0), "join", "joining after sasutil returned %ld, %s", res(0), where.c_str()); } intact(0, lh, "stat, detail, list and dump");
  // reset: by whatever way its users ended
  for (int end = 0; end < 3; end++) { if (n > 2 && end != (int)(k % 3)) continue; world(h, false); if (end == 0) call(0, CLEANUP); else { call(0, HOLD, end == 2); kill_(0); } where = where0 + (end == 0 ? ", its user gone" : end == 1 ? ", its user killed holding a lock" : ", its user killed holding a lock and the semaphore"); x = at(k + end); if (!util(with(x, {"reset"}), x, 0)) continue; crashfree("reset"); auto f = files(0); MC_CHECK(f.size() == 1 && f[0] == "SAS00000.DAT", "reset-files", "%zu files after sasutil reset, %s", f.size(), where.c_str()); spawn(1); S w1 = where; where += ", after sasutil reset"; if (!call(1, JOIN, 0)) continue; MC_CHECK(!res(1), "join", "joining returned %ld, %s", res(1), where.c_str()); bool lin = n && h[0].c == 'l'; call(1, BIG); MC_CHECK(total(0) == 1 << 20 && total(1) == SegmentSize, "not-fresh", "the region is not as a new one, %s", where.c_str()); call(1, LISTS); if (!lin) MC_CHECK((U)res(1) == fresh_hash[0], "not-fresh", "the region is not as a new one, %s", where.c_str()); if (call(1, LOCKED, 1)) MC_CHECK(!ctl->text[1][0], "lock", "%s, %s", ctl->text[1], where.c_str()); if (call(1, ALLOC, 65536, 3)) { U b = res(1); MC_CHECK(b, "refused", "a block was refused, %s", where.c_str()); if (util(with(0, {"stat"}), 0, 0)) { call(1, BIG); crashfree("stat"); totals("stat", lines(out), false); } } }
  // remove
  world(h, false); call(0, CLEANUP); x = at(k); if (util(with(x, {"remove"}), x, 0)) { crashfree("remove"); auto f = files(0); MC_CHECK(f.empty(), "remove", "%zu files (%s) after sasutil remove, %s", f.size(), f.empty() ? "" : f[0].c_str(), where.c_str()); call(0, JOIN, 0); MC_CHECK(!res(0), "join", "joining returned %ld after sasutil remove, %s", res(0), where.c_str()); call(0, LISTS); MC_CHECK((U)res(0) == fresh_hash[0], "not-fresh", "a store removed by sasutil and joined again is not a new one, %s", where.c_str()); } }
static U states_seen;
static void walk(std::vector<UOp> &h, int nlive, int left, int &count, std::unordered_map<U, int> &seen_) {
  if (out_of_time()) { st.exhaustive = false; return; } if (count++ % opts.nshards == opts.shard) commands(h, count); if (!left) return;
  for (int z = 0; z < 4; z++) { h.push_back({'a', z}); walk(h, nlive + 1, left - 1, count, seen_); h.pop_back(); } if (nlive) { h.push_back({'f', 0}); walk(h, nlive - 1, left - 1, count, seen_); h.pop_back(); } if (nlive > 1) { h.push_back({'F', 0}); walk(h, nlive - 1, left - 1, count, seen_); h.pop_back(); } }
static void usetup() { setup(); big = (Big *)mmap(0, sizeof(Big), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); args = (char *)mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); uo = opts.scratch + "/uo"; ue = opts.scratch + "/ue"; NPROC = 2; NSTORE = 1; LIMIT = 10000; measure(); }
MC_CONFIG(u1, "histories", 8, 16) { usetup(); std::vector<UOp> h; int count = 0; std::unordered_map<U, int> s; if (!opts.replay.empty()) { for (int x : path) h.push_back({(char)(x / 16), x % 16}); auto p = path; for (int k = 0; k < 6; k++) commands(h, k); path = p; wipe(); return; } walk(h, 0, D(3, 4), count, s); for (auto l : {std::vector<UOp>{{'l', 0}}, {{'l', 0}, {'a', 0}}, {{'l', 0}, {'a', 0}, {'a', 2}}, {{'l', 0}, {'a', 2}, {'a', 1}, {'a', 1}}, {{'l', 0}, {'a', 0}, {'a', 0}, {'f', 0}}}) if (count++ % opts.nshards == opts.shard) commands(l, count); st.depth = D(3, 4); wipe(); }
// stores with many blocks: around every limit a list could have
MC_CONFIG(u2, "many-blocks", 8, 8) { usetup(); int c = 0; std::vector<std::pair<U, U>> v; for (U n : {1000, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 9000, 12000, 16383, 16384, 16385, 20000, 30000}) v.push_back({n, 0}); for (U n : {2000, 16382, 16384, 16390, 20000}) v.push_back({n, 1}); if (opts.thorough) for (U n = 5000; n < 32000; n += 1000) v.push_back({n, 0});
  for (auto &x : v) { if (c++ % opts.nshards != opts.shard) continue; if (!opts.replay.empty() && path != std::vector<int>{c}) continue; path = {c}; path_names = {strf("%lu blocks of 4096 bytes%s", x.first, x.second ? ", every second one freed" : "")}; sample(path_names[0]); st.states++; wipe(); live.clear(); spawn(0); where = "preparing"; call(0, JOIN, 0); LIMIT = 60000; call(0, MANY, x.first, x.second, 1); MC_CHECK(!res(0), "refused", "a block was refused"); call(0, BIG); where = "on a store with " + path_names[0]; MC_CHECK(total(0) == (1 << 20) + (x.second ? x.first / 2 : x.first) * 4096, "use-list", "%lu bytes are listed in use, %s", total(0), where.c_str());
    for (int k = 0; k < 3; k++) { const char *cmd = k == 0 ? "stat" : k == 1 ? "detail" : "list"; if (!util(with(k, {cmd}), k, 0)) continue; crashfree(cmd); if (k < 2) totals(cmd, lines(out), k == 1); else listed(lines(out), {}, false); } long t0 = big->anchor; Big *b0 = new Big(*big); call(0, BIG); MC_CHECK(!memcmp(b0->n, big->n, sizeof big->n) && t0 == big->anchor, "changed", "the region's lists are not what they were before sasutil, %s", where.c_str()); delete b0; LIMIT = 10000; call(0, REMOVE); }
  wipe(); }
// stores of many segments
MC_CONFIG(u5, "many-segments", 4, 4) { usetup(); int c = 0; for (U n : {3, 7, 14, 15, 16, 17, 24, 40}) for (int fr : {0, 1}) for (U z : {SegmentSize, SegmentSize / 2}) { if (c++ % opts.nshards != opts.shard) continue; if (!opts.replay.empty() && path != std::vector<int>{c}) continue; path = {c}; path_names = {strf("%lu blocks of %lu bytes%s", n, z, fr ? ", every second one freed" : "")}; sample(path_names[0]); st.states++; wipe(); live.clear(); spawn(0); where = "preparing"; call(0, JOIN, 0); call(0, MANY, n, fr, z + (n % 2)); MC_CHECK(!res(0), "refused", "a block was refused"); call(0, BIG); where = "on a store with " + path_names[0]; MC_CHECK(total(0) == (1 << 20) + (fr ? n / 2 : n) * z, "use-list", "%lu bytes are listed in use, %s", total(0), where.c_str()); call(0, LISTS); long lh = res(0);
    for (int k = 0; k < 2; k++) { const char *cmd = k == 0 ? "stat" : "detail"; if (!util(with((c + k) % 3, {cmd}), (c + k) % 3, 0)) continue; crashfree(cmd); totals(cmd, lines(out), k == 1); } call(0, LISTS); MC_CHECK(res(0) == lh, "changed", "the region's lists are not what they were before sasutil, %s", where.c_str()); call(0, CLEANUP); const char *cmd = c % 2 ? "reset" : "remove"; if (!util(with(c % 3, {cmd}), c % 3, 0)) continue; crashfree(cmd); auto f = files(0); MC_CHECK(f.size() == (c % 2 ? 1 : 0), "remove", "%zu files (%s) after sasutil %s, %s", f.size(), f.empty() ? "" : f.back().c_str(), cmd, where.c_str()); }
  wipe(); }
// everything else that can be said on the command line: nothing of it touches the store
MC_CONFIG(u3, "arguments", 4, 4) { usetup(); std::vector<UOp> h{{'a', 0}, {'a', 2}}; int c = 0; struct A { std::vector<S> v; int want; const char *text; int how; }; std::vector<A> all; // want: 0, 1: the exit status; -1: any status, but no signal
  world(h, false); U b0 = (U)live[0].p; S dash = "0";
  for (int how : {0, 1}) { for (auto v : std::vector<std::vector<S>>{{}, {"-h"}, {"-v"}, {"frobnicate"}, {"-x"}, {"path"}, {"STAT"}, {"sta"}, {"-h", "reset"}, {"-v", "remove"}}) all.push_back({v, 0, "", how}); for (auto v : std::vector<std::vector<S>>{{"dump"}, {"map"}}) all.push_back({v, 0, "", how}); for (S d : {S("zz:16"), S(""), S(":"), S("::"), S("zz"), hx(b0, 0).substr(0, 12), strf("%lx:", b0), strf("%lx:abc", b0), strf("%lx:16x", b0), strf(":%lu", 16ul)}) { all.push_back({{"dump", d}, 1, "", how}); all.push_back({{"dump", hx(b0, 16), d}, 1, "", how}); } all.push_back({{"dump", hx(b0, 0)}, 0, "", how}); for (S d : {"abc", "12x"}) all.push_back({{"map", d}, 1, "", how}); all.push_back({{"map", "999999999"}, -1, "", how}); }
  for (S d : {opts.scratch + "/none", uo}) for (S cmd : {"stat", "detail", "reset", "dump", "remove", "list"}) all.push_back({{"-p", d, cmd}, 1, "", 3}); all.push_back({{"-p"}, -1, "", 3});
  for (auto &a : all) { c++; if (c % opts.nshards != opts.shard) continue; if (!opts.replay.empty() && path != std::vector<int>{c}) continue; world(h, false); long lh = res(0); call(0, CLEANUP); path = {c}; S d; for (auto &x : a.v) d += (d.empty() ? "" : " ") + (x.empty() ? S("''") : x); path_names = {d}; st.states++; sample("sasutil " + d); where = where0 + ", sasutil " + d; U sh = stores_hash(); auto v = a.v; if (!util(a.how ? v : with(0, v), a.how == 3 ? 0 : a.how, 0)) continue; MC_CHECK(!signalled, "crash", "sasutil %s ended by a signal, %s", d.c_str(), where0.c_str()); if (a.want >= 0 && !signalled) MC_CHECK(rc == a.want || (a.want && rc), "exit", "sasutil %s ended with status %d, %s", d.c_str(), rc, where0.c_str()); bool opens = !a.v.empty() && a.v[0] == "dump"; if (!opens) MC_CHECK(stores_hash() == sh, "changed", "sasutil %s has changed the store's files", d.c_str());
    if (a.v.size() && a.v[0] == "path") MC_CHECK(has(out, a.how == 1 ? dirs[0].c_str() : "."), "path", "sasutil path says \"%s\"", out.c_str()); if (a.v.size() && a.v[0] == "-v") MC_CHECK(has(out, "0.2"), "version", "sasutil -v says \"%s\"", out.c_str()); if (a.v.empty() || (a.v[0] != "dump" && a.v[0] != "map" && a.v[0] != "path" && a.v[0] != "-v" && a.v[0] != "-p")) MC_CHECK(has(out + err, "sasutil"), "usage", "sasutil %s says nothing about its use", d.c_str()); if (a.v == std::vector<S>{"map"}) MC_CHECK(has(out, "[stack]"), "map", "sasutil map does not show its own memory map, but \"%s\"", out.substr(0, 100).c_str());
    call(0, JOIN, 0); MC_CHECK(!res(0), "join", "joining returned %ld, %s", res(0), where.c_str()); intact(0, lh, d.c_str()); }
  // the map of a process, as the system has it
  if (opts.shard == 0 && opts.replay.empty()) { world(h, false); spawn(1); where = "joining"; call(1, JOIN, 0); std::vector<S> v{"map"}; S want; for (int i : {0, 1}) { v.push_back(strf("%d", ctl->s[i].pid)); want += slurp(strf("/proc/%d/maps", ctl->s[i].pid)); } st.states++; if (util(v, 3, 0)) { crashfree("map"); S got; std::vector<int> pids; for (auto &l : lines(out)) if (l.find("Displaying") == S::npos) got += l + "\n"; MC_CHECK(got == want, "map", "sasutil map of two processes shows %zu characters, there are %zu", got.size(), want.size()); } }
  wipe(); }
// dump outside what is allocated: an error, not a hang, and the store is as it was
MC_CONFIG(u4, "dump-elsewhere", 1, 1) { usetup(); std::vector<UOp> h{{'a', 0}}; int c = 0; U base = __SAS_BASE_ADDRESS; for (U a : {16ul, base - 16, base + SegmentSize, base + 5 * SegmentSize + 4096, base + RegionSize - 16}) { c++; if (!opts.replay.empty() && path != std::vector<int>{c}) continue; path = {c}; path_names = {"dump " + hx(a, 16)}; world(h, false); long lh = res(0); st.states++; sample(path_names[0]); bool inside = a >= base && a < base + RegionSize; if (!util(with(0, {"dump", hx(a, 16)}), 0, 0, inside ? 3000 : 10000)) continue; if (hung) violation(inside ? "hang-unallocated" : "hang", "sasutil dump %s does not come to an end", hx(a, 16).c_str()); else MC_CHECK(rc != 0, "exit", "sasutil dump %s ended with status 0", hx(a, 16).c_str()); intact(0, lh, path_names[0].c_str()); } wipe(); }
