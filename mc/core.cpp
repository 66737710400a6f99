#include "mc.h"
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <time.h>
#include <errno.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <ucontext.h>
#include <sys/prctl.h>
#include <execinfo.h>
#include <fstream>
#include <sstream>

namespace mc {
Opts opts; Stats st;
std::vector<int> path, sched; std::vector<std::string> path_names;
std::function<std::string()> describe, replay_extra; std::vector<std::string> replay_lines;
std::string where, crash_sig = "crash";
static std::vector<std::pair<std::string,std::string>> knowns;   // sig, text
static std::set<std::string> hit;
static double t0;
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
bool out_of_time() { return now() - t0 > opts.budget; }

std::string strf(const char *fmt, ...) { char b[4096]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b; }
void sample(const std::string &s) { if (st.samples.size() < 6) st.samples.push_back(s); }
std::vector<Config> &configs() { static std::vector<Config> c; return c; }

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static void write_stats() {
  if (opts.out.empty()) return;
  FILE *f = fopen(opts.out.c_str(), "w"); if (!f) return;
  fprintf(f, "{\"cfg\":\"%s\",\"shard\":%d,\"states\":%lu,\"transitions\":%lu,\"executions\":%lu,\"evaluations\":%lu,\"nontrivial\":%lu,\"outcomes\":%lu,\"depth\":%d,\"exhaustive\":%s,\"wall\":%.2f,\"note\":\"%s\",\"known\":[",
    opts.cfg.c_str(), opts.shard, st.states, st.transitions, st.executions, st.evaluations, st.nontrivial, st.outcomes, st.depth, st.exhaustive ? "true" : "false", now() - t0, jesc(st.note).c_str());
  bool first = true; for (auto &h : hit) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(h).c_str()); first = false; }
  fprintf(f, "],\"samples\":["); first = true;
  for (auto &s : st.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
}
static bool collect() { static bool c = getenv("MC_COLLECT") != 0; return c; }       // development only: list everything
bool is_known(const std::string &sig) {
  for (auto &k : knowns) if (k.first == sig) { hit.insert(sig); return true; }
  return false;
}
static bool dying = false;
bool violation(const std::string &sig, const char *fmt, ...) {
  char msg[8192]; va_list ap; va_start(ap, fmt); vsnprintf(msg, sizeof msg, fmt, ap); va_end(ap);
  if (is_known(sig)) return true;
  if (collect()) { static std::set<std::string> seen; if (seen.insert(sig).second) { printf("COLLECT %s | %s\n", sig.c_str(), msg); fflush(stdout); } return true; }
  if (dying) _exit(3);
  dying = true;
  std::string o;
  o += "property " + opts.prop + "\nconfig " + opts.cfg + "\n" + strf("thorough %d\n", opts.thorough);
  for (size_t i = 0; i < path.size(); i++) o += strf("op %d ", path[i]) + (i < path_names.size() ? path_names[i] : "") + "\n";
  if (!sched.empty()) { o += "sched"; for (int c : sched) o += strf(" %d", c); o += "\n"; }
  if (replay_extra) o += replay_extra();
  o += "sig " + sig + "\nmsg " + msg + "\n";
  if (describe) { std::string d = describe(); std::string l; std::istringstream is(d); while (std::getline(is, l)) o += "# " + l + "\n"; }
  if (!opts.replay_out.empty() && opts.replay.empty()) { FILE *f = fopen(opts.replay_out.c_str(), "w"); if (f) { fputs(o.c_str(), f); fclose(f); } }
  printf("MCFAIL %s\n%s", sig.c_str(), o.c_str()); fflush(stdout);
  write_stats();
  _exit(1);
}

// ---------------------------------------------------------------- hashing
uint64_t hash_bytes(const void *p, size_t n, uint64_t seed) {
  const uint64_t *w = (const uint64_t *)p; uint64_t a = seed ^ 0x9e3779b97f4a7c15ull, b = seed + 0xc2b2ae3d27d4eb4full; size_t k = n / 8;
  size_t i = 0;
  for (; i + 1 < k; i += 2) {
    unsigned __int128 m = (unsigned __int128)(w[i] ^ a) * (w[i + 1] ^ 0xa0761d6478bd642full ^ i);
    a = (uint64_t)m ^ (uint64_t)(m >> 64) ^ b; b = b * 0x9FB21C651E98DF25ull + w[i] + (w[i+1] << 1);
  }
  for (; i < k; i++) a = mix(a, w[i]);
  const unsigned char *c = (const unsigned char *)p + k * 8; for (size_t j = 0; j < n % 8; j++) a = mix(a, c[j]);
  return mix(a, b);
}

// ---------------------------------------------------------------- tracked memory
// A page is write-protected until first written at a level, then saved.  Pages written all the time become "hot": they
// are saved eagerly at every level and never protected, which saves a fault per execution.
struct Page { uint32_t lvl; uint8_t rw; uint8_t based; uint8_t hot; uint8_t faults; uint64_t contrib, base; };
struct TReg { uintptr_t base, end; Page *pg; };
static std::vector<TReg> regs;
struct Saved { TReg *r; size_t idx; char *copy; uint32_t oldlvl; uint64_t oldcontrib; };
struct Level { std::vector<Saved> saved; std::vector<char> statics; uint64_t H; };
static std::vector<Level> levels;
static std::vector<std::pair<TReg *, size_t>> rwlist;
static std::vector<char *> pool;
static uint64_t H = 0; static bool use_statics = false;
extern "C" { extern char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak)); }
static size_t statics_len() { return (__stop_mcdata - __start_mcdata) + (__stop_mcbss - __start_mcbss); }
static void statics_save(std::vector<char> &v) { size_t a = __stop_mcdata - __start_mcdata, b = __stop_mcbss - __start_mcbss; v.resize(a + b); if (a) memcpy(v.data(), __start_mcdata, a); if (b) memcpy(v.data() + a, __start_mcbss, b); }
static void statics_load(const std::vector<char> &v) { size_t a = __stop_mcdata - __start_mcdata, b = __stop_mcbss - __start_mcbss; if (a) memcpy(__start_mcdata, v.data(), a); if (b) memcpy(__start_mcbss, v.data() + a, b); }
void track_statics() { use_statics = true; if (levels.empty()) levels.emplace_back(); if (getenv("MC_DEBUG")) fprintf(stderr, "statics %zu bytes\n", statics_len()); }
void track_add(void *base, size_t len) {
  TReg r; r.base = (uintptr_t)base; r.end = r.base + len; r.pg = (Page *)mmap(0, (len / 4096) * sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (levels.empty()) levels.emplace_back();
  regs.reserve(4096); regs.push_back(r);
  if (mprotect(base, len, PROT_READ)) { perror("mprotect"); _exit(3); }
}
bool track_is_tracked(const void *p) { uintptr_t a = (uintptr_t)p; for (auto &r : regs) if (a >= r.base && a < r.end) return true; return false; }
static std::vector<std::pair<TReg *, size_t>> hotlist;
static void save_page(TReg *r, size_t i) {
  Page &p = r->pg[i]; char *pa = (char *)r->base + i * 4096; uint32_t cur = levels.size();
  if (p.lvl == cur) return;
  char *c; if (pool.empty()) c = (char *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); else { c = pool.back(); pool.pop_back(); }
  if (c == MAP_FAILED) { fprintf(stderr, "out of memory\n"); _exit(3); }
  memcpy(c, pa, 4096);
  if (!p.based) { p.based = 1; p.base = hash_bytes(c, 4096, (uintptr_t)pa); }
  levels.back().saved.push_back({r, i, c, p.lvl, p.contrib}); p.lvl = cur;
}
static bool on_fault(uintptr_t a) {
  for (auto &r : regs) if (a >= r.base && a < r.end) {
    size_t i = (a - r.base) / 4096; Page &p = r.pg[i]; char *pa = (char *)r.base + i * 4096;
    if (p.rw) return false;
    save_page(&r, i);
    p.rw = 1; rwlist.push_back({&r, i});
    mprotect(pa, 4096, PROT_READ | PROT_WRITE);
    if (p.faults < 250 && ++p.faults == 6 && hotlist.size() < 10) { p.hot = 1; hotlist.push_back({&r, i}); }
    return true;
  }
  return false;
}
uint64_t track_hash() {
  for (auto &x : rwlist) { Page &p = x.first->pg[x.second]; const char *pa = (char *)x.first->base + x.second * 4096; H -= p.contrib; p.contrib = hash_bytes(pa, 4096, (uintptr_t)pa) - p.base; H += p.contrib; }
  uint64_t h = H;
  if (use_statics) { size_t a = __stop_mcdata - __start_mcdata, b = __stop_mcbss - __start_mcbss; h = mix(h, hash_bytes(__start_mcdata, a, 1)); h = mix(h, hash_bytes(__start_mcbss, b, 2)); }
  return h;
}
void track_push() {
  track_hash();
  for (auto &x : rwlist) { Page &p = x.first->pg[x.second]; if (p.hot) continue; p.rw = 0; mprotect((char *)x.first->base + x.second * 4096, 4096, PROT_READ); }
  rwlist = hotlist;
  levels.emplace_back(); for (auto &x : hotlist) save_page(x.first, x.second); levels.back().H = H; if (use_statics) statics_save(levels.back().statics);
}
void track_pop() {
  Level L = std::move(levels.back());
  for (auto &s : L.saved) {
    Page &p = s.r->pg[s.idx]; char *pa = (char *)s.r->base + s.idx * 4096;
    if (!p.rw) mprotect(pa, 4096, PROT_READ | PROT_WRITE);
    memcpy(pa, s.copy, 4096); if (!p.hot) { mprotect(pa, 4096, PROT_READ); p.rw = 0; }
    p.lvl = s.oldlvl; p.contrib = s.oldcontrib; pool.push_back(s.copy);
  }
  // pages that became hot at this level were not yet saved at the one below
  rwlist = hotlist; H = L.H; if (use_statics) statics_load(L.statics);
  levels.pop_back(); for (auto &x : hotlist) save_page(x.first, x.second);
}
size_t track_level() { return levels.size(); }

// ---------------------------------------------------------------- signals
static sigjmp_buf gjb; static bool ginside = false; static volatile uint64_t beats = 0, last_beats = 0; static int wd = 0, idle = 0;
void heartbeat() { beats = beats + 1; }
static void on_segv(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGSEGV && on_fault((uintptr_t)si->si_addr)) return;
  uintptr_t pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (getenv("MC_DEBUG")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
  if (is_known(crash_sig) && ginside) siglongjmp(gjb, 1);
  if (collect() && ginside) { printf("COLLECT %s | crash %s\n", crash_sig.c_str(), where.c_str()); fflush(stdout); siglongjmp(gjb, 1); }
  violation(crash_sig, "crash: signal %d (%s) at address %p pc %#lx during %s", sig, strsignal(sig), sig == SIGABRT ? 0 : si->si_addr, pc, where.c_str());
}
static void on_alarm(int, siginfo_t *, void *uc) {
  if (beats != last_beats) { last_beats = beats; idle = 0; return; }
  if (++idle < 2) return;
  uintptr_t pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  if (getenv("MC_DEBUG")) { void *bt[40]; int n = backtrace(bt, 40); backtrace_symbols_fd(bt, n, 2); }
  std::string sig = crash_sig == "crash" ? "hang" : crash_sig;
  if (is_known(sig) && ginside) siglongjmp(gjb, 1);
  violation(sig, "hang: no return from %s (pc %#lx)", where.c_str(), pc);
}
void watchdog(int seconds) {
  wd = seconds; struct itimerval it; it.it_interval.tv_sec = it.it_value.tv_sec = seconds; it.it_interval.tv_usec = it.it_value.tv_usec = 0;
  setitimer(ITIMER_VIRTUAL, &it, 0);          // counts CPU time of this process: independent of machine load
}
void install_handlers() {
  static char alt[128 * 1024]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sa.sa_sigaction = on_segv;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0);
  sa.sa_sigaction = on_alarm; sigaction(SIGVTALRM, &sa, 0);
  if (!wd) watchdog(10);
}
bool guarded(const std::function<void()> &f) {
  if (sigsetjmp(gjb, 1)) { ginside = false; return false; }
  ginside = true; f(); ginside = false; return true;
}

// ---------------------------------------------------------------- sequential explorer
static std::unordered_map<uint64_t, uint8_t> visited;
static SeqSys *S; static SeqOpts O; static uint64_t splitid; static int split_at; static bool stop_;
static void seq_dfs(int rem, int level) {
  int n = S->nops();
  for (int op = 0; op < n && !stop_; op++) {
    if (!S->enabled(op)) continue;
    if (opts.nshards > 1 && level == split_at) { if ((int)((splitid++ * 0x9E3779B97F4A7C15ull >> 33) % opts.nshards) != opts.shard) continue; }
    if (out_of_time()) { st.exhaustive = false; stop_ = true; return; }
    track_push(); S->save();
    path.push_back(op); path_names.push_back(S->name(op)); where = path_names.back();
    heartbeat();
    S->apply(op); S->check();
    st.transitions++;
    bool go = true;
    if (O.dedup) {
      uint64_t h = mix(track_hash(), S->mhash());
      auto it = visited.find(h);
      if (it == visited.end()) { st.states++; visited[h] = rem; }
      else if (it->second >= rem) go = false;
      else it->second = rem;
      if (level < split_at && opts.nshards > 1) go = true;   // shards must agree on the numbering of prefixes
    } else st.states++;
    if (!go || rem <= 1) st.executions++;             // a maximal operation sequence, executed on the real code
    if (go) {
      if (rem > 1) seq_dfs(rem - 1, level + 1);
      else if (O.leaf) { track_push(); S->save(); where = "closing sequence"; S->leaf(); S->restore(); track_pop(); }
    }
    path.pop_back(); path_names.pop_back();
    S->restore(); track_pop();
  }
}
void seq_explore(SeqSys &s, SeqOpts o) {
  S = &s; O = o; stop_ = false;
  if (!opts.replay.empty()) {
    std::vector<int> ops = path; path.clear(); path_names.clear();
    for (int op : ops) { path.push_back(op); path_names.push_back(s.name(op)); where = path_names.back(); printf("replay: %s\n", where.c_str()); fflush(stdout); track_push(); s.apply(op); s.check(); }
    where = "closing sequence"; if (o.leaf) { s.leaf(); }
    return;
  }
  for (int d = o.min_depth; d <= o.depth && !stop_; d++) {
    // iterative deepening: the first violation found is a shortest one
    if (d != o.depth && d > 3 && d != o.min_depth) continue;
    visited.clear(); splitid = 0; split_at = d > 2 ? 1 : 0; seq_dfs(d, 0);
    if (!stop_) st.depth = d;
  }
  st.outcomes += visited.size();
}

// ---------------------------------------------------------------- main
static void load_known() {
  const char *f = getenv("MC_KNOWN"); if (!f) return;
  std::ifstream in(f); std::string l;
  while (std::getline(in, l)) {
    // known: property=<id> sig=<sig> <text>
    if (l.compare(0, 6, "known:")) continue;
    size_t p = l.find("property="), q = l.find("sig="); if (p == std::string::npos || q == std::string::npos) continue;
    std::string id = l.substr(p + 9, l.find(' ', p) - p - 9), sig = l.substr(q + 4, l.find(' ', q) - q - 4);
    if (id == opts.prop) knowns.push_back({sig, l});
  }
}
static void load_replay() {
  std::ifstream in(opts.replay); std::string l;
  while (std::getline(in, l)) {
    std::istringstream is(l); std::string k; is >> k;
    if (k == "config") is >> opts.cfg; else if (k == "thorough") is >> opts.thorough;
    else if (k == "op") { int x; is >> x; path.push_back(x); }
    else if (k == "sched") { int x; while (is >> x) sched.push_back(x); }
    else if (k == "gran") replay_lines.push_back(l);
  }
}
int main_(int argc, char **argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  t0 = now(); bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--prop") opts.prop = nx(); else if (a == "--cfg") opts.cfg = nx();
    else if (a == "--shard") { std::string s = nx(); sscanf(s.c_str(), "%d/%d", &opts.shard, &opts.nshards); }
    else if (a == "--thorough") opts.thorough = 1; else if (a == "--out") opts.out = nx();
    else if (a == "--replay") opts.replay = nx(); else if (a == "--replay-out") opts.replay_out = nx();
    else if (a == "--budget") opts.budget = atof(nx().c_str()); else if (a == "--scratch") opts.scratch = nx();
    else if (a == "--list") list = true; else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 3; }
  }
  if (list) { for (auto &c : configs()) { int n = opts.thorough ? c.shards_thorough : c.shards_quick; if (n > 0) printf("%s %d\n", c.name.c_str(), n); } return 0; }
  load_known(); if (!opts.replay.empty()) load_replay();
  for (auto &c : configs()) if (c.name == opts.cfg) {
    install_handlers(); c.run(); write_stats();
    if (!opts.replay.empty()) printf("REPLAY-CLEAN\n");
    fflush(stdout); _exit(0);
  }
  fprintf(stderr, "no configuration %s\n", opts.cfg.c_str()); return 3;
}
}
int main(int argc, char **argv) { return mc::main_(argc, argv); }
