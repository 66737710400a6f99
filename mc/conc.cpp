#include "conc.h"
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <algorithm>
#include <unordered_set>
using namespace mc;

extern "C" void conc_switch(void **save_sp, void *new_sp);
asm(R"(
.text
.globl conc_switch
.type conc_switch,@function
conc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size conc_switch,.-conc_switch
)");

static const size_t STK = 512 * 1024;
enum { RUN, BLOCK, SPIN, RETRY, DONE };
struct Th {
  char *stack; void *sp; int st; std::function<bool()> ready; const char *what; uint64_t hist; int completed;
  std::vector<std::pair<void *, const void *>> seen; int rep, nc; uint64_t seen_ver, spin_ver; bool nospin;
  const void *pw; size_t pwn; uint8_t pold[16];
  uint64_t regs[7]; uint64_t pend;           // the thread as it was when it entered the scheduler, and what it is about to do
  // last shared access: a failed compare-and-swap retried at once is one state, not many
  const void *lpc, *laddr; size_t lsize; bool lrmw, lchanged; uint64_t lhist, lval;
};
static Th th[16]; static int N, cur; static void *main_sp; static bool active = false, aborted;
static uint64_t version; static uint64_t steps; static int preempts; static ConcSys *sys; static ConcOpts co;
struct Dec { int chosen, n; }; static std::vector<Dec> stk; static size_t di;
static std::vector<std::pair<uintptr_t, uintptr_t>> shared;
extern "C" { uint64_t conc_regs[8]; }
static uint64_t grace;
// granule table
struct G { uintptr_t g; uint16_t r, w; bool conf; };
static std::vector<G> chg;       // changes of the granule table made by the current execution (old values)
static std::vector<G> gt; static size_t gn; static std::vector<uintptr_t> conf; static bool grew;
static std::unordered_map<uint64_t, uint8_t> vis;
static std::set<std::string> outs;
static bool replaying;

bool conc_active() { return active; }
int conc_self() { return active ? cur : 0; }
void conc_share(void *b, size_t n) { shared.push_back({(uintptr_t)b, (uintptr_t)b + n}); }
extern "C" { extern char __start_mcdata[] __attribute__((weak)), __stop_mcdata[] __attribute__((weak)), __start_mcbss[] __attribute__((weak)), __stop_mcbss[] __attribute__((weak)); }
static inline bool is_shared(const void *p) {
  uintptr_t a = (uintptr_t)p; for (auto &s : shared) if (a >= s.first && a < s.second) return true; return false;
}
static G &gran(uintptr_t g) {
  if (gt.empty()) gt.resize(1 << 12);
  if (gn * 2 > gt.size()) { std::vector<G> o; o.swap(gt); gt.resize(o.size() * 2); gn = 0; for (auto &x : o) if (x.g) { gran(x.g) = x; } }
  size_t m = gt.size() - 1, i = (g * 0x9e3779b97f4a7c15ull >> 40) & m;
  while (gt[i].g && gt[i].g != g) i = (i + 1) & m;
  if (!gt[i].g) { gt[i].g = g; gn++; }
  return gt[i];
}
static bool touch(uintptr_t a, size_t n, int kind) {
  bool c = false;
  for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3; g++) {
    G &x = gran(g); G old = x; if (kind != CONC_WRITE) x.r |= 1 << cur; if (kind != CONC_READ) x.w |= 1 << cur;
    if (!x.conf && x.w && __builtin_popcount(x.r | x.w) > 1) { x.conf = true; conf.push_back(g << 3); grew = true; }
    if (x.r != old.r || x.w != old.w || x.conf != old.conf) chg.push_back(old);
    c |= x.conf;
  }
  return c;
}
static void flush_write(Th &t) { if (t.pw) { if (memcmp(t.pw, t.pold, t.pwn)) { version++; t.lchanged = true; } t.pw = 0; } }
static void to_main() { int c = cur; cur = 0; active = false; conc_switch(&th[c].sp, main_sp); }
static bool enabled(int i) {
  Th &t = th[i];
  switch (t.st) { case RUN: return true; case BLOCK: return t.ready(); case SPIN: return t.spin_ver != version; case RETRY: { uint64_t v = 0; memcpy(&v, t.laddr, t.lsize); return v != t.lval; } default: return false; }
}
static std::string status() {
  std::string s; for (int i = 1; i <= N; i++) s += strf(" thread %d: %s;", i, th[i].st == RUN ? "running" : th[i].st == BLOCK ? th[i].what : th[i].st == SPIN || th[i].st == RETRY ? "spinning" : "finished"); return s;
}
static void capture(const void *addr, size_t size, int kind) {
  Th &t = th[cur]; if (!sys->state_based) return;
  memcpy(t.regs, conc_regs, sizeof t.regs); t.pend = ((uint64_t)addr << 12) ^ (size << 4) ^ kind;
}
static uint64_t state_key() {
  if (sys->state_based) {
    uint64_t h = mix(track_hash(), sys->mhash());
    for (int i = 1; i <= N; i++) {
      Th &t = th[i]; h = mix(h, t.st * 2 + (t.st != BLOCK && enabled(i)));
      if (t.st == DONE) continue;
      uintptr_t sp = t.regs[6], top = (uintptr_t)t.stack + STK;
      if (sp > (uintptr_t)t.stack && sp <= top) h = mix(h, hash_bytes((void *)sp, top - sp, hash_bytes(t.regs, sizeof t.regs, t.pend)));
      h = mix(h, (uintptr_t)t.what);
    }
    if (co.preemptions >= 0) h = mix(h, cur);
    return h;
  }
  uint64_t h = 7; for (uintptr_t a : conf) h = (h ^ *(uint64_t *)a) * 0x9E3779B97F4A7C15ull + (h >> 29);
  for (int i = 1; i <= N; i++) h = mix(h, th[i].hist + th[i].st);
  if (co.preemptions >= 0) h = mix(h, cur);
  return h;
}
// pick the next thread; returns 0 if the execution was abandoned (pruned)
static int decide(bool freesw) {
  int opt[16], n = 0; bool cur_en = cur && enabled(cur);
  for (;;) {
    n = 0; if (cur_en) opt[n++] = cur;
    for (int i = 1; i <= N; i++) if (i != cur && enabled(i)) opt[n++] = i;
    if (n) break;
    bool all = true; for (int i = 1; i <= N; i++) if (th[i].st != DONE) all = false;
    if (all) return -1;
    // everyone waits: a spinning thread may still leave its loop by itself (bounded retry)
    bool woke = false;
    if (grace < 64) for (int i = 1; i <= N; i++) if (th[i].st == SPIN) { th[i].spin_ver = version - 1; woke = true; } else if (th[i].st == RETRY) { th[i].st = SPIN; th[i].spin_ver = version - 1; woke = true; }
    grace++;
    if (!woke && sys->ignore_deadlock()) { aborted = true; return 0; }
    if (!woke) { active = false; violation("deadlock", "no thread can make progress:%s", status().c_str()); }
    cur_en = cur && enabled(cur);
  }
  if (cur_en && !freesw && co.preemptions >= 0 && preempts >= co.preemptions) n = 1;
  int k = 0;
  if (n > 1) {
    if (di < stk.size()) { k = stk[di].chosen; if (k >= n) { fprintf(stderr, "nondeterministic replay\n"); _exit(3); } }
    else {
      if (!replaying) {
        uint64_t key = state_key(); uint8_t rem = co.preemptions < 0 ? 255 : co.preemptions - preempts;
        auto it = vis.find(key);
        if (it != vis.end() && it->second >= rem) {
          // a thread that may be spinning goes on until that is certain, so that endless waiting is reported
          if (!(sys->state_based && cur_en && th[cur].rep > 0 && th[cur].st == RUN)) { aborted = true; return 0; }
          n = 1;
        } else vis[key] = rem;
      }
      stk.push_back({0, n});
    }
    di++; sched.push_back(k);
    if (k > 0 && cur_en && !freesw) preempts++;
  }
  return opt[k];
}
static void run_to(int nx) {
  if (nx == cur) { th[cur].st = RUN; return; }
  if (nx <= 0) { to_main(); return; }
  int c = cur; cur = nx; th[nx].st = RUN; conc_switch(&th[c].sp, th[nx].sp);
}
static void point(const void *addr, size_t size, int kind, void *pc, bool hashrange) {
  Th &t = th[cur]; flush_write(t);
  if (!is_shared(addr)) return;
  steps++; if ((steps & 255) == 0) heartbeat();
  bool c = touch((uintptr_t)addr, size, kind);
  if (!c && ++t.nc > 2000) {               // perhaps waiting for a thread that has not touched this yet: let the others run here
    for (uintptr_t g = (uintptr_t)addr >> 3; g <= ((uintptr_t)addr + size - 1) >> 3; g++) { G &x = gran(g); if (!x.conf) { chg.push_back(x); x.conf = true; conf.push_back(g << 3); grew = true; } }
    c = true;
  }
  if (c) {
    t.nc = 0;
    if ((int)steps > co.max_steps) { active = false; violation("no-termination", "execution exceeds %d shared accesses:%s", co.max_steps, status().c_str()); }
    // spin detection: a full cycle of already-seen accesses with no change of any shared value
    if (t.seen_ver != version) { t.seen.clear(); t.rep = 0; t.seen_ver = version; }
    auto k = std::make_pair(pc, addr);
    if (std::find(t.seen.begin(), t.seen.end(), k) == t.seen.end()) { t.seen.push_back(k); t.rep = 0; } else t.rep++;
    if (t.rep > (int)(2 * t.seen.size() + 4)) { t.st = SPIN; t.spin_ver = version; t.seen.clear(); t.rep = 0; }
    capture(addr, size, kind);
    if (kind == CONC_RMW && t.lrmw && !t.lchanged && t.lpc == pc && t.laddr == addr && size <= 8) {
      t.hist = t.lhist; uint64_t v = 0; memcpy(&v, addr, size); if (v == t.lval) t.st = RETRY;
    }
    sys->during();
    run_to(decide(false));
    Th &u = th[cur];
    u.lpc = pc; u.laddr = addr; u.lsize = size; u.lrmw = kind == CONC_RMW && size <= 8; u.lchanged = false; u.lhist = u.hist; if (u.lrmw) { u.lval = 0; memcpy(&u.lval, addr, size); }
    if (kind == CONC_READ || kind == CONC_RMW) u.hist = mix(u.hist, size <= 8 ? ({ uint64_t v = 0; memcpy(&v, addr, size); v; }) : hash_bytes(addr, size, 3));
    u.hist = mix(u.hist, (uint64_t)addr ^ kind);
  }
  if (kind != CONC_READ) { Th &u = th[cur]; if (size <= 16) { u.pw = addr; u.pwn = size; memcpy(u.pold, addr, size); } else version++; }
}
void conc_point(const void *addr, size_t size, int kind, void *pc) { if (active) point(addr, size, kind, pc, false); }
void conc_block(std::function<bool()> ready, const char *what) {
  Th &t = th[cur]; flush_write(t);
  if (ready()) return;
  capture(0, 1, 4);
  t.st = BLOCK; t.ready = ready; t.what = what; run_to(decide(true));
}
void conc_yield() { if (!active) return; flush_write(th[cur]); steps++; capture(0, 2, 5); run_to(decide(true)); }
void conc_event(int ev) {
  if (!active) return; Th &t = th[cur];
  if (ev == 0) { uint64_t p = 0; for (int i = 1; i <= N; i++) p = p * 64 + th[i].completed; t.hist = mix(t.hist, p ^ 0xabcdef); }
  else t.completed++;
}
static void entry() {
  int me = cur; (void)me;
  sys->thread(cur);
  Th &t = th[cur]; flush_write(t); t.st = DONE;
  int nx = decide(true);
  run_to(nx <= 0 ? 0 : nx);
  __builtin_unreachable();
}
static void start(int i) {
  Th &t = th[i]; if (!t.stack) t.stack = (char *)mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  t.st = RUN; t.hist = 12345 + i; t.what = 0; memset(t.regs, 0, sizeof t.regs); t.pend = 0; if (sys->state_based) memset(t.stack + STK - 16384, 0, 16384); t.completed = 0; t.seen.clear(); t.rep = 0; t.nc = 0; t.seen_ver = 0; t.pw = 0; t.lrmw = false; t.laddr = t.lpc = 0; t.ready = nullptr;
  uintptr_t *p = (uintptr_t *)(t.stack + STK - 64); p = (uintptr_t *)((uintptr_t)p & ~15ull);
  *--p = 0;                       // fake return address: entry() starts with rsp%16==8
  *--p = (uintptr_t)entry; for (int r = 0; r < 6; r++) *--p = 0;
  --p; ((uint32_t *)p)[0] = 0x1f80; ((uint32_t *)p)[1] = 0x37f; t.sp = p;
}
static bool run_once() {
  track_push(); sys->setup();
  version = 1; steps = 0; preempts = 0; di = 0; grace = 0; aborted = false; sched.clear(); chg.clear();
  for (int i = 1; i <= N; i++) start(i);
  cur = 0; active = true;
  int nx = decide(true);
  if (nx > 0) { cur = nx; conc_switch(&main_sp, th[nx].sp); }
  active = false; cur = 0;
  st.transitions += steps; st.executions++;
  if (!aborted) { where = "after the concurrent phase"; sys->finish(); std::string o = sys->outcome(); if (!o.empty() && outs.insert(o).second) sample(o); }
  track_pop(); heartbeat();
  return !aborted;
}
static std::string granules() {   // the granule table as it was when the current execution started
  std::unordered_map<uintptr_t, G> m; for (auto &x : gt) if (x.g) m[x.g] = x;
  for (size_t i = chg.size(); i--;) m[chg[i].g] = chg[i];
  std::string o; for (auto &x : m) if (x.second.r | x.second.w) o += strf("gran %lx %x %x %d\n", x.first, x.second.r, x.second.w, x.second.conf);
  return o;
}
void conc_explore(ConcSys &s, ConcOpts o, const std::string &name) {
  static int callno = 0; int me = callno++;
  bool replaying_ = !opts.replay.empty();
  if (replaying_ && (path.empty() || path[0] != me)) return;
  // shards divide the calls between them
  if (!replaying_ && opts.nshards > 1 && (int)((me * 0x9E3779B97F4A7C15ull >> 33) % opts.nshards) != opts.shard) return;
  sys = &s; co = o; N = s.nthreads; stk.clear(); vis.clear(); where = name; gt.clear(); gn = 0; conf.clear(); shared.clear();
  if (__stop_mcdata > __start_mcdata) conc_share(__start_mcdata, __stop_mcdata - __start_mcdata);
  if (__stop_mcbss > __start_mcbss) conc_share(__start_mcbss, __stop_mcbss - __start_mcbss);
  s.share();
  std::vector<int> want = sched; uint64_t restarts = 0, ex0 = st.executions;
  path = {me}; path_names = {name}; replay_extra = granules; replaying = replaying_;
  if (replaying) {
    for (auto &l : replay_lines) { unsigned long g; unsigned r, w; int c; if (sscanf(l.c_str(), "gran %lx %x %x %d", &g, &r, &w, &c) == 4) { G &x = gran(g); x.r = r; x.w = w; x.conf = c; if (c) conf.push_back(g << 3); } }
    std::sort(conf.begin(), conf.end());
    for (int c : want) stk.push_back({c, 1 << 20});
    run_once();
    replay_extra = nullptr; return;
  }
  for (;;) {
    grew = false;
    run_once();
    if (grew) { std::sort(conf.begin(), conf.end()); stk.clear(); vis.clear(); restarts++; continue; }
    while (!stk.empty() && stk.back().chosen + 1 >= stk.back().n) stk.pop_back();
    if (stk.empty()) break;
    stk.back().chosen++;
    if (out_of_time() || (o.max_exec && st.executions - ex0 > o.max_exec)) { st.exhaustive = false; break; }
  }
  st.states += vis.size(); st.outcomes += outs.size();
  if (getenv("MC_DEBUG")) fprintf(stderr, "%s: exec %lu states %zu conf %zu restarts %lu outcomes %zu\n", name.c_str(), st.executions - ex0, vis.size(), conf.size(), restarts, outs.size());
  outs.clear(); sched.clear(); path.clear(); path_names.clear(); replay_extra = nullptr;
}

// ------------------------------------------------------------------ compiler instrumentation call-backs
#define RA __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
HOOK(__tsan_vptr_update) void impl___tsan_vptr_update(void **a, void *) { if (active) point(a, 8, CONC_WRITE, RA, false); }
HOOK(__tsan_vptr_read) void impl___tsan_vptr_read(void **a) { if (active) point(a, 8, CONC_READ, RA, false); }
#define HOOKN(p, n) HOOK(p##n)
#define HOOKA(bits, suf) HOOK(__tsan_atomic##bits##suf)
#define RW(n) \
  HOOKN(__tsan_read, n) void impl___tsan_read##n(void *a) { if (active) point(a, n, CONC_READ, RA, false); } \
  HOOKN(__tsan_write, n) void impl___tsan_write##n(void *a) { if (active) point(a, n, CONC_WRITE, RA, false); } \
  HOOKN(__tsan_unaligned_read, n) void impl___tsan_unaligned_read##n(void *a) { if (active) point(a, n, CONC_READ, RA, false); } \
  HOOKN(__tsan_unaligned_write, n) void impl___tsan_unaligned_write##n(void *a) { if (active) point(a, n, CONC_WRITE, RA, false); } \
  HOOKN(__tsan_volatile_read, n) void impl___tsan_volatile_read##n(void *a) { if (active) point(a, n, CONC_READ, RA, false); } \
  HOOKN(__tsan_volatile_write, n) void impl___tsan_volatile_write##n(void *a) { if (active) point(a, n, CONC_WRITE, RA, false); } \
  HOOKN(__tsan_read_write, n) void impl___tsan_read_write##n(void *a) { if (active) point(a, n, CONC_RMW, RA, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
HOOK(__tsan_read_range) void impl___tsan_read_range(void *a, unsigned long n) { if (active && n) point(a, n, CONC_READ, RA, true); }
HOOK(__tsan_write_range) void impl___tsan_write_range(void *a, unsigned long n) { if (active && n) point(a, n, CONC_WRITE, RA, true); }
#define AT(bits, T) \
  HOOKA(bits, _load) T impl___tsan_atomic##bits##_load(const volatile T *a, int) { if (active) point((void *)a, sizeof(T), CONC_READ, RA, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _store) void impl___tsan_atomic##bits##_store(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_WRITE, RA, false); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _exchange) T impl___tsan_atomic##bits##_exchange(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_add) T impl___tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_sub) T impl___tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_and) T impl___tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_or) T impl___tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_xor) T impl___tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _fetch_nand) T impl___tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _compare_exchange_strong) int impl___tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _compare_exchange_weak) int impl___tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  HOOKA(bits, _compare_exchange_val) T impl___tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { if (active) point((void *)a, sizeof(T), CONC_RMW, RA, false); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// scheduling points announced by the hooks in sasatom.h / sasatom_x86_64.h
HOOK(sph_mc_point) void impl_sph_mc_point(const volatile void *a, unsigned long n, int kind) { if (active) point((void *)a, n, kind, RA, false); }
// memory and string functions of the instrumented code
static inline void rd(const void *a, size_t n, void *pc) { if (active && n) point(a, n, CONC_READ, pc, true); }
static inline void wr(const void *a, size_t n, void *pc) { if (active && n) point(a, n, CONC_WRITE, pc, true); }
HOOK(mc_memcpy) void *impl_mc_memcpy(void *d, const void *s, size_t n) { rd(s, n, RA); wr(d, n, RA); return memcpy(d, s, n); }
HOOK(mc_memmove) void *impl_mc_memmove(void *d, const void *s, size_t n) { rd(s, n, RA); wr(d, n, RA); return memmove(d, s, n); }
HOOK(mc_memset) void *impl_mc_memset(void *d, int c, size_t n) { wr(d, n, RA); return memset(d, c, n); }
HOOK(mc_memcmp) int impl_mc_memcmp(const void *a, const void *b, size_t n) { rd(a, n, RA); rd(b, n, RA); return memcmp(a, b, n); }
HOOK(mc_strlen) size_t impl_mc_strlen(const char *a) { rd(a, 1, RA); size_t n = strlen(a); rd(a, n + 1, RA); return strlen(a); }
HOOK(mc_strcmp) int impl_mc_strcmp(const char *a, const char *b) { if (active) { rd(a, strlen(a) + 1, RA); rd(b, strlen(b) + 1, RA); } return strcmp(a, b); }
HOOK(mc_strcpy) char *impl_mc_strcpy(char *d, const char *s) { if (active) { size_t n = strlen(s) + 1; rd(s, n, RA); wr(d, n, RA); } return strcpy(d, s); }
HOOK(mc_strncpy) char *impl_mc_strncpy(char *d, const char *s, size_t k) { if (active) { rd(s, strnlen(s, k), RA); wr(d, k, RA); } return strncpy(d, s, k); }
}
