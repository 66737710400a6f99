// A01/A02: atomic primitives and low-level locks, every instruction-level interleaving (single-stepped machine code, explicit states).
#include "mc.h"
#include <signal.h>
#include <ucontext.h>
#include <string.h>
#include <sys/mman.h>
#include <unordered_map>
#include <unordered_set>
#include <array>
using namespace mc;
typedef long L;
#define NAMES(F) F(add_ptr) F(add) F(and_int) F(and_long) F(or_int) F(or_long) F(cas) F(swap) F(swap_void) F(swap_twice) F(inc) F(dec) F(inc_long) F(dec_long) \
  F(spin) F(spin_yield) F(spin_try) F(spin_tryhold) F(spin_init) F(ptr) F(ptr_yield) F(ptr_try) F(ptr_tryhold) F(ptr_set) F(ptr_swap) F(ptr_init)
#define DECL(x) extern "C" L o2_##x(L *, L, L); extern "C" L o0_##x(L *, L, L); enum { K_##x##_ };
enum Kind {
#define EN(x) K_##x,
NAMES(EN) NKIND };
#undef DECL
#define DECL(x) extern "C" L o2_##x(L *, L, L); extern "C" L o0_##x(L *, L, L);
NAMES(DECL)
typedef L (*Fn)(L *, L, L);
#define E2(x) o2_##x,
#define E0(x) o0_##x,
#define ES(x) #x,
static Fn FN[2][NKIND] = {{NAMES(E2)}, {NAMES(E0)}}; static const char *KN[] = {NAMES(ES)};
// ---- the machine
static const size_t SHN = 72, STK = 512; static unsigned char *SH, *STACKS; static const unsigned long DONE_AT = 0x123456780ul;
struct Th { greg_t g[18]; unsigned char stk[STK]; unsigned char pend, poff, plen, done; unsigned char pb[8]; };
struct State { unsigned char sh[SHN]; int n; Th th[3]; };
static volatile bool stepping; static greg_t mainr[23], cur[23]; static volatile int fault;   // 1 shared memory touched, 2 crash
static void on_trap(int sig, siginfo_t *si, void *v) {
  greg_t *g = ((ucontext_t *)v)->uc_mcontext.gregs;
  if (!stepping) { if (sig != SIGTRAP) { signal(sig, SIG_DFL); return; } memcpy(mainr, g, sizeof mainr); memcpy(g, cur, 18 * sizeof(greg_t)); g[REG_EFL] = cur[REG_EFL] | 0x100; stepping = true; }
  else { memcpy(cur, g, sizeof cur); cur[REG_EFL] &= 0xcd5; cur[REG_EFL] |= 0x202; memcpy(g, mainr, 18 * sizeof(greg_t)); stepping = false; if (sig != SIGTRAP) fault = sig == SIGSEGV && (unsigned char *)si->si_addr >= SH && (unsigned char *)si->si_addr < SH + 4096 ? 1 : 2; }
}
static bool inited; static void init() {
  if (inited) return; inited = true; watchdog(60);
  SH = (unsigned char *)mmap((void *)0x300000000000ul, 65536, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); STACKS = SH + 8192;
  static char alt[65536]; stack_t s; s.ss_sp = alt; s.ss_size = sizeof alt; s.ss_flags = 0; sigaltstack(&s, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; sigaction(SIGTRAP, &sa, 0); sigaction(SIGSEGV, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0);
}
static unsigned char *stk_of(int t) { return STACKS + 8192 * (t + 1) - STK; }
static void start(State &s, int t, Fn f, L a, L b, unsigned off = 8) {
  Th &h = s.th[t]; memset(&h, 0, sizeof h); unsigned long top = (unsigned long)stk_of(t) + STK - 24; memcpy(h.stk + STK - 24, &DONE_AT, 8);
  h.g[REG_RIP] = (greg_t)f; h.g[REG_RSP] = top; h.g[REG_RDI] = (greg_t)(SH + off); h.g[REG_RSI] = a; h.g[REG_RDX] = b; h.g[REG_EFL] = 0x202;
}
static int exec_one(Th &h, int t) { memset(cur, 0, sizeof cur); memcpy(cur, h.g, sizeof h.g); fault = 0; __asm__ volatile("int3" ::: "memory"); st.transitions++; return fault; }
// everything below the red zone is dead
static void take(Th &h, int t) { memcpy(h.g, cur, sizeof h.g); memcpy(h.stk, stk_of(t), STK); long dead = (long)h.g[REG_RSP] - 128 - (long)stk_of(t); if (dead > 0) memset(h.stk, 0, dead < (long)STK ? dead : STK); h.done = (unsigned long)h.g[REG_RIP] == DONE_AT; }
// runs thread t up to its next access to the shared memory
static bool locals(State &s, int t) {
  Th &h = s.th[t]; memcpy(stk_of(t), h.stk, STK); mprotect(SH, 4096, PROT_NONE); bool ok = true;
  for (int i = 0; !h.done; i++) { int f = exec_one(h, t); if (f == 1) break; if (f == 2 || i > 20000) { ok = false; break; } memcpy(h.g, cur, sizeof h.g); h.done = (unsigned long)h.g[REG_RIP] == DONE_AT; }
  memcpy(cur, h.g, sizeof h.g); take(h, t); mprotect(SH, 4096, PROT_READ | PROT_WRITE); return ok;
}
// one step of thread t: an instruction that accesses the shared memory and everything local behind it; the store of an instruction that reads and writes memory without a lock is a step of its own
static bool raw_step(State &s, int t) {
  Th &h = s.th[t];
  if (h.pend) { memcpy(s.sh + h.poff, h.pb, h.plen); h.pend = h.poff = h.plen = 0; memset(h.pb, 0, 8); return locals(s, t); }
  memcpy(SH, s.sh, SHN); memcpy(stk_of(t), h.stk, STK); unsigned char *ip = (unsigned char *)h.g[REG_RIP];
  if (exec_one(h, t)) return false;
  take(h, t);
  bool lock = false, w = false, o16 = false; for (;; ip++) { if (*ip == 0xf0) lock = true; else if (*ip == 0x66) o16 = true; else if (*ip == 0xf2 || *ip == 0xf3 || *ip == 0x2e || *ip == 0x36 || *ip == 0x3e || *ip == 0x26 || *ip == 0x64 || *ip == 0x65 || *ip == 0x67) ; else break; }
  if ((*ip & 0xf0) == 0x40) { w = *ip & 8; ip++; }
  bool two = *ip == 0x0f; if (two) ip++; unsigned char op = *ip; bool byte = !(op & 1); int width = byte ? 1 : w ? 8 : o16 ? 2 : 4;
  if (!lock && !two && (op == 0x86 || op == 0x87)) lock = true;                         // xchg locks by itself
  if (!two && ((op >= 0x88 && op <= 0x89) || op == 0xc6 || op == 0xc7 || op == 0xaa || op == 0xab)) lock = true;   // plain stores
  unsigned lo = SHN, hi = 0; for (unsigned i = 0; i < SHN; i++) if (SH[i] != s.sh[i]) { if (lo == SHN) lo = i; hi = i; }
  if (lo < SHN && !lock) {
    if (hi / width == lo / width) { lo = lo / width * width; hi = lo + width - 1; }
    if (hi - lo < 8) { h.pend = 1; h.poff = lo; h.plen = hi - lo + 1; memcpy(h.pb, SH + lo, h.plen); return true; }
  }
  memcpy(s.sh, SH, SHN); return locals(s, t);
}
static uint64_t h64(const void *p, size_t n, uint64_t s) { return hash_bytes(p, n, s); }
// steps depend only on the thread and the shared memory: remembered
struct Memo { unsigned char sh[SHN]; Th th; bool ok; }; typedef std::array<uint64_t, 2> Key; struct KH { size_t operator()(const Key &k) const { return k[0]; } };
static std::unordered_map<Key, Memo, KH> memo;
static bool step(State &s, int t) {
  Key k = {h64(&s.th[t], sizeof(Th), h64(s.sh, SHN, 17 + t)), h64(&s.th[t], sizeof(Th), h64(s.sh, SHN, 91 + t))};
  auto it = memo.find(k); if (it == memo.end()) { if (memo.size() > 300000) memo.clear(); Memo m; m.ok = raw_step(s, t); memcpy(m.sh, s.sh, SHN); m.th = s.th[t]; memo.emplace(k, m); return m.ok; }
  memcpy(s.sh, it->second.sh, SHN); s.th[t] = it->second.th; return it->second.ok;
}
// explores every interleaving; inv is checked in every state, fin in every final one; every state must be able to finish
static bool g_bad; static uint64_t g_terminals;
static void explore(State s0, std::function<const char *(State &)> inv, std::function<void(State &)> fin, bool liveness) {
  std::unordered_map<Key, int, KH> seen; std::vector<State> all; std::vector<std::vector<int>> pred; std::vector<int> term; g_bad = false; g_terminals = 0; std::vector<std::pair<int, int>> from;
  auto key = [](State &s) { return Key{h64(&s, sizeof s, 3), h64(&s, sizeof s, 5)}; };
  seen[key(s0)] = 0; all.push_back(s0); pred.push_back({}); from.push_back({-1, 0});
  auto path = [&](int i) { std::vector<std::string> p; for (; i > 0; i = from[i].first) p.push_back(strf("t%d@%llx", from[i].second + 1, (unsigned long long)all[from[i].first].th[from[i].second].g[REG_RIP])); std::reverse(p.begin(), p.end()); path_names = p; };
  for (size_t i = 0; i < all.size() && !g_bad; i++) {
    State s = all[i]; if (const char *e = inv ? inv(s) : 0) { path(i); violation("invariant", "%s", e); g_bad = true; break; }
    bool any = false;
    for (int t = 0; t < s.n; t++) {
      if (s.th[t].done && !s.th[t].pend) continue; any = true; State q = s;
      if (!step(q, t)) { path(i); violation("crash", "thread %d crashes", t + 1); g_bad = true; break; }
      auto r = seen.emplace(key(q), (int)all.size()); if (r.second) { all.push_back(q); pred.push_back({}); from.push_back({(int)i, t}); if (all.size() > 3000000) { violation("states", "state space too large"); g_bad = true; break; } }
      if (liveness) pred[r.first->second].push_back(i);
    }
    if (!any) { term.push_back(i); g_terminals++; path(i); fin(s); }
    if ((i & 1023) == 0) heartbeat();
  }
  st.states += all.size(); st.executions++;
  if (liveness && !g_bad) { std::vector<char> ok(all.size()); std::vector<int> q = term; for (int i : q) ok[i] = 1; while (q.size()) { int i = q.back(); q.pop_back(); for (int p : pred[i]) if (!ok[p]) ok[p] = 1, q.push_back(p); } for (size_t i = 0; i < all.size(); i++) if (!ok[i]) { path(i); violation("stuck", "from this state the threads can never all finish, whatever the schedule"); return; } }
}
// ---- A01
struct Op { int k; L a, b; };
static bool is_int(int k) { return k == K_and_int || k == K_or_int; }
static void spec(const Op &o, L &m, L &r) {      // one atomic operation; swap_twice is two (handled by the caller)
  typedef unsigned long UL; L old = m; unsigned lo = (unsigned)m; r = old;
  switch (o.k) {
    case K_add_ptr: case K_add: m = (L)((UL)m + (UL)o.a); break; case K_and_long: m &= o.a; break; case K_or_long: m |= o.a; break;
    case K_and_int: m = (L)(((UL)m & ~0xfffffffful) | (lo & (unsigned)o.a)); r = (L)(UL)lo; break; case K_or_int: m = (L)(((UL)m & ~0xfffffffful) | (lo | (unsigned)o.a)); r = (L)(UL)lo; break;
    case K_cas: r = m == o.a; if (r) m = o.b; break; case K_swap: m = o.a; break; case K_swap_void: m = o.a; r = 0; break;
    case K_inc: m = (L)((UL)m + 1); r = 0; break; case K_dec: m = (L)((UL)m - 1); r = 0; break; case K_inc_long: m = (L)((UL)m + 1); break; case K_dec_long: m = (L)((UL)m - 1); break;
  }
}
static L norm(int k, L r) { return k == K_cas ? (int)r != 0 : k == K_inc || k == K_dec || k == K_swap_void ? 0 : r; }
// the steps of an operation in the serial order: swap_twice is two swaps
static std::vector<Op> parts(const Op &o) { if (o.k != K_swap_twice) return {o}; return {{K_swap, o.a, 0}, {K_swap, o.b, 0}}; }
struct Outcome { L m; L r[3]; bool operator<(const Outcome &o) const { return memcmp(this, &o, sizeof o) < 0; } };
static void serial(const std::vector<std::vector<Op>> &ps, std::vector<size_t> pos, L m, std::vector<std::vector<L>> rs, const std::vector<Op> &ops, std::set<Outcome> &out) {
  bool any = false; for (size_t t = 0; t < ps.size(); t++) if (pos[t] < ps[t].size()) { any = true; auto p2 = pos; auto r2 = rs; L m2 = m, r; spec(ps[t][pos[t]], m2, r); p2[t]++; r2[t].push_back(r); serial(ps, p2, m2, r2, ops, out); }
  if (!any) { Outcome o; memset(&o, 0, sizeof o); o.m = m; for (size_t t = 0; t < ps.size(); t++) o.r[t] = ops[t].k == K_swap_twice ? (L)((unsigned long)rs[t][0] * 3 + (unsigned long)rs[t][1]) : rs[t][0]; out.insert(o); }
}
static const L GUARD = 0x5a5aa5a5c3c33c3cl;
static void atoms(int build, L init_v, std::vector<Op> ops) {
  std::string d; for (auto &o : ops) d += strf("%s%s(%lx,%lx)", d.empty() ? "" : " | ", KN[o.k], o.a, o.b); where = strf("%s on %lx, %s", d.c_str(), init_v, build ? "unoptimised C" : "optimised C++");
  std::vector<std::vector<Op>> ps; for (auto &o : ops) ps.push_back(parts(o)); std::set<Outcome> ok; serial(ps, std::vector<size_t>(ops.size()), init_v, std::vector<std::vector<L>>(ops.size()), ops, ok);
  State s; memset(&s, 0, sizeof s); s.n = ops.size(); for (size_t i = 0; i + 8 <= SHN; i += 8) memcpy(s.sh + i, &GUARD, 8); memcpy(s.sh + 8, &init_v, 8); for (size_t t = 0; t < ops.size(); t++) { start(s, t, FN[build][ops[t].k], ops[t].a, ops[t].b); if (!locals(s, t)) { path_names = {where}; violation("crash", "thread %zu crashes", t + 1); return; } }
  explore(s, nullptr, [&](State &q) {
    st.evaluations++; for (size_t i = 0; i + 8 <= SHN; i += 8) if (i != 8) { L g; memcpy(&g, q.sh + i, 8); if (g != GUARD) { violation("beyond", "memory next to the operand was changed"); g_bad = true; return; } }
    Outcome o; memset(&o, 0, sizeof o); memcpy(&o.m, q.sh + 8, 8); for (size_t t = 0; t < ops.size(); t++) o.r[t] = norm(ops[t].k, q.th[t].g[REG_RAX]);
    if (!ok.count(o)) { std::string r; for (size_t t = 0; t < ops.size(); t++) r += strf(" %lx", o.r[t]); violation(strf("atomic-%s", KN[ops[0].k]), "final value %lx, results%s: no serial order gives this", o.m, r.c_str()); g_bad = true; }
  }, false);
}
static int part_i; static bool part() { return part_i++ % opts.nshards == opts.shard; }
static std::vector<L> bvals(bool big) { std::vector<L> v = {0, 1, -1, 0x7fffffff, (L)0x80000000ul, (L)0xfffffffful, 0x100000000l, 0x7fffffffffffffffl, (L)0x8000000000000000ul, (L)0xffffffff00000000ul, 0x0123456789abcdefl, (L)0xfedcba9876543210ul}; if (big) for (int k = 2; k < 64; k++) { v.push_back((L)(1ul << k)); v.push_back((L)((1ul << k) - 1)); v.push_back((L)~(1ul << k)); } return v; }
static bool A1() { return opts.prop == "A01"; }
static std::vector<Op> oplist(int k, bool big) {
  std::vector<Op> r; std::vector<L> a = big ? std::vector<L>{1, -1, 0x100000000l, 0xffffffffl, (L)0x8000000000000001ul, 0x0f0f0f0ff0f0f0f0l, 0, -0x80000000l} : std::vector<L>{1, -0x100000000l, 0x0f0f0f0ff0f0f0f0l};
  if (k == K_inc || k == K_dec || k == K_inc_long || k == K_dec_long) return {{k, 0, 0}};
  if (k == K_swap_twice) return {{k, 5, 0x700000007l}};
  if (k == K_cas) { for (L x : a) r.push_back({k, x, x + 0x100000001l}), r.push_back({k, 0, x}), r.push_back({k, -1, x}), r.push_back({k, 0xffffffffl, x}); return r; }
  for (L x : a) r.push_back({k, x, 0}); return r;
}
MC_CONFIG(full, "full-width", 8, 8) {     // one call, all pairs of boundary values
  if (!A1()) return; init(); auto v = bvals(true);
  for (int b = 0; b < 2; b++) for (int k = 0; k <= K_dec_long; k++) if (part()) for (L m : v) { heartbeat(); bool una = k == K_inc || k == K_dec || k == K_inc_long || k == K_dec_long; for (L a : v) { for (L c : k == K_cas ? std::vector<L>{m, m ^ 1, m ^ (L)(1ul << 32), m ^ (L)(1ul << 63)} : std::vector<L>{a}) {
    L mem[3] = {GUARD, m, GUARD}, want = m, wr; Op o = {k, c, k == K_cas ? a : a ^ 0x33}; L r = FN[b][k](mem + 1, o.a, o.b); if (k == K_swap_twice) { wr = (L)((unsigned long)m * 3 + (unsigned long)o.a); want = o.b; } else spec(o, want, wr);
    st.states++; st.transitions++; st.evaluations++; if (norm(k, r) != wr || mem[1] != want || mem[0] != GUARD || mem[2] != GUARD) { path_names = {where = strf("%s(%lx, %lx) on %lx, %s", KN[k], o.a, o.b, m, b ? "unoptimised C" : "optimised C++")}; violation(strf("value-%s", KN[k]), "returned %lx and left %lx, expected %lx and %lx", r, mem[1], wr, want); } }
    if (una) break; } }
  sample("every primitive on all pairs of 2^k, 2^k-1 and the complements");
}
MC_CONFIG(pairs, "pairs", 8, 8) {
  if (!A1()) return; init(); std::vector<L> iv = opts.thorough ? bvals(false) : std::vector<L>{0, 0xffffffffl, 0x7fffffffffffffffl, 0x0123456789abcdefl};
  for (int b = 0; b < 2; b++) for (int k1 = 0; k1 <= K_dec_long; k1++) for (int k2 = k1; k2 <= K_dec_long; k2++) if (part()) { sample(strf("%s with %s", KN[k1], KN[k2])); for (auto &o1 : oplist(k1, opts.thorough)) for (auto &o2 : oplist(k2, opts.thorough)) for (L m : iv) atoms(b, m, {o1, o2}); }
}
MC_CONFIG(triples, "triples", 8, 8) {
  if (!A1()) return; init(); std::vector<Op> o; for (int k = 0; k <= K_dec_long; k++) { auto l = oplist(k, false); o.push_back(l[0]); if (l.size() > 1) o.push_back(l[l.size() - 1]); }
  for (int b = 0; b < (opts.thorough ? 2 : 1); b++) for (size_t i = 0; i < o.size(); i++) for (size_t j = i; j < o.size(); j++) for (size_t k = j; k < o.size(); k++) if (opts.thorough || (i + j + k) % 5 == 0) if (part()) for (L m : {0xffffffffl, 0x0123456789abcdefl}) { atoms(b, m, {o[i], o[j], o[k]}); if (b) break; }
  sample("three calls at once");
}
// ---- A02
static L wd(State &s, int i) { L v; memcpy(&v, s.sh + 8 * i, 8); return v; }
static const L P0 = 0x77700000010l;
static void locks(int build, std::vector<std::pair<int, int>> progs, bool ptr, bool held = false) {
  std::string d; int tot = 0; bool allhold = true, anytry = false; for (auto &p : progs) { d += strf("%s%s x%d", d.empty() ? "" : " | ", KN[p.first], p.second); bool hold = p.first == K_spin_tryhold || p.first == K_ptr_tryhold, tr = hold || p.first == K_spin_try || p.first == K_ptr_try; allhold &= hold; anytry |= tr; }
  where = strf("%s, %s%s", d.c_str(), build ? "unoptimised C" : "optimised C++", held ? ", lock held throughout" : ""); sample(where);
  State s; memset(&s, 0, sizeof s); s.n = progs.size(); 
  L l0 = ptr ? P0 : 0; if (ptr) { L a = l0 | (held ? 1 : 0); memcpy(s.sh, &a, 8); memcpy(s.sh + 32, &l0, 8); } else if (held) s.sh[0] = 1; memset(s.sh + 4 + (ptr ? 4 : 0), 0, ptr ? 0 : 4); memcpy(s.sh + 8, &GUARD, 8); memcpy(s.sh + 56, &GUARD, 8); memcpy(s.sh + 64, &GUARD, 8);
  for (size_t t = 0; t < progs.size(); t++) { start(s, t, FN[build][progs[t].first], t, progs[t].second, 0); if (!locals(s, t)) { path_names = {where}; violation("crash", "thread %zu crashes", t + 1); return; } }
  explore(s, [&](State &q) -> const char * { int in = q.sh[16] + q.sh[17] + q.sh[18]; return in > 1 ? "two threads hold the lock" : in && held ? "a thread got a lock that is held" : 0; },
    [&](State &q) {
      st.evaluations++; L sum = 0; int nt = 0; for (size_t t = 0; t < progs.size(); t++) { L r = q.th[t].g[REG_RAX]; int k = progs[t].first; if (r < 0) { violation("pointer", "thread %zu got a wrong pointer value with the lock", t + 1); g_bad = true; return; } bool tr = k == K_spin_try || k == K_ptr_try || k == K_spin_tryhold || k == K_ptr_tryhold; if (!tr && r != progs[t].second) { violation("count", "thread %zu finished early", t + 1); g_bad = true; return; } sum += r; nt += tr; }
      if (wd(q, 3) != sum) { violation("exclusion", "%ld critical sections were entered but the counter is %ld", sum, wd(q, 3)); g_bad = true; return; }
      if (held) { if (sum) { violation("held", "a lock that is held was taken"); g_bad = true; } return; }
      if (nt == (int)progs.size() && sum == 0) { violation("try-fails", "every try failed although the lock was free at first"); g_bad = true; return; }
      if (allhold && sum != 1) { violation("try", "%ld tries succeeded on one lock that nobody releases", sum); g_bad = true; return; }
      if (progs.size() == 1 && sum != (allhold ? 1 : progs[0].second)) { violation("try-fails", "a try failed although nobody else used the lock"); g_bad = true; return; }
      L fl = wd(q, 0); if (ptr) { if ((fl & 1) != allhold) { violation("released", "the lock word is %lx at the end", fl); g_bad = true; return; } if ((fl & ~1l) != wd(q, 4)) { violation("pointer", "the pointer is %lx at the end, last set to %lx", fl, wd(q, 4)); g_bad = true; return; } }
      else if (((fl & 0xffffffff) != 0) != allhold) { violation("released", "the lock word is %lx at the end", fl); g_bad = true; return; }
      if (wd(q, 1) != GUARD || wd(q, 7) != GUARD || (!ptr && fl >> 32)) { violation("beyond", "memory next to the lock was changed"); g_bad = true; }
    }, true);
}
MC_CONFIG(spin, "spin-locks", 8, 8) {
  if (A1()) return; init(); int S = K_spin, Y = K_spin_yield, T = K_spin_try, H = K_spin_tryhold, n = opts.thorough ? 5 : 3;
  for (int b = 0; b < 2; b++) {
    for (int a : {S, Y, T, H}) { if (part()) locks(b, {{a, 1}}, false); if (part()) locks(b, {{a, 3}}, false); for (int c : {S, Y, T, H}) if (a <= c && a != H && c != H) { for (int i = 1; i <= n; i++) if (part()) locks(b, {{a, i}, {c, n}}, false); } }
    for (int a : {S, Y, T}) for (int c : {S, Y, T}) for (int e : {S, Y, T}) if (a <= c && c <= e) if (part()) locks(b, {{a, 1}, {c, 1}, {e, opts.thorough ? 3 : b ? 1 : 2}}, false);
    if (part()) locks(b, {{H, 1}, {H, 1}}, false); if (part()) locks(b, {{H, 1}, {H, 1}, {H, 1}}, false); if (part()) locks(b, {{T, 2}}, false, true); if (part()) locks(b, {{H, 1}, {T, 1}}, false, true);
    // initialisation clears whatever was there
    if (part()) for (unsigned v : {0u, 1u, 0xffffffffu, 0x80000000u, 2u}) { unsigned m[3] = {7, v, 9}; FN[b][K_spin_init]((L *)(m + 1), 0, 0); where = "sas_spin_lock_init"; path_names = {where}; MC_CHECK(!m[1] && m[0] == 7 && m[2] == 9, "init", "initialising a spin lock left %x", m[1]); }
  }
}
MC_CONFIG(ptrs, "pointer-locks", 8, 8) {
  if (A1()) return; init(); int P = K_ptr, Y = K_ptr_yield, T = K_ptr_try, H = K_ptr_tryhold, X = K_ptr_set, W = K_ptr_swap, n = opts.thorough ? 5 : 3;
  for (int b = 0; b < 2; b++) {
    for (int a : {P, Y, T, H, X, W}) { if (part()) locks(b, {{a, 1}}, true); if (part()) locks(b, {{a, 3}}, true); for (int c : {P, Y, T, X, W}) if (a <= c && a != H) { for (int i = 1; i <= n; i++) if (part()) locks(b, {{a, i}, {c, n}}, true); } }
    for (int a : {P, Y, T, X, W}) for (int c : {P, Y, T, X, W}) for (int e : {P, Y, T, X, W}) if (a <= c && c <= e && (!b || opts.thorough)) if (part()) locks(b, {{a, 1}, {c, 1}, {e, opts.thorough ? 2 : 1}}, true);
    if (part()) locks(b, {{H, 1}, {H, 1}}, true); if (part()) locks(b, {{H, 1}, {H, 1}, {H, 1}}, true); if (part()) locks(b, {{T, 2}}, true, true); if (part()) locks(b, {{H, 1}, {T, 1}}, true, true);
    if (part()) for (unsigned long v : {0ul, 1ul, ~0ul, 0x8000000000000000ul, 0x123456789abcdef1ul}) { L m[3] = {7, (L)v, 9}; FN[b][K_ptr_init](m + 1, 0, 0); where = "sas_lock_ptr_init"; path_names = {where}; MC_CHECK(!m[1] && m[0] == 7 && m[2] == 9, "init", "initialising a pointer lock left %lx", m[1]); }
  }
}
