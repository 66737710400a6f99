// B01: the bit-vector allocator, on every content of a word within the bounds, every size and alignment.
#include "conc_common.h"
extern "C" {
#include "bitv_priv.h"
}
typedef uint64_t W;
static bitv_cb_t cb; static size_t unit; static char cpath[256];
static inline W top(int n) { return n == 0 ? 0 : ~0ull << (64 - n); }        // the first n units
static const char *FN[] = {"bitv_alloc", "bitv_alloc_marked", "bitv_aligned_alloc", "bitv_aligned_alloc_marked"};
static struct { W v, e; size_t size, align; int fn; } cur;
static std::string say() { return strf("%s of %zu bytes (unit %zu, %zu units)%s from free units %016lx", FN[cur.fn], cur.size, unit, (cur.size + unit - 1) / unit, cur.fn >= 2 ? strf(", aligned to %zu", cur.align).c_str() : "", cur.v); }
static void setunit(size_t u) { unit = u; bitv_init(&cb, u); MC_CHECK(cb.alloc_unit == u, "init", "bitv_init(%zu) left unit %zu", u, cb.alloc_unit); }
// one allocation; runs = positions where a free run of that many units begins
static inline void one(int fn, W v, W e, size_t size, size_t align, W runs, int units, int au) {
  struct { W a, v, b, e, c; } x = {0x1111, v, 0x2222, e, 0x3333}; cur = {v, e, size, align, fn};
  ssize_t r = fn == 0 ? bitv_alloc(&cb, &x.v, size) : fn == 1 ? bitv_alloc_marked(&cb, &x.v, &x.e, size) : fn == 2 ? bitv_aligned_alloc(&cb, &x.v, size, align) : bitv_aligned_alloc_marked(&cb, &x.v, &x.e, size, align);
  st.transitions++;
  if (x.a != 0x1111 || x.b != 0x2222 || x.c != 0x3333) { violation("overrun", "%s changed a neighbouring word", say().c_str()); return; }
  if (r == -1) {
    if (x.v != v || x.e != e) { violation("failed-but-changed", "%s failed but changed the words to %016lx / %016lx", say().c_str(), x.v, x.e); return; }
    if (runs) violation("missed-run", "%s failed, but a suitable run begins at unit %d", say().c_str(), __builtin_clzl(runs));
    return;
  }
  size_t p = (size_t)r / unit;
  if (r < 0 || r % unit || p > 63) { violation("result", "%s returned %ld", say().c_str(), (long)r); return; }
  if (!(runs & (1ull << (63 - p)))) { violation(units && p + units <= 64 && ((v >> (64 - p - units)) & (units == 64 ? ~0ull : (1ull << units) - 1)) == (units == 64 ? ~0ull : (1ull << units) - 1) ? "misaligned" : "not-free", "%s returned unit %zu", say().c_str(), p); return; }
  W mask = top(units) >> p; if (x.v != (v & ~mask)) { violation("marking", "%s returned unit %zu and left free units %016lx", say().c_str(), p, x.v); return; }
  W end = fn & 1 ? e | 1ull << (64 - p - units) : e; if (x.e != end) violation("end-mark", "%s returned unit %zu and turned the end marks %016lx into %016lx", say().c_str(), p, e, x.e);
}
static inline W aligned_mask(int au) { W m = 0; for (int i = 0; i < 64; i += au) m |= 1ull << (63 - i); return m; }
static W AM[8];
static void word(W v, bool full) {
  heartbeat(); st.states++; W e = ~v & 0x8421084210842108ull;
  if (bitv_free_space(&cb, &v) != (size_t)__builtin_popcountl(v) * unit) violation("free-space", "free space of %016lx is %zu (unit %zu)", v, bitv_free_space(&cb, &v), unit);
  W runs = v;
  for (int u = 1; u <= 64; u++) {
    if (u > 1) runs &= v << (u - 1); if (u > 1 && u == 64) runs = v == ~0ull ? 1ull << 63 : 0;
    size_t lo = (u - 1) * unit + 1, hi = u * unit;
    for (int k = 0; k < (full && hi != lo ? 2 : 1); k++) {
      size_t s = k ? lo : hi;
      one(0, v, e, s, 0, runs, u, 1); one(1, v, e, s, 0, runs, u, 1);
      for (int a = 0; a < 7; a++) { if (!full && a > 3 && a < 6) continue; W ok = runs & AM[a]; one(2, v, e, s, unit << a, ok, u, 1 << a); one(3, v, e, s, unit << a, ok, u, 1 << a); }
      if (full) {
        if (unit > 1) { one(2, v, e, s, unit / 2, runs, u, 1); one(3, v, e, s, 1, runs, u, 1); }
        one(2, v, e, s, unit * 128, runs & (1ull << 63), u, 64); one(3, v, e, s, unit * 128, runs & (1ull << 63), u, 64);   // the word's own storage is only aligned to itself
        one(3, v, e, s, unit * 3, 0, u, 1); one(2, v, e, s, unit * 3, 0, u, 1); one(2, v, e, s, 0, 0, u, 1); one(3, v, e, s, 0, 0, u, 1);
      }
    }
  }
  if (full) for (size_t s : {unit * 64 + 1, unit * 65, unit * 128, unit * 1000, (size_t)1 << 40, ~(size_t)0 - 5, (size_t)0}) { int u = (int)std::min<size_t>(66, (s + unit - 1) / unit); for (int fn = 0; fn < 4; fn++) for (size_t a : {unit, unit * 4}) one(fn, v, e, s, a, 0, u, 1); }
  st.evaluations++;
}
static void prep() { install_handlers(); watchdog(10); for (int i = 0; i < 7; i++) AM[i] = aligned_mask(1 << i); where = "bit-vector operation"; replay_extra = []() { return std::string(); }; describe = []() { return "operation in progress: " + say(); }; crash_sig = "hang-or-crash"; }
MC_CONFIG(pat, "patterns", 8, 8) {
  prep(); int n = opts.thorough ? 20 : 16;
  for (size_t u : {(size_t)16, (size_t)1, (size_t)256}) {
    if (u != 16 && !opts.thorough) break; setunit(u);
    std::vector<std::pair<int, int>> lay; for (int sh : {0, 24, 64 - n}) for (int f = 0; f < 2; f++) lay.push_back({sh, f});
    for (auto &l : lay) { W win = (n == 64 ? ~0ull : ((1ull << n) - 1)) << (64 - n - l.first), fill = l.second ? ~win : 0;
      for (W b = opts.shard; b < 1ull << n; b += opts.nshards) word(fill | (b << (64 - n - l.first)), false); }
    sample(strf("unit %zu: all %d-bit patterns at three places, the rest free or taken; every size of 1 to 64 units, every alignment", u, n));
  }
}
// all words whose free units form up to `runs` runs
static void gen(W v, int from, int runs, int &k, std::function<void(W)> f) {
  if (k++ % opts.nshards == opts.shard) f(v);
  if (!runs) return;
  for (int i = from; i < 64; i++) for (int j = i + 1; j <= 64; j++) gen(v | (top(j - i) >> i), j + 1, runs - 1, k, f);
}
MC_CONFIG(runs, "runs", 8, 8) {
  prep(); static const size_t U[] = {1, 8, 16, 128, 4096, 1 << 20};
  for (size_t u : U) { setunit(u); int k = 0; gen(0, 0, 1, k, [](W v) { word(v, true); }); k = 0; gen(0, 0, 1, k, [](W v) { word(~v, true); }); }
  setunit(16); int k = 0; gen(0, 0, 2, k, [](W v) { word(v, false); }); 
  sample("every word of up to two runs of free units, and every complement of one run");
  if (opts.thorough) { for (size_t u : {(size_t)8, (size_t)4096}) { setunit(u); k = 0; gen(0, 0, 2, k, [](W v) { word(v, true); }); } }
}
// deallocation: every run, with every kind of neighbour
MC_CONFIG(freeing, "freeing", 8, 8) {
  prep(); int k = 0;
  for (size_t u : {(size_t)16, (size_t)1, (size_t)128, (size_t)4096}) { setunit(u);
    for (int p = 0; p < 64; p++) for (int n = 1; p + n <= 64; n++) for (int nb = 0; nb < 16; nb++) {
      if (k++ % opts.nshards != opts.shard) continue; heartbeat(); st.states++;
      W run = top(n) >> p, v = 0, e = 1ull << (64 - p - n);
      // before: free / one allocation / many one-unit allocations / a marked allocation next to it; after likewise
      W bef = p ? top(p) : 0, aft = p + n < 64 ? ~0ull >> (p + n) : 0;
      int b = nb & 3, a = nb >> 2;
      if (b == 0) v |= bef; else if (b == 1) { if (p) e |= 1ull << (64 - p); } else if (b == 2) e |= bef; else { v |= bef & 0xAAAAAAAAAAAAAAAAull; e |= bef & 0x5555555555555555ull; }
      if (a == 0) v |= aft; else if (a == 1) { if (aft) e |= 1; } else if (a == 2) e |= aft; else { v |= aft & 0xAAAAAAAAAAAAAAAAull; e |= aft & 0x5555555555555555ull; }
      for (size_t base : {(size_t)0, 64 * u, 5 * 64 * u}) {
        struct { W a, v, b, e, c; } x = {1, v, 2, e, 3}; W at = base + p * u; cur = {v, e, n * u, 0, 1};
        std::string d = strf("allocation of %d units at unit %d, unit %zu, free units %016lx, end marks %016lx", n, p, u, v, e);
        size_t sz = bitv_allocated_size(&cb, &x.v, &x.e, at); MC_CHECK(sz == n * u, "allocated-size", "%s: bitv_allocated_size is %zu", d.c_str(), sz);
        for (int m = 1; m <= 64; m++) { size_t c = bitv_allocated_size_chk(&cb, &x.v, &x.e, at, m * u); MC_CHECK(m == n ? c == n * u : c == 0, "allocated-size-check", "%s: checked for %d units gives %zu", d.c_str(), m, c); }
        int rc = bitv_free_marked(&cb, &x.v, &x.e, at); st.transitions++;
        MC_CHECK(rc == 0 && x.v == (v | run) && x.e == (e & ~(1ull << (64 - p - n))), "free", "%s: bitv_free_marked returned %d and left %016lx / %016lx", d.c_str(), rc, x.v, x.e);
        W v2 = x.v, e2 = x.e; rc = bitv_free_marked(&cb, &x.v, &x.e, at);
        MC_CHECK(rc != 0 && x.v == v2 && x.e == e2, "double-free", "%s: a second bitv_free_marked returned %d and left %016lx / %016lx", d.c_str(), rc, x.v, x.e);
        x.v = v; x.e = e; rc = bitv_dealloc(&cb, &x.v, at, n * u); st.transitions++;
        MC_CHECK(rc == 0 && x.v == (v | run) && x.e == e, "free", "%s: bitv_dealloc returned %d and left %016lx", d.c_str(), rc, x.v);
        rc = bitv_dealloc(&cb, &x.v, at, n * u); MC_CHECK(rc != 0 && x.v == (v | run), "double-free", "%s: a second bitv_dealloc returned %d", d.c_str(), rc);
        x.v = v; rc = bitv_dealloc(&cb, &x.v, at, (65 - p) * u); MC_CHECK(rc != 0 && x.v == v, "free-too-long", "%s: bitv_dealloc of %d units returned %d", d.c_str(), 65 - p, rc);
        MC_CHECK(x.a == 1 && x.b == 2 && x.c == 3, "overrun", "%s: a neighbouring word changed", d.c_str());
      }
      st.evaluations++;
    } }
  // units that are not powers of two are refused
  for (size_t u = 1; u < 5000; u++) { bitv_cb_t c; memset(&c, 0x55, sizeof c); if (u & (u - 1)) continue; bitv_init(&c, u); MC_CHECK(c.alloc_unit == u && c.alloc_mask == u - 1 && (1ull << c.alloc_shift) == u, "init", "bitv_init(%zu) gives unit %zu, shift %zu, mask %lx", u, c.alloc_unit, c.alloc_shift, c.alloc_mask); }
}
// histories
struct BM { W v, e; int n; struct { signed char p, u; } a[64]; };
struct BS : SeqSysT<BM> {
  struct Op { char k; int u, al; }; std::vector<Op> ops;
  int nops() override { return ops.size(); }
  std::string name(int o) override { auto &x = ops[o]; return x.k == 'a' ? strf("%s(%d units)", x.al ? "aligned_alloc_marked" : "alloc_marked", x.u) + (x.al ? strf(" aligned to %d", x.al) : "") : strf("free live allocation %d", x.u); }
  bool enabled(int o) override { auto &x = ops[o]; return x.k == 'a' ? m.n < 60 : x.u < m.n; }
  void apply(int o) override {
    auto &x = ops[o];
    if (x.k == 'a') {
      ssize_t r = x.al ? bitv_aligned_alloc_marked(&cb, &m.v, &m.e, x.u * unit, x.al * unit) : bitv_alloc_marked(&cb, &m.v, &m.e, x.u * unit);
      W busy = 0; for (int i = 0; i < m.n; i++) busy |= top(m.a[i].u) >> m.a[i].p;
      bool room = false; for (int p = 0; p + x.u <= 64; p += x.al ? x.al : 1) if (!(busy & (top(x.u) >> p))) room = true;
      MC_CHECK(room == (r != -1), "missed-run", "allocation %s with taken units %016lx", r == -1 ? "failed" : "succeeded", busy); if (r == -1) return;
      int p = r / unit; MC_CHECK(r >= 0 && r % unit == 0 && p + x.u <= 64 && (!x.al || p % x.al == 0) && !(busy & (top(x.u) >> p)), "not-free", "returned %ld with taken units %016lx", (long)r, busy);
      int i = m.n++; for (; i > 0 && m.a[i - 1].p > p; i--) m.a[i] = m.a[i - 1]; m.a[i].p = p; m.a[i].u = x.u;
    } else {
      int rc = bitv_free_marked(&cb, &m.v, &m.e, m.a[x.u].p * unit); MC_CHECK(rc == 0, "free", "freeing a live allocation returned %d", rc);
      for (int i = x.u; i + 1 < m.n; i++) m.a[i] = m.a[i + 1]; m.n--; memset(&m.a[m.n], 0, sizeof m.a[0]);
    }
    st.evaluations++;
  }
  void check() override {
    W busy = 0, end = 0; for (int i = 0; i < m.n; i++) { busy |= top(m.a[i].u) >> m.a[i].p; end |= 1ull << (64 - m.a[i].p - m.a[i].u); }
    MC_CHECK(m.v == ~busy && m.e == end, "marking", "the live allocations take %016lx (ends %016lx), the words say %016lx and %016lx", busy, end, ~m.v, m.e);
  }
  uint64_t mhash() override { return hash_bytes(&m, sizeof m, 3); }
};
MC_CONFIG(hist, "histories", 8, 8) {
  prep(); track_statics(); setunit(16);
  for (int set = 0; set < 3; set++) {
    BS s; memset(&s.m, 0, sizeof s.m); s.m.v = ~0ull;
    static const int sz[3][4] = {{1, 7, 20, 32}, {5, 9, 16, 24}, {3, 12, 30, 64}};
    for (int u : sz[set]) { s.ops.push_back({'a', u, 0}); }
    s.ops.push_back({'a', sz[set][0], 4}); s.ops.push_back({'a', sz[set][1], 8}); s.ops.push_back({'a', sz[set][2], 16});
    for (int i = 0; i < 10; i++) s.ops.push_back({'f', i, 0});
    SeqOpts o; o.depth = opts.thorough ? 9 : 6; seq_explore(s, o);
  }
}
