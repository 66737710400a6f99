// M12: what the write-back and paging-advice calls ask of the kernel. msync and madvise are replaced by recorders.
struct Call { int fn; U a, n; int arg; };
static std::vector<Call> calls; static int fail_at = -1;
extern "C" { int msync(void *a, size_t n, int f) { calls.push_back({0, (U)a, n, f}); if ((int)calls.size() - 1 == fail_at) { errno = EIO; return -1; } return 0; } int madvise(void *a, size_t n, int f) noexcept { calls.push_back({1, (U)a, n, f}); if ((int)calls.size() - 1 == fail_at) { errno = ENOMEM; return -1; } return 0; } }
enum { WR_S, WR_A, PU_S, PU_A, REL, BRI, SEQ_, RND, NF };
static const char *FN[] = {"Write (synchronous)", "Write (asynchronous)", "Purge (synchronous)", "Purge (asynchronous)", "Release", "Bring", "SeqAccess", "RandomAccess"};
static int one(int f, void *a, U n) { switch (f) { case WR_S: return sasMsyncWrite(a, n, SAS_SYNC); case WR_A: return sasMsyncWrite(a, n, SAS_ASYNC); case PU_S: return sasMsyncPurge(a, n, SAS_SYNC); case PU_A: return sasMsyncPurge(a, n, SAS_ASYNC); case REL: return sasMsyncRelease(a, n); case BRI: return sasMsyncBring(a, n); case SEQ_: return sasMsyncSequential(a, n); default: return sasMsyncRandom(a, n); } }
static U all(int f) { switch (f) { case WR_S: return SASCompoundHeapWriteAll(H, SAS_SYNC); case WR_A: return SASCompoundHeapWriteAll(H, SAS_ASYNC); case PU_S: return SASCompoundHeapPurgeAll(H, SAS_SYNC); case PU_A: return SASCompoundHeapPurgeAll(H, SAS_ASYNC); case REL: return SASCompoundHeapReleaseAll(H); case BRI: return SASCompoundHeapBringAll(H); case SEQ_: return SASCompoundHeapSeqAccessAll(H); default: return SASCompoundHeapRandomAccessAll(H); } }
static int advice(int f) { return f == BRI ? MADV_WILLNEED : f == SEQ_ ? MADV_SEQUENTIAL : f == RND ? MADV_RANDOM : MADV_DONTNEED; }
// the calls of one operation are of the right kinds and in the right order: every byte written back before it is given up
static bool kinds(int f, const char *what) {
  bool wr = f <= PU_A, adv = f >= PU_S, as = f == WR_A || f == PU_A; Iv w, d; const char *bad = nullptr;
  for (auto &c : calls) {
    if (!c.n) continue;
    if (c.a & 4095) bad = "a range that does not begin at a page";
    if (c.fn == 0) { if (!wr) bad = "a write-back that was not asked for"; if (((c.arg & MS_SYNC) != 0) == as || ((c.arg & MS_ASYNC) != 0) != as) bad = "the wrong kind of write-back"; w.push_back({c.a, c.a + c.n}); }
    else { if (!adv) bad = "advice that was not asked for"; else if (c.arg != advice(f)) bad = "the wrong advice"; if (f == PU_S || f == PU_A) if (!covers(merged(w), c.a, c.a + c.n)) bad = "pages given up before they were written back"; d.push_back({c.a, c.a + c.n}); }
  }
  MC_CHECK(!bad, "kind", "%s asked the kernel for %s", what, bad); return !bad;
}
static Iv ranges(int fn) { Iv r; for (auto &c : calls) if (c.fn == fn && c.n) r.push_back({c.a, c.a + c.n}); std::sort(r.begin(), r.end()); Iv o; for (auto &x : r) if (!o.empty() && o.back().second >= x.first) o.back().second = std::max(o.back().second, x.second); else o.push_back(x); return o; }
static bool within(const Iv &a, const Iv &b) { for (auto &x : a) if (!covers(b, x.first, x.second)) return false; return true; }
static void sync_all(const M &m) {
  std::string save = g_at; Iv own = mine(); U tot = (U)m.blocks * HS, extra = total(own) - tot;   // a list of blocks that has outgrown its place has a block of its own
  for (int f = 0; f < NF; f++) {
    uint64_t h0 = track_hash(); calls.clear(); fail_at = -1; U r = 0; std::string what = save + strf(", %sAll of the heap of %d blocks", FN[f], m.blocks); where = what; crash_sig = "crash"; guarded([&] { r = all(f); });
    if (!kinds(f, what.c_str())) return;
    if (f <= PU_A) MC_CHECK(ranges(0) == own, "coverage", "%s wrote back%s, the heap's blocks are%s", what.c_str(), show(ranges(0)).c_str(), show(own).c_str());
    if (f >= PU_S) MC_CHECK(ranges(1) == own || (f >= REL && extra && total(ranges(1)) == tot && within(ranges(1), own)), "coverage", "%s advised%s, the heap's blocks are%s", what.c_str(), show(ranges(1)).c_str(), show(own).c_str());
    MC_CHECK(r == tot, "total", "%s returned %lu, the heap has %lu bytes", what.c_str(), r, tot);
    MC_CHECK(track_hash() == h0, "changed", "%s changed the region", what.c_str()); std::string lk = locks_held(); MC_CHECK(lk.empty(), "locked", "%s left locks held: %s", what.c_str(), lk.c_str());
    st.transitions++; st.evaluations++;
  }
  g_at = save;
}
MC_CONFIG(s1, "heaps/expanding-16k", 1, 2) { hist(16384, 4096, true, 100, false, true, 7, opts.thorough ? 10 : 7); }
MC_CONFIG(s2, "heaps/expanding-75", 1, 2) { hist(16384, 4096, true, 75, true, true, 5, opts.thorough ? 7 : 5); }
MC_CONFIG(s3, "heaps/fixed-16k", 1, 1) { hist(16384, 4096, false, 100, true, true, 5, opts.thorough ? 8 : 6); }
MC_CONFIG(s4, "heaps/pages-1k", 1, 1) { hist(8192, 1024, true, 100, false, true, 6, opts.thorough ? 9 : 6); }
MC_CONFIG(s5, "heaps/load-0", 1, 1) { hist(16384, 4096, true, 0, false, false, 4, opts.thorough ? 8 : 6); }
MC_CONFIG(s6, "heaps/many-blocks", 1, 1) { setup(true); track_region(); track_push(); make(8192, 4096, true, 100); M m; int n = opts.thorough ? 510 : 300; for (int i = 0; i < n; i++) { alloc(m, false, i % 5); if (i < 20 || i % 23 == 0 || i > n - 3 || (i > 248 && i < 262)) { sync_all(m); st.states++; } } sample(strf("%d blocks", m.blocks)); track_pop(); }
MC_CONFIG(s7, "heaps/sizes", 1, 1) { setup(true); track_region(); track_push(); for (int l = 13; l <= 20; l++) for (int pl = 10; pl < l; pl++) { track_push(); U size = 1ul << l, page = 1ul << pl; if (size <= std::max(page, (U)default_page)) { track_pop(); continue; } make(size, page, true, 100); M m; sync_all(m); for (U i = 0, n = perblock() + 1; i < n && i < 40; i++) alloc(m, false, i % 5); if (m.blocks == 1) expand(m); sync_all(m); st.states++; track_pop(); } track_pop(); }
// every range: all starts in a page by all lengths of interest, all lengths by the starts of interest; each call failing
static void range(int f, U a, U n) {
  U lo = a & ~4095ul, hi = (a + n + 4095) & ~4095ul; calls.clear(); fail_at = -1; int r = one(f, (void *)a, n); std::string what = strf("%s of %lu bytes at %#lx", FN[f], n, a); where = what;
  MC_CHECK(r == 0, "result", "%s returned %d", what.c_str(), r); if (!kinds(f, what.c_str())) return; Iv want; if (n) want = {{lo, hi}};
  for (int k = 0; k < 2; k++) { if (k ? f < PU_S : f > PU_A) continue; Iv got = ranges(k); MC_CHECK(got == want || (!n && (got.empty() || got == Iv{{lo, lo + 4096}})), "coverage", "%s passed%s to the kernel, its pages are%s", what.c_str(), show(got).c_str(), show(want).c_str()); }
  st.evaluations++; st.states++;
}
MC_CONFIG(s8, "ranges", 2, 4) {
  setup(false); U b = (U)getMemLow() + (1 << 20); int k = 0; std::vector<U> ns; for (U c : {0ul, 16ul, 2048ul, 4096ul, 8192ul, 12288ul, 65536ul, 1ul << 20, 1ul << 28}) for (long d = -3; d <= 3; d++) if ((long)c + d >= 0) ns.push_back(c + d); std::sort(ns.begin(), ns.end()); ns.erase(std::unique(ns.begin(), ns.end()), ns.end()); sample(strf("4096 starts by %zu lengths, 12289 lengths by 16 starts, eight operations", ns.size()));
  for (int f = 0; f < NF; f++) { heartbeat();
    for (U o = 0; o < 4096; o++) if (k++ % opts.nshards == opts.shard) for (U n : ns) range(f, b + o, n);
    for (U o : {0, 1, 2, 7, 8, 15, 16, 127, 128, 2047, 2048, 2049, 4080, 4094, 4095}) for (U n = 0; n <= (opts.thorough ? 65536 : 12288); n++) if (k++ % opts.nshards == opts.shard) range(f, b + o, n);
    // a failing call is reported, and nothing that was not written back is given up
    for (U o : {0, 1, 4095}) for (U n : {1, 4096, 8193}) for (int x = 0; x < (f == PU_S || f == PU_A ? 2 : 1); x++) { calls.clear(); fail_at = x; int r = one(f, (void *)(b + o), n); fail_at = -1; MC_CHECK(r != 0, "failure", "%s of %lu bytes at page+%lu returned 0 although its call %d failed", FN[f], n, o, x); if (x == 0) MC_CHECK(ranges(1).empty() || f >= REL, "given-up", "%s gave up pages after their write-back failed", FN[f]); st.evaluations++; } }
  st.transitions = st.states;
}
