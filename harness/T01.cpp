#define KIND "str"
#include "map_checks.h"
MC_CONFIG(small_short, "small-short", 2, 4) { small("short", 4, false, 6, 8); }
MC_CONFIG(small_pfx, "small-prefix", 1, 4) { small("pfx", 12, true, 3, 4); }
MC_CONFIG(small_pfx2, "small-prefix-locked", 1, 4) { small("pfx", 4, false, 5, 7); }
MC_CONFIG(small_long, "small-long", 1, 2) { small("long", 4, true, 5, 7); }
MC_CONFIG(two_asc, "two-level-ascending", 2, 8) { prefilled("short", "asc", opts.thorough ? 130 : 66, true, 2); }
MC_CONFIG(two_desc, "two-level-descending", 2, 8) { prefilled("mixed", "desc", opts.thorough ? 130 : 66, false, 2); }
MC_CONFIG(two_str, "two-level-stride", 2, 8) { prefilled("long", "stride", opts.thorough ? 100 : 66, true, 2); }
MC_CONFIG(three_a, "deep-drain-asc-asc", 4, 8) { drain("short", "asc", "asc", 2300, 16, true); }
MC_CONFIG(three_b, "deep-drain-asc-desc", 4, 8) { drain("short", "asc", "desc", 2300, 16, true); }
MC_CONFIG(three_c, "deep-drain-stride-middle", 4, 8) { drain("mixed", "stride", "middle", 2300, 16, true); }
MC_CONFIG(three_d, "deep-drain-desc-stride", 4, 8) { drain("short", "desc", "stride", 2300, 16, false); }
MC_CONFIG(three_e, "deep-drain-bitrev-edges", 4, 8) { drain("short", "bitrev", "edges", 2300, 16, true); }
MC_CONFIG(three_f, "deep-drain-evenodd-evenodd", 4, 8) { drain("short", "evenodd", "evenodd", 2300, 16, true); }
MC_CONFIG(ch1, "churn-short", 1, 1) { churn("short", "asc", "stride", 500, 30, false, 65536, false); }
MC_CONFIG(ch2, "churn-long", 1, 1) { churn("long", "stride", "asc", 180, 60, false, 65536, false); }
MC_CONFIG(ch3, "churn-keep", 1, 1) { churn("mixed", "stride", "middle", 300, 200, true, 131072, false); }
MC_CONFIG(ch4, "churn-fixed", 1, 1) { churn("short", "asc", "stride", 400, 1200, true, 65536, true); }
MC_CONFIG(ch5, "churn-fixed-long", 1, 1) { churn("long", "stride", "middle", 70, 1200, true, 65536, true); }
MC_CONFIG(ch6, "churn-lengths", 1, 1) { churn("lens", "stride", "middle", 330, 1200, true, 65536, true); }
MC_CONFIG(ch7, "churn-lengths-15", 1, 1) { churn("l15", "asc", "stride", 330, 1200, true, 65536, true); }
MC_CONFIG(gr1, "grow-long", 1, 1) { grow("long", "stride", 400, 65536); }
MC_CONFIG(gr3, "grow-long-300", 1, 1) { grow("long", "stride", 300, 65536); }
MC_CONFIG(gr2, "grow-long-asc", 1, 1) { grow("long", "asc", 2000, 65536); }
MC_CONFIG(gr9, "grow-limit", 1, 1) { grow_limit("long", "asc", 3190, 3300, 16384); }
MC_CONFIG(dst, "destroy", 1, 1) { destroy_gives_back("short", 1500, 65536, false); }
MC_CONFIG(dst2, "destroy-fixed", 1, 1) { destroy_gives_back("short", 300, 131072, true); }
// keys of every length: up to 560 bytes they are stored, longer ones (up to more than the whole tree) are stored or refused
static void lengths(bool fixed, bool nolock) {
  join_region(); track_region(); track_push(); int top = opts.thorough ? 70000 : 6000;
  for (int L = 0, i = 0; L <= top; L += L < 4200 ? 1 : 97, i++) {
    if (i % opts.nshards != opts.shard) continue;
    Map *t = make_map(KIND, "short", 1); StrMap *sm = (StrMap *)t; *sm = StrMap({std::string(L, 'k'), "a" + std::string(L, 'b'), "z", std::string(L / 2, 'k') + "x"}); t->nolock = nolock;
    path = {L}; where = strf("put of keys of length %d and %d", L, L + 1); heartbeat();
    guarded([&]() { t->create(65536, fixed, 0); MapSys s; s.t = t; for (int i = 0; i < 4; i++) s.univ.push_back(i); s.longest = 560; s.init();
      for (int k : {1, 0, 2, 3}) { s.step(0, k); s.check(); st.transitions++; } for (int k : {0, 2, 1}) { s.step(1, k); s.check(); } for (int k : {2, 1, 0}) { s.step(0, k); s.check(); s.step(1, k); s.check(); } s.step(1, 3); s.check(); t->destroy(); });
    st.states++; st.executions++; delete t; track_pop(); track_push();
  }
  track_pop(); sample(strf("keys of every length from 0 to %d", top)); st.depth = top;
}
MC_CONFIG(lens, "key-lengths", 1, 2) { lengths(false, false); }
MC_CONFIG(lens2, "key-lengths-fixed", 1, 2) { lengths(true, true); }
// a fixed tree that runs full refuses the key
MC_CONFIG(full, "fixed-full", 1, 1) {
  Map *t = make_map(KIND, "short", 2000); join_region(); t->create(65536, true, 0); MapSys s; s.t = t; for (int i = 0; i < 2000; i++) s.univ.push_back(i); s.init(); s.fixed = true;
  crash_sig = "fixed-full";
  guarded([&]() { for (int k = 0; k < 2000; k++) { path = {k}; where = strf("put number %d into a fixed tree of 64K", k); s.step(0, k); s.check_counts(); st.transitions++; st.states++; heartbeat(); } s.check(); });
  st.executions++; sample("2000 keys put into a fixed tree of 64K");
}
