#define KIND "idx"
#include "map_checks.h"
MC_CONFIG(small_u, "small-uint64", 2, 4) { small("u64", 4, false, 6, 8); }
MC_CONFIG(small_w, "small-mixed-width", 1, 4) { small("mixw", 6, true, 4, 6); }
MC_CONFIG(small_15, "small-15-words", 1, 4) { small("w15", 4, false, 5, 7); }
MC_CONFIG(small_d, "small-double", 1, 2) { small("dbl", 5, true, 5, 6); }
MC_CONFIG(two_asc, "two-level-ascending", 2, 8) { prefilled("u64", "asc", opts.thorough ? 130 : 66, true, 2); }
MC_CONFIG(two_desc, "two-level-descending", 2, 8) { prefilled("w2", "desc", opts.thorough ? 130 : 66, false, 2); }
MC_CONFIG(two_str, "two-level-stride", 2, 8) { prefilled("w15", "stride", opts.thorough ? 100 : 66, true, 2); }
MC_CONFIG(three_a, "deep-drain-asc-asc", 4, 8) { drain("u64", "asc", "asc", 2300, 16, true); }
MC_CONFIG(three_b, "deep-drain-asc-desc", 4, 8) { drain("i64", "asc", "desc", 2300, 16, true); }
MC_CONFIG(three_c, "deep-drain-stride-middle", 4, 8) { drain("mixw", "stride", "middle", 2300, 16, true); }
MC_CONFIG(three_d, "deep-drain-desc-stride", 4, 8) { drain("ref", "desc", "stride", 2300, 16, false); }
MC_CONFIG(three_e, "deep-drain-bitrev-edges", 4, 8) { drain("w4", "bitrev", "edges", 2300, 16, true); }
MC_CONFIG(three_f, "deep-drain-evenodd-evenodd", 4, 8) { drain("dbl", "evenodd", "evenodd", 2300, 16, true); }
MC_CONFIG(ch1, "churn-uint64", 1, 1) { churn("u64", "asc", "stride", 500, 30, false, 65536, false); }
MC_CONFIG(ch2, "churn-15-words", 1, 1) { churn("w15", "stride", "asc", 300, 60, false, 65536, false); }
MC_CONFIG(ch3, "churn-keep", 1, 1) { churn("mixw", "stride", "middle", 400, 200, true, 65536, false); }
MC_CONFIG(ch4, "churn-fixed", 1, 1) { churn("u64", "asc", "stride", 400, 1200, true, 65536, true); }
MC_CONFIG(ch5, "churn-fixed-15-words", 1, 1) { churn("w15", "stride", "middle", 150, 1200, true, 65536, true); }
MC_CONFIG(gr1, "grow-15-words", 1, 1) { grow("w15", "stride", 3000, 65536); }
MC_CONFIG(gr9, "grow-limit", 1, 1) { grow_limit("w15", "asc", 7900, 8100, 16384); }
MC_CONFIG(dst, "destroy", 1, 1) { destroy_gives_back("u64", 1500, 65536, false); }
MC_CONFIG(dst2, "destroy-fixed", 1, 1) { destroy_gives_back("u64", 300, 131072, true); }
// a fixed index that runs full refuses the key
MC_CONFIG(full, "fixed-full", 1, 1) {
  Map *t = make_map(KIND, "u64", 2000); join_region(); t->create(65536, true, 0); MapSys s; s.t = t; for (int i = 0; i < 2000; i++) s.univ.push_back(i); s.init(); s.fixed = true;
  crash_sig = "fixed-full";
  guarded([&]() { for (int k = 0; k < 2000; k++) { path = {k}; where = strf("put number %d into a fixed index of 64K", k); s.step(0, k); s.check_counts(); st.transitions++; st.states++; heartbeat(); } s.check(); });
  st.executions++; sample("2000 keys put into a fixed index of 64K");
}
