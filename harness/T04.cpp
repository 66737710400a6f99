#define KIND "idx"
#include "enum_checks.h"
MC_CONFIG(c1, "contents-uint64", 4, 4) { contents("u64", 10, false); }
MC_CONFIG(c2, "contents-mixed-width", 4, 4) { contents("mixw", 11, true); }
MC_CONFIG(c3, "contents-double", 2, 4) { contents("dbl", 9, true); }
MC_CONFIG(m1, "modified-uint64", 4, 8) { mods("u64", 4, false, opts.thorough ? 8 : 6); }
MC_CONFIG(m2, "modified-words", 4, 8) { mods("w4", 4, true, opts.thorough ? 8 : 6); }
MC_CONFIG(d1, "two-level", 4, 8) { deep("i64", "asc", 150, false, 12, 1, 1 << 30); }
MC_CONFIG(d2, "two-level-stride", 4, 8) { deep("w15", "stride", 130, true, 12, 1, 1 << 30); }
MC_CONFIG(d3, "three-level", 8, 8) { deep("u64", "asc", 2200, true, 6, opts.thorough ? 3 : 17, 200); }
MC_CONFIG(d4, "three-level-middle", 8, 8) { deep("mixw", "middle", 2200, false, 6, opts.thorough ? 3 : 17, 200); }
