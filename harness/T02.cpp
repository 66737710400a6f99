#define KIND "str"
#include "enum_checks.h"
MC_CONFIG(c1, "contents-prefix", 4, 4) { contents("pfx", 11, false); }
MC_CONFIG(c2, "contents-nested", 2, 4) { contents("nest", 9, true); }
MC_CONFIG(m1, "modified-short", 8, 8) { mods("short", 4, false, opts.thorough ? 7 : 5); }
MC_CONFIG(m2, "modified-prefix", 8, 8) { mods("nest", 4, true, opts.thorough ? 7 : 5); }
MC_CONFIG(d1, "two-level", 4, 8) { deep("short", "asc", 150, false, 12, 1, 1 << 30); }
MC_CONFIG(d2, "two-level-stride", 4, 8) { deep("long", "stride", 130, true, 12, 1, 1 << 30); }
MC_CONFIG(d3, "three-level", 8, 8) { deep("short", "asc", 2200, true, 6, opts.thorough ? 3 : 17, 200); }
MC_CONFIG(d4, "three-level-middle", 8, 8) { deep("mixed", "middle", 2200, false, 6, opts.thorough ? 3 : 17, 200); }
