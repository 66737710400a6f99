#pragma GCC optimize("O0")
#define N(x) o0_##x
#include "A_prims.inc"
