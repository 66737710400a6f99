#define N(x) o2_##x
#include "A_prims.inc"
