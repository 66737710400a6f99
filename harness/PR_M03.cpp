#define PR_M03
#include "PR.cpp"
