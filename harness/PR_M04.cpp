#define PR_M04
#include "PR.cpp"
