#define PR_L01
#include "PR.cpp"
