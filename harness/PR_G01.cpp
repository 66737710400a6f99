#define PR_G01
#include "PR.cpp"
