#define HM07
#include "H.cpp"
