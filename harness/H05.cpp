#define HM05
#include "H.cpp"
