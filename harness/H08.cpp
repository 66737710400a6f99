#define HM08
#include "H.cpp"
