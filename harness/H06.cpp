#define HM06
#include "H.cpp"
