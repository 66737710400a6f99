#define HM06
#define HM12
#include "H.cpp"
