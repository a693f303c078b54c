#include "c07_array.h"
void c07_g(int t) { run<SN<6>>("s6", 2 + t); run<SN<10>>("s10", 2 + t); }
