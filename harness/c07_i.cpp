#include "c07_array.h"
void c07_i(int t) { run<SN<24>>("s24", 2 + t); run<SN<16>>("s16", 2 + t); }
