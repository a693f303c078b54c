#include "c07_array.h"
void c07_h(int t) { run<SN<20>>("s20", 2 + t); run<SN<32>>("s32", 2 + t); }
