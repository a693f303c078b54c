#include "c07_array.h"
void c07_b(int t) { run<SN<12>>("s12", 3 + t); run<uint16_t>("u16", 2 + t); }
