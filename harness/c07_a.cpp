#include "c07_array.h"
void c07_a(int t) { run<uint8_t>("u8", 4 + t); run<int16_t>("i16", 2 + t); }
