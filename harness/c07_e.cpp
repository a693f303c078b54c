#include "c07_array.h"
void c07_e(int t) { run<BLArray<int>>("array", 3 + t); run<float>("f32", 2 + t); }
