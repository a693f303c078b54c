#include "c07_array.h"
void c07_d(int t) { run<double>("f64", 3 + t); run<int32_t>("i32", 2 + t); }
