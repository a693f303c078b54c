#include "c07_array.h"
void c07_f(int t) { run<uint64_t>("u64", 2 + t); run<SN<3>>("s3", 2 + t); }
