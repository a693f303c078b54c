#include "c07_array.h"
void c07_c(int t) { run<BLString>("string", 4 + t); }
