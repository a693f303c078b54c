#include "vh.h"
void c07_a(int);
void c07_b(int);
void c07_c(int);
void c07_d(int);
void c07_e(int);
void c07_f(int);
void c07_g(int);
void c07_h(int);
void c07_i(int);
int main(int argc, char** argv) {
  vh::init(argc, argv); int t = vh::g.thorough;
  c07_a(t); c07_b(t); c07_c(t); c07_d(t); c07_e(t); c07_f(t); c07_g(t); c07_h(t); c07_i(t);
  return vh::done();
}
