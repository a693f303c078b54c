// C13: BLVar. (a) every ordered pair of a table of boundary values: conversions and equality against exact arithmetic;
// (b) all operation histories up to a depth over two variants holding values and shared objects, with leak accounting.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef __int128 I;
enum K { NUL, BOOL, INT, UINT, DBL, RGBA, RGBA32, RGBA64, OBJ };
struct V { std::string name; K k; I i = 0; double d = 0; BLRgba c; uint32_t c32 = 0; uint64_t c64 = 0; BLObjectType t = BL_OBJECT_TYPE_NULL; int id = -1; std::function<BLVar()> mk; };
static std::vector<V> tab; static int destroyed;
static void add(V v) { tab.push_back(v); }
static std::string hexd(double d) { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
static void build() {
  { V v; v.name = "null"; v.k = NUL; v.mk = [] { return BLVar(); }; add(v); }
  for (int b = 0; b < 2; b++) { V v; v.name = b ? "true" : "false"; v.k = BOOL; v.i = b; v.t = BL_OBJECT_TYPE_BOOL; v.mk = [=] { return BLVar(bool(b)); }; add(v); }
  std::vector<I> ints; I p[] = {0, 7, 8, 15, 16, 23, 24, 30, 31, 32, 33, 52, 53, 54, 62, 63, 64}; for (I s : p) for (int e = -1; e <= 1; e++) { I x = ((I)1 << (int)s) + e; ints.push_back(x); ints.push_back(-x); } ints.push_back(100); ints.push_back((I)1 << 53 | 1); ints.push_back((((I)1 << 63) - 513)); ints.push_back((((I)1 << 63) - 1024)); ints.push_back((((I)1 << 64) - 1025)); ints.push_back((((I)1 << 64) - 2048));
  std::sort(ints.begin(), ints.end()); ints.erase(std::unique(ints.begin(), ints.end()), ints.end());
  for (I x : ints) {
    if (x >= INT64_MIN && x <= INT64_MAX) { V v; v.name = "i64:" + std::to_string((long long)x); v.k = INT; v.i = x; v.t = BL_OBJECT_TYPE_INT64; v.mk = [=] { return x >= INT32_MIN && x <= INT32_MAX && (x & 1) ? BLVar((int32_t)x) : BLVar((int64_t)x); }; add(v); }
    if (x >= 0 && x <= (I)UINT64_MAX) { V v; v.name = "u64:" + std::to_string((unsigned long long)x); v.k = UINT; v.i = x; v.t = BL_OBJECT_TYPE_UINT64; v.mk = [=] { return x <= UINT32_MAX && (x & 1) ? BLVar((uint32_t)x) : BLVar((uint64_t)x); }; add(v); }
  }
  std::vector<double> ds = {0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 1e-300, -1e-300, 1e300, -1e300, INFINITY, -INFINITY, NAN, -NAN, 255.5, 4294967294.5, 4294967295.5, 2147483646.5, 2147483647.5, -2147483648.5, -2147483647.5};
  for (I x : ints) { double d = (double)x; for (double e : {d, std::nextafter(d, 1e308), std::nextafter(d, -1e308)}) ds.push_back(e); }
  std::vector<uint64_t> seen; for (double d : ds) { uint64_t u; memcpy(&u, &d, 8); if (std::find(seen.begin(), seen.end(), u) != seen.end()) continue; seen.push_back(u); V v; v.name = "f64:" + hexd(d); v.k = DBL; v.d = d; v.t = BL_OBJECT_TYPE_DOUBLE; v.mk = [=] { return BLVar(d); }; add(v); }
  for (uint32_t c : {0u, 0xFFFFFFFFu, 0x80FF4001u, 0x01020304u, 0xFF000000u}) { V v; v.name = "rgba32:" + std::to_string(c); v.k = RGBA32; v.c32 = c; v.t = BL_OBJECT_TYPE_RGBA32; v.mk = [=] { return BLVar(BLRgba32(c)); }; add(v); }
  for (uint64_t c : {(uint64_t)0, ~(uint64_t)0, 0x8080FFFF40400101u, 0x1234567890ABCDEFu, 0xFFFF000000000000u}) { V v; v.name = "rgba64:" + std::to_string(c); v.k = RGBA64; v.c64 = c; v.t = BL_OBJECT_TYPE_RGBA64; v.mk = [=] { return BLVar(BLRgba64(c)); }; add(v); }
  for (auto c : {BLRgba(0, 0, 0, 0), BLRgba(1, 1, 1, 1), BLRgba(0.25f, 0.5f, 0.75f, 1.0f), BLRgba(-1, 2, 0.1f, 0.9f), BLRgba(1, 2, 3, 1e30f), BLRgba(0.5f, 0.5f, 0.5f, -1.0f), BLRgba(0.5f, 0.25f, 0.5f, -1e20f), BLRgba(0.5f, 0.25f, 0.5f, -3e38f), BLRgba(1, 0, 1, -0.0f)}) { V v; v.name = "rgba:a=" + hexd(c.a); v.k = RGBA; v.c = c; v.t = BL_OBJECT_TYPE_RGBA; v.mk = [=] { return BLVar(c); }; add(v); }
  int id = 0; auto obj = [&](const char* n, BLObjectType t, std::function<BLVar()> mk) { V v; v.name = n; v.k = OBJ; v.t = t; v.id = id++; v.mk = mk; add(v); };
  obj("str-empty", BL_OBJECT_TYPE_STRING, [] { return BLVar(BLString()); });
  obj("str-sso", BL_OBJECT_TYPE_STRING, [] { return BLVar(BLString("abc")); });
  obj("str-dyn", BL_OBJECT_TYPE_STRING, [] { return BLVar(BLString("a string that does not fit inline")); });
  obj("arr-i32", BL_OBJECT_TYPE_ARRAY_INT32, [] { BLArray<int32_t> a; (void)a.append(1, 2, 3, 4, 5); return BLVar(a); });
  obj("arr-i32-empty", BL_OBJECT_TYPE_ARRAY_INT32, [] { return BLVar(BLArray<int32_t>()); });
  obj("arr-f64", BL_OBJECT_TYPE_ARRAY_FLOAT64, [] { BLArray<double> a; (void)a.append(1.0, 2.0); return BLVar(a); });
  obj("arr-obj", BL_OBJECT_TYPE_ARRAY_OBJECT, [] { BLArray<BLVar> a; (void)a.append(BLVar(1)); (void)a.append(BLVar(BLString("another string that is dynamic"))); return BLVar(a); });
  obj("path", BL_OBJECT_TYPE_PATH, [] { BLPath p; (void)p.move_to(1, 2); (void)p.line_to(3, 4); return BLVar(p); });
  obj("gradient", BL_OBJECT_TYPE_GRADIENT, [] { BLGradient g; (void)g.add_stop(0.5, BLRgba32(0xFF00FF00u)); return BLVar(g); });
  obj("gradient-empty", BL_OBJECT_TYPE_GRADIENT, [] { return BLVar(BLGradient()); });
  obj("pattern", BL_OBJECT_TYPE_PATTERN, [] { BLPattern p; (void)p.translate(1, 1); return BLVar(p); });
  obj("bitset", BL_OBJECT_TYPE_BIT_SET, [] { BLBitSet s; for (int i = 0; i < 5; i++) (void)s.add_bit(i * 1000); return BLVar(s); });
  obj("bitarray", BL_OBJECT_TYPE_BIT_ARRAY, [] { BLBitArray s; (void)s.resize(300); (void)s.set_bit(200); return BLVar(s); });
  obj("features", BL_OBJECT_TYPE_FONT_FEATURE_SETTINGS, [] { BLFontFeatureSettings s; (void)s.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 1); return BLVar(s); });
  obj("variations", BL_OBJECT_TYPE_FONT_VARIATION_SETTINGS, [] { BLFontVariationSettings s; (void)s.set_value(BL_MAKE_TAG('w', 'g', 'h', 't'), 1); return BLVar(s); });
  obj("font", BL_OBJECT_TYPE_FONT, [] { return BLVar(BLFont()); });
  obj("image-ext", BL_OBJECT_TYPE_IMAGE, [] { static uint32_t px[4]; BLImage i; (void)i.create_from_data(2, 2, BL_FORMAT_PRGB32, px, 8, BL_DATA_ACCESS_RW, [](void*, void*, void*) noexcept { destroyed++; }, nullptr); return BLVar(i); });
}
static const V* cur; static bool bad;
static void err(const char* key, std::string d) { bad = true; fail(key, "%s: %s", cur->name.c_str(), d.c_str()); }
template<class T> static void to_int(const BLVar& x, const V& v, BLResult (BLVar::*fn)(T*) const noexcept, const char* n) {
  T out = (T)77; BLResult r = (x.*fn)(&out); I lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max(); I e = 0; BLResult er = BL_SUCCESS;
  switch (v.k) { case NUL: break; case BOOL: case INT: case UINT: e = v.i < lo ? lo : v.i > hi ? hi : v.i; er = e == v.i ? BL_SUCCESS : BL_ERROR_OVERFLOW; break;
    case DBL: if (v.d != v.d) { er = BL_ERROR_INVALID_CONVERSION; break; } { long double d = v.d; if (d < (long double)lo) { e = lo; er = BL_ERROR_OVERFLOW; } else if (d > (long double)hi) { e = hi; er = BL_ERROR_OVERFLOW; } else { e = (I)truncl(d); er = (long double)e == d ? BL_SUCCESS : BL_ERROR_OVERFLOW; } } break;
    default: er = BL_ERROR_INVALID_CONVERSION; }
  if (out != (T)e) err("convert", std::string(n) + " gives " + std::to_string((long long)out) + " instead of " + std::to_string((long long)e)); else if (r != er) err("convert", std::string(n) + " result " + std::to_string(r) + " instead of " + std::to_string(er));
}
static float cl(float f) { return f < 0 ? 0 : f > 1 ? 1 : f; }
static void check_conv(const BLVar& x, const V& v) {
  cur = &v; if (x.type() != v.t) return err("type", "type " + std::to_string(x.type()));
  struct { bool b; bool e; const char* n; } preds[] = {{x.is_null(), v.k == NUL, "null"}, {x.is_bool(), v.k == BOOL, "bool"}, {x.is_int64(), v.k == INT, "int64"}, {x.is_uint64(), v.k == UINT, "uint64"}, {x.is_double(), v.k == DBL, "double"}, {x.is_rgba(), v.k == RGBA, "rgba"}, {x.is_rgba32(), v.k == RGBA32, "rgba32"}, {x.is_rgba64(), v.k == RGBA64, "rgba64"}, {x.is_string(), v.t == BL_OBJECT_TYPE_STRING, "string"}, {x.is_array(), v.t >= BL_OBJECT_TYPE_MIN_ARRAY && v.t <= BL_OBJECT_TYPE_MAX_ARRAY, "array"}, {x.is_path(), v.t == BL_OBJECT_TYPE_PATH, "path"}, {x.is_gradient(), v.t == BL_OBJECT_TYPE_GRADIENT, "gradient"}, {x.is_pattern(), v.t == BL_OBJECT_TYPE_PATTERN, "pattern"}, {x.is_image(), v.t == BL_OBJECT_TYPE_IMAGE, "image"}, {x.is_bit_set(), v.t == BL_OBJECT_TYPE_BIT_SET, "bit_set"}, {x.is_bit_array(), v.t == BL_OBJECT_TYPE_BIT_ARRAY, "bit_array"}, {x.is_font(), v.t == BL_OBJECT_TYPE_FONT, "font"}, {x.is_style(), v.t <= BL_OBJECT_TYPE_MAX_STYLE, "style"}};
  for (auto& p : preds) if (p.b != p.e) err("predicate", std::string("is_") + p.n);
  to_int<int32_t>(x, v, &BLVar::to_int32, "to_int32"); to_int<int64_t>(x, v, &BLVar::to_int64, "to_int64"); to_int<uint32_t>(x, v, &BLVar::to_uint32, "to_uint32"); to_int<uint64_t>(x, v, &BLVar::to_uint64, "to_uint64");
  for (int init = 0; init < 2; init++) { bool o = init; BLResult r = x.to_bool(&o); bool e = false; BLResult er = BL_SUCCESS; switch (v.k) { case NUL: break; case BOOL: case INT: case UINT: e = v.i != 0; break; case DBL: e = v.d == v.d && v.d != 0; break; case OBJ: if (v.t == BL_OBJECT_TYPE_STRING) { e = v.name != "str-empty"; break; } default: er = BL_ERROR_INVALID_CONVERSION; } if (o != e || r != er) err("convert", "to_bool"); }
  { double o = 77; BLResult r = x.to_double(&o); double e = 0; bool s = true; switch (v.k) { case NUL: break; case BOOL: e = (double)v.i; break; case INT: case UINT: e = (double)(long double)v.i; s = (long double)e == (long double)v.i; break; case DBL: e = v.d; break; default: s = false; } if ((o != e && !(o != o && e != e)) || (r == BL_SUCCESS) != s) err("convert", "to_double gives " + hexd(o)); }
  bool col = v.k == RGBA || v.k == RGBA32 || v.k == RGBA64; BLRgba c(9, 9, 9, 9); BLRgba32 c32(77); BLRgba64 c64(77); bool a = x.to_rgba(&c) == BL_SUCCESS, b = x.to_rgba32(&c32) == BL_SUCCESS, d = x.to_rgba64(&c64) == BL_SUCCESS;
  if (a != col || b != col || d != col) return err("convert", "color conversion verdict");
  if (!col) return;
  for (int i = 0; i < 4; i++) { // component i: b,g,r,a
    float f, e; uint32_t s8 = (v.c32 >> (8 * i)) & 255, s16 = (v.c64 >> (16 * i)) & 65535; uint32_t g8 = (c32.value >> (8 * i)) & 255, g16 = (c64.value >> (16 * i)) & 65535; float fc[4] = {c.b, c.g, c.r, c.a}, fs[4] = {v.c.b, v.c.g, v.c.r, v.c.a}; f = fc[i];
    if (v.k == RGBA32) { e = s8 / 255.0f; if (g8 != s8 || g16 != s8 * 257 || std::fabs(f - e) > 1e-6f) err("color", "from rgba32"); }
    if (v.k == RGBA64) { e = s16 / 65535.0f; if (g16 != s16 || g8 != s16 >> 8 || std::fabs(f - e) > 1e-6f) err("color", "from rgba64"); }
    if (v.k == RGBA) { e = i == 3 && !(fs[i] > 0) ? 0 : fs[i]; if (f != e || g8 != uint32_t(cl(e) * 255.0f + 0.5f) || g16 != uint32_t(cl(e) * 65535.0f + 0.5f)) err("color", "from rgba"); }
  }
}
static bool eqv(const V& a, const V& b) {
  bool na = a.k == BOOL || a.k == INT || a.k == UINT, nb = b.k == BOOL || b.k == INT || b.k == UINT;
  if (na && nb) return a.i == b.i;
  if (a.k == DBL && b.k == DBL) return a.d == b.d || (a.d != a.d && b.d != b.d);
  if (na && b.k == DBL) return (long double)a.i == (long double)b.d; if (nb && a.k == DBL) return (long double)b.i == (long double)a.d;
  if (a.k != b.k) return false;
  switch (a.k) { case NUL: return true; case RGBA32: return a.c32 == b.c32; case RGBA64: return a.c64 == b.c64; case RGBA: { float x[4] = {a.c.r, a.c.g, a.c.b, a.c.a > 0 ? a.c.a : 0.0f}, y[4] = {b.c.r, b.c.g, b.c.b, b.c.a > 0 ? b.c.a : 0.0f}; return !memcmp(x, y, 16); } case OBJ: return a.id == b.id; default: return false; }
}
static bool eq_typed(const BLVar& x, const V& b) { // comparison with a plain value through the typed entry points
  switch (b.k) { case NUL: return bl_var_equals_null(&x); case BOOL: return x.equals(b.i != 0); case INT: return x.equals((int64_t)b.i); case UINT: return x.equals((uint64_t)b.i); case DBL: return x.equals(b.d); case RGBA: return x.equals(b.c); case RGBA32: return x.equals(BLRgba32(b.c32)); case RGBA64: return x.equals(BLRgba64(b.c64)); default: { BLVar t = b.mk(); return x.equals(t); } }
}
// The C API, form f of every value: 32-bit and 64-bit integers where both fit.
static int c_forms(const V& v) { return v.k == OBJ ? 2 : (v.k == INT && v.i >= INT32_MIN && v.i <= INT32_MAX) || (v.k == UINT && v.i <= UINT32_MAX) ? 2 : 1; }
static BLResult c_init(BLVarCore* x, const V& v, int f) {
  switch (v.k) { case NUL: return bl_var_init_null(x); case BOOL: return bl_var_init_bool(x, v.i != 0); case INT: return f ? bl_var_init_int32(x, (int32_t)v.i) : bl_var_init_int64(x, (int64_t)v.i); case UINT: return f ? bl_var_init_uint32(x, (uint32_t)v.i) : bl_var_init_uint64(x, (uint64_t)v.i); case DBL: return bl_var_init_double(x, v.d); case RGBA: return bl_var_init_rgba(x, &v.c); case RGBA32: return bl_var_init_rgba32(x, v.c32); case RGBA64: return bl_var_init_rgba64(x, v.c64); default: { BLVar t = v.mk(); return f ? bl_var_init_move(x, &t) : bl_var_init_weak(x, &t); } } }
static BLResult c_assign(BLVarCore* x, const V& v, int f) {
  switch (v.k) { case NUL: return bl_var_assign_null(x); case BOOL: return bl_var_assign_bool(x, v.i != 0); case INT: return f ? bl_var_assign_int32(x, (int32_t)v.i) : bl_var_assign_int64(x, (int64_t)v.i); case UINT: return f ? bl_var_assign_uint32(x, (uint32_t)v.i) : bl_var_assign_uint64(x, (uint64_t)v.i); case DBL: return bl_var_assign_double(x, v.d); case RGBA: return bl_var_assign_rgba(x, &v.c); case RGBA32: return bl_var_assign_rgba32(x, v.c32); case RGBA64: return bl_var_assign_rgba64(x, v.c64); default: { BLVar t = v.mk(); return f ? bl_var_assign_move(x, &t) : bl_var_assign_weak(x, &t); } } }
static uint64_t widen(uint32_t c) { uint64_t r = 0; for (int i = 0; i < 4; i++) r |= (uint64_t)(((c >> (8 * i)) & 255) * 257) << (16 * i); return r; }
struct H {
  BLVar* s[2]; alignas(16) char mem[2][16]; int m[2]; bool live = false, chk = false; size_t base = 0; int made = 0, dead0 = 0; std::vector<int> sub; int img; struct Op { std::string n; std::function<bool(H&)> f; }; std::vector<Op> ops;
  int kk[2]; // how an entry was modified: 0 as made, 1 modified in place
  void add(std::string n, std::function<bool(H&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r) { if (r != BL_SUCCESS) { bad = true; if (chk) fail("error-result", "error %u", r); } }
  void edit(int t) { const V& v = tab[m[t]]; if (v.name == "str-dyn" || v.name == "str-sso") ok(s[t]->as<BLString>().append("xyz")); else if (v.name == "arr-i32") ok(s[t]->as<BLArray<int32_t>>().append(9)); else if (v.name == "path") ok(s[t]->as<BLPath>().line_to(9, 9)); else if (v.name == "gradient") ok(s[t]->as<BLGradient>().add_stop(0.7, BLRgba32(1u))); else if (v.name == "arr-obj") ok(s[t]->as<BLArray<BLVar>>().append(BLVar(BLString("yet another dynamic string value")))); else return; kk[t]++; }
  H() {
    for (size_t i = 0; i < tab.size(); i++) { auto& n = tab[i].name; if (tab[i].k == OBJ || n == "null" || n == "true" || n == "i64:-1" || n == "u64:18446744073709551615" || n == "f64:0.5" || n == "f64:nan" || tab[i].k == RGBA || n == "rgba32:2164211713") sub.push_back((int)i); if (n == "image-ext") img = (int)i; }
    for (int t = 0; t < 2; t++) { int o = 1 - t; std::string N = "v" + std::to_string(t) + ".";
      for (int i : sub) { if (t && (i % 3)) continue; add(N + "assign(" + tab[i].name + ")", [=](H& h) { BLVar x = tab[i].mk(); if (i & 1) h.ok(h.s[t]->assign(x)); else h.ok(h.s[t]->assign(std::move(x))); h.m[t] = i; h.kk[t] = 0; if (i == h.img) h.made++; return true; }); }
      add(N + "assign(o)", [=](H& h) { h.ok(h.s[t]->assign(*h.s[o])); h.m[t] = h.m[o]; h.kk[t] = h.kk[o]; return true; });
      add(N + "assign(move o)", [=](H& h) { h.ok(h.s[t]->assign(std::move(*h.s[o]))); h.m[t] = h.m[o]; h.kk[t] = h.kk[o]; BLObjectType e = h.s[o]->type(); if (e != BL_OBJECT_TYPE_NULL) { if (e != tab[h.m[t]].t) { bad = true; if (h.chk) fail("moved-from", "type %u after a move of %s", e, tab[h.m[t]].name.c_str()); } h.ok(h.s[o]->reset()); } h.m[o] = 0; h.kk[o] = 0; return true; });
      add(N + "assign(self)", [=](H& h) { h.ok(h.s[t]->assign(*h.s[t])); return true; });
      add(N + "reset", [=](H& h) { h.ok(h.s[t]->reset()); h.m[t] = 0; h.kk[t] = 0; return true; });
      add(N + "edit", [=](H& h) { int k = h.kk[t]; if (k > 1) return false; h.edit(t); return h.kk[t] != k; });
      if (t) { add("swap", [=](H& h) { h.s[0]->swap(*h.s[1]); std::swap(h.m[0], h.m[1]); std::swap(h.kk[0], h.kk[1]); return true; }); continue; }
      add(N + "copy,edit copy", [=](H& h) { BLVar c(*h.s[t]); if (c.is_string()) h.ok(c.as<BLString>().append("q")); else if (c.is_path()) h.ok(c.as<BLPath>().line_to(4, 4)); h.ok(c.assign(BLString("a new content for the copy, dynamic"))); return true; });
      add(N + "push into array", [=](H& h) { BLArray<BLVar> a; h.ok(a.append(*h.s[t])); h.ok(a.append(*h.s[o])); BLVar w(a); h.ok(h.s[o]->assign(w.as<BLArray<BLVar>>()[0])); h.m[o] = h.m[t]; h.kk[o] = h.kk[t]; return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].n; }
  void reset() { base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) BLVar(); m[i] = 0; kk[i] = 0; } live = true; chk = false; bad = false; made = 0; dead0 = destroyed; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) s[i]->~BLVar(); if (chk && !bad) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base) fail("leak", "%ld bytes leaked", (long)(a - base)); if (destroyed - dead0 != made) fail("external", "%d release callbacks for %d external images", destroyed - dead0, made); } }
  static std::vector<int> owned(const V&) { return {}; }
  bool apply(int op, bool check) { chk = check; bad = false; if (!ops[op].f(*this)) return false; if (bad || !check) return !bad;
    for (int i = 0; i < 2 && !bad; i++) { const V& v = tab[m[i]]; check_conv(*s[i], v); if (bad) break; cur = &v;
      if (m[i] == img) { int want = 0; for (int j = 0; j < 2; j++) want |= m[j] == img; BLImageData d; (void)s[i]->as<BLImage>().get_data(&d); if (d.size.w != 2) err("content", "image size"); continue; }
      BLVar e = v.mk(); BLVar* keep = s[1 - i]; (void)keep; { BLVar* old = s[i]; BLVar c(e); s[i] = &c; int k = kk[i]; kk[i] = 0; for (int q = 0; q < k; q++) edit(i); s[i] = old; kk[i] = k; if (!old->equals(c) || !c.equals(*old)) err("content", "content differs from a variant built afresh with the same edits"); if (k) { BLVar f = v.mk(); if (f.equals(*old)) err("content", "edited object equals the unedited one"); } } }
    if (!bad) { bool same = m[0] == m[1] && m[0] != img && kk[0] == kk[1]; cur = &tab[m[0]]; if (m[0] == img && m[1] == img) same = s[0]->equals(*s[1]); if (!same && m[0] != m[1]) same = eqv(tab[m[0]], tab[m[1]]); if (s[0]->equals(*s[1]) != same || s[1]->equals(*s[0]) != same) err("equals", "wrong equality with " + tab[m[1]].name); }
    if (!bad) { int alive = made - (destroyed - dead0), holders = (m[0] == img) + (m[1] == img); if ((holders == 0) != (alive == 0) || alive > holders) { cur = &tab[img]; err("lifetime", std::to_string(alive) + " external images alive with " + std::to_string(holders) + " variants holding one"); } }
    return !bad; }
  uint64_t state() { Hash h; for (int i = 0; i < 2; i++) { h.u(m[i]); h.u(kk[i]); } const V& v = tab[m[0]]; h.u(v.k == OBJ && m[0] == m[1] && !memcmp(&s[0]->_d, &s[1]->_d, 16)); return h.h; }
};
int main(int argc, char** argv) {
  init(argc, argv); build();
  uint64_t cnt = 0; bool rep = g.replay.size() && g.replay.compare(0, 5, "pair:") == 0;
  for (size_t i = 0; i < tab.size(); i++) {
    std::string c = "pair:" + std::to_string(i); if (!g.replay.empty() ? g.replay != c : !mine(i)) continue; set_case(c.c_str());
    BLVar x = tab[i].mk(); check_conv(x, tab[i]); cnt++;
    for (size_t j = 0; j < tab.size(); j++) { if (tab[i].name == "image-ext" && i == j) continue; BLVar y = tab[j].mk(); cur = &tab[i]; bool e = eqv(tab[i], tab[j]); cnt++; if (x.equals(y) != e || y.equals(x) != e) err("equals", "equality with " + tab[j].name + " is not " + (e ? "true" : "false"));
      bool te = e; K a = tab[i].k, b = tab[j].k; // typed comparison of colors converts the variant's color
      if (b == RGBA32 && a == RGBA64) te = widen(tab[j].c32) == tab[i].c64; if (b == RGBA64 && a == RGBA32) te = widen(tab[i].c32) == tab[j].c64;
      if ((a == RGBA && (b == RGBA32 || b == RGBA64)) || (b == RGBA && (a == RGBA32 || a == RGBA64)) || (a == RGBA && b == RGBA)) continue;
      if (eq_typed(x, tab[j]) != te) err("equals-typed", "comparison with the value " + tab[j].name + " is not " + (te ? "true" : "false")); }
    for (int f = 0; f < c_forms(tab[i]); f++) { // made and replaced by the C API, whatever was held before
      size_t base = __sanitizer_get_current_allocated_bytes(); int dead = destroyed; bool ext = tab[i].name == "image-ext"; int dm = 0;
      { BLVarCore z; memset(&z, 0xA5, sizeof(z)); cnt++; if (c_init(&z, tab[i], f) != BL_SUCCESS) err("init", "C API init form " + std::to_string(f)); else { if (!ext) { check_conv(reinterpret_cast<BLVar&>(z), tab[i]); if (!bl_var_equals(&z, &x) && tab[i].name != "f64:nan" && tab[i].name != "f64:-nan") err("init", "C API init form " + std::to_string(f) + " gives another value"); } BLVarCore w; (void)bl_var_init_weak(&w, &z); if (!bl_var_strict_equals(&w, &z)) err("strict-equals", "a copy is not strictly equal"); (void)bl_var_destroy(&w); } (void)bl_var_destroy(&z); dm += ext; }
      for (size_t j = 0; j < tab.size(); j++) { BLVar y = tab[j].mk(); dm += tab[j].name == "image-ext"; dm += ext; cnt++; if (c_assign(&y, tab[i], f) != BL_SUCCESS) err("assign", "C API assign form " + std::to_string(f) + " over " + tab[j].name); else if (!ext && j % 5 == i % 5) check_conv(y, tab[i]); if (y.type() != tab[i].t || (!ext && !y.equals(x) && !(tab[i].k == DBL && tab[i].d != tab[i].d))) err("assign", "C API assign form " + std::to_string(f) + " over " + tab[j].name + " gives another value"); }
      if (destroyed - dead != dm) err("external", std::to_string(destroyed - dead) + " release callbacks for " + std::to_string(dm) + " external images (C API)"); size_t now = __sanitizer_get_current_allocated_bytes(); if (now > base) { cur = &tab[i]; err("leak", std::to_string(now - base) + " bytes leaked by C API assignments"); } }
  }
  for (int t = 0; t <= 129; t++) { std::string c = "type:" + std::to_string(t); if (!g.replay.empty() ? g.replay != c : !mine(t)) continue; set_case(c.c_str()); V v; v.name = c; cur = &v; BLVarCore x; BLResult r = bl_var_init_type(&x, (BLObjectType)t); cnt++; if (t > 127) { if (r == BL_SUCCESS || bl_var_get_type(&x) != BL_OBJECT_TYPE_NULL) err("init_type", "invalid type accepted"); } else if (r == BL_SUCCESS) { BLObjectType y = bl_var_get_type(&x); bool res = (t >= 6 && t <= 8) || (t >= 11 && t <= 15) || (t >= 19 && t <= 24) || t == 27 || (t >= 56 && t <= 99) || t >= 107; if (y != t && !res) err("init_type", "type " + std::to_string(y)); BLVarCore z; (void)bl_var_init_weak(&z, &x); if (!bl_var_equals(&x, &z)) err("equals", "default object differs from its copy"); (void)bl_var_destroy(&z); } (void)bl_var_destroy(&x); }
  vh::stat("pairs", cnt); vh::stat("transitions", cnt); (void)rep;
  { H h; bfs(h, "var", g.thorough ? 16 : 8); }
  return done();
}
