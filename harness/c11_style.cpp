// C11: BLGradient against a list of stops plus fields, BLPattern against its fields; all operation histories up to a depth over two objects.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static const uint64_t COL[] = {0xFFFFFFFF00000000u, 0xFFFF0000FFFF0000u, 0x8080FFFF00001111u, 0x0000123456789ABCu, 0xFFFF00000000FFFFu};
typedef std::pair<double, uint64_t> St;
struct GM { BLGradientType type = BL_GRADIENT_TYPE_LINEAR; BLExtendMode ext = BL_EXTEND_MODE_PAD; double v[6] = {0,0,0,0,0,0}; std::vector<St> s; BLMatrix2D m = BLMatrix2D::make_identity(); };
static bool meq(const BLMatrix2D& a, const BLMatrix2D& b) { return !memcmp(&a, &b, sizeof a) || a == b; }
static bool operator==(const GM& a, const GM& b) { for (int i = 0; i < 6; i++) if (a.v[i] != b.v[i]) return false; return a.type == b.type && a.ext == b.ext && a.s == b.s && meq(a.m, b.m); }
static int nvals(BLGradientType t) { return t == BL_GRADIENT_TYPE_RADIAL ? 6 : 4; }
static void madd(GM& m, double o, uint64_t c) { size_t i = 0; while (i < m.s.size() && m.s[i].first <= o) i++; if (i >= 2 && m.s[i - 2].first == o) m.s[i - 1].second = c; else m.s.insert(m.s.begin() + i, St(o, c)); }
static std::vector<St> mnorm(std::vector<St> v) { std::stable_sort(v.begin(), v.end(), [](const St& a, const St& b) { return a.first < b.first; }); std::vector<St> r; for (auto& s : v) { if (r.size() >= 2 && r[r.size() - 2].first == s.first && r.back().first == s.first) r.back() = s; else r.push_back(s); } return r; }
static void fresh(BLGradient& g, const GM& m, bool rev) {
  if (!rev) { (void)bl_gradient_create(&g, m.type, m.v, m.ext, nullptr, 0, &m.m); for (auto& s : m.s) (void)g.add_stop(s.first, BLRgba64(s.second)); }
  else { (void)g.set_type(m.type); (void)g.set_extend_mode(m.ext); std::vector<BLGradientStop> t; for (auto& s : m.s) t.push_back(BLGradientStop(s.first, BLRgba64(s.second))); (void)g.assign_stops(t.data(), t.size()); (void)g.set_transform(m.m); }
  (void)g.set_values(0, m.v, 6);
}
struct Img { BLImage img; BLContext ctx; uint32_t px[64]; void draw(const BLGradient& g) { memset(px, 0x55, sizeof px); (void)img.create_from_data(16, 4, BL_FORMAT_PRGB32, px, 64); (void)ctx.begin(img); ctx.set_comp_op(BL_COMP_OP_SRC_COPY); ctx.fill_all(g); ctx.end(); img.reset(); } };
static Img* R;
template<class T, class M> struct Two {
  alignas(16) char mem[2][sizeof(T)]; T* s[2]; M m[2]; bool live = false, chk = false, bad = false; size_t base = 0; const char* opn = "";
  void err(const char* k, std::string d) { bad = true; if (chk) fail(k, "%s: %s", opn, d.c_str()); }
  void ok(BLResult r, const char* w = "error result") { if (r != BL_SUCCESS) err("error-result", w); }
  void no(BLResult r) { if (r == BL_SUCCESS) err("accepted", "invalid argument accepted"); }
};
struct GH : Two<BLGradient, GM> {
  struct Op { std::string name; std::function<bool(GH&)> f; }; std::vector<Op> ops; std::vector<double> offs;
  void add(std::string n, std::function<bool(GH&)> f) { ops.push_back({n, f}); }
  void addstop(int t, double o, uint64_t c) { BLResult r = s[t]->add_stop(o, BLRgba64(c)); if (o >= 0 && o <= 1) { ok(r); madd(m[t], o, c); } else no(r); }
  void rmrange(int t, size_t a, size_t b) { BLResult r = s[t]->remove_stops(BLRange{a, b}); size_t n = m[t].s.size(), e = std::min(b, n); if (a > n || e < a) { no(r); return; } ok(r); m[t].s.erase(m[t].s.begin() + a, m[t].s.begin() + e); }
  static std::vector<std::vector<St>> lists() { uint64_t A = COL[0], B = COL[1], C = COL[2], D = COL[3], E = COL[4];
    return {{}, {{0, A}}, {{0, A}, {1, B}}, {{1, A}, {0, B}}, {{0.5, A}, {0.5, B}, {0.5, C}}, {{0.5, A}, {0, B}, {0.5, C}, {1, D}, {0.5, E}, {0, A}, {0.5, B}}, {{1, A}, {1, B}, {0.25, C}, {0.25, D}, {1, E}}, {{0, A}, {0.25, B}, {0.5, C}, {0.75, D}, {1, E}},
      {{0, A}, {0, B}, {0, C}, {0, D}, {0, E}, {0, A}}, {{0.75, A}, {0.25, B}}}; }
  GH(bool full, bool core) {
    offs = {0, 0.25, 0.5, 0.75, 1.0};
    for (int t = 0; t < 2; t++) { int o = 1 - t; std::string N = "g" + std::to_string(t) + ".";
      for (double x : {0.0, 0.5, 1.0}) for (int c = 0; c < (t ? 1 : full && !core ? 4 : 2); c++) add(N + "add_stop(" + std::to_string(x) + ",c" + std::to_string(c) + ")", [=](GH& h) { h.addstop(t, x, COL[c]); return true; });
      add(N + "assign_weak(o)", [=](GH& h) { h.ok(h.s[t]->assign(*h.s[o])); h.m[t] = h.m[o]; h.ren[t] = h.ren[o]; return true; });
      add(N + "remove_stop(0)", [=](GH& h) { if (h.m[t].s.empty()) return false; h.ok(h.s[t]->remove_stop(0)); h.m[t].s.erase(h.m[t].s.begin()); return true; });
      add(N + "set_value(0)", [=](GH& h) { h.ok(h.s[t]->set_value(0, 3.5)); h.m[t].v[0] = 3.5; return true; });
      add(N + "translate", [=](GH& h) { h.ok(h.s[t]->translate(1, 2)); h.m[t].m.translate(1, 2); return true; });
      add(N + "set_type(radial)", [=](GH& h) { h.ok(h.s[t]->set_type(BL_GRADIENT_TYPE_RADIAL)); h.m[t].type = BL_GRADIENT_TYPE_RADIAL; return true; });
      add(N + "set_extend(reflect)", [=](GH& h) { h.ok(h.s[t]->set_extend_mode(BL_EXTEND_MODE_REFLECT)); h.m[t].ext = BL_EXTEND_MODE_REFLECT; return true; });
      add(N + "render", [=](GH& h) { R->draw(*h.s[t]); h.ren[t] = 1; return true; });
      if (t) { add("swap", [=](GH& h) { h.s[0]->swap(*h.s[1]); std::swap(h.m[0], h.m[1]); std::swap(h.ren[0], h.ren[1]); return true; }); continue; }
      add(N + "replace_stop(0,same)", [=](GH& h) { auto& v = h.m[t].s; if (v.empty()) return false; double f = v[0].first; h.ok(h.s[t]->replace_stop(0, f, BLRgba64(COL[4]))); v[0].second = COL[4]; return true; });
      add(N + "replace_stop(last,0.25)", [=](GH& h) { auto& v = h.m[t].s; if (v.empty()) return false; h.ok(h.s[t]->replace_stop(v.size() - 1, 0.25, BLRgba64(COL[2]))); if (v.back().first == 0.25) v.back().second = COL[2]; else { v.pop_back(); madd(h.m[t], 0.25, COL[2]); } return true; });
      add(N + "replace_stop(0,1)", [=](GH& h) { auto& v = h.m[t].s; if (v.empty()) return false; h.ok(h.s[t]->replace_stop(0, 1.0, BLRgba32(0x80402010u))); uint64_t c = 0x8080404020201010u; if (v[0].first == 1.0) v[0].second = c; else { v.erase(v.begin()); madd(h.m[t], 1.0, c); } return true; });
      add(N + "remove_stops(1,3)", [=](GH& h) { h.rmrange(t, 1, 3); return true; });
      add(N + "remove_by_offset(0.5,all)", [=](GH& h) { h.ok(h.s[t]->remove_stop_by_offset(0.5, true)); auto& v = h.m[t].s; for (size_t i = v.size(); i--; ) if (v[i].first == 0.5) v.erase(v.begin() + i); return true; });
      add(N + "remove_by_offset(0,one)", [=](GH& h) { h.ok(h.s[t]->remove_stop_by_offset(0, false)); auto& v = h.m[t].s; if (!v.empty() && v[0].first == 0) v.erase(v.begin()); return true; });
      add(N + "remove_stops_by_offset(0.25,0.75)", [=](GH& h) { h.ok(h.s[t]->remove_stops_by_offset(0.25, 0.75)); auto& v = h.m[t].s; for (size_t i = v.size(); i--; ) if (v[i].first >= 0.25 && v[i].first <= 0.75) v.erase(v.begin() + i); return true; });
      add(N + "remove_stops(0,all)", [=](GH& h) { h.rmrange(t, 0, SIZE_MAX); return true; });
      add(N + "reset_stops", [=](GH& h) { h.ok(h.s[t]->reset_stops()); h.m[t].s.clear(); return true; });
      add(N + "reset", [=](GH& h) { h.ok(h.s[t]->reset()); h.m[t] = GM(); return true; });
      int li = 0; for (auto& l : lists()) { if (core && li != 5 && li != 7) { li++; continue; } add(N + "assign_stops(#" + std::to_string(li) + ")", [=](GH& h) { std::vector<BLGradientStop> x; for (auto& q : l) x.push_back(BLGradientStop(q.first, BLRgba64(q.second))); h.ok(h.s[t]->assign_stops(x.data(), x.size())); h.m[t].s = mnorm(l); return true; }); li++; }
      add(N + "set_value(5)", [=](GH& h) { h.ok(h.s[t]->set_value(5, 9.25)); h.m[t].v[5] = 9.25; return true; });
      add(N + "set_type(linear)", [=](GH& h) { h.ok(h.s[t]->set_type(BL_GRADIENT_TYPE_LINEAR)); h.m[t].type = BL_GRADIENT_TYPE_LINEAR; return true; });
      add(N + "reset_transform", [=](GH& h) { h.ok(h.s[t]->reset_transform()); h.m[t].m.reset(); return true; });
      add(N + "shrink", [=](GH& h) { h.ok(h.s[t]->shrink()); return true; });
      add(N + "assign_move(o)", [=](GH& h) { h.ok(h.s[t]->assign(std::move(*h.s[o]))); h.m[t] = h.m[o]; h.m[o] = GM(); h.ren[t] = h.ren[o]; h.ren[o] = 0; return true; });
      if (core) continue;
      add(N + "assign_stops(self tail)", [=](GH& h) { auto& v = h.m[t].s; if (v.size() < 2) return false; h.ok(h.s[t]->assign_stops(h.s[t]->stops() + 1, v.size() - 1)); v.erase(v.begin()); return true; });
      add(N + "reserve(8)", [=](GH& h) { h.ok(h.s[t]->reserve(8)); if (h.s[t]->capacity() < 8) h.err("capacity", "reserve"); return true; });
      add(N + "set_type(conic)", [=](GH& h) { h.ok(h.s[t]->set_type(BL_GRADIENT_TYPE_CONIC)); h.m[t].type = BL_GRADIENT_TYPE_CONIC; return true; });
      add(N + "set_extend(repeat)", [=](GH& h) { h.ok(h.s[t]->set_extend_mode(BL_EXTEND_MODE_REPEAT)); h.m[t].ext = BL_EXTEND_MODE_REPEAT; return true; });
      add(N + "set_values(linear)", [=](GH& h) { h.ok(h.s[t]->set_values(BLLinearGradientValues(1, 2, 3, 4))); double d[] = {1, 2, 3, 4}; memcpy(h.m[t].v, d, sizeof d); return true; });
      add(N + "set_values(radial)", [=](GH& h) { h.ok(h.s[t]->set_values(BLRadialGradientValues(5, 6, 7, 8, 9, 10))); double d[] = {5, 6, 7, 8, 9, 10}; memcpy(h.m[t].v, d, sizeof d); return true; });
      add(N + "set_values(conic)", [=](GH& h) { h.ok(h.s[t]->set_values(BLConicGradientValues(11, 12, 13, 14))); double d[] = {11, 12, 13, 14}; memcpy(h.m[t].v, d, sizeof d); return true; });
      add(N + "set_values(2,2)", [=](GH& h) { double d[] = {21, 22}; h.ok(h.s[t]->set_values(2, d, 2)); memcpy(h.m[t].v + 2, d, sizeof d); return true; });
      add(N + "setters", [=](GH& h) { BLGradient& g = *h.s[t]; for (int i = 0; i < 4; i++) { h.ok(i == 0 ? g.set_x0(31) : i == 1 ? g.set_y0(32) : i == 2 ? g.set_x1(33) : g.set_y1(34)); h.m[t].v[i] = 31 + i; } return true; });
      add(N + "set_r0,r1", [=](GH& h) { h.ok(h.s[t]->set_r0(41)); h.ok(h.s[t]->set_r1(42)); h.m[t].v[4] = 41; h.m[t].v[5] = 42; return true; });
      add(N + "set_angle,repeat", [=](GH& h) { h.ok(h.s[t]->set_angle(0.5)); h.ok(h.s[t]->set_conic_repeat(2)); h.m[t].v[2] = 0.5; h.m[t].v[3] = 2; return true; });
      add(N + "rotate", [=](GH& h) { h.ok(h.s[t]->rotate(0.5, 1, 2)); h.m[t].m.rotate(0.5, 1, 2); return true; });
      add(N + "post_scale", [=](GH& h) { h.ok(h.s[t]->post_scale(2, 3)); h.m[t].m.post_scale(2, 3); return true; });
      add(N + "set_transform", [=](GH& h) { BLMatrix2D q(1, 2, 3, 4, 5, 6); h.ok(h.s[t]->set_transform(q)); h.m[t].m = q; return true; });
      for (int ty = 0; ty < 3; ty++) add(N + "create(" + std::to_string(ty) + ")", [=](GH& h) { double d[] = {51, 52, 53, 54, 55, 56}; BLMatrix2D q(2, 0, 0, 2, 1, 1); BLGradientStop x[3] = {{1.0, BLRgba64(COL[1])}, {0.0, BLRgba64(COL[0])}, {0.5, BLRgba64(COL[2])}};
        h.ok(bl_gradient_create(h.s[t], (BLGradientType)ty, d, ty == 1 ? BL_EXTEND_MODE_REFLECT : BL_EXTEND_MODE_PAD, ty == 2 ? nullptr : x, ty == 2 ? 0 : 3, ty == 0 ? nullptr : &q)); GM n; n.type = (BLGradientType)ty; n.ext = ty == 1 ? BL_EXTEND_MODE_REFLECT : BL_EXTEND_MODE_PAD; memcpy(n.v, d, sizeof(double) * nvals(n.type)); if (ty != 2) n.s = {{0.0, COL[0]}, {0.5, COL[2]}, {1.0, COL[1]}}; if (ty) n.m = q; h.m[t] = n; return true; });
      add(N + "copy,add", [=](GH& h) { BLGradient c(*h.s[t]); GM x = h.m[t]; h.ok(c.add_stop(0.5, BLRgba64(COL[3]))); madd(x, 0.5, COL[3]); if (h.chk) h.check1(c, x); return true; });
      add(N + "invalid", [=](GH& h) { BLGradient& g = *h.s[t]; GM x = h.m[t]; size_t n = x.s.size(); double nan = __builtin_nan(""), d[8] = {};
        h.no(g.add_stop(-0.001, BLRgba64(COL[0]))); h.no(g.add_stop(1.0001, BLRgba64(COL[0]))); h.no(g.add_stop(nan, BLRgba32(1u)));
        h.no(g.replace_stop(n, 0.5, BLRgba64(COL[0]))); if (n) { h.no(g.replace_stop(0, 1.5, BLRgba64(COL[0]))); h.no(g.replace_stop(n - 1, nan, BLRgba64(COL[0]))); }
        h.no(g.remove_stop_by_offset(2.0)); h.no(g.remove_stops_by_offset(0.75, 0.25)); h.no(g.remove_stops(BLRange{n + 1, n + 2})); if (n) h.no(g.remove_stops(BLRange{n, n - 1})); (void)g.remove_stop(n);
        h.no(g.set_type((BLGradientType)3)); h.no(g.set_extend_mode((BLExtendMode)3)); h.no(g.set_value(6, 1)); h.no(g.set_values(6, d, 1)); h.no(g.set_values(3, d, 4)); h.no(g.set_values(5, d, SIZE_MAX));
        BLGradientStop b[3] = {{0.0, BLRgba64(COL[0])}, {1.5, BLRgba64(COL[0])}, {0.5, BLRgba64(COL[0])}}; h.no(g.assign_stops(b, 3)); h.no(bl_gradient_create(&g, BL_GRADIENT_TYPE_CONIC, d, BL_EXTEND_MODE_PAD, b, 3, nullptr)); h.no(bl_gradient_create(&g, (BLGradientType)9, d, BL_EXTEND_MODE_PAD, b, 1, nullptr)); h.no(bl_gradient_create(&g, BL_GRADIENT_TYPE_CONIC, d, (BLExtendMode)4, b, 1, nullptr));
        h.no(g._apply_transform_op((BLTransformOp)200, d)); return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) BLGradient(); m[i] = GM(); ren[i] = 0; } live = true; bad = chk = false; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~BLGradient(); m[i] = GM(); } if (chk && !bad) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base) fail("leak", "%ld bytes leaked", (long)(a - base)); } }
  void check1(BLGradient& g, const GM& x) {
    if (g.type() != x.type) return err("type", "wrong type"); if (g.extend_mode() != x.ext) return err("extend", "wrong extend mode");
    for (size_t i = 0; i < 6; i++) if (bl_gradient_get_value(&g, i) != x.v[i]) return err("value", "value " + std::to_string(i) + " is " + std::to_string(bl_gradient_get_value(&g, i)) + " instead of " + std::to_string(x.v[i]));
    if (bl_gradient_get_value(&g, 6) == bl_gradient_get_value(&g, 6)) return err("value", "out of range index gives a number");
    if (g.size() != x.s.size() || g.is_empty() != x.s.empty() || g.capacity() < x.s.size()) return err("size", "size " + std::to_string(g.size()) + " instead of " + std::to_string(x.s.size()));
    const BLGradientStop* p = g.stops(); for (size_t i = 0; i < x.s.size(); i++) if (p[i].offset != x.s[i].first || p[i].rgba.value != x.s[i].second) return err("stops", "stop " + std::to_string(i) + " differs");
    for (double o : offs) { size_t e = SIZE_MAX; for (size_t i = 0; i < x.s.size(); i++) if (x.s[i].first == o) { e = i; break; } if (g.index_of_stop(o) != e) return err("index_of_stop", "wrong index"); }
    if (g.index_of_stop(0.3) != SIZE_MAX || g.index_of_stop(2.0) != SIZE_MAX) return err("index_of_stop", "found an offset that is not there");
    BLMatrix2D t; (void)bl_gradient_get_transform(&g, &t); if (!meq(t, x.m) || !meq(g.transform(), x.m)) return err("transform", "wrong transformation"); if (g.transform_type() != x.m.type() || g.has_transform() != (x.m.type() != BL_TRANSFORM_TYPE_IDENTITY)) return err("transform", "wrong transformation type");
    for (int r = 0; r < 2; r++) { BLGradient f; fresh(f, x, r); if (!g.equals(f) || !f.equals(g)) return err("equals", "not equal to a gradient with the same content"); }
    GM y = x; for (int k = 0; k < 5; k++) { GM z = x; if (k == 0) madd(z, 0.125, 1); else if (k == 1) z.v[k] += 1; else if (k == 2) z.m.translate(3, 0); else if (k == 3) { if (z.s.empty()) continue; z.s[0].second ^= 1; } else z.v[nvals(z.type) - 1] -= 2; BLGradient f; fresh(f, z, 0); if (g.equals(f) || f.equals(g)) return err("equals", std::string("equal to a gradient that differs in ") + (k == 0 ? "stops" : k == 1 || k == 4 ? "values" : k == 2 ? "transform" : "a color")); }
    // What is drawn depends only on the content (no cached state left over).
    uint32_t a[64]; R->draw(g); memcpy(a, R->px, sizeof a); BLGradient f; fresh(f, x, 0); R->draw(f); if (memcmp(a, R->px, sizeof a)) return err("stale", "draws differently from a gradient with the same content");
  }
  bool apply(int op, bool check) { chk = check; opn = ops[op].name.c_str(); bad = false; if (!ops[op].f(*this)) return false; if (check && !bad) { bool e = s[0]->equals(*s[1]); for (int i = 0; i < 2 && !bad; i++) check1(*s[i], m[i]); if (!bad && e != (m[0] == m[1])) err("equals", "wrong result between the two objects"); } return !bad; }
  uint64_t state() { Hash h; for (int i = 0; i < 2; i++) { h.u(m[i].type); h.u(m[i].ext); h.b(m[i].v, sizeof m[i].v); h.b(&m[i].m, sizeof m[i].m); h.u(m[i].s.size()); for (auto& q : m[i].s) { h.b(&q.first, 8); h.u(q.second); } h.u(s[i]->capacity()); h.u(ren[i]); } h.u(s[0]->_d.impl == s[1]->_d.impl); return h.h; }
  int ren[2] = {0, 0};
};
struct PM { int img = 0; BLRectI area{0, 0, 0, 0}; BLExtendMode ext = BL_EXTEND_MODE_REPEAT; BLMatrix2D m = BLMatrix2D::make_identity(); };
static bool operator==(const PM& a, const PM& b) { return a.img == b.img && a.area == b.area && a.ext == b.ext && meq(a.m, b.m); }
static BLImage IM[4]; static BLSizeI SZ[4] = {{0, 0}, {4, 3}, {4, 3}, {1, 7}};
struct PH : Two<BLPattern, PM> {
  struct Op { std::string name; std::function<bool(PH&)> f; }; std::vector<Op> ops;
  void add(std::string n, std::function<bool(PH&)> f) { ops.push_back({n, f}); }
  static bool valid(const BLRectI& a, BLSizeI s) { return a.x >= 0 && a.y >= 0 && a.x < s.w && a.y < s.h && a.w >= 0 && a.h >= 0 && (int64_t)a.x + a.w <= s.w && (int64_t)a.y + a.h <= s.h; }
  PH() {
    BLRectI areas[] = {{0, 0, 4, 3}, {1, 1, 2, 2}, {0, 0, 1, 1}, {3, 2, 1, 1}, {0, 6, 1, 1}, {0, 0, 5, 3}, {-1, 0, 2, 2}, {0, 0, 0, 1}, {0, 0, 0, 0}, {2, 0, 2147483647, 1}, {1, 0, 4, 1}, {0, 1, 1, 3}};
    for (int t = 0; t < 2; t++) { int o = 1 - t; std::string N = "p" + std::to_string(t) + ".";
      for (int i = 0; i < 4; i++) add(N + "set_image(" + std::to_string(i) + ")", [=](PH& h) { h.ok(h.s[t]->set_image(IM[i])); h.m[t].img = i; h.m[t].area.reset(0, 0, SZ[i].w, SZ[i].h); return true; });
      int ai = 0; for (auto a : areas) { add(N + "set_area(" + std::to_string(ai++) + ")", [=](PH& h) { BLSizeI z = SZ[h.m[t].img]; BLResult r = h.s[t]->set_area(a); if (valid(a, z)) { h.ok(r); h.m[t].area = a; } else if (r == BL_SUCCESS && !(a == BLRectI(0, 0, z.w, z.h))) h.err("accepted", "invalid area accepted"); return true; }); if (t && ai == 3) break; }
      add(N + "assign_weak(o)", [=](PH& h) { h.ok(h.s[t]->assign(*h.s[o])); h.m[t] = h.m[o]; return true; });
      add(N + "assign_deep(o)", [=](PH& h) { h.ok(bl_pattern_assign_deep(h.s[t], h.s[o])); h.m[t] = h.m[o]; return true; });
      add(N + "reset_area", [=](PH& h) { h.ok(h.s[t]->reset_area()); h.m[t].area.reset(0, 0, SZ[h.m[t].img].w, SZ[h.m[t].img].h); return true; });
      for (int e = 0; e <= 9; e++) { if (t && e != 3) continue; add(N + "set_extend(" + std::to_string(e) + ")", [=](PH& h) { BLResult r = h.s[t]->set_extend_mode((BLExtendMode)e); if (e <= BL_EXTEND_MODE_COMPLEX_MAX_VALUE) { h.ok(r); h.m[t].ext = (BLExtendMode)e; } else h.no(r); return true; }); }
      add(N + "translate", [=](PH& h) { h.ok(h.s[t]->translate(1, 2)); h.m[t].m.translate(1, 2); return true; });
      if (t) { add("swap", [=](PH& h) { h.s[0]->swap(*h.s[1]); std::swap(h.m[0], h.m[1]); return true; }); continue; }
      add(N + "reset_image", [=](PH& h) { h.ok(h.s[t]->reset_image()); h.m[t].img = 0; h.m[t].area.reset(); return true; });
      for (auto a : {areas[1], areas[5], areas[4], areas[6], areas[8]}) add(N + "set_image(1,area " + std::to_string(a.x) + "," + std::to_string(a.y) + "," + std::to_string(a.w) + ")", [=](PH& h) { BLResult r = h.s[t]->set_image(IM[1], a); if (valid(a, SZ[1])) { h.ok(r); h.m[t].img = 1; h.m[t].area = a; } else h.no(r); return true; });
      add(N + "set_image(own)", [=](PH& h) { BLImage g = h.s[t]->get_image(); h.ok(h.s[t]->set_image(g)); h.m[t].area.reset(0, 0, g.width(), g.height()); return true; });
      add(N + "reset_extend", [=](PH& h) { h.ok(h.s[t]->reset_extend_mode()); h.m[t].ext = BL_EXTEND_MODE_REPEAT; return true; });
      add(N + "scale", [=](PH& h) { h.ok(h.s[t]->scale(2, 3)); h.m[t].m.scale(2, 3); return true; });
      add(N + "post_rotate", [=](PH& h) { h.ok(h.s[t]->post_rotate(0.75)); h.m[t].m.post_rotate(0.75); return true; });
      add(N + "set_transform(id)", [=](PH& h) { BLMatrix2D q = BLMatrix2D::make_identity(); h.ok(h.s[t]->set_transform(q)); h.m[t].m = q; return true; });
      add(N + "reset_transform", [=](PH& h) { h.ok(h.s[t]->reset_transform()); h.m[t].m.reset(); return true; });
      add(N + "set_transform(op 200)", [=](PH& h) { double d[6] = {}; h.no(h.s[t]->_apply_transform_op((BLTransformOp)200, d)); return true; });
      add(N + "create(2)", [=](PH& h) { BLMatrix2D q(2, 0, 0, 2, 1, 1); BLRectI a(1, 1, 3, 2); h.ok(bl_pattern_create(h.s[t], &IM[2], &a, BL_EXTEND_MODE_PAD, &q)); PM n; n.img = 2; n.area = a; n.ext = BL_EXTEND_MODE_PAD; n.m = q; h.m[t] = n; return true; });
      add(N + "create(3)", [=](PH& h) { h.ok(h.s[t]->create(IM[3])); PM n; n.img = 3; n.area.reset(0, 0, 1, 7); h.m[t] = n; return true; });
      add(N + "create(bad)", [=](PH& h) { BLRectI a(1, 1, 4, 2); h.no(bl_pattern_create(h.s[t], &IM[2], &a, BL_EXTEND_MODE_PAD, nullptr)); h.no(bl_pattern_create(h.s[t], &IM[2], nullptr, (BLExtendMode)9, nullptr)); h.no(bl_pattern_create(h.s[t], nullptr, &a, BL_EXTEND_MODE_PAD, nullptr)); return true; });
      add(N + "ctor(area)", [=](PH& h) { BLPattern c(IM[1], BLRectI(1, 0, 2, 3), BL_EXTEND_MODE_REFLECT, BLMatrix2D::make_scaling(2)); PM x; x.img = 1; x.area.reset(1, 0, 2, 3); x.ext = BL_EXTEND_MODE_REFLECT; x.m = BLMatrix2D::make_scaling(2); if (h.chk) h.check1(c, x); h.ok(h.s[t]->assign(std::move(c))); h.m[t] = x; return true; });
      add(N + "copy,edit", [=](PH& h) { BLPattern c(*h.s[t]); PM x = h.m[t]; h.ok(c.set_image(IM[2])); h.ok(c.scale(2)); h.ok(c.set_extend_mode(BL_EXTEND_MODE_PAD)); x.img = 2; x.area.reset(0, 0, 4, 3); x.m.scale(2); x.ext = BL_EXTEND_MODE_PAD; if (h.chk) h.check1(c, x); return true; });
      add(N + "reset", [=](PH& h) { h.ok(h.s[t]->reset()); h.m[t] = PM(); return true; });
      add(N + "assign_move(o)", [=](PH& h) { h.ok(h.s[t]->assign(std::move(*h.s[o]))); h.m[t] = h.m[o]; h.m[o] = PM(); return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) BLPattern(); m[i] = PM(); } live = true; bad = chk = false; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~BLPattern(); m[i] = PM(); } if (chk && !bad) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base) fail("leak", "%ld bytes leaked", (long)(a - base)); } }
  void check1(BLPattern& g, const PM& x) {
    if (g.extend_mode() != x.ext) return err("extend", "wrong extend mode");
    if (!(g.area() == x.area)) return err("area", "wrong area");
    BLImage i = g.get_image(); if (i._d.impl != IM[x.img]._d.impl) return err("image", "wrong image");
    if (!meq(g.transform(), x.m) || g.transform_type() != x.m.type() || g.has_transform() != (x.m.type() != BL_TRANSFORM_TYPE_IDENTITY)) return err("transform", "wrong transformation");
    BLPattern f(IM[x.img]); if (x.img) (void)f.set_area(x.area); (void)f.set_extend_mode(x.ext); (void)f.set_transform(x.m); if (!f.equals(g) || !g.equals(f)) return err("equals", "not equal to a pattern with the same content");
    for (int k = 0; k < 4; k++) { BLPattern d(f); if (k == 0) (void)d.set_extend_mode((BLExtendMode)((x.ext + 1) % 9)); else if (k == 1) (void)d.translate(5, 5); else if (k == 2) { if (x.img != 1 && x.img != 2) continue; if (d.set_area(BLRectI(2, 1, 1, 2)) != BL_SUCCESS) return err("area", "valid area rejected"); if (x.area == BLRectI(2, 1, 1, 2)) continue; } else { (void)d.set_image(IM[x.img == 3 ? 1 : 3]); } if (d.equals(g) || g.equals(d)) return err("equals", "equal to a pattern that differs"); }
  }
  bool apply(int op, bool check) { chk = check; opn = ops[op].name.c_str(); bad = false; if (!ops[op].f(*this)) return false; if (check && !bad) { for (int i = 0; i < 2 && !bad; i++) check1(*s[i], m[i]); if (!bad && s[0]->equals(*s[1]) != (m[0] == m[1])) err("equals", "wrong result between the two objects"); } return !bad; }
  uint64_t state() { Hash h; for (int i = 0; i < 2; i++) { h.u(m[i].img); h.b(&m[i].area, sizeof(BLRectI)); h.u(m[i].ext); h.b(&m[i].m, sizeof m[i].m); } h.u(s[0]->_d.impl == s[1]->_d.impl); return h.h; }
};
int main(int argc, char** argv) {
  init(argc, argv);
  Img r; R = &r; { BLGradient g; r.draw(g); (void)g.add_stop(0, BLRgba32(1u)); (void)g.add_stop(1, BLRgba32(0xFF00FF00u)); r.draw(g); }
  for (int i = 1; i < 4; i++) { (void)IM[i].create(SZ[i].w, SZ[i].h, BL_FORMAT_PRGB32); BLImageData d; (void)IM[i].make_mutable(&d); for (int y = 0; y < SZ[i].h; y++) memset((char*)d.pixel_data + y * d.stride, i * 16 + y, SZ[i].w * 4); }
  { GH h(g.thorough, false); bfs(h, "gradient", g.thorough ? 4 : 3); }
  { GH h(g.thorough, true); bfs(h, "gradient-core", g.thorough ? 6 : 5); }
  { PH h; bfs(h, "pattern", g.thorough ? 6 : 5); }
  return done();
}
