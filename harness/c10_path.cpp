// C10: BLPath against a plain list of (command, vertex) records; all operation histories up to a depth over two paths.
#include <blend2d/blend2d.h>
#include <blend2d/core/path_p.h>
#include <math.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
struct R { uint8_t c; double x, y; };
typedef std::vector<R> VP;
static const double KAPPA = 0.55228474983, NaN = NAN;
enum { M = 0, ON = 1, Q = 2, K = 3, C = 4, Z = 5, W = 6 };
static bool close1(double a, double b) { if (a != a || b != b) return (a != a) == (b != b); return fabs(a - b) <= 1e-6 * (1 + fabs(a)); }
static bool same(const R& a, const R& b) { return a.c == b.c && close1(a.x, b.x) && close1(a.y, b.y); }
static R V(int c, double x, double y) { return R{(uint8_t)c, x, y}; }
static R CL() { return V(Z, NaN, NaN); }
static VP box(double x0, double y0, double x1, double y1, bool cw) { if (cw) return {V(M, x0, y0), V(ON, x1, y0), V(ON, x1, y1), V(ON, x0, y1), CL()}; return {V(M, x0, y0), V(ON, x0, y1), V(ON, x1, y1), V(ON, x1, y0), CL()}; }
static VP rev1(const VP& s);
// Reversal of one run: figures appear in reverse order (complete) or each reversed in place.
static bool figures(const VP& s, std::vector<VP>& out) { VP cur; for (auto& r : s) { if (r.c == M && !cur.empty()) { out.push_back(cur); cur.clear(); } if (cur.empty() && r.c != M) return false; cur.push_back(r); if (r.c == Z) { out.push_back(cur); cur.clear(); } } if (!cur.empty()) out.push_back(cur); return true; }
static VP rev1(const VP& f) {   // one well-formed figure
  VP o; bool closed = f.back().c == Z; size_t n = f.size() - (closed ? 1 : 0);
  for (size_t i = n; i-- > 0;) { R r = f[i]; uint8_t c = r.c; if (i == n - 1) c = M; else if (c == M) c = ON; 
    if (c == W) { o.push_back(V(K, f[i - 1].x, f[i - 1].y)); o.push_back(r); i--; continue; }
    r.c = c; o.push_back(r); }
  if (closed) o.push_back(CL());
  return o;
}
static bool wellformed(const VP& s) { std::vector<VP> f; if (!figures(s, f)) return false; for (auto& g : f) { if (g.back().c != Z && g.back().c != ON && g.back().c != M) return false; if (g.size() == 2 && g[1].c == Z) {} for (size_t i = 0; i < g.size();) { int c = g[i].c; if (i == 0) { i++; continue; } if (c == ON) i++; else if (c == Q) { if (i + 1 >= g.size() || g[i + 1].c != ON) return false; i += 2; } else if (c == C) { if (i + 2 >= g.size() || g[i + 1].c != C || g[i + 2].c != ON) return false; i += 3; } else if (c == K) { if (i + 2 >= g.size() || g[i + 1].c != W || g[i + 2].c != ON) return false; i += 3; } else if (c == Z) i++; else return false; } } return true; }
static VP reversed(const VP& s, bool complete) { std::vector<VP> f; figures(s, f); VP o; for (size_t i = 0; i < f.size(); i++) { VP r = rev1(f[complete ? f.size() - 1 - i : i]); o.insert(o.end(), r.begin(), r.end()); } return o; }
static void mapv(VP& s, size_t a, size_t n, const BLMatrix2D& m) { for (size_t i = a; i < a + n && i < s.size(); i++) { if (s[i].c == W) continue; double x = s[i].x, y = s[i].y; s[i].x = x * m.m00 + y * m.m10 + m.m20; s[i].y = x * m.m01 + y * m.m11 + m.m21; } }
struct Box { double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300; void add(double x, double y) { if (x < x0) x0 = x; if (x > x1) x1 = x; if (y < y0) y0 = y; if (y > y1) y1 = y; } };
template<class F> static void sample_curve(const VP& s, size_t i, F f, int steps) {   // curve starting at vertex i-1 with command at i
  const R& p0 = s[i - 1];
  for (int k = 0; k <= steps; k++) { double t = double(k) / steps, u = 1 - t;
    if (s[i].c == Q) f(u * u * p0.x + 2 * u * t * s[i].x + t * t * s[i + 1].x, u * u * p0.y + 2 * u * t * s[i].y + t * t * s[i + 1].y);
    else if (s[i].c == C) f(u * u * u * p0.x + 3 * u * u * t * s[i].x + 3 * u * t * t * s[i + 1].x + t * t * t * s[i + 2].x, u * u * u * p0.y + 3 * u * u * t * s[i].y + 3 * u * t * t * s[i + 1].y + t * t * t * s[i + 2].y);
    else { double w = s[i + 1].x, d = u * u + 2 * u * t * w + t * t; f((u * u * p0.x + 2 * u * t * w * s[i].x + t * t * s[i + 2].x) / d, (u * u * p0.y + 2 * u * t * w * s[i].y + t * t * s[i + 2].y) / d); } }
}
template<class F> static void sample_all(const VP& s, size_t from, F f, int steps) { for (size_t i = from; i < s.size();) { int c = s[i].c; if (c == M || c == ON) { f(s[i].x, s[i].y); i++; } else if (c == Z) i++; else if (c == W) i++; else { sample_curve(s, i, f, steps); i += c == Q ? 1 : 2; } } }

struct PH {
  alignas(16) char mem[2][sizeof(BLPath)]; BLPath* s[2]; VP m[2]; bool live = false, chk = false, bad = false; size_t base = 0; std::string opn;
  struct Op { std::string name; std::function<bool(PH&)> f; }; std::vector<Op> ops;
  BLPath& S(int i) { return *s[i]; }
  void err(const char* k, const std::string& d) { bad = true; if (chk) fail(k, "%s: %s", opn.c_str(), d.c_str()); }
  void add(std::string n, std::function<bool(PH&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r) { if (r != BL_SUCCESS) err("error-result", "returned " + std::to_string(r)); }
  void rej(BLResult r) { if (r == BL_SUCCESS) err("accepted", "invalid call accepted"); }
  void app(int t, const VP& v) { m[t].insert(m[t].end(), v.begin(), v.end()); }
  bool haslast(int t) { return !m[t].empty() && m[t].back().c < Z; }
  // Takes over the vertices the implementation appended from index `from` on (their geometry is judged by the caller).
  VP adopt(int t, size_t from) { VP o; const uint8_t* c = S(t).command_data(); const BLPoint* v = S(t).vertex_data(); for (size_t i = from; i < S(t).size(); i++) { o.push_back(V(c[i], v[i].x, v[i].y)); m[t].push_back(o.back()); } return o; }
  // All samples of the arc appended at `from` must lie on the ellipse, progress monotonically and cover the sweep from start to end.
  void arcgeom(int t, size_t from, double cx, double cy, double rx, double ry, double start, double sweep, bool move, const VP& a) {
    (void)t; (void)from; std::string w; if (a.empty()) { err("arc", "nothing appended"); return; }
    if (move && a[0].c != M) err("arc", "does not start with MOVE");
    double tot = 0, prev = 0; bool first = true; double sw = std::min(fabs(sweep), 2 * M_PI); double maxdev = 0; VP b = a; if (b[0].c != M && b[0].c != ON) b.insert(b.begin(), m[t][m[t].size() - a.size() - 1]); 
    if (fabs(b[0].x - (cx + rx * cos(start))) > 1e-6 || fabs(b[0].y - (cy + ry * sin(start))) > 1e-6) err("arc", "start point wrong");
    sample_all(b, 0, [&](double x, double y) { double nx = (x - cx) / rx, ny = (y - cy) / ry; maxdev = std::max(maxdev, fabs(hypot(nx, ny) - 1)); double an = atan2(ny, nx); if (!first) { double d = an - prev; while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI; tot += d; if (d * (sweep < 0 ? -1 : 1) < -1e-6) w = "direction reverses"; } prev = an; first = false; }, 16);
    if (maxdev > 4e-4) err("arc", "points off the ellipse by " + std::to_string(maxdev));
    if (fabs(fabs(tot) - sw) > 1e-3 || (sw > 1e-3 && tot * sweep < 0)) err("arc", "sweep " + std::to_string(tot) + " instead of " + std::to_string(sweep));
    if (!w.empty()) err("arc", w);
  }
  bool strict_on = true;
  PH(bool full) {
    auto N2 = [](int t) { return "p" + std::to_string(t) + "."; };
    for (int t = 0; t < 2; t++) {
      int o = 1 - t; std::string N = N2(t);
      add(N + "move_to(10,20)", [=](PH& h) { h.ok(h.S(t).move_to(10, 20)); h.app(t, {V(M, 10, 20)}); return true; });
      add(N + "line_to(30,-4.5)", [=](PH& h) { h.ok(h.S(t).line_to(30, -4.5)); h.app(t, {V(ON, 30, -4.5)}); return true; });
      add(N + "assign_weak(o)", [=](PH& h) { h.ok(h.S(t).assign(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "query", [=](PH& h) { BLBox b; uint32_t f; h.S(t).get_bounding_box(&b); h.S(t).get_control_box(&b); h.S(t).get_info_flags(&f); return true; });
      add(N + "conic_to", [=](PH& h) { h.ok(h.S(t).conic_to(40, 60, 70, 10, 0.7)); h.app(t, {V(K, 40, 60), V(W, 0.7, NaN), V(ON, 70, 10)}); return true; });
      if (t) { add(N + "close", [=](PH& h) { h.ok(h.S(t).close()); h.app(t, {CL()}); return true; }); add(N + "clear", [=](PH& h) { h.ok(h.S(t).clear()); h.m[t].clear(); return true; }); continue; }
      add(N + "move_to(-5,3.25)", [=](PH& h) { h.ok(h.S(t).move_to(BLPoint(-5, 3.25))); h.app(t, {V(M, -5, 3.25)}); return true; });
      add(N + "poly_to(3)", [=](PH& h) { BLPoint p[3] = {{1, 2}, {3, 4}, {-7, 50}}; h.ok(h.S(t).poly_to(p, 3)); h.app(t, {V(ON, 1, 2), V(ON, 3, 4), V(ON, -7, 50)}); return true; });
      add(N + "poly_to(0)", [=](PH& h) { BLPoint p[1]; h.ok(h.S(t).poly_to(p, 0)); return true; });
      add(N + "quad_to", [=](PH& h) { h.ok(h.S(t).quad_to(100, 20, 30, 60)); h.app(t, {V(Q, 100, 20), V(ON, 30, 60)}); return true; });
      add(N + "cubic_to", [=](PH& h) { h.ok(h.S(t).cubic_to(20, -80, 90, 50, 40, 40)); h.app(t, {V(C, 20, -80), V(C, 90, 50), V(ON, 40, 40)}); return true; });
      add(N + "smooth_quad_to", [=](PH& h) { bool e = h.haslast(t); BLResult r = h.S(t).smooth_quad_to(5, 6); if (!e) { h.rej(r); return true; } h.ok(r); R p = h.m[t].back(); double x = p.x, y = p.y; size_t n = h.m[t].size(); if (n >= 2 && h.m[t][n - 2].c == Q) { x = 2 * p.x - h.m[t][n - 2].x; y = 2 * p.y - h.m[t][n - 2].y; } h.app(t, {V(Q, x, y), V(ON, 5, 6)}); return true; });
      add(N + "smooth_cubic_to", [=](PH& h) { bool e = h.haslast(t); BLResult r = h.S(t).smooth_cubic_to(7, 9, 15, 16); if (!e) { h.rej(r); return true; } h.ok(r); R p = h.m[t].back(); double x = p.x, y = p.y; size_t n = h.m[t].size(); if (n >= 2 && h.m[t][n - 2].c == C) { x = 2 * p.x - h.m[t][n - 2].x; y = 2 * p.y - h.m[t][n - 2].y; } h.app(t, {V(C, x, y), V(C, 7, 9), V(ON, 15, 16)}); return true; });
      add(N + "arc_quadrant_to", [=](PH& h) { bool e = h.haslast(t); BLResult r = h.S(t).arc_quadrant_to(50, 0, 50, 30); if (!e) { h.rej(r); return true; } h.ok(r); R p = h.m[t].back(); h.app(t, {V(C, p.x + (50 - p.x) * KAPPA, p.y + (0 - p.y) * KAPPA), V(C, 50, 30 + (0 - 30) * KAPPA), V(ON, 50, 30)}); return true; });
      struct A { double st, sw; bool mv; };
      for (A a : {A{0.3, 1.0, true}, A{1.0, -2.5, false}, A{-0.5, 7.0, false}, A{2.0, 4.0, true}, A{0, -6.0, true}, A{0.1, M_PI / 2, false}}) add(N + "arc_to(" + std::to_string(a.st) + "," + std::to_string(a.sw) + (a.mv ? ",move)" : ")"), [=](PH& h) {
        size_t n = h.m[t].size(); bool cont = !a.mv && n && h.m[t].back().c <= ON; h.ok(h.S(t).arc_to(20, 30, 12, 7, a.st, a.sw, a.mv)); VP v = h.adopt(t, n);
        if (cont && !v.empty() && v[0].c == M) h.err("arc", "MOVE although continuing"); if (!cont && !v.empty() && v[0].c != M) h.err("arc", "no MOVE"); h.arcgeom(t, n, 20, 30, 12, 7, a.st, a.sw, !cont, v); return true; });
      for (int fl = 0; fl < 4; fl++) { if (!full && fl == 2) continue; add(N + "elliptic_arc_to(" + std::to_string(fl) + ")", [=](PH& h) {
        bool la = fl & 1, sw = fl & 2; size_t n = h.m[t].size(); bool e = n && h.m[t].back().c <= ON; double rx = 60, ry = 35, rot = 0.4, X = 25, Y = 22; BLResult r = h.S(t).elliptic_arc_to(rx, ry, rot, la, sw, X, Y); if (!e) { h.rej(r); return true; } h.ok(r);
        R p = h.m[t].back(); VP v = h.adopt(t, n); if (p.x == X && p.y == Y) { if (!v.empty()) h.err("elliptic-arc", "zero length arc appended something"); return true; }
        if (v.empty()) { h.err("elliptic-arc", "nothing appended"); return true; }
        // SVG endpoint parameterisation, computed independently
        double cr = cos(rot), sr = sin(rot), dx = (p.x - X) / 2, dy = (p.y - Y) / 2, x1 = cr * dx + sr * dy, y1 = -sr * dx + cr * dy; double L = x1 * x1 / (rx * rx) + y1 * y1 / (ry * ry); if (L > 1) { rx *= sqrt(L); ry *= sqrt(L); }
        double q = (rx * rx * ry * ry - rx * rx * y1 * y1 - ry * ry * x1 * x1) / (rx * rx * y1 * y1 + ry * ry * x1 * x1); if (q < 0) q = 0; q = sqrt(q) * (la == sw ? -1 : 1); double cx1 = q * rx * y1 / ry, cy1 = -q * ry * x1 / rx; double cx = cr * cx1 - sr * cy1 + (p.x + X) / 2, cy = sr * cx1 + cr * cy1 + (p.y + Y) / 2;
        double a0 = atan2((y1 - cy1) / ry, (x1 - cx1) / rx), a1 = atan2((-y1 - cy1) / ry, (-x1 - cx1) / rx), D = a1 - a0; if (!sw && D > 0) D -= 2 * M_PI; if (sw && D < 0) D += 2 * M_PI;
        VP b = v; b.insert(b.begin(), p); double dev = 0, tot = 0, prev = 0; bool first = true; b[0].c = M; sample_all(b, 0, [&](double x, double y) { double ux = cr * (x - cx) + sr * (y - cy), uy = -sr * (x - cx) + cr * (y - cy); ux /= rx; uy /= ry; dev = std::max(dev, fabs(hypot(ux, uy) - 1)); double an = atan2(uy, ux); if (!first) { double d = an - prev; while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI; tot += d; } prev = an; first = false; }, 16);
        if (dev > 1e-3) h.err("elliptic-arc", "off the ellipse by " + std::to_string(dev)); if (fabs(tot - D) > 1e-2) h.err("elliptic-arc", "sweep " + std::to_string(tot) + " instead of " + std::to_string(D));
        if (v.back().c != ON || v.back().x != X || v.back().y != Y) h.err("elliptic-arc", "does not end at the end point"); return true; }); }
      add(N + "elliptic_arc_to(r=0)", [=](PH& h) { size_t n = h.m[t].size(); bool e = n && h.m[t].back().c <= ON; BLResult r = h.S(t).elliptic_arc_to(0, 5, 0, true, true, 3, 8); if (!e) { h.rej(r); return true; } h.ok(r); if (h.m[t].back().x != 3 || h.m[t].back().y != 8) h.app(t, {V(ON, 3, 8)}); return true; });
      add(N + "close", [=](PH& h) { h.ok(h.S(t).close()); h.app(t, {CL()}); return true; });
      static const BLMatrix2D MX[3] = {BLMatrix2D(2, 0, 0, 3, 5, -7), BLMatrix2D(0.5, 1.5, -2, 0.25, 1, 2), BLMatrix2D(1, 0, 0, 1, 11, 13)};
      for (int cw = 1; cw >= 0; cw--) { BLGeometryDirection D = cw ? BL_GEOMETRY_DIRECTION_CW : BL_GEOMETRY_DIRECTION_CCW; std::string d = cw ? "CW)" : "CCW)";
        add(N + "add_box(" + d, [=](PH& h) { h.ok(h.S(t).add_box(BLBox(1, 2, 30.5, 40), D)); h.app(t, box(1, 2, 30.5, 40, cw)); return true; });
        add(N + "add_boxi(" + d, [=](PH& h) { h.ok(h.S(t).add_box(BLBoxI(1, 2, 30, 40), D)); h.app(t, box(1, 2, 30, 40, cw)); return true; });
        add(N + "add_recti(" + d, [=](PH& h) { h.ok(h.S(t).add_rect(BLRectI(5, 6, 10, 12), D)); h.app(t, box(5, 6, 15, 18, cw)); return true; });
        add(N + "add_rect(m," + d, [=](PH& h) { size_t n = h.m[t].size(); BLRect r(5, 6, 10, 12.5); h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_RECTD, &r, &MX[1], D)); h.app(t, box(5, 6, 15, 18.5, cw)); mapv(h.m[t], n, 5, MX[1]); return true; });
        add(N + "add_circle(" + d, [=](PH& h) { size_t n = h.m[t].size(); h.ok(h.S(t).add_circle(BLCircle(10, 12, 8), D)); VP v = h.adopt(t, n); if (v.empty() || v.back().c != Z) h.err("circle", "not closed"); h.arcgeom(t, n, 10, 12, 8, 8, 0, cw ? 2 * M_PI : -2 * M_PI, true, v); return true; });
        add(N + "add_ellipse(m," + d, [=](PH& h) { size_t n = h.m[t].size(); BLEllipse e(10, 12, 8, 4); h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_ELLIPSE, &e, &MX[0], D)); VP v = h.adopt(t, n); if (v.empty() || v.back().c != Z) h.err("ellipse", "not closed"); h.arcgeom(t, n, 25, 29, 16, 12, 0, cw ? 2 * M_PI : -2 * M_PI, true, v); return true; });
        add(N + "add_arc(" + d, [=](PH& h) { size_t n = h.m[t].size(); h.ok(h.S(t).add_arc(BLArc(5, 6, 20, 10, 0.4, 2.2), D)); VP v = h.adopt(t, n); h.arcgeom(t, n, 5, 6, 20, 10, 0.4, cw ? 2.2 : -2.2, true, v); return true; });
        add(N + "add_arc(m," + d, [=](PH& h) { size_t n = h.m[t].size(); BLArc a(5, 6, 20, 10, 0.4, 2.2); h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_ARC, &a, &MX[2], D)); VP v = h.adopt(t, n); h.arcgeom(t, n, 16, 19, 20, 10, 0.4, cw ? 2.2 : -2.2, true, v); return true; });
        add(N + "add_chord(" + d, [=](PH& h) { size_t n = h.m[t].size(); h.ok(h.S(t).add_chord(BLArc(5, 6, 20, 10, 0.4, 3.5), D)); VP v = h.adopt(t, n); if (v.empty() || v.back().c != Z) { h.err("chord", "not closed"); return true; } v.pop_back(); h.arcgeom(t, n, 5, 6, 20, 10, 0.4, cw ? 3.5 : -3.5, true, v); return true; });
        add(N + "add_pie(" + d, [=](PH& h) { size_t n = h.m[t].size(); h.ok(h.S(t).add_pie(BLArc(5, 6, 20, 10, -1, 5), D)); VP v = h.adopt(t, n); if (v.size() < 3 || v.back().c != Z || v[0].c != M || v[0].x != 5 || v[0].y != 6 || v[1].c != ON) { h.err("pie", "structure"); return true; } v.pop_back(); v.erase(v.begin()); h.arcgeom(t, n, 5, 6, 20, 10, -1, cw ? 5 : -5, false, v); return true; });
        for (int deg = 0; deg < 2; deg++) add(N + "add_round_rect(" + std::to_string(deg) + "," + d, [=](PH& h) { size_t n = h.m[t].size(); double rx = deg ? 0 : 3, ry = deg ? 9 : 100; h.ok(h.S(t).add_round_rect(BLRoundRect(2, 3, 20, 10, rx, ry), D)); if (deg) { h.app(t, box(2, 3, 22, 13, cw)); return true; } VP v = h.adopt(t, n); ry = 5;
            if (v.empty() || v[0].c != M || v.back().c != Z) { h.err("round-rect", "structure"); return true; } double area = 0, lx = 0, ly = 0; bool f = true; double dev = 0; Box b; double fx = 0, fy = 0;
            sample_all(v, 0, [&](double x, double y) { b.add(x, y); double ex = x < 2 + rx ? 2 + rx - x : x > 22 - rx ? x - 22 + rx : 0, ey = y < 3 + ry ? 3 + ry - y : y > 13 - ry ? y - 13 + ry : 0; bool edge = fabs(x - 2) < 1e-6 || fabs(x - 22) < 1e-6 || fabs(y - 3) < 1e-6 || fabs(y - 13) < 1e-6; if (!edge) dev = std::max(dev, fabs(hypot(ex / rx, ey / ry) - 1)); if (!f) area += lx * y - ly * x; else { fx = x; fy = y; } f = false; lx = x; ly = y; }, 16); area += lx * fy - ly * fx; area /= 2; double want = 20 * 10 - (4 - M_PI) * rx * ry; 
            if (dev > 1e-3 || fabs(fabs(area) - want) > 0.3 || (area > 0) != (cw == 1)) h.err("round-rect", "dev " + std::to_string(dev) + " area " + std::to_string(area)); if (fabs(b.x0 - 2) + fabs(b.x1 - 22) + fabs(b.y0 - 3) + fabs(b.y1 - 13) > 1e-6) h.err("round-rect", "extent"); return true; });
        add(N + "add_line(" + d, [=](PH& h) { h.ok(h.S(t).add_line(BLLine(1, 2, 3, 4), D)); if (cw) h.app(t, {V(M, 1, 2), V(ON, 3, 4)}); else h.app(t, {V(M, 3, 4), V(ON, 1, 2)}); return true; });
        add(N + "add_triangle(m," + d, [=](PH& h) { size_t n = h.m[t].size(); BLTriangle tr(1, 2, 3, 40, 5, 6); h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_TRIANGLE, &tr, &MX[0], D)); if (cw) h.app(t, {V(M, 1, 2), V(ON, 3, 40), V(ON, 5, 6), CL()}); else h.app(t, {V(M, 5, 6), V(ON, 3, 40), V(ON, 1, 2), CL()}); mapv(h.m[t], n, 4, MX[0]); return true; });
        for (int ty = 0; ty < 4; ty++) add(N + "add_" + (ty & 2 ? "polygon" : "polyline") + (ty & 1 ? "I" : "D") + "(" + d, [=](PH& h) {
          std::vector<BLPointI> pi{{1, 2}, {3, 44}, {5, -6}}; std::vector<BLPoint> pd{{1, 2}, {3, 44}, {5, -6}}; BLArrayView<BLPointI> vi; vi.data = pi.data(); vi.size = 3; BLArrayView<BLPoint> vd; vd.data = pd.data(); vd.size = 3;
          BLGeometryType g = ty & 2 ? (ty & 1 ? BL_GEOMETRY_TYPE_POLYGONI : BL_GEOMETRY_TYPE_POLYGOND) : (ty & 1 ? BL_GEOMETRY_TYPE_POLYLINEI : BL_GEOMETRY_TYPE_POLYLINED); h.ok(h.S(t).add_geometry(g, ty & 1 ? (void*)&vi : (void*)&vd, nullptr, D));
          if (cw) h.app(t, {V(M, 1, 2), V(ON, 3, 44), V(ON, 5, -6)}); else h.app(t, {V(M, 5, -6), V(ON, 3, 44), V(ON, 1, 2)}); if (ty & 2) h.app(t, {CL()}); return true; });
        for (int ty = 0; ty < 4; ty++) add(N + "add_array" + std::to_string(ty) + "(" + d, [=](PH& h) {
          std::vector<BLBoxI> bi{{1, 2, 3, 4}, {5, 5, 4, 9}, {-10, -20, 30, 44}}; std::vector<BLBox> bd{{1, 2, 3, 4}, {5, 5, 4, 9}, {-10, -20, 30, 44}}; std::vector<BLRectI> ri{{1, 2, 2, 2}, {5, 5, -1, 4}, {-10, -20, 40, 64}}; std::vector<BLRect> rd{{1, 2, 2, 2}, {5, 5, 0, 4}, {-10, -20, 40, 64}};
          BLArrayView<BLBoxI> v; v.size = 3; v.data = ty == 0 ? bi.data() : ty == 1 ? (BLBoxI*)bd.data() : ty == 2 ? (BLBoxI*)ri.data() : (BLBoxI*)rd.data(); BLGeometryType g[4] = {BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXI, BL_GEOMETRY_TYPE_ARRAY_VIEW_BOXD, BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTI, BL_GEOMETRY_TYPE_ARRAY_VIEW_RECTD};
          h.ok(h.S(t).add_geometry(g[ty], &v, nullptr, D)); if (cw) { h.app(t, box(1, 2, 3, 4, 1)); h.app(t, box(-10, -20, 30, 44, 1)); } else { h.app(t, box(-10, -20, 30, 44, 0)); h.app(t, box(1, 2, 3, 4, 0)); } return true; });
      }
      for (int self = 0; self < 2; self++) { std::string d = self ? "self" : "o"; int q = self ? t : o;
        add(N + "add_path(" + d + ")", [=](PH& h) { VP v = h.m[q]; h.ok(h.S(t).add_path(h.S(q))); h.app(t, v); return true; });
        for (auto& r : {std::pair<size_t, size_t>{0, 2}, {1, 4}, {2, SIZE_MAX}, {4, 3}}) { size_t a = r.first, b = r.second; add(N + "add_path(" + d + "," + std::to_string(a) + "," + std::to_string(b) + ")", [=](PH& h) { VP v; for (size_t i = a; i < std::min(b, h.m[q].size()); i++) v.push_back(h.m[q][i]); h.ok(h.S(t).add_path(h.S(q), BLRange{a, b})); h.app(t, v); return true; }); }
        add(N + "add_path(" + d + ",p)", [=](PH& h) { VP v = h.m[q]; mapv(v, 0, v.size(), MX[2]); h.ok(h.S(t).add_path(h.S(q), BLPoint(11, 13))); h.app(t, v); return true; });
        for (int k = 0; k < 2; k++) add(N + "add_path(" + d + ",m" + std::to_string(k) + ")", [=](PH& h) { VP v = h.m[q]; mapv(v, 0, v.size(), MX[k]); h.ok(h.S(t).add_path(h.S(q), MX[k])); h.app(t, v); return true; });
        add(N + "add_path(" + d + ",[1..5],m)", [=](PH& h) { VP v; for (size_t i = 1; i < std::min(size_t(5), h.m[q].size()); i++) v.push_back(h.m[q][i]); mapv(v, 0, v.size(), MX[1]); h.ok(h.S(t).add_path(h.S(q), BLRange{1, 5}, MX[1])); h.app(t, v); return true; });
        for (int mode = 0; mode < 2; mode++) add(N + "add_reversed(" + d + "," + std::to_string(mode) + ")", [=](PH& h) { VP v = h.m[q]; if (!wellformed(v)) return false; h.ok(h.S(t).add_reversed_path(h.S(q), mode ? BL_PATH_REVERSE_MODE_SEPARATE : BL_PATH_REVERSE_MODE_COMPLETE)); h.app(t, reversed(v, mode == 0)); return true; });
        add(N + "add_geometry_path(" + d + ",CCW)", [=](PH& h) { VP v = h.m[q]; if (!wellformed(v)) return false; h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_PATH, &h.S(q), nullptr, BL_GEOMETRY_DIRECTION_CCW)); h.app(t, reversed(v, true)); return true; });
        add(N + "add_geometry_path(" + d + ",CW,m)", [=](PH& h) { VP v = h.m[q]; mapv(v, 0, v.size(), MX[0]); h.ok(h.S(t).add_geometry(BL_GEOMETRY_TYPE_PATH, &h.S(q), &MX[0], BL_GEOMETRY_DIRECTION_CW)); h.app(t, v); return true; });
      }
      for (auto& r : {std::pair<size_t, size_t>{0, 1}, {1, 3}, {2, SIZE_MAX}, {0, SIZE_MAX}, {3, 2}, {100, 200}}) { size_t a = r.first, b = r.second; std::string q = std::to_string(a) + "," + std::to_string((long long)b) + ")";
        add(N + "remove_range(" + q, [=](PH& h) { VP& v = h.m[t]; h.ok(h.S(t).remove_range(BLRange{a, b})); size_t e = std::min(b, v.size()); if (a < e) v.erase(v.begin() + a, v.begin() + e); return true; });
        if (a == 1 || a == 0) { add(N + "translate(" + q, [=](PH& h) { VP& v = h.m[t]; h.ok(h.S(t).translate(BLRange{a, b}, BLPoint(11, 13))); size_t e = std::min(b, v.size()); if (a < e) mapv(v, a, e - a, MX[2]); return true; });
          for (int k = 0; k < 2; k++) add(N + "transform(m" + std::to_string(k) + "," + q, [=](PH& h) { VP& v = h.m[t]; h.ok(h.S(t).transform(BLRange{a, b}, MX[k])); size_t e = std::min(b, v.size()); if (a < e) mapv(v, a, e - a, MX[k]); return true; }); } }
      add(N + "fit_to", [=](PH& h) { if (!wellformed(h.m[t]) || h.m[t].empty()) return false; Box b; sample_all(h.m[t], 0, [&](double x, double y) { b.add(x, y); }, 2000); if (b.x1 - b.x0 < 1 || b.y1 - b.y0 < 1) return false; h.ok(h.S(t).fit_to(BLRect(10, 20, 50, 30), 0)); Box c; VP v; v.swap(h.m[t]); h.adopt(t, 0); sample_all(h.m[t], 0, [&](double x, double y) { c.add(x, y); }, 2000); if (fabs(c.x0 - 10) + fabs(c.y0 - 20) + fabs(c.x1 - 60) + fabs(c.y1 - 50) > 1e-2) h.err("fit_to", "box is " + std::to_string(c.x0) + "," + std::to_string(c.y0) + "," + std::to_string(c.x1) + "," + std::to_string(c.y1));
        if (v.size() != h.m[t].size()) { h.err("fit_to", "size changed"); return true; } double sx = 50 / (b.x1 - b.x0), sy = 30 / (b.y1 - b.y0); for (size_t i = 0; i < v.size(); i++) { R e = v[i]; if (e.c != W) { e.x = (e.x - b.x0) * sx + 10; e.y = (e.y - b.y0) * sy + 20; } R g = h.m[t][i]; if (e.c != g.c || (e.x == e.x && fabs(e.x - g.x) > 0.05 * (1 + fabs(sx))) || (e.y == e.y && fabs(e.y - g.y) > 0.05 * (1 + fabs(sy)))) { h.err("fit_to", "vertex " + std::to_string(i) + " mapped wrongly"); break; } } return true; });
      for (int k = 0; k < 4; k++) { size_t ix[4] = {0, 1, 3, 7}; size_t i = ix[k]; uint32_t cm = k == 1 ? BL_PATH_CMD_PRESERVE : k == 2 ? BL_PATH_CMD_MOVE : BL_PATH_CMD_ON; add(N + "set_vertex_at(" + std::to_string(i) + "," + std::to_string((int)cm) + ")", [=](PH& h) { if (i < h.m[t].size() && h.m[t][i].c == W) return false; BLResult r = h.S(t).set_vertex_at(i, cm, 200, -150); if (i >= h.m[t].size()) { h.rej(r); return true; } h.ok(r); if (cm != BL_PATH_CMD_PRESERVE) h.m[t][i].c = cm; h.m[t][i].x = 200; h.m[t][i].y = -150; return true; }); }
      for (int k = 0; k < 4; k++) { size_t n = k < 2 ? 2 : 0; bool ap = k & 1; add(N + "modify_op(" + (ap ? "append," : "assign,") + std::to_string(n) + ")", [=](PH& h) { uint8_t* c; BLPoint* v; h.ok(h.S(t).modify_op(ap ? BL_MODIFY_OP_APPEND_FIT : BL_MODIFY_OP_ASSIGN_FIT, n, &c, &v)); if (!ap) h.m[t].clear(); for (size_t i = 0; i < n && !h.bad; i++) { c[i] = i ? ON : M; v[i] = BLPoint(i * 3.0, 80); h.m[t].push_back(V(c[i], i * 3.0, 80)); } return true; }); }
      add(N + "assign_move(o)", [=](PH& h) { h.ok(h.S(t).assign(std::move(h.S(o)))); h.m[t] = h.m[o]; h.m[o].clear(); return true; });
      add(N + "assign_deep(o)", [=](PH& h) { h.ok(h.S(t).assign_deep(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "assign_deep(self)", [=](PH& h) { h.ok(h.S(t).assign_deep(h.S(t))); return true; });
      add(N + "assign_weak(self)", [=](PH& h) { h.ok(h.S(t).assign(h.S(t))); return true; });
      add(N + "copy,edit", [=](PH& h) { BLPath c(h.S(t)); VP x = h.m[t]; h.ok(c.line_to(1, 1)); x.push_back(V(ON, 1, 1)); h.ok(c.translate(BLPoint(11, 13))); mapv(x, 0, x.size(), MX[2]); if (h.chk) h.check1(c, x); return true; });
      add("swap", [=](PH& h) { h.S(0).swap(h.S(1)); std::swap(h.m[0], h.m[1]); return true; });
      add(N + "clear", [=](PH& h) { h.ok(h.S(t).clear()); h.m[t].clear(); return true; });
      add(N + "reset", [=](PH& h) { h.ok(h.S(t).reset()); h.m[t].clear(); return true; });
      add(N + "shrink", [=](PH& h) { BLResult r = h.S(t).shrink(); if (is_wf_info(h.m[t])) h.ok(r); return true; });
      for (size_t n : {3, 40}) add(N + "reserve(" + std::to_string(n) + ")", [=](PH& h) { h.ok(h.S(t).reserve(n)); if (h.S(t).capacity() < n) h.err("capacity", "too small"); return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { std::string().swap(opn); base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) BLPath(); m[i].clear(); m[i].shrink_to_fit(); } live = true; bad = false; chk = false; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~BLPath(); VP().swap(m[i]); } if (chk && !bad) { std::string().swap(opn); size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base) fail("leak", "%ld bytes leaked", (long)(a - base)); } }
  static bool is_wf_info(const VP& v) { bool prev = false; for (size_t i = 0; i < v.size();) { switch (v[i].c) { case M: prev = true; i++; break; case ON: if (!prev) return false; i++; break; case Q: i += 2; if (i > v.size() || !prev) return false; break; case K: case C: i += 3; if (i > v.size() || !prev) return false; break; case Z: prev = false; i++; break; default: return false; } } return true; }
  void check1(BLPath& p, const VP& v) {
    if (p.size() != v.size()) return err("size", "size " + std::to_string(p.size()) + " instead of " + std::to_string(v.size()));
    for (size_t i = 0; i < v.size(); i++) { R g = V(p.command_data()[i], p.vertex_data()[i].x, p.vertex_data()[i].y); if (!same(g, v[i])) { char b[200]; snprintf(b, 200, "vertex %zu is %d(%.9g,%.9g) instead of %d(%.9g,%.9g)", i, g.c, g.x, g.y, v[i].c, v[i].x, v[i].y); return err("vertex", b); } }
    if (p.is_empty() != v.empty() || p.capacity() < v.size()) return err("size", "is_empty/capacity");
    BLPoint lv; BLResult r = p.get_last_vertex(&lv); { bool have = false; R e{}; if (!v.empty()) { if (v.back().c != Z) { have = true; e = v.back(); } else for (size_t i = v.size() - 1; i-- > 0;) { if (v[i].c == Z) break; if (v[i].c == M) { have = true; e = v[i]; break; } } } if (have != (r == BL_SUCCESS) || (have && !(close1(lv.x, e.x) && close1(lv.y, e.y)))) return err("last-vertex", "wrong"); }
    bool wf = wellformed(v);
    for (size_t i = 0; i <= v.size(); i++) { BLRange g; r = p.get_figure_range(i, &g); if (i == v.size()) { if (r == BL_SUCCESS) return err("figure-range", "index beyond the end accepted"); break; } if (r != BL_SUCCESS) return err("figure-range", "error"); if (!wf) continue; size_t a = i, b = i; while (v[a].c != M && a > 0 && v[a - 1].c != Z) a--; while (b < v.size() && v[b].c != Z) { if (b > i && v[b].c == M) break; b++; } if (b < v.size() && v[b].c == Z) b++; if (g.start != a || g.end != b) return err("figure-range", "index " + std::to_string(i) + ": [" + std::to_string(g.start) + "," + std::to_string(g.end) + ") instead of [" + std::to_string(a) + "," + std::to_string(b) + ")"); }
    // Information that the implementation caches must equal that of a path built afresh from the same records.
    BLPath f; { uint8_t* c; BLPoint* q; if (f.modify_op(BL_MODIFY_OP_ASSIGN_FIT, v.size(), &c, &q) == BL_SUCCESS) for (size_t i = 0; i < v.size(); i++) { c[i] = p.command_data()[i]; q[i] = p.vertex_data()[i]; } }
    if (!f.equals(p) || !p.equals(f)) return err("equals", "not equal to a path with the same records");
    uint32_t fa = 0, fb = 0; BLBox a, b, ca, cb; BLResult r1 = p.get_info_flags(&fa), r2 = f.get_info_flags(&fb); if (r1 != r2 || ((fa ^ fb) & ~uint32_t(BL_PATH_FLAG_DIRTY))) return err("stale-info", "flags " + std::to_string(fa) + " instead of " + std::to_string(fb));
    r1 = p.get_bounding_box(&a); r2 = f.get_bounding_box(&b); BLResult r3 = p.get_control_box(&ca), r4 = f.get_control_box(&cb); if (r1 != r2 || r3 != r4) return err("stale-info", "box results differ from those of a fresh path");
    if (memcmp(&a, &b, sizeof a) || memcmp(&ca, &cb, sizeof a)) return err("stale-info", "boxes differ from those of a fresh path");
    if (is_wf_info(v) != (r1 == BL_SUCCESS)) return err("info", "validity");
    if (r1 == BL_SUCCESS && wf && !v.empty()) {
      Box k, s2; int moves = 0; uint32_t fl = 0; for (auto& e : v) { if (e.c != Z && e.c != W) k.add(e.x, e.y); moves += e.c == M; fl |= e.c == Q ? BL_PATH_FLAG_QUADS : e.c == K ? BL_PATH_FLAG_CONICS : e.c == C ? BL_PATH_FLAG_CUBICS : 0; }
      if (moves > 1) fl |= BL_PATH_FLAG_MULTIPLE; sample_all(v, 0, [&](double x, double y) { s2.add(x, y); }, 400);
      if (k.x0 > k.x1) k = Box{0, 0, 0, 0};
      if (s2.x0 > s2.x1) s2 = Box{0, 0, 0, 0};
      else if (fa != fl) return err("info", "flags " + std::to_string(fa) + " instead of " + std::to_string(fl));
      double tk = 1e-9 * (1 + fabs(k.x0) + fabs(k.x1) + fabs(k.y0) + fabs(k.y1)); if (fabs(ca.x0 - k.x0) > tk || fabs(ca.y0 - k.y0) > tk || fabs(ca.x1 - k.x1) > tk || fabs(ca.y1 - k.y1) > tk) return err("control-box", "wrong");
      double ext = 1e-4 * (1 + (k.x1 - k.x0) + (k.y1 - k.y0)), te = 1e-7 * (1 + fabs(k.x0) + fabs(k.x1) + fabs(k.y0) + fabs(k.y1));
      if (a.x0 > s2.x0 + te || a.y0 > s2.y0 + te || a.x1 < s2.x1 - te || a.y1 < s2.y1 - te) return err("bounding-box", "does not contain the path");
      if (a.x0 < s2.x0 - ext || a.y0 < s2.y0 - ext || a.x1 > s2.x1 + ext || a.y1 > s2.y1 + ext) return err("bounding-box", "not tight");
    }
    for (int q = 0; q < 3; q++) { BLPoint pt = q == 0 ? BLPoint(12, 19) : q == 1 ? BLPoint(300, -200) : BLPoint(28, 3); for (double md : {0.0, 5.0, 40.0}) { size_t ix; double ds; r = p.get_closest_vertex(pt, md, &ix, &ds); double bd = md > 0 ? md : INFINITY; size_t bi = SIZE_MAX; for (size_t i = 0; i < v.size(); i++) { if (v[i].c == Z || v[i].c == W) continue; double d = hypot(v[i].x - pt.x, v[i].y - pt.y); if (d < bd - 1e-9) { bd = d; bi = i; } } bool have = bi != SIZE_MAX;
        if (have) { if (r != BL_SUCCESS || ix >= v.size() || v[ix].c == Z || fabs(hypot(v[ix].x - pt.x, v[ix].y - pt.y) - bd) > 1e-6 || fabs(ds - bd) > 1e-6) return err("closest-vertex", "index " + std::to_string(ix) + " instead of " + std::to_string(bi) + ", max distance " + std::to_string(md)); }
        else if (ix != SIZE_MAX) return err("closest-vertex", "found a vertex although none is near enough"); }
      for (int fr = 0; fr < 2; fr++) if (p.hit_test(pt, BLFillRule(fr)) != f.hit_test(pt, BLFillRule(fr))) return err("stale-info", "hit test differs from that of a fresh path"); }
  }
  bool apply(int op, bool check) {
    chk = check; opn = ops[op].name; bad = false;
    if (!ops[op].f(*this)) { return false; }
    if (m[0].size() > 60 || m[1].size() > 60) return false;
    if (check && !bad) {
      for (int i = 0; i < 2 && !bad; i++) check1(*s[i], m[i]);
      if (!bad) { bool eq = m[0].size() == m[1].size(), strict = eq; for (size_t i = 0; eq && i < m[0].size(); i++) { eq = same(m[0][i], m[1][i]); strict = strict && eq && (m[0][i].x == m[1][i].x || m[0][i].x != m[0][i].x) && (m[0][i].y == m[1][i].y || m[0][i].y != m[0][i].y); } bool g = s[0]->equals(*s[1]); if (g && !eq) err("equals", "different paths compare equal"); }
    }
    return !bad;
  }
  uint64_t state() {
    Hash h; for (int i = 0; i < 2; i++) { h.u(m[i].size()); for (auto& r : m[i]) { h.u(r.c); double x = r.x == r.x ? r.x : 7e77, y = r.y == r.y ? r.y : 7e77; float fx = (float)x, fy = (float)y; h.b(&fx, 4); h.b(&fy, 4); } auto* im = bl::PathInternal::get_impl(s[i]); h.u(im->capacity); h.u(im->flags); h.u(bl::PathInternal::is_impl_mutable(im)); }
    h.u(s[0]->_d.impl == s[1]->_d.impl); return h.h;
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  PH h(g.thorough);
  if (!g.replaying || g.replay.compare(0, 5, "path:") == 0) bfs(h, "path", g.thorough ? 4 : 3);
  // The state-changing core of the interface, searched deeper.
  PH q(false); std::vector<PH::Op> keep; for (auto& o : q.ops) for (const char* n : {"p0.move_to(10,20)", "p0.line_to(30,-4.5)", "p0.quad_to", "p0.cubic_to", "p0.conic_to", "p0.smooth_quad_to", "p0.smooth_cubic_to", "p0.close", "p0.query", "p0.clear", "p0.assign_weak(o)", "swap", "p0.assign_move(o)", "p0.remove_range(1,3)", "p0.remove_range(2,-1)", "p0.translate(0,-1)", "p0.transform(m1,1,3)", "p0.set_vertex_at(0,1)", "p0.add_path(o)", "p0.add_path(self)", "p0.add_reversed(o,1)", "p0.add_geometry_path(self,CCW)", "p0.modify_op(append,2)", "p0.modify_op(assign,0)", "p0.shrink", "p0.add_box(CW)", "p1.move_to(10,20)", "p1.query"}) if (o.name.find(n) == 0 && (o.name == n || o.name.size() <= strlen(n) + 1)) keep.push_back(o);
  q.ops = keep; bfs(q, "core", g.thorough ? 6 : 5);
  return done();
}
