// C17: coverage of filled shapes against exact areas. For each pixel the integral of the winding number is computed from the edges in double precision and folded by
// the fill rule; every enumerated shape is drawn opaque over a cleared image and the alpha of every pixel compared.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
struct P { double x, y; };
typedef std::vector<P> Poly;
// --- exact coverage -----------------------------------------------------------------------------------------------------------------------------------------------
struct Area {
  int w, h; std::vector<double> a; std::vector<uint8_t> nearby; // integral of the winding number per pixel, as differences along x.
  Area(int w, int h) : w(w), h(h), a(size_t(w + 2) * h), nearby(size_t(w) * h) {}
  // Integral over the pixel column [c, c+1] of the part right of x, with x linear in t over [0,1]: returns the mean over t of clamp(c + 1 - x, 0, 1).
  static double prim(double u) { return u <= 0 ? 0 : u >= 1 ? u - 0.5 : 0.5 * u * u; }
  static double mean(double u0, double u1) { if (fabs(u0 - u1) < 1e-9) { double u = 0.5 * (u0 + u1); return u < 0 ? 0 : u > 1 ? 1 : u; } return (prim(u1) - prim(u0)) / (u1 - u0); }
  // Marks the pixels within 1/32 pixel of an edge: only these may be off by rounding when their area is exactly 0 or 1.
  void touch(P p, P q) {
    const double E = 1 / 32.0; if (p.y > q.y) std::swap(p, q); int y0 = int(floor(std::max(p.y - E, 0.0))), y1 = int(floor(std::min(q.y + E, h - 1.0)));
    for (int y = y0; y <= y1; y++) { double xa = p.x, xb = q.x; if (q.y - p.y > 1e-9) { double k = (q.x - p.x) / (q.y - p.y), t0 = std::min(std::max(y - E, p.y), q.y), t1 = std::max(std::min(y + 1 + E, q.y), p.y); xa = p.x + (t0 - p.y) * k; xb = p.x + (t1 - p.y) * k; } double lo = std::min(xa, xb) - E, hi = std::max(xa, xb) + E; int c0 = int(floor(std::min(std::max(lo, 0.0), double(w)))), c1 = int(floor(std::min(std::max(hi, -1.0), w - 1.0))); for (int c = c0; c <= c1; c++) nearby[size_t(y) * w + c] = 1; }
  }
  void edge(P p, P q) {
    touch(p, q);
    if (p.y == q.y) return; double dir = 1; if (p.y > q.y) { std::swap(p, q); dir = -1; } double k = (q.x - p.x) / (q.y - p.y);
    int y0 = int(floor(std::max(p.y, 0.0))), y1 = int(ceil(std::min(q.y, double(h))));
    for (int y = y0; y < y1; y++) {
      double t0 = std::max(p.y, double(y)), t1 = std::min(q.y, y + 1.0); if (t1 <= t0) continue; double xa = p.x + (t0 - p.y) * k, xb = p.x + (t1 - p.y) * k, d = dir * (t1 - t0); double* row = a.data() + size_t(y) * (w + 2);
      double lo = std::min(xa, xb), hi = std::max(xa, xb); int c0 = int(floor(std::max(std::min(lo, double(w)), 0.0))), c1 = int(ceil(std::max(std::min(hi, double(w)), 0.0)));
      double prev = 0; for (int c = c0; c < c1; c++) { double m = mean(c + 1 - xa, c + 1 - xb); row[c] += d * (m - prev); prev = m; } row[std::max(c0, c1)] += d * (1 - prev);
    }
  }
  void poly(const Poly& p) { for (size_t i = 0; i < p.size(); i++) edge(p[i], p[(i + 1) % p.size()]); }
  // Folded coverage in [0,1] of every pixel.
  void finish(std::vector<double>& out, bool even_odd) const { out.resize(size_t(w) * h); for (int y = 0; y < h; y++) { double s = 0; for (int x = 0; x < w; x++) { s += a[size_t(y) * (w + 2) + x]; double v = fabs(s); if (even_odd) { v = fmod(v, 2.0); if (v > 1) v = 2 - v; } else if (v > 1) v = 1; out[size_t(y) * w + x] = v; } } }
};
// --- drawing ------------------------------------------------------------------------------------------------------------------------------------------------------
struct Canvas {
  int w, h; BLFormat f; std::vector<uint8_t> mem; intptr_t stride; BLImage img; BLContext ctx; uint8_t* px;
  void open(int W, int H, BLFormat fm) { w = W; h = H; f = fm; int bpp = fm == BL_FORMAT_A8 ? 1 : 4; stride = (intptr_t(w) * bpp + 31) & ~15; mem.assign(size_t(stride) * h + 64, 0); px = mem.data() + 16; img.create_from_data(w, h, fm, px, stride); ctx.begin(img); reset(); }
  void reset() { memset(px, 0, size_t(stride) * h); }
  int at(int x, int y) const { return f == BL_FORMAT_A8 ? px[y * stride + x] : px[y * stride + x * 4 + (f == BL_FORMAT_PRGB32 ? 3 : 1)]; }
  bool clean() const { for (int i = 0; i < 16; i++) if (mem[i] || mem[mem.size() - 1 - i]) return false; int bpp = f == BL_FORMAT_A8 ? 1 : 4; for (int y = 0; y < h; y++) for (intptr_t x = w * bpp; x < stride; x++) if (px[y * stride + x]) return false; return true; }
};
static std::map<std::pair<int, int>, Canvas> gCanvas;
static Canvas& canvas(int w, int h, BLFormat f) { Canvas& c = gCanvas[{w * 100000 + h, int(f)}]; if (c.px == nullptr || c.w != w) c.open(w, h, f); return c; }
static double gMax = 0;
static std::string show(const Poly& p) { std::string s; char b[64]; for (size_t i = 0; i < p.size() && i < 8; i++) { snprintf(b, sizeof b, "(%.10g,%.10g)", p[i].x, p[i].y); s += b; } return s; }
static bool compare(const char* what, const Canvas& c, const Area& ar, const std::vector<double>& want, double tol, const std::string& desc, bool report = true) {
  for (int y = 0; y < c.h; y++) for (int x = 0; x < c.w; x++) { int got = c.at(x, y); double e = want[size_t(y) * c.w + x] * 255, d = fabs(got - e); if (report && d > gMax) { gMax = d; if (getenv("C17_DEV")) fprintf(stderr, "max %.3f at %s %s (%d,%d) got %d want %.3f\n", d, what, desc.c_str(), x, y, got, e); }
    if (d > tol || (d > 0.5 && !ar.nearby[size_t(y) * c.w + x] && (e < 1e-6 || e > 255 - 1e-6))) { if (report) fail(what, "%s: pixel (%d,%d) has coverage %d instead of %.2f", desc.c_str(), x, y, got, e); return false; } }
  return true;
}
static std::vector<uint8_t> grab(const Canvas& c) { std::vector<uint8_t> v; for (int y = 0; y < c.h; y++) for (int x = 0; x < c.w; x++) v.push_back(uint8_t(c.at(x, y))); return v; }
static bool near(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b) { for (size_t i = 0; i < a.size(); i++) if (abs(int(a[i]) - int(b[i])) > 1) return false; return a.size() == b.size(); }
static BLPath to_path(const std::vector<Poly>& ps) { BLPath p; for (auto& q : ps) { for (size_t i = 0; i < q.size(); i++) i ? p.line_to(q[i].x, q[i].y) : p.move_to(q[i].x, q[i].y); p.close(); } return p; }
static const BLRgba32 WHITE(0xFFFFFFFFu);
// Draws the figures through the given call: 0 path, 1 polygon call, 2 path with an open last figure, 3 path at an origin, 4 pre-transformed through the context.
static void draw(Canvas& c, const std::vector<Poly>& ps, bool eo, int how) {
  c.reset(); c.ctx.set_fill_rule(eo ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO);
  if (how == 1 && ps.size() == 1) { std::vector<BLPoint> v; for (auto& p : ps[0]) v.push_back(BLPoint(p.x, p.y)); c.ctx.fill_polygon(v.data(), v.size(), WHITE); }
  else if (how == 2) { BLPath p; for (auto& q : ps) for (size_t i = 0; i < q.size(); i++) i ? p.line_to(q[i].x, q[i].y) : p.move_to(q[i].x, q[i].y); c.ctx.fill_path(p, WHITE); }
  else if (how == 3) { std::vector<Poly> t = ps; for (auto& q : t) for (auto& p : q) { p.x -= 3; p.y += 5; } c.ctx.fill_path(BLPoint(3, -5), to_path(t), WHITE); }
  else if (how == 4) { std::vector<Poly> t = ps; for (auto& q : t) for (auto& p : q) { double x = p.x, y = p.y; p.x = y / 2; p.y = x / 4; } BLMatrix2D m(0, 2, 4, 0, 0, 0); c.ctx.set_transform(m); c.ctx.fill_path(to_path(t), WHITE); c.ctx.reset_transform(); }
  else c.ctx.fill_path(to_path(ps), WHITE);
}
static uint64_t nIt; static size_t nGrp;
static void item(const std::function<void()>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); f(); }
static const double TOL = 3.5;
static void shape(const char* what, int w, int h, const std::vector<Poly>& ps, int hows, double tol, BLFormat f = BL_FORMAT_PRGB32) {
  Area a(w, h); for (auto& p : ps) a.poly(p); std::vector<double> e; Canvas& c = canvas(w, h, f);
  for (int eo = 0; eo < 2; eo++) { a.finish(e, eo); for (int how = 0; how < 5; how++) if (hows >> how & 1) { draw(c, ps, eo, how); vh::stat("transitions"); char d[64]; snprintf(d, sizeof d, "%s rule, call %d, format %d: ", eo ? "even-odd" : "non-zero", how, int(f)); if (!compare(what, c, a, e, tol, std::string(d) + show(ps[0]))) return; } }
  if (!c.clean()) fail("outside", "%s: bytes outside the image were written", show(ps[0]).c_str());
}
static void group(size_t k) {
  nGrp = k; nIt = 0;
  if (k == 0) { // All triangles; equivalent forms give identical pixels.
    static const double X[] = {-0.75, 0.5, 1.25, 2.0, 3.625, 4.75}; int n = 36; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) item([=] { for (int l = 0; l < n; l++) { Poly p = {{X[i % 6], X[i / 6]}, {X[j % 6], X[j / 6]}, {X[l % 6], X[l / 6]}}; shape("triangle", 4, 4, {p}, l % 5 == 0 ? 31 : 3, TOL, (i + j + l) % 3 == 0 ? BL_FORMAT_A8 : (i + j + l) % 3 == 1 ? BL_FORMAT_XRGB32 : BL_FORMAT_PRGB32);
      Canvas& c = canvas(4, 4, BL_FORMAT_PRGB32); draw(c, {p}, false, 0); auto base = grab(c); Poly r = {p[2], p[1], p[0]}, s = {p[1], p[2], p[0]}; draw(c, {r}, false, 0); if (!near(grab(c), base)) fail("direction", "%s: the reversed triangle differs", show(p).c_str()); draw(c, {s}, false, 1); if (grab(c) != base) fail("start", "%s: another starting vertex gives another result", show(p).c_str());
      Canvas& b = canvas(9, 9, BL_FORMAT_PRGB32); Poly t = p; for (auto& q : t) { q.x += 3; q.y += 2; } draw(b, {t}, false, 0); bool in = true; for (auto& q : p) in &= q.x >= 0 && q.y >= 0 && q.x <= 4 && q.y <= 4; if (in) for (int y = 0; y < 4; y++) for (int x = 0; x < 4; x++) if (b.at(x + 3, y + 2) != base[size_t(y * 4 + x)]) { fail("translated", "%s: differs when moved by whole pixels", show(p).c_str()); y = 4; break; } vh::stat("transitions", 3); } }); }
  if (k == 1) { // All quads, also self-intersecting, with both rules.
    static const double XQ[] = {-0.75, 0.5, 1.25, 2.0, 4.75}, XT[] = {-0.75, 0.5, 1.25, 2.0, 3.625, 4.75}; const double* X = g.thorough ? XT : XQ; int m = g.thorough ? 6 : 5, n = m * m; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < n; q++) item([=] { for (int l = 0; l < n; l++) { Poly p = {{X[i % m], X[i / m]}, {X[j % m], X[j / m]}, {X[q % m], X[q / m]}, {X[l % m], X[l / m]}}; shape("quad", 4, 4, {p}, 1 << (l % 3), TOL); } }); }
  if (k == 2) { // All axis-aligned rectangles through every call that can express them.
    static const double V[] = {-2, -0.125, 0, 0.25, 0.5, 0.9375, 1, 1.5, 2, 2.125, 3, 3.75, 4, 6}; int n = 14; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) item([=] { for (int d = 0; d < n; d++) { double x0 = V[a], x1 = V[b], y0 = V[c], y1 = V[d]; Poly p = {{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}; shape("rectangle", 4, 4, {p}, 7, TOL); if (x1 <= x0 || y1 <= y0) continue; Area ar(4, 4); ar.poly(p); std::vector<double> e; ar.finish(e, false);
        for (BLFormat f : {BL_FORMAT_PRGB32, BL_FORMAT_A8}) for (int how = 0; how < 7; how++) { Canvas& cv = canvas(4, 4, f); cv.reset(); cv.ctx.set_fill_rule(BL_FILL_RULE_NON_ZERO); bool whole = x0 == floor(x0) && x1 == floor(x1) && y0 == floor(y0) && y1 == floor(y1); BLRect r(x0, y0, x1 - x0, y1 - y0);
          if (how == 0) cv.ctx.fill_rect(r, WHITE); if (how == 1) cv.ctx.fill_box(BLBox(x0, y0, x1, y1), WHITE); if (how == 2) { if (!whole) continue; cv.ctx.fill_rect(BLRectI(int(x0), int(y0), int(x1 - x0), int(y1 - y0)), WHITE); } if (how == 3) { if (!whole) continue; cv.ctx.fill_box(BLBoxI(int(x0), int(y0), int(x1), int(y1)), WHITE); }
          if (how == 4) { cv.ctx.translate(0.25, -0.75); cv.ctx.fill_rect(x0 - 0.25, y0 + 0.75, x1 - x0, y1 - y0, WHITE); cv.ctx.reset_transform(); } if (how == 5) { cv.ctx.set_transform(BLMatrix2D(0, 2, 4, 0, 0, 0)); cv.ctx.fill_box(BLBox(y0 / 2, x0 / 4, y1 / 2, x1 / 4), WHITE); cv.ctx.reset_transform(); }
          if (how == 6) { BLArrayView<BLRect> v{&r, 1}; cv.ctx.fill_rect_array(v, WHITE); }
          vh::stat("transitions"); char ds[96]; snprintf(ds, sizeof ds, "rectangle (%g,%g)-(%g,%g) through call %d, format %d", x0, y0, x1, y1, how, int(f)); if (!compare("rectangle-call", cv, ar, e, TOL, ds)) break; } } }); }
  if (k == 3) { // Every sub-pixel position of edges of all slopes.
    static const double DX[] = {-8, -2.5, -1, -0.25, -1 / 256.0, 0, 1 / 256.0, 0.5, 1, 3, 8}; for (int a = 0; a < 256; a++) item([=] { for (double dx : DX) for (int b = 0; b < 256; b += g.thorough ? 1 : 15) { double x = 2 + a / 256.0, y = 1 + b / 256.0; shape("edge", 8, 4, {{{x, y}, {x + dx, y + 2}, {20, y + 2}, {20, y}}}, 1, TOL); shape("edge", 4, 8, {{{y, x}, {y + 2, x + dx}, {y + 2, 20}, {y, 20}}}, 2, TOL); } shape("strip", 4, 4, {{{a / 256.0, 0.5}, {a / 256.0 + 1 / 256.0, 0.5}, {a / 256.0 + 1 / 256.0, 3.25}, {a / 256.0, 3.25}}}, 3, TOL); shape("strip", 4, 4, {{{0.5, a / 256.0}, {0.5, a / 256.0 + 1 / 256.0}, {3.25, a / 256.0 + 1 / 256.0}, {3.25, a / 256.0}}}, 3, TOL); });
  }
  if (k == 4) { // Large triangles: long spans, several bands, skipped words of cell bits, points beyond the image on every side.
    static const double X[] = {-40.5, 0, 3.25, 63.5, 64, 127.75, 130, 255.5, 310}, Y[] = {-70, 0, 0.75, 31, 63.5, 64, 65.25, 130.5, 200}; int m = g.thorough ? 9 : 6; for (int i = 0; i < m * m; i++) for (int j = 0; j < m * m; j++) item([=] { for (int l = 0; l < m * m; l++) { if (l <= i && l <= j && !g.thorough && (i + j + l) % 4) continue; auto at = [&](int q) { int u = q % m, v = q / m; if (m == 6) { static const int SX[] = {0, 1, 2, 4, 6, 8}; u = SX[u]; v = SX[v]; } return P{X[u], Y[v]}; }; shape("large triangle", 260, 140, {{at(i), at(j), at(l)}}, 1, TOL); } });
  }
  if (k == 5) { // Far away vertices: clipping must not move the visible part.
    static const double F[] = {-1e7, -32768.5, -300.25, 1.5, 6.75, 400, 65537.125, 3e6}; int n = 64; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) item([=] { for (int l = 0; l < n; l++) { Poly p = {{F[i % 8], F[i / 8]}, {F[j % 8], F[j / 8]}, {F[l % 8], F[l / 8]}}; shape("far triangle", 9, 8, {p}, 1, 6); } });
  }
  if (k == 6) { // Windings and many figures.
    for (int n = 1; n <= (g.thorough ? 700 : 300); n += n < 20 ? 1 : 20) for (int kind = 0; kind < 3; kind++) item([=] { std::vector<Poly> ps; for (int i = 0; i < n; i++) { double o = kind == 1 ? (i % 3) * 0.25 : 0; Poly p = {{1.25 + o, 1}, {6.5, 1}, {6.5, 5.75}, {1.25 + o, 5.75}}; if (kind == 2 && i % 2) std::reverse(p.begin(), p.end()); ps.push_back(p); } shape("windings", 8, 8, ps, 13, TOL + 0.02 * n); });
    for (int n = 2; n <= 60; n++) item([=] { std::vector<Poly> ps; for (int i = 0; i < n; i++) ps.push_back({{i * 4 + 0.25, 1.5}, {i * 4 + 3.0, 1.5}, {i * 4 + 1.75, 38.25}}); shape("comb", 250, 40, ps, 5, TOL); Poly star; for (int i = 0; i < n; i++) { int q = int((int64_t(i) * (n / 2)) % n); star.push_back({floor((50 + 45 * cos(6.283185307 * q / n)) * 4) / 4, floor((50 + 45 * sin(6.283185307 * q / n)) * 4) / 4}); } shape("star", 100, 100, {star}, 7, TOL + 0.5 * n); std::vector<Poly> nest; for (int i = 0; i < n; i++) nest.push_back({{i * 0.75, i * 0.75}, {99 - i * 0.75, i * 0.75}, {99 - i * 0.75, 99 - i * 0.75}, {i * 0.75, 99 - i * 0.75}}); shape("nested", 100, 100, nest, 1, TOL + 0.02 * n); });
  }
  if (k == 7) { // Curves, finely flattened by the reference; under several transforms.
    struct C { int kind; double c[8]; double w; }; std::vector<C> cs; static const double G[] = {0.5, 12.25, 27.5, -6}; int ng = g.thorough ? 4 : 3;
    for (int a = 0; a < ng * ng; a++) for (int b = 0; b < ng * ng; b++) item([=] { P p0 = {3.5, 20}, p3 = {24.75, 6.5}, p1 = {G[a % ng], G[a / ng]}, p2 = {G[b % ng], G[b / ng]};
      for (int kind = 0; kind < 5; kind++) { if (kind != 1 && b != a && kind < 2) continue; double wt = kind == 2 ? 0.4 : kind == 3 ? 3.0 : 1.0; if (kind >= 2 && b != a) continue;
        for (int tm = 0; tm < 4; tm++) { static const double M[4][6] = {{1, 0, 0, 1, 0, 0}, {0, 1, -1, 0, 29, 1}, {1.5, 0, 0, 0.75, -4, 2.5}, {0.8, 0.3, -0.4, 0.9, 6, -2}}; const double* m = M[tm]; auto tr = [&](P p) { return P{p.x * m[0] + p.y * m[2] + m[4], p.x * m[1] + p.y * m[3] + m[5]}; };
          Poly ref; int N = 600; for (int i = 0; i <= N; i++) { double t = double(i) / N, u = 1 - t; P q; if (kind == 0) q = {u * u * p0.x + 2 * u * t * p1.x + t * t * p3.x, u * u * p0.y + 2 * u * t * p1.y + t * t * p3.y}; else if (kind == 1) q = {u * u * u * p0.x + 3 * u * u * t * p1.x + 3 * u * t * t * p2.x + t * t * t * p3.x, u * u * u * p0.y + 3 * u * u * t * p1.y + 3 * u * t * t * p2.y + t * t * t * p3.y}; else { double d = u * u + 2 * wt * u * t + t * t; q = {(u * u * p0.x + 2 * wt * u * t * p1.x + t * t * p3.x) / d, (u * u * p0.y + 2 * wt * u * t * p1.y + t * t * p3.y) / d}; } ref.push_back(tr(q)); }
          Area ar(32, 32); ar.poly(ref); std::vector<double> e; Canvas& c = canvas(32, 32, BL_FORMAT_A8); BLPath path; path.move_to(p0.x, p0.y); if (kind == 0) path.quad_to(p1.x, p1.y, p3.x, p3.y); else if (kind == 1) path.cubic_to(p1.x, p1.y, p2.x, p2.y, p3.x, p3.y); else path.conic_to(p1.x, p1.y, p3.x, p3.y, wt); path.close();
          for (int eo = 0; eo < 2; eo++) { ar.finish(e, eo); c.reset(); c.ctx.set_fill_rule(eo ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO); c.ctx.set_flatten_tolerance(0.01); c.ctx.set_transform(BLMatrix2D(m[0], m[1], m[2], m[3], m[4], m[5])); c.ctx.fill_path(path, WHITE); c.ctx.reset_transform(); c.ctx.set_flatten_tolerance(0.2); vh::stat("transitions"); char d[200]; snprintf(d, sizeof d, "%s (%g,%g)(%g,%g)(%g,%g)(%g,%g) transform %d", kind == 0 ? "quad" : kind == 1 ? "cubic" : "conic", p0.x, p0.y, p1.x, p1.y, p2.x, p2.y, p3.x, p3.y, tm);
            if (kind < 2 || wt == 1) { if (!compare("curve", c, ar, e, 5, d)) break; }
            else if (!compare("conic", c, ar, e, 5, d, false)) { // Known finding: the weight is ignored. Anything else than the curve of weight 1 is another violation.
              Poly one; for (int i = 0; i <= N; i++) { double t = double(i) / N, u = 1 - t; one.push_back(tr({u * u * p0.x + 2 * u * t * p1.x + t * t * p3.x, u * u * p0.y + 2 * u * t * p1.y + t * t * p3.y})); } Area a1(32, 32); a1.poly(one); std::vector<double> e1; a1.finish(e1, eo); if (compare("conic", c, a1, e1, 5, std::string(d) + " (not even as one of weight 1)")) fail("conic-weight", "%s, weight %g: drawn as a curve of weight 1", d, wt); break; } } } } });
  }
  if (k == 8) { // Geometry calls with curved or straight outlines.
    static const double C[] = {16, 9.375, -3.25, 30.5}, R[] = {0.25, 1, 5.5, 14.125, 40}; for (double cx : C) for (double cy : C) for (double rx : R) for (double ry : R) item([=] { const double PI = 3.14159265358979323846; auto arc = [&](Poly& o, double x, double y, double a, double b, double s, double w) { int n = 400; for (int i = 0; i <= n; i++) { double t = s + w * i / n; o.push_back({x + a * cos(t), y + b * sin(t)}); } };
      for (int kind = 0; kind < 9; kind++) { Poly p; double st = 0.6 + kind, sw = kind == 3 || kind == 4 ? 2.2 : kind == 5 ? -1.3 : 5.1; double x0 = cx - rx * 1.5, y0 = cy - ry * 2, w = rx * 3, h = ry * 4;
        switch (kind) { case 0: if (rx != ry) continue; arc(p, cx, cy, rx, rx, 0, 2 * PI); break; case 1: arc(p, cx, cy, rx, ry, 0, 2 * PI); break; case 2: arc(p, x0 + w - rx, y0 + ry, rx, ry, -PI / 2, PI / 2); arc(p, x0 + w - rx, y0 + h - ry, rx, ry, 0, PI / 2); arc(p, x0 + rx, y0 + h - ry, rx, ry, PI / 2, PI / 2); arc(p, x0 + rx, y0 + ry, rx, ry, PI, PI / 2); break;
          case 3: case 5: p.push_back({cx, cy}); arc(p, cx, cy, rx, ry, st, sw); break; case 4: case 6: arc(p, cx, cy, rx, ry, st, sw); break; case 7: p = {{cx, cy}, {cx + rx, cy + 1.5}, {cx - 2, cy + ry}}; break; default: p = {{x0, y0}, {x0 + w, y0}, {x0 + w, y0 + h}, {x0, y0 + h}}; }
        Area ar(32, 32); ar.poly(p); std::vector<double> e; ar.finish(e, false); Canvas& c = canvas(32, 32, BL_FORMAT_PRGB32); c.reset(); c.ctx.set_fill_rule(BL_FILL_RULE_NON_ZERO); c.ctx.set_flatten_tolerance(0.01);
        switch (kind) { case 0: c.ctx.fill_circle(cx, cy, rx, WHITE); break; case 1: c.ctx.fill_ellipse(cx, cy, rx, ry, WHITE); break; case 2: c.ctx.fill_round_rect(x0, y0, w, h, rx, ry, WHITE); break; case 3: case 5: c.ctx.fill_pie(cx, cy, rx, ry, st, sw, WHITE); break; case 4: case 6: c.ctx.fill_chord(cx, cy, rx, ry, st, sw, WHITE); break; case 7: c.ctx.fill_triangle(p[0].x, p[0].y, p[1].x, p[1].y, p[2].x, p[2].y, WHITE); break; default: c.ctx.fill_rect(x0, y0, w, h, WHITE); }
        c.ctx.set_flatten_tolerance(0.2); vh::stat("transitions"); char d[128]; snprintf(d, sizeof d, "geometry %d at (%g,%g) radii (%g,%g)", kind, cx, cy, rx, ry); if (!compare("geometry", c, ar, e, 5, d)) break; } });
  }
  if (k == 9) { // Two curves after each other, with every point inside the image or beyond any of its sides: what one curve leaves to the next when it is clipped.
    static const double G[3] = {-17.5, 11.25, 49}; for (int a = 0; a < 81; a++) item([=] { P q[5]; auto at = [](int i) { return P{G[i % 3], G[i / 3]}; }; q[0] = at(a % 9); q[1] = at(a / 9);
      for (int b = 0; b < 729; b++) { q[2] = at(b % 9); q[3] = at(b / 9 % 9); int last = b / 81; q[4] = at(last); q[4].x += 1.5; q[4].y -= 0.75; 
        for (int kind = 0; kind < 3; kind++) { if (kind && !g.thorough && last % 4 != 0) continue;
          Poly ref; BLPath path; path.move_to(q[0].x, q[0].y); const int N = 120;
          for (int s = 0; s < 2; s++) { P p0 = q[s * 2], p1 = q[s * 2 + 1], p3 = q[s * 2 + 2], p2 = {p1.y, p1.x};
            for (int i = 0; i <= N; i++) { double t = double(i) / N, u = 1 - t; if (kind == 1) ref.push_back({u * u * u * p0.x + 3 * u * u * t * p1.x + 3 * u * t * t * p2.x + t * t * t * p3.x, u * u * u * p0.y + 3 * u * u * t * p1.y + 3 * u * t * t * p2.y + t * t * t * p3.y}); else ref.push_back({u * u * p0.x + 2 * u * t * p1.x + t * t * p3.x, u * u * p0.y + 2 * u * t * p1.y + t * t * p3.y}); }
            if (kind == 0) path.quad_to(p1.x, p1.y, p3.x, p3.y); else if (kind == 1) path.cubic_to(p1.x, p1.y, p2.x, p2.y, p3.x, p3.y); else path.conic_to(p1.x, p1.y, p3.x, p3.y, 1.0); }
          path.close(); Area ar(32, 32); ar.poly(ref); std::vector<double> e; ar.finish(e, false); Canvas& c = canvas(32, 32, BL_FORMAT_A8); c.reset(); c.ctx.set_fill_rule(BL_FILL_RULE_NON_ZERO); c.ctx.set_flatten_tolerance(0.01); c.ctx.fill_path(path, WHITE); c.ctx.set_flatten_tolerance(0.2); vh::stat("transitions");
          char d[240]; snprintf(d, sizeof d, "two %s (%g,%g)(%g,%g)(%g,%g)(%g,%g)(%g,%g)", kind == 0 ? "quads" : kind == 1 ? "cubics" : "conics", q[0].x, q[0].y, q[1].x, q[1].y, q[2].x, q[2].y, q[3].x, q[3].y, q[4].x, q[4].y); if (!compare("curves", c, ar, e, 10, d)) return; } } });
  }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init();
  for (size_t k = 0; k < 10; k++) { double t0 = now(); group(k); if (getenv("C17_DEV") && g.shard == 0) fprintf(stderr, "group %zu: %llu items %.1fs max %.3f\n", k, (unsigned long long)nIt, now() - t0, gMax); gMax = 0; }
  return done();
}
