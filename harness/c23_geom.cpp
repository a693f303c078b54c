// C23: path geometry queries (hit test, boxes, transformation) and matrix algebra, against definitions evaluated in long double: the winding number of a fine
// polyline, extrema from the derivative, 3x3 products.
#include <blend2d/blend2d.h>
#include <blend2d/core/api-internal_p.h>
#include <blend2d/core/runtime_p.h>
#include "vh.h"
#include <cmath>
using namespace vh;
typedef long double LD;
struct Pt { double x, y; };
// A path as the checks see it: figures of segments (1 line, 2 quad, 3 cubic, 4 conic).
struct Seg { int k; Pt p[3]; double w; };
struct Fig { Pt s; std::vector<Seg> g; bool closed; };
typedef std::vector<Fig> Shape;
static uint64_t nIt; static size_t nGrp;
static bool item() { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return false; } else if (!mine(int64_t(n)) || over_budget()) return false; set_case("%s", cs); return true; }
static BLPath mk(const Shape& s) { BLPath p; for (auto& f : s) { p.move_to(f.s.x, f.s.y); for (auto& q : f.g) { if (q.k == 1) p.line_to(q.p[0].x, q.p[0].y); else if (q.k == 2) p.quad_to(q.p[0].x, q.p[0].y, q.p[1].x, q.p[1].y); else if (q.k == 3) p.cubic_to(q.p[0].x, q.p[0].y, q.p[1].x, q.p[1].y, q.p[2].x, q.p[2].y); else p.conic_to(q.p[0].x, q.p[0].y, q.p[1].x, q.p[1].y, q.w); } if (f.closed) p.close(); } return p; }
static LD comp(const Seg& q, LD a0, int c, LD t) { auto v = [&](int i) { return LD(c ? q.p[i].y : q.p[i].x); }; LD u = 1 - t; switch (q.k) { case 1: return u * a0 + t * v(0); case 2: return u * u * a0 + 2 * u * t * v(0) + t * t * v(1); case 3: return u * u * u * a0 + 3 * u * u * t * v(0) + 3 * u * t * t * v(1) + t * t * t * v(2); default: { LD d = u * u + 2 * q.w * u * t + t * t; return (u * u * a0 + 2 * q.w * u * t * v(0) + t * t * v(1)) / d; } } }
static Pt endp(const Seg& q) { return q.p[q.k == 1 ? 0 : q.k == 3 ? 2 : 1]; }
static std::vector<std::vector<Pt>> flat(const Shape& s, int n) { std::vector<std::vector<Pt>> o; for (auto& f : s) { std::vector<Pt> v{f.s}; Pt c = f.s; for (auto& q : f.g) { if (q.k == 1) v.push_back(q.p[0]); else for (int i = 1; i <= n; i++) v.push_back(i == n ? endp(q) : Pt{double(comp(q, c.x, 0, LD(i) / n)), double(comp(q, c.y, 1, LD(i) / n))}); c = endp(q); } v.push_back(f.s); o.push_back(v); } return o; }
static std::string text(const Shape& s) { std::string o; char b[200]; for (auto& f : s) { snprintf(b, sizeof b, "M%.17g,%.17g ", f.s.x, f.s.y); o += b; for (auto& q : f.g) { o += " LQCK"[q.k]; int n = q.k == 1 ? 1 : q.k == 3 ? 3 : 2; for (int i = 0; i < n; i++) { snprintf(b, sizeof b, "%.17g,%.17g ", q.p[i].x, q.p[i].y); o += b; } if (q.k == 4) { snprintf(b, sizeof b, "w%g ", q.w); o += b; } } if (f.closed) o += "Z "; } return o; }
// Hit test against winding; points nearer than `guard` to an edge are not judged.
static void hits(const Shape& s, const std::vector<Pt>& pts, double guard, int n) {
  BLPath p = mk(s); auto F = flat(s, n); bool conic = false; for (auto& f : s) for (auto& q : f.g) conic |= q.k == 4; double g2 = guard * guard;
  for (auto& t : pts) { int w = 0; bool near = false; for (auto& v : F) { for (size_t i = 0; i + 1 < v.size() && !near; i++) { Pt a = v[i], b = v[i + 1]; double dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, u = l > 0 ? ((t.x - a.x) * dx + (t.y - a.y) * dy) / l : 0; u = std::min(1.0, std::max(0.0, u)); double ex = a.x + u * dx - t.x, ey = a.y + u * dy - t.y; if (ex * ex + ey * ey < g2) near = true; bool up = a.y <= t.y, dn = b.y <= t.y; if (up != dn) { double cr = dx * (t.y - a.y) - dy * (t.x - a.x); if (up && cr < 0) w++; if (!up && cr > 0) w--; } } if (near) break; }
    if (near) continue; vh::stat("points", 1); for (int eo = 0; eo < 2; eo++) { bool in = eo ? w & 1 : w != 0; BLHitTest h = p.hit_test(BLPoint(t.x, t.y), BLFillRule(eo ? BL_FILL_RULE_EVEN_ODD : BL_FILL_RULE_NON_ZERO)); if (h != (in ? BL_HIT_TEST_IN : BL_HIT_TEST_OUT)) { fail(conic && h == BL_HIT_TEST_INVALID ? "conic hit test" : "hit-test", "point (%.17g, %.17g), winding number %d, %s: %s; path %s", t.x, t.y, w, eo ? "even-odd" : "non-zero", h == BL_HIT_TEST_IN ? "in" : h == BL_HIT_TEST_OUT ? "out" : h == BL_HIT_TEST_INVALID ? "invalid" : "part", text(s).c_str()); return; } } }
}
// The range of one coordinate of a segment, from the derivative's zeros found by scanning and bisection.
static void extent(const Seg& q, LD a0, int c, LD& lo, LD& hi) {
  auto add = [&](LD v) { if (v < lo) lo = v; if (v > hi) hi = v; }; add(a0); add(comp(q, a0, c, 1)); if (q.k == 1) return; auto v = [&](int i) { return LD(c ? q.p[i].y : q.p[i].x); };
  auto root2 = [&](LD A, LD B, LD C) { auto ad = [&](LD t) { if (t > 0 && t < 1) add(comp(q, a0, c, t)); }; if (A == 0) { if (B != 0) ad(-C / B); return; } LD D = B * B - 4 * A * C; if (D < 0) return; LD S = sqrtl(D), Q = -(B + (B >= 0 ? S : -S)) / 2; ad(Q / A); if (Q != 0) ad(C / Q); };
  if (q.k == 2) root2(0, a0 - 2 * v(0) + v(1), v(0) - a0);
  else if (q.k == 3) { LD d0 = v(0) - a0, d1 = v(1) - v(0), d2 = v(2) - v(1); root2(d0 - 2 * d1 + d2, 2 * (d1 - d0), d0); }
  else { LD w = q.w, p0 = a0, p1 = v(0), p2 = v(1); // numerator of the derivative: w(p1-p0)u^2 + (p2-p0)ut + w(p2-p1)t^2 with u = 1 - t
    LD a = w * (p1 - p0), b = p2 - p0, d = w * (p2 - p1); root2(a - b + d, b - 2 * a, a); }
}
static void boxes(const Shape& s) {
  BLPath p = mk(s); BLBox bb, cb; BLResult r = p.get_bounding_box(&bb), r2 = p.get_control_box(&cb); LD x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300; double c0 = 1e300, d0 = 1e300, c1 = -1e300, d1 = -1e300; auto vx = [&](Pt a) { c0 = std::min(c0, a.x); d0 = std::min(d0, a.y); c1 = std::max(c1, a.x); d1 = std::max(d1, a.y); };
  for (auto& f : s) { Pt c = f.s; vx(c); for (auto& q : f.g) { extent(q, c.x, 0, x0, x1); extent(q, c.y, 1, y0, y1); for (int i = 0; i < (q.k == 1 ? 1 : q.k == 3 ? 3 : 2); i++) vx(q.p[i]); c = endp(q); } }
  vh::stat("boxes", 1); double sc = std::max(std::max(fabs(c0), fabs(c1)), std::max(fabs(d0), fabs(d1))), e = 4e-9 * sc + 1e-300;
  if (r || r2) { fail("box-error", "result %u / %u for %s", r, r2, text(s).c_str()); return; }
  double ce = 1e-14 * sc; if (!(fabs(cb.x0 - c0) <= ce && fabs(cb.y0 - d0) <= ce && fabs(cb.x1 - c1) <= ce && fabs(cb.y1 - d1) <= ce)) fail("control-box", "(%.17g %.17g %.17g %.17g) for %s", cb.x0, cb.y0, cb.x1, cb.y1, text(s).c_str());
  if (fabsl(bb.x0 - x0) > e || fabsl(bb.y0 - y0) > e || fabsl(bb.x1 - x1) > e || fabsl(bb.y1 - y1) > e) fail("bounding-box", "(%.17g %.17g %.17g %.17g) instead of (%.17Lg %.17Lg %.17Lg %.17Lg) for %s", bb.x0, bb.y0, bb.x1, bb.y1, x0, y0, x1, y1, text(s).c_str());
}
static const double MS[][2] = {{1, 0}, {1 / 3.0, 0.1}, {1000.7, -12345.678}, {-0.37, 2.9}};
static Pt M(int k, double x, double y) { return {x * MS[k][0] + MS[k][1], y * MS[k][0] - MS[k][1] * 0.7}; }
static std::vector<Pt> grid(int k, double lo, double hi, double st) { std::vector<Pt> v; for (double y = lo; y <= hi; y += st) for (double x = lo; x <= hi; x += st) v.push_back(M(k, x, y)); return v; }
static Shape poly(int k, const std::vector<std::pair<int, int>>& v, bool closed) { Fig f; f.closed = closed; f.s = M(k, v[0].first, v[0].second); for (size_t i = 1; i < v.size(); i++) f.g.push_back({1, {M(k, v[i].first, v[i].second)}, 0}); return {f}; }
static const uint32_t* levels(int& n) { static uint32_t L[4]; static int N = 0; if (!N) { uint32_t full = bl_runtime_context.system_info.cpu_features; L[N++] = full; L[N++] = full & (BL_RUNTIME_CPU_FEATURE_X86_SSE2 | BL_RUNTIME_CPU_FEATURE_X86_SSE3); } n = N; return L; }
static void level(int i) { int n; uint32_t f = levels(n)[i]; memcpy((void*)&bl_runtime_context.system_info.cpu_features, &f, 4); bl_transform_rt_init(&bl_runtime_context); }
struct M3 { LD a[3][3]; };
static M3 mul(const M3& x, const M3& y) { M3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.a[i][j] = 0; for (int k = 0; k < 3; k++) r.a[i][j] += x.a[i][k] * y.a[k][j]; } return r; }
static M3 m3(LD a, LD b, LD c, LD d, LD e, LD f) { return {{{a, b, 0}, {c, d, 0}, {e, f, 1}}}; }
static bool same(const BLMatrix2D& m, const M3& r, double tol) { double v[6] = {m.m00, m.m01, m.m10, m.m11, m.m20, m.m21}; LD mx = 1; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) mx = std::max(mx, fabsl(r.a[i][j])); for (int i = 0; i < 6; i++) if (!(fabsl(v[i] - r.a[i / 2][i % 2]) <= tol * mx)) return false; return true; }
static std::string mt(const BLMatrix2D& m) { char b[200]; snprintf(b, sizeof b, "[%.17g %.17g %.17g %.17g %.17g %.17g]", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21); return b; }
// Classification: what the type promises must be true of the components, and a more specific type may not be missed.
static void typecheck(const BLMatrix2D& m) {
  BLTransformType t = m.type(); double d = m.m00 * m.m11 - m.m01 * m.m10; bool fin = std::isfinite(m.m00) && std::isfinite(m.m01) && std::isfinite(m.m10) && std::isfinite(m.m11) && std::isfinite(m.m20) && std::isfinite(m.m21); BLTransformType e;
  bool diag = m.m01 == 0 && m.m10 == 0, anti = m.m00 == 0 && m.m11 == 0; bool degenerate = (m.m00 == 0 && m.m01 == 0 && m.m10 == 0 && m.m11 == 0) || (diag && (m.m00 == 0 || m.m11 == 0)) || (anti && (m.m01 == 0 || m.m10 == 0));
  if (!fin || degenerate) e = BL_TRANSFORM_TYPE_INVALID; else if (diag) e = m.m00 == 1 && m.m11 == 1 ? (m.m20 == 0 && m.m21 == 0 ? BL_TRANSFORM_TYPE_IDENTITY : BL_TRANSFORM_TYPE_TRANSLATE) : BL_TRANSFORM_TYPE_SCALE; else if (anti) e = BL_TRANSFORM_TYPE_SWAP; else e = BL_TRANSFORM_TYPE_AFFINE;
  bool ok = t == e; if (!ok && t == BL_TRANSFORM_TYPE_INVALID && (d == 0 || !std::isfinite(d))) ok = true; // singular or overflowing: either
  vh::stat("matrices", 1); if (!ok) fail("matrix-type", "%s has type %d instead of %d", mt(m).c_str(), int(t), int(e));
  BLMatrix2D q(9, 8, 7, 6, 5, 4), q0 = q; BLResult r = BLMatrix2D::invert(q, m); if (d == 0 || !std::isfinite(d)) { if (r == BL_SUCCESS || !(q == q0)) fail("invert-singular", "%s: result %u, %s", mt(m).c_str(), r, mt(q).c_str()); }
  else if (fin) { LD D = LD(m.m00) * m.m11 - LD(m.m01) * m.m10; LD k = (fabsl(LD(m.m00) * m.m11) + fabsl(LD(m.m01) * m.m10)) / fabsl(D); if (k < 1e6 && fabsl(D) > 1e-60L && fabsl(D) < 1e60L && fabs(m.m00) < 1e100 && fabs(m.m01) < 1e100 && fabs(m.m10) < 1e100 && fabs(m.m11) < 1e100 && fabs(m.m20) < 1e100 && fabs(m.m21) < 1e100) { M3 w = m3(m.m11 / D, -m.m01 / D, -m.m10 / D, m.m00 / D, (LD(m.m10) * m.m21 - LD(m.m11) * m.m20) / D, (LD(m.m01) * m.m20 - LD(m.m00) * m.m21) / D); LD mx = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) mx = std::max(mx, fabsl(w.a[i][j])); LD tr = (fabsl(m.m20) + fabsl(m.m21)) * mx; double v[6] = {q.m00, q.m01, q.m10, q.m11, q.m20, q.m21}; bool ok2 = r == BL_SUCCESS; for (int i = 0; i < 6; i++) if (!(fabsl(v[i] - w.a[i / 2][i % 2]) <= 1e-14L * k * (i < 4 ? mx : tr))) ok2 = false; if (!ok2) fail("invert", "%s: result %u, %s", mt(m).c_str(), r, mt(q).c_str()); BLMatrix2D z(m); if (z.invert() != r || !(z == q)) fail("invert", "in place differs for %s", mt(m).c_str()); } }
}
// Mapping of point arrays: every length, alignment and overlap, with guards.
static void maparray(const BLMatrix2D& m, int lv) {
  alignas(64) double src[200], dst[200]; const double J = -7.25e77;
  for (int n = 0; n <= (g.thorough ? 40 : 26); n++) for (int so = 0; so < 4; so++) for (int dо = 0; dо < 4; dо++) for (int how = 0; how < 2; how++) { if (how && so != dо) continue;
    for (int i = 0; i < 200; i++) { src[i] = ((i * 37) % 101 - 50) * 0.37 + (i % 7 == 0 ? 1e5 : 0); dst[i] = J; } double* S = src + 8 + so; double* Dp = how ? S : dst + 8 + dо; std::vector<Pt> w; for (int i = 0; i < n; i++) w.push_back({double(LD(S[2 * i]) * m.m00 + LD(S[2 * i + 1]) * m.m10 + m.m20), double(LD(S[2 * i]) * m.m01 + LD(S[2 * i + 1]) * m.m11 + m.m21)}); std::vector<double> keep(src, src + 200);
    BLResult r = bl_matrix2d_map_pointd_array(&m, (BLPoint*)Dp, (BLPoint*)S, n); vh::stat("arrays", 1); bool ok = r == BL_SUCCESS; double mg = (fabs(m.m00) + fabs(m.m01) + fabs(m.m10) + fabs(m.m11)) * 1.1e5 + fabs(m.m20) + fabs(m.m21); int bad = -1;
    for (int i = 0; i < n && ok; i++) if (!(fabs(Dp[2 * i] - w[i].x) <= mg * 4e-16) || !(fabs(Dp[2 * i + 1] - w[i].y) <= mg * 4e-16)) { ok = false; bad = i; }
    double* B = how ? src : dst; for (int i = 0; i < 200; i++) { bool in = B + i >= Dp && B + i < Dp + 2 * n; if (!in && B[i] != (how ? keep[i] : J)) ok = false; if (!how && src[i] != keep[i]) ok = false; }
    if (!ok) { fail("map-array", "%s level %d: %d points, offsets %d and %d, %s: point %d", mt(m).c_str(), lv, n, so, dо, how ? "in place" : "separate", bad); return; } }
}
static void group(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough;
  if (k == 0) for (int mk_ = 0; mk_ < 4; mk_++) { auto P = grid(mk_, -1, 4, 0.5); for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < 16; c++) { if (!item()) continue; for (int cl = 0; cl < 2; cl++) hits(poly(mk_, {{a % 4, a / 4}, {b % 4, b / 4}, {c % 4, c / 4}}, cl), P, 1e-5 * fabs(MS[mk_][0]), 1); } }
  if (k == 1) { int len = T ? 6 : 5; int n = 1; for (int i = 0; i < len; i++) n *= 9; for (int mk_ = 0; mk_ < 2; mk_++) { auto P = grid(mk_, -0.5, 2.5, 0.5); for (int c = 0; c < n; c++) { if (!item()) continue; std::vector<std::pair<int, int>> v; for (int i = 0, q = c; i < len; i++, q /= 9) v.push_back({q % 9 % 3, q % 9 / 3}); hits(poly(mk_, v, c & 1), P, 1e-5, 1); } } }
  if (k == 2) for (int mk_ = 0; mk_ < 2; mk_++) { auto P = grid(mk_, -0.5, 3.5, 0.5); // Two figures, closed or not.
    static const int V[][6] = {{0, 0, 3, 0, 0, 3}, {0, 3, 3, 0, 0, 0}, {1, 1, 2, 1, 1, 2}, {3, 3, 0, 2, 1, 0}, {2, 2, 2, 2, 2, 2}, {0, 1, 3, 1, 3, 2}, {1, 3, 1, 0, 3, 1}, {0, 0, 1, 2, 3, 3}, {3, 0, 3, 3, 0, 2}, {2, 0, 0, 1, 2, 3}, {0, 2, 3, 2, 1, 2}, {0, 0, 0, 3, 0, 1}};
    for (auto& a : V) for (auto& b : V) for (int c = 0; c < 4; c++) for (auto& d : V) { if (!item()) continue; Shape s; int q = 0; for (auto* v : {&a, &b, &d}) { Shape x = poly(mk_, {{(*v)[0], (*v)[1]}, {(*v)[2], (*v)[3]}, {(*v)[4], (*v)[5]}}, c >> q & 1); if (q == 1 && (c & 2)) x[0].g.clear(); s.push_back(x[0]); q++; } hits(s, P, 1e-5, 1); boxes(s[1].g.empty() ? Shape{s[0], s[2]} : s); } }
  if (k == 3) for (int mk_ = 0; mk_ < 4; mk_++) { auto P = grid(mk_, -0.5, 4.5, 0.5); // One quadratic curve.
    for (int a = 0; a < 25; a++) for (int b = 0; b < 25; b++) for (int c = 0; c < 25; c++) { if (!item()) continue; Shape s{{M(mk_, a % 5, a / 5), {{2, {M(mk_, b % 5, b / 5), M(mk_, c % 5, c / 5)}, 0}}, bool((a + b) & 1)}}; hits(s, P, 0.02 * fabs(MS[mk_][0]), 48); boxes(s); } }
  if (k == 4) for (int mk_ = 0; mk_ < 4; mk_++) { const int C = T && mk_ < 2 ? 5 : 4, C2 = C * C; auto P = grid(mk_, -0.5, C - 0.5, 0.5); // One cubic curve.
    for (int a = 0; a < C2; a++) for (int b = 0; b < C2; b++) for (int c = 0; c < C2; c++) for (int d = 0; d < C2; d++) { if (!item()) continue; Shape s{{M(mk_, a % C, a / C), {{3, {M(mk_, b % C, b / C), M(mk_, c % C, c / C), M(mk_, d % C, d / C)}, 0}}, bool((a + b) & 1)}}; hits(s, P, 0.02 * fabs(MS[mk_][0]), 40); boxes(s); } }
  if (k == 5) for (int mk_ = 0; mk_ < 2; mk_++) { auto P = grid(mk_, -0.5, 3.5, 0.5); // One conic.
    for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < 16; c++) for (double w : {0.1, 0.5, 0.70710678118654752, 1.0, 3.0, 20.0}) { if (!item()) continue; Shape s{{M(mk_, a % 4, a / 4), {{4, {M(mk_, b % 4, b / 4), M(mk_, c % 4, c / 4)}, w}}, bool((a + b) & 1)}}; hits(s, P, 0.03 * fabs(MS[mk_][0]), 60); boxes(s); } }
  if (k == 6) { // Figures of several segments of all kinds.
    std::vector<Seg> SG; for (int mk_ = 0; mk_ < 2; mk_++) { SG = {{1, {M(mk_, 3, 1)}, 0}, {1, {M(mk_, 0, 2)}, 0}, {1, {M(mk_, 2, 2)}, 0}, {2, {M(mk_, 2, 0), M(mk_, 3, 3)}, 0}, {2, {M(mk_, 1, 3), M(mk_, 0, 1)}, 0}, {2, {M(mk_, 3, 2), M(mk_, 1, 2)}, 0}, {2, {M(mk_, 3, 3), M(mk_, 3, 3)}, 0}, {3, {M(mk_, 3, 0), M(mk_, 0, 3), M(mk_, 3, 3)}, 0}, {3, {M(mk_, 0, 3), M(mk_, 3, 3), M(mk_, 2, 0)}, 0}, {3, {M(mk_, 3, 3), M(mk_, 0, 0), M(mk_, 1, 2)}, 0}, {3, {M(mk_, 2, 1), M(mk_, 2, 1), M(mk_, 2, 1)}, 0}};
      auto P = grid(mk_, -0.5, 3.5, 0.5); int n = int(SG.size()); for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = -1; c < n; c++) for (int d = -1; d < (T ? n : 2); d++) for (int f = 0; f < 3; f++) { if (!item()) continue; Shape s{{M(mk_, 1, 1), {SG[a], SG[b]}, f == 1}}; if (f == 2) s.push_back({M(mk_, 0, 3), {}, true}); if (c >= 0) s.back().g.push_back(SG[c]); if (d >= 0) s.back().g.push_back(SG[d]); if (s.back().g.empty()) { s.pop_back(); } hits(s, P, 0.02, 40); boxes(s); } } }
  std::vector<BLMatrix2D> MM; for (double a : {0.0, 1.0, -2.5}) for (double b : {0.0, 0.75}) for (double c : {0.0, -1.25}) for (double d : {0.0, 1.0, 3.5}) for (int t = 0; t < 3; t++) MM.push_back(BLMatrix2D(a, b, c, d, t ? 10.5 * t : 0, t == 2 ? -1e4 : 0));
  if (k == 7) { int n; levels(n); for (int lv = 0; lv < n; lv++) for (auto& m : MM) { if (!item()) continue; level(lv); maparray(m, lv); level(0); } }
  if (k == 8) { // Transforming paths and ranges of paths.
    int n; levels(n); for (int lv = 0; lv < n; lv++) for (auto& m : MM) for (int kind = 0; kind < 5; kind++) { if (!item()) continue; level(lv);
      for (int sz = 1; sz < 24; sz++) { Fig f; f.closed = sz & 1; f.s = {1.5, -2}; for (int i = 0; i < sz; i++) { int kk = kind < 4 ? kind + 1 : 1 + (i * 7 + sz) % 4; Seg q; q.k = kk; for (int j = 0; j < 3; j++) q.p[j] = {i * 1.25 + j, (i * 3 + j) % 5 - 2.5}; q.w = 0.5 + i * 0.125; f.g.push_back(q); } BLPath p = mk({f}); const BLPathView v0 = p.view(); std::vector<BLPoint> ov(v0.vertex_data, v0.vertex_data + v0.size); std::vector<uint8_t> oc(v0.command_data, v0.command_data + v0.size); size_t N = oc.size();
        for (int rr = 0; rr < 6; rr++) { BLRange R = rr == 0 ? BLRange{0, SIZE_MAX} : rr == 1 ? BLRange{0, N / 2} : rr == 2 ? BLRange{N / 3, N} : rr == 3 ? BLRange{1, N > 1 ? N - 1 : N} : rr == 4 ? BLRange{N / 2, N / 2} : BLRange{N / 4, SIZE_MAX};
          size_t a = R.start, b = std::min(R.end, N); bool cut = false; for (size_t e : {a, b}) if (e > 0 && e < N && kind) { size_t i = 0; while (i < e) { size_t st = oc[i] == BL_PATH_CMD_QUAD || oc[i] == BL_PATH_CMD_CONIC ? (oc[i] == BL_PATH_CMD_CONIC ? 3 : 2) : oc[i] == BL_PATH_CMD_CUBIC ? 3 : 1; i += st; } if (i != e) cut = true; } if (cut) continue; // ranges start and end between segments
          for (int op = 0; op < 4; op++) { BLPath t(p), o; BLResult r; BLMatrix2D mm = m; size_t base = 0; if (op == 0) r = t.transform(R, m); else if (op == 1) { r = t.translate(R, BLPoint(m.m20, m.m21)); mm = BLMatrix2D(1, 0, 0, 1, m.m20, m.m21); } else { o.move_to(77, 78); o.line_to(79, 80); base = 2; if (op == 2) r = o.add_path(p, R, m); else { r = o.add_path(p, R, BLPoint(m.m20, m.m21)); mm = BLMatrix2D(1, 0, 0, 1, m.m20, m.m21); } t = o; }
            BLPathView v = t.view(); vh::stat("path transforms", 1); bool ok = r == BL_SUCCESS; std::vector<BLPoint> wv; std::vector<uint8_t> wc; if (base) { wv = {{77, 78}, {79, 80}}; wc = {BL_PATH_CMD_MOVE, BL_PATH_CMD_ON}; } for (size_t i = base ? a : 0; i < (base ? b : N); i++) { wc.push_back(oc[i]); bool w = oc[i] == BL_PATH_CMD_WEIGHT; wv.push_back(i >= a && i < b && !w && oc[i] != BL_PATH_CMD_CLOSE ? mm.map_point(ov[i]) : ov[i]); }
            if (v.size != wc.size()) ok = false; for (size_t i = 0; i < wc.size() && ok; i++) { if (v.command_data[i] != wc[i]) ok = false; if (wc[i] == BL_PATH_CMD_CLOSE) continue; BLPoint x = v.vertex_data[i], y = wv[i]; bool sx = fabs(x.x - y.x) <= 1e-11 || (wc[i] == BL_PATH_CMD_WEIGHT && x.x == y.x), sy = fabs(x.y - y.y) <= 1e-11 || wc[i] == BL_PATH_CMD_WEIGHT; if (!sx || !sy) ok = false; }
            BLPathView u = p.view(); if (u.size != N || memcmp(u.vertex_data, ov.data(), 0)) ok = false; for (size_t i = 0; i < N && ok; i++) if (oc[i] != BL_PATH_CMD_CLOSE && oc[i] != BL_PATH_CMD_WEIGHT && !(u.vertex_data[i] == ov[i])) ok = false;
            static const char* ON[] = {"transform", "translate", "add_path transformed", "add_path translated"}; if (!ok) { fail("path-transform", "%s of %zu vertices of kind %d, range %zu..%zu, matrix %s level %d: result %u", ON[op], N, kind, a, b, mt(m).c_str(), lv, r); } } } }
      level(0); } }
  if (k == 9) { // Classification and inversion over component values.
    static const double V[] = {0, -0.0, 1, -1, 0.5, 3.25, 1e-5, -1e8, INFINITY, NAN, 1e200}; const int n = 11; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) { if (!item()) continue; for (int d = 0; d < n; d++) for (int e = 0; e < n; e++) for (int f = 0; f < n; f++) typecheck(BLMatrix2D(V[a], V[b], V[c], V[d], V[e], V[f])); } }
  if (k == 10) { // Sequences of operations.
    struct Op { int id; double v[6]; }; std::vector<Op> O; for (int id = BL_TRANSFORM_OP_RESET; id <= BL_TRANSFORM_OP_MAX_VALUE; id++) { if (id == BL_TRANSFORM_OP_RESET) { O.push_back({id, {}}); continue; } if (id == BL_TRANSFORM_OP_ROTATE || id == BL_TRANSFORM_OP_POST_ROTATE) { O.push_back({id, {0.7}}); O.push_back({id, {-2.5}}); continue; } if (id == BL_TRANSFORM_OP_ROTATE_PT || id == BL_TRANSFORM_OP_POST_ROTATE_PT) { O.push_back({id, {0.6, 3, -2}}); continue; } if (id == BL_TRANSFORM_OP_ASSIGN || id == BL_TRANSFORM_OP_TRANSFORM || id == BL_TRANSFORM_OP_POST_TRANSFORM) { O.push_back({id, {0.5, -1.25, 2, 0.75, 3, -4}}); O.push_back({id, {0, 2, -1, 0, 5, 1}}); continue; } if (id == BL_TRANSFORM_OP_SKEW || id == BL_TRANSFORM_OP_POST_SKEW) { O.push_back({id, {0.3, -0.4}}); O.push_back({id, {0, 0.5}}); continue; } O.push_back({id, {2, -0.5}}); O.push_back({id, {-3, 0.25}}); }
    int n = int(O.size()), depth = T ? 5 : 4; uint64_t tot = 1; for (int i = 0; i < depth; i++) tot *= n;
    auto ref = [](const Op& o, const M3& A) { LD x = o.v[0], y = o.v[1]; M3 I = m3(1, 0, 0, 1, 0, 0), B = I; auto rot = [&](LD a, LD px, LD py) { LD s = sinl(a), c = cosl(a); return m3(c, s, -s, c, px - c * px + s * py, py - s * px - c * py); };
      switch (o.id) { case BL_TRANSFORM_OP_RESET: return I; case BL_TRANSFORM_OP_ASSIGN: return m3(o.v[0], o.v[1], o.v[2], o.v[3], o.v[4], o.v[5]); case BL_TRANSFORM_OP_TRANSLATE: case BL_TRANSFORM_OP_POST_TRANSLATE: B = m3(1, 0, 0, 1, x, y); break; case BL_TRANSFORM_OP_SCALE: case BL_TRANSFORM_OP_POST_SCALE: B = m3(x, 0, 0, y, 0, 0); break; case BL_TRANSFORM_OP_SKEW: case BL_TRANSFORM_OP_POST_SKEW: B = m3(1, tanl(y), tanl(x), 1, 0, 0); break; case BL_TRANSFORM_OP_ROTATE: case BL_TRANSFORM_OP_POST_ROTATE: B = rot(x, 0, 0); break; case BL_TRANSFORM_OP_ROTATE_PT: case BL_TRANSFORM_OP_POST_ROTATE_PT: B = rot(x, o.v[1], o.v[2]); break; default: B = m3(o.v[0], o.v[1], o.v[2], o.v[3], o.v[4], o.v[5]); }
      return o.id >= BL_TRANSFORM_OP_POST_TRANSLATE ? mul(A, B) : mul(B, A); };
    auto meth = [](const Op& o, BLMatrix2D& m) { const double* v = o.v; switch (o.id) { case BL_TRANSFORM_OP_RESET: m.reset(); break; case BL_TRANSFORM_OP_ASSIGN: m.reset(v[0], v[1], v[2], v[3], v[4], v[5]); break; case BL_TRANSFORM_OP_TRANSLATE: m.translate(v[0], v[1]); break; case BL_TRANSFORM_OP_SCALE: m.scale(v[0], v[1]); break; case BL_TRANSFORM_OP_SKEW: m.skew(v[0], v[1]); break; case BL_TRANSFORM_OP_ROTATE: m.rotate(v[0]); break; case BL_TRANSFORM_OP_ROTATE_PT: m.rotate(v[0], v[1], v[2]); break; case BL_TRANSFORM_OP_TRANSFORM: m.transform(*(const BLMatrix2D*)v); break; case BL_TRANSFORM_OP_POST_TRANSLATE: m.post_translate(v[0], v[1]); break; case BL_TRANSFORM_OP_POST_SCALE: m.post_scale(v[0], v[1]); break; case BL_TRANSFORM_OP_POST_SKEW: m.post_skew(v[0], v[1]); break; case BL_TRANSFORM_OP_POST_ROTATE: m.post_rotate(v[0]); break; case BL_TRANSFORM_OP_POST_ROTATE_PT: m.post_rotate(v[0], v[1], v[2]); break; default: m.post_transform(*(const BLMatrix2D*)v); } };
    for (uint64_t q = 0; q < tot; q++) { if (!item()) continue; BLMatrix2D m(1, 0, 0, 1, 0, 0), mb(m); M3 r = m3(1, 0, 0, 1, 0, 0); std::string hist; uint64_t z = q; for (int i = 0; i < depth; i++, z /= n) { const Op& o = O[z % n]; hist += " " + std::to_string(o.id); BLResult e = bl_matrix2d_apply_op(&m, BLTransformOp(o.id), o.v); meth(o, mb); r = ref(o, r); vh::stat("operations", 1); if (e != BL_SUCCESS || !same(m, r, 2e-14) || !same(mb, r, 2e-14)) { fail("matrix-op", "operations%s: apply_op %s, method %s", hist.c_str(), mt(m).c_str(), mt(mb).c_str()); break; } }
      typecheck(m); BLPoint p(3.25, -7.5), a = m.map_point(p), v = m.map_vector(p); M3 pr = mul(m3(3.25, -7.5, 0, 0, 0, 0), r); (void)pr; LD ex = 3.25L * r.a[0][0] - 7.5L * r.a[1][0], ey = 3.25L * r.a[0][1] - 7.5L * r.a[1][1], sc = 1 + fabsl(r.a[0][0]) + fabsl(r.a[0][1]) + fabsl(r.a[1][0]) + fabsl(r.a[1][1]) + fabsl(r.a[2][0]) + fabsl(r.a[2][1]); if (fabsl(v.x - ex) > 1e-12L * sc || fabsl(v.y - ey) > 1e-12L * sc || fabsl(a.x - ex - r.a[2][0]) > 1e-12L * sc || fabsl(a.y - ey - r.a[2][1]) > 1e-12L * sc) fail("map-point", "%s", mt(m).c_str());
      BLMatrix2D s1(m), s2(m); s1.transform(s1); s2.post_transform(s2); M3 rr = mul(r, r); if (!same(s1, rr, 1e-12) || !same(s2, rr, 1e-12)) fail("matrix-op", "product with itself of %s", mt(m).c_str()); } 
    if (item()) { // Constructors.
      for (double a : {0.0, 0.7, -2.5, 3.0}) for (double x : {0.0, 3.5}) for (double y : {0.0, -1.25}) { LD s = sinl(a), c = cosl(a); BLMatrix2D m; struct { const char* n; BLMatrix2D m; M3 r; } C[] = {{"make_translation", BLMatrix2D::make_translation(x, y), m3(1, 0, 0, 1, x, y)}, {"make_scaling", BLMatrix2D::make_scaling(x, y), m3(x, 0, 0, y, 0, 0)}, {"make_rotation", BLMatrix2D::make_rotation(a), m3(c, s, -s, c, 0, 0)}, {"make_skewing", BLMatrix2D::make_skewing(x, a), m3(1, tanl(a), tanl(x), 1, 0, 0)}, {"make_sin_cos", BLMatrix2D::make_sin_cos(0.6, 0.8, x, y), m3(0.8L, 0.6L, -0.6L, 0.8L, x, y)}, {"make_identity", BLMatrix2D::make_identity(), m3(1, 0, 0, 1, 0, 0)}}; for (auto& q : C) { vh::stat("operations", 1); if (!same(q.m, q.r, 1e-14)) fail("matrix-make", "%s(%g %g %g): %s", q.n, a, x, y, mt(q.m).c_str()); } } } }
}
int main(int argc, char** argv) {
  init(argc, argv); bl_runtime_init();
  for (size_t k = 0; k < 11; k++) { double t0 = now(); group(k); if (getenv("C23_DEV") && g.shard <= 1) fprintf(stderr, "group %zu: %llu items %.1fs\n", k, (unsigned long long)nIt, now() - t0); vh::stat("transitions", nIt / 8); }
  return done();
}
