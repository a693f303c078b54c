// C24: stroked paths against the set of points that the definition covers: a rectangle per segment, the selected joins at corners, the selected caps at open ends.
// Every shape is a signed distance; a point is judged if it lies farther than a tolerance inside or outside of their union.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
struct P { double x, y; };
static P operator+(P a, P b) { return {a.x + b.x, a.y + b.y}; } static P operator-(P a, P b) { return {a.x - b.x, a.y - b.y}; } static P operator*(P a, double k) { return {a.x * k, a.y * k}; }
static double dot(P a, P b) { return a.x * b.x + a.y * b.y; } static double cross(P a, P b) { return a.x * b.y - a.y * b.x; } static double len(P a) { return sqrt(dot(a, a)); } static P nrm(P a) { double l = len(a); return {a.x / l, a.y / l}; } static P lft(P d) { return {-d.y, d.x}; }
struct Seg { int k; P p[3]; };
struct Fig { P s; std::vector<Seg> g; bool closed; };
typedef std::vector<Fig> Shape;
struct Opt { int join, cap0, cap1; double w, limit; };
static const char* JN[] = {"miter-clip", "miter-bevel", "miter-round", "bevel", "round"}; static const char* CN[] = {"butt", "square", "round", "round-rev", "triangle", "triangle-rev"};
// One straight piece of the skeleton and what is at its start: 0 nothing special (smooth), 1 corner, 2 figure end, 3 cusp (not judged).
struct Piece { P a, b, da, db; bool curve; };
struct Joint { P v, d1, d2; };
struct Model { std::vector<Piece> pc; std::vector<Joint> jo; std::vector<std::pair<P, P>> c0, c1; std::vector<P> cusp; bool curved = false; double hw; Opt o; };
static P ev(P a, const Seg& q, double t) { double u = 1 - t; if (q.k == 1) return a * u + q.p[0] * t; if (q.k == 2) return a * (u * u) + q.p[0] * (2 * u * t) + q.p[1] * (t * t); return a * (u * u * u) + q.p[0] * (3 * u * u * t) + q.p[1] * (3 * u * t * t) + q.p[2] * (t * t * t); }
static P dv(P a, const Seg& q, double t) { double u = 1 - t; if (q.k == 1) return q.p[0] - a; if (q.k == 2) return (q.p[0] - a) * (2 * u) + (q.p[1] - q.p[0]) * (2 * t); return (q.p[0] - a) * (3 * u * u) + (q.p[1] - q.p[0]) * (6 * u * t) + (q.p[2] - q.p[1]) * (3 * t * t); }
static P endp(const Seg& q) { return q.p[q.k - 1]; }
// Tangent at an end; where the derivative vanishes there, the direction to the next control point.
static P tan0(P a, const Seg& q) { for (int i = 0; i < q.k; i++) if (len(q.p[i] - a) > 1e-9) return nrm(q.p[i] - a); return {0, 0}; }
static P tan1(P a, const Seg& q) { P e = endp(q); for (int i = q.k - 2; i >= -1; i--) { P c = i < 0 ? a : q.p[i]; if (len(e - c) > 1e-9) return nrm(e - c); } return {0, 0}; }
static Model model(const Shape& s, const Opt& o) {
  Model m; m.hw = o.w * 0.5; m.o = o; const int N = 64;
  for (auto& f : s) { std::vector<std::pair<P, Seg>> L; P c = f.s; for (auto& q : f.g) { bool z = true; for (int i = 0; i < q.k; i++) if (len(q.p[i] - c) > 1e-9) z = false; if (!z) L.push_back({c, q}); c = endp(q); } if (f.closed && len(f.s - c) > 1e-9) L.push_back({c, {1, {f.s}}});
    if (L.empty()) continue; size_t n = L.size(); for (size_t i = 0; i < n; i++) { P a = L[i].first; const Seg& q = L[i].second; if (q.k == 1) { P d = nrm(q.p[0] - a); m.pc.push_back({a, q.p[0], d, d, false}); } else { m.curved = true; double mx = 0; for (int j = 0; j <= N; j++) mx = std::max(mx, len(dv(a, q, double(j) / N))); P pv = a, pd = tan0(a, q); for (int j = 1; j <= N; j++) { double t = double(j) / N; P x = j == N ? endp(q) : ev(a, q, t), d = j == N ? tan1(a, q) : len(dv(a, q, t)) > 1e-9 ? nrm(dv(a, q, t)) : pd; if (dot(pd, d) < 0.9 || len(dv(a, q, t)) < 0.04 * mx || len(dv(a, q, (j - 1.0) / N)) < 0.04 * mx) { m.cusp.push_back(pv); m.cusp.push_back(x); } if (len(x - pv) > 1e-12) m.pc.push_back({pv, x, pd, d, true}); pv = x; pd = d; } }
      if (i || f.closed) { auto& b = L[i ? i - 1 : n - 1]; m.jo.push_back({a, tan1(b.first, b.second), tan0(a, q)}); } }
    if (!f.closed) { m.c0.push_back({L[0].first, tan0(L[0].first, L[0].second) * -1}); m.c1.push_back({endp(L[n - 1].second), tan1(L[n - 1].first, L[n - 1].second)}); } }
  return m;
}
// Signed distances (positive inside).
static double sdCap(int cap, P v, P e, double h, P p) { double x = dot(p - v, e), y = fabs(dot(p - v, lft(e))), sq = std::min(std::min(x, h - x), h - y); switch (cap) { case 0: return -1e9; case 1: return sq; case 2: return std::min(x, h - len(p - v)); case 3: return std::min(sq, len(p - v - e * h) - h); case 4: return std::min(x, (h - x - y) / sqrt(2.0)); default: return std::min(sq, (y - x) / sqrt(2.0)); } }
// inOut: 1 what must be covered, 0 what may be covered.
static double sdJoin(const Joint& j, const Opt& o, double h, P p, int must) {
  double cr = cross(j.d1, j.d2), co = dot(j.d1, j.d2); P q = p - j.v; double sg = cr > 0 ? -1 : 1; bool back = fabs(cr) < 1e-12 && co < 0; if (fabs(cr) < 1e-12 && co > 0) return -1e9;
  double cone = std::min(dot(q, j.d1), -dot(q, j.d2)), r; P u = back ? j.d1 : nrm(j.d1 - j.d2); double ch = back ? 0 : sqrt((1 + co) / 2), sh = sqrt((1 - co) / 2); P n1 = lft(j.d1) * sg, n2 = lft(j.d2) * sg; int join = o.join; double L = o.limit * h; bool fits = ch > 0 && h / ch <= L, tie = ch > 0 && fabs(h / ch - L) < 1e-9 * L;
  double bevel = std::min(cone, h * ch - dot(q, u)), round = std::min(cone, h - len(q)), kite = std::min(cone, std::min(h - dot(q, n1), h - dot(q, n2))); if (back) { bevel = -1e9; kite = std::min(cone, h - fabs(dot(q, lft(j.d1)))); }
  if (join == 3) r = bevel; else if (join == 4) r = round; else if (fits && !tie) r = kite; else if (tie) r = must ? bevel : kite; else if (join == 1) r = bevel; else if (join == 2) r = round; else { double D = must ? L : h * ch + L * sh * sh; r = std::max(bevel, std::min(kite, D - dot(q, u))); }
  if (!must) { double inner = std::min(h - len(q), std::max(-dot(q, j.d1), dot(q, j.d2))); if (o.join != 3 || true) r = std::max(r, inner); }
  return r;
}
static double sdPiece(const Piece& c, double h, P p) { P d = c.b - c.a; double l = len(d); d = d * (1 / l); double x = dot(p - c.a, d), y = fabs(cross(d, p - c.a)); return std::min(std::min(x, l - x), h - y); }
// 1 must be covered, 0 must not, -1 not judged.
static int degree; static bool tight; // beyond the centre of curvature somewhere within reach: offsets of the two sides may cancel
static int judge(const Model& m, P p, double eps) { tight = false; degree = 0;
  double h = m.hw, may = -1e9, must = -1e9; for (auto& c : m.cusp) if (len(p - c) < h * 1.05 + 0.05) return -1;
  for (size_t i = 0; i < m.pc.size(); i++) { auto& c = m.pc[i]; if (!c.curve) { double d = sdPiece(c, h, p); degree += d > 0; must = std::max(must, d); may = std::max(may, d); continue; }
    P d = c.b - c.a; double l = len(d), x = dot(p - c.a, d) / l, y = fabs(cross(d, p - c.a)) / l; double xa = dot(p - c.a, c.da), xb = dot(c.b - p, c.db); if (l < h * acos(std::min(1.0, dot(c.da, c.db))) && len(p - c.a) < h * 1.1 + l) tight = true; bool slab = xa >= -1e-9 && xb >= -1e-9 && dot(c.da, c.db) > 0.8; if (xa < 0 && xb < 0 && y < h * 1.01) { tight = true; degree--; } if (slab && x > -h && x < l + h) { double u = xa / std::max(xa + xb, 1e-12), u2 = u * u, u3 = u2 * u; P ft = c.a * (2 * u3 - 3 * u2 + 1) + c.da * (l * (u3 - 2 * u2 + u)) + c.b * (3 * u2 - 2 * u3) + c.db * (l * (u3 - u2)); double v = h - len(p - ft); degree += v > 0; must = std::max(must, v); may = std::max(may, v); } else { double s = std::min(std::min(x, l - x), h - y); if (s > may) may = s; } }
  for (auto& j : m.jo) { double dj = sdJoin(j, m.o, h, p, 1); degree += dj > 0; must = std::max(must, dj); may = std::max(may, sdJoin(j, m.o, h, p, 0)); }
  for (auto& c : m.c0) { double d = sdCap(m.o.cap0, c.first, c.second, h, p); degree += d > 0; must = std::max(must, d); may = std::max(may, d); } for (auto& c : m.c1) { double d = sdCap(m.o.cap1, c.first, c.second, h, p); degree += d > 0; must = std::max(must, d); may = std::max(may, d); }
  return must > eps ? 1 : may < -eps ? 0 : -1;
}
struct Edge { P a, b; };
static std::vector<Edge> edges(const BLPath& p, bool& finite, bool& closed) { std::vector<Edge> o; BLPathView v = p.view(); P s{}, c{}; bool open = false; finite = closed = true; auto at = [&](size_t i) { return P{v.vertex_data[i].x, v.vertex_data[i].y}; }; auto fin = [&] { if (open) { closed = false; o.push_back({c, s}); } open = false; };
  for (size_t i = 0; i < v.size;) { uint8_t k = v.command_data[i]; if (k == BL_PATH_CMD_CLOSE) { o.push_back({c, s}); c = s; open = false; i++; continue; } int n = k == BL_PATH_CMD_QUAD ? 2 : k == BL_PATH_CMD_CUBIC ? 3 : 1; for (int j = 0; j < n; j++) if (!std::isfinite(v.vertex_data[i + j].x) || !std::isfinite(v.vertex_data[i + j].y)) finite = false; if (k == BL_PATH_CMD_MOVE) { fin(); s = c = at(i); open = true; } else if (k == BL_PATH_CMD_ON) { P e = at(i); o.push_back({c, e}); c = e; } else { Seg q{n, {}}; for (int j = 0; j < n; j++) q.p[j] = at(i + j); const int N = n == 2 ? 16 : 36; P pv = c; for (int j = 1; j <= N; j++) { P e = j == N ? endp(q) : ev(c, q, double(j) / N); o.push_back({pv, e}); pv = e; } c = endp(q); } i += n; } fin(); return o; }
static int winding(const std::vector<Edge>& E, P p) { int w = 0; for (auto& e : E) { bool u = e.a.y <= p.y, v = e.b.y <= p.y; if (u != v) { double c = cross(e.b - e.a, p - e.a); if (u && c > 0) w++; if (!u && c < 0) w--; } } return w; }
static BLPath mk(const Shape& s) { BLPath p; for (auto& f : s) { p.move_to(f.s.x, f.s.y); for (auto& q : f.g) { if (q.k == 1) p.line_to(q.p[0].x, q.p[0].y); else if (q.k == 2) p.quad_to(q.p[0].x, q.p[0].y, q.p[1].x, q.p[1].y); else p.cubic_to(q.p[0].x, q.p[0].y, q.p[1].x, q.p[1].y, q.p[2].x, q.p[2].y); } if (f.closed) p.close(); } return p; }
static std::string text(const Shape& s) { std::string o; char b[100]; for (auto& f : s) { snprintf(b, sizeof b, "M%g,%g ", f.s.x, f.s.y); o += b; for (auto& q : f.g) { o += " LQC"[q.k]; for (int i = 0; i < q.k; i++) { snprintf(b, sizeof b, "%g,%g ", q.p[i].x, q.p[i].y); o += b; } } if (f.closed) o += "Z "; } return o; }
static BLStrokeOptions opts(const Opt& o) { BLStrokeOptions s; s.width = o.w; s.miter_limit = o.limit; s.join = uint8_t(o.join); s.start_cap = uint8_t(o.cap0); s.end_cap = uint8_t(o.cap1); return s; }
static double step0 = 0.23;
static int fineApprox = 1;
static bool check(const Shape& s, const Opt& o, double lo, double hi, double rel, const char* key) { if (!fineApprox) rel = std::max(rel, 0.05);
  BLApproximationOptions ap = bl_default_approximation_options; if (fineApprox) { ap.offset_parameter = 0.1; ap.simplify_tolerance = 1e-4; }
  BLPath src = mk(s), out; BLResult r = out.add_stroked_path(src, opts(o), ap); bool fin, cl; auto E = edges(out, fin, cl); vh::stat("strokes", 1); char od[200]; snprintf(od, sizeof od, "width %g %s limit %g caps %s %s", o.w, JN[o.join], o.limit, CN[o.cap0], CN[o.cap1]);
  if (r != BL_SUCCESS || !fin || !cl) { fail(r ? "stroke-error" : !fin ? "not-finite" : "not-closed", "result %u: %s of %s", r, od, text(s).c_str()); return false; }
  Model m = model(s, o); double h = m.hw, eps = std::max(rel * h, m.curved ? fineApprox ? 0.004 : 0.05 : 1e-6), far = h * std::max(1.5, o.join < 3 ? std::min(o.limit, 4.0) : 1.5), st = std::max(step0, (hi - lo + 2 * far) / 44);
  for (double y = lo - far + 0.0137; y < hi + far; y += st) for (double x = lo - far + 0.0071; x < hi + far; x += st) { P p{x, y}; int j = judge(m, p, eps); if (j < 0) continue; int w = winding(E, p); vh::stat("points", 1); if ((w != 0) != (j == 1)) { fail(tight && !w ? "tight curve" : key, "(%g, %g) is %scovered (winding %d, expected %d): %s of %s", x, y, w ? "" : "not ", w, degree, od, text(s).c_str()); return false; } }
  return true;
}
static uint64_t nIt; static size_t nGrp;
static bool item() { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return false; } else if (!mine(int64_t(n)) || over_budget()) return false; set_case("%s", cs); return true; }
static P gp(int i, int n, double sc = 1) { return {(i % n) * sc, (i / n) * sc}; }
static const double LIM[] = {4, 1, 2, 10, 1.2};
static Fig poly(const std::vector<P>& v, bool c) { Fig f; f.s = v[0]; f.closed = c; for (size_t i = 1; i < v.size(); i++) f.g.push_back({1, {v[i]}}); return f; }
static void group(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough;
  if (k == 0) for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < 16; c++) for (int cl = 0; cl < 2; cl++) { if (!item()) continue; int n = a + 3 * b + 5 * c; for (int j = 0; j < 5; j++) for (double w : {0.4, 1.1, 3.0}) for (int l = 0; l < (T ? 5 : 1); l++) { n++; if (!check({poly({gp(a, 4), gp(b, 4), gp(c, 4)}, cl)}, {j, n % 6, (n / 2) % 6, w, LIM[(n + l) % 5]}, 0, 3, 2e-3, "polyline")) break; } }
  if (k == 1) { int len = T ? 5 : 4, tot = 1; for (int i = 0; i < len; i++) tot *= 9; for (int q = 0; q < tot; q++) { if (!item()) continue; std::vector<P> v; for (int i = 0, z = q; i < len; i++, z /= 9) { P p = gp(z % 9, 3, 1.3); p.x += p.y * 0.25; v.push_back(p); } for (int x = 0; x < 4; x++) { int n = q + x * 7; if (!check({poly(v, x & 1)}, {n % 5, n % 6, (n / 3) % 6, x < 2 ? 0.5 : 1.7, LIM[n / 5 % 5]}, 0, 2.6, 2e-3, "polyline")) break; } } }
  if (k == 2) // All caps on lines of many directions.
    for (int d = 0; d < 24; d++) for (int c0 = 0; c0 < 6; c0++) for (int c1 = 0; c1 < 6; c1++) { if (!item()) continue; double a = d * 0.261799; for (double w : {0.7, 2.0}) for (double L : {2.5, 0.3, 1e-3}) { P s{1, 1}; if (!check({poly({s, s + P{cos(a), sin(a)} * L}, false)}, {d % 5, c0, c1, w, 4}, -1, 3, 2e-3, "cap")) break; } }
  if (k == 3) // Joins at many angles.
    for (int d = 0; d < 96; d++) for (int j = 0; j < 5; j++) { if (!item()) continue; double a = d * 6.283185307179586 / 96; for (double base : {0.0, 0.7, 2.1}) for (double lim : {4.0, 1.0, 1.5, 2.0, 8.0, 0.5}) for (int cl = 0; cl < 2; cl++) { P v{2, 2}; if (!check({poly({v - P{cos(base), sin(base)} * 2, v, v + P{cos(base + a), sin(base + a)} * 2}, cl)}, {j, d % 6, (d / 6) % 6, 0.8, lim}, 0, 4, 2e-3, "join")) break; } }
  if (k == 4) // Quadratic curves.
    for (int a = 0; a < 16; a++) for (int b = 0; b < 16; b++) for (int c = 0; c < 16; c++) { if (!item()) continue; int n = a + 3 * b + 5 * c; for (int cl = 0; cl < 2; cl++) for (double w : {0.3, 0.9, 2.2}) { n++; if (!check({{gp(a, 4), {{2, {gp(b, 4), gp(c, 4)}}}, bool(cl)}}, {n % 5, n % 6, (n / 2) % 6, w, LIM[n % 5]}, 0, 3, 0.004, "quad")) break; } }
  if (k == 5) { int G = T ? 4 : 3, Q = G * G; double sc = T ? 1 : 1.5; // Cubic curves.
    for (int a = 0; a < Q; a++) for (int b = 0; b < Q; b++) for (int c = 0; c < Q; c++) for (int d = 0; d < Q; d++) { if (!item()) continue; int n = a + 3 * b + 5 * c + 7 * d; for (double w : {0.3, 1.2}) { n++; if (!check({{gp(a, G, sc), {{3, {gp(b, G, sc), gp(c, G, sc), gp(d, G, sc)}}}, bool(n & 1)}}, {n % 5, n % 6, (n / 2) % 6, w, LIM[n % 5]}, 0, 3, 0.004, "cubic")) break; } } }
}
// Ranges, several figures, appending to a path that already has content, the source being the destination, the sink function, matrices.
static bool same(const BLPath& a, const BLPath& b) { return a.equals(b); }
static void ranges(const Shape& s, const Opt& o) {
  BLPath src = mk(s), pre, out; BLStrokeOptions so = opts(o); const BLApproximationOptions& ap = bl_default_approximation_options; char od[200]; snprintf(od, sizeof od, "width %g %s caps %s %s of %s", o.w, JN[o.join], CN[o.cap0], CN[o.cap1], text(s).c_str());
  pre.move_to(7, 7); pre.cubic_to(8, 8, 9, 9, 10, 7); BLPath before = pre; BLResult r0 = out.add_stroked_path(src, so, ap), r1 = pre.add_stroked_path(src, so, ap); vh::stat("strokes", 2);
  BLPath cat = before; cat.add_path(out); if (r0 || r1 || !same(pre, cat)) fail("append", "stroking into a path with content (%u, %u) is not its content followed by the stroke: %s", r0, r1, od);
  BLPath self = src, want = src; want.add_path(out); BLResult r2 = self.add_stroked_path(self, so, ap); if (r2 || !same(self, want)) fail("alias", "stroking a path into itself (%u) is not its content followed by the stroke: %s", r2, od);
  if (!same(src, mk(s))) fail("source", "source path changed: %s", od);
  // Figure by figure.
  BLPath parts, rng, viaRange; size_t at = 0; for (auto& f : s) { BLPath one = mk({f}); BLResult r = parts.add_stroked_path(one, so, ap); BLRange R{at, at + one.size()}; BLResult q = rng.add_stroked_path(src, R, so, ap); if (r || q) fail("range-error", "results %u %u: %s", r, q, od); at += one.size(); viaRange = parts; }
  if (!same(parts, out)) fail("figures", "stroke of all figures (%zu vertices) is not the strokes of each (%zu): %s", out.size(), parts.size(), od); if (!same(rng, parts)) fail("range", "stroke of the ranges of figures differs from the strokes of the figures: %s", od);
  BLPath none; BLResult re = none.add_stroked_path(src, BLRange{src.size(), src.size()}, so, ap); if (none.size()) fail("empty-range", "stroking an empty range (%u) adds %zu vertices", re, none.size());
  // The sink receives the two offsets and the caps of each figure; a, then b reversed, then c make up the stroke.
  struct S { BLPath p, a, b, c; unsigned n; size_t used; } sk{}; BLResult rs = bl_path_stroke_to_sink(&src, nullptr, &so, &ap, &sk.a, &sk.b, &sk.c, [](BLPathCore* a, BLPathCore* b, BLPathCore* c, size_t s0, size_t s1, void* u) noexcept -> BLResult { S& k = *static_cast<S*>(u); k.n++; if (s0 != k.used || s1 <= s0) k.n += 1000; k.used = s1; BLResult r = k.p.add_path(a->dcast()); BLPathView bv = b->dcast().view(); if (bv.size) r |= k.p.add_reversed_path(b->dcast(), BL_PATH_REVERSE_MODE_COMPLETE); return r | k.p.add_path(c->dcast()); }, &sk);
  if (rs || sk.n >= 1000 || sk.used > src.size()) fail("sink", "sink: result %u, %u calls, ranges up to %zu of %zu: %s", rs, sk.n, sk.used, src.size(), od);
  // An error returned by the sink ends the operation with that error.
  BLPath a, b, c; unsigned calls = 0; BLResult rf = bl_path_stroke_to_sink(&src, nullptr, &so, &ap, &a, &b, &c, [](BLPathCore*, BLPathCore*, BLPathCore*, size_t, size_t, void* u) noexcept -> BLResult { ++*static_cast<unsigned*>(u); return BL_ERROR_BUSY; }, &calls); if (out.size() && (rf != BL_ERROR_BUSY || calls != 1)) fail("sink-error", "sink error gives %u after %u calls: %s", rf, calls, od);
}
static void pixels(BLImage& i, BLImageData& d) { i.get_data(&d); }
static int maxDiff(BLImage& a, BLImage& b, int& px, int& py) { BLImageData x, y; pixels(a, x); pixels(b, y); int m = 0; for (int r = 0; r < x.size.h; r++) { auto p = static_cast<const uint8_t*>(x.pixel_data) + r * x.stride, q = static_cast<const uint8_t*>(y.pixel_data) + r * y.stride; for (int c = 0; c < x.size.w; c++) { int v = abs(int(p[c]) - int(q[c])); if (v > m) { m = v; px = c; py = r; } } } return m; }
static const BLMatrix2D MX[] = {{1, 0, 0, 1, 6, 5}, {2.5, 0, 0, 2.5, 4, 3}, {3, 0, 0, 1.25, 2, 4}, {1.5, 1, -0.75, 2, 8, 2}, {0, 2, -2, 0, 20, 4}, {-2, 0.5, 0.25, 1.75, 14, 4}, {0.5, 0, 0, 0.5, 10, 10}};
static void drawing(const Shape& s, const Opt& o, int order, size_t mi, int threads) {
  const BLMatrix2D& M = MX[mi]; BLPath src = mk(s); BLImage A(24, 24, BL_FORMAT_A8), B(24, 24, BL_FORMAT_A8); BLContextCreateInfo ci{}; ci.thread_count = threads; BLStrokeOptions so = opts(o); so.transform_order = uint8_t(order); vh::stat("drawings", 1);
  { BLContext c(A, ci); c.clear_all(); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); c.set_transform(M); c.set_stroke_options(so); c.set_stroke_style(BLRgba32(0xFFFFFFFF)); c.stroke_path(src); c.end(); }
  BLPath p = src, st; BLApproximationOptions ap = bl_default_approximation_options; if (order == BL_STROKE_TRANSFORM_ORDER_AFTER) { BLMatrix2D n = M; (void)n; ap.offset_parameter *= 0.25; ap.simplify_tolerance *= 0.25; st.add_stroked_path(p, so, ap); st.transform(M); } else { p.transform(M); st.add_stroked_path(p, so, ap); }
  { BLContext c(B); c.clear_all(); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); c.fill_path(st, BLRgba32(0xFFFFFFFF)); c.end(); }
  bool curved = false; for (auto& f : s) for (auto& q : f.g) curved |= q.k > 1; int px = 0, py = 0, d = maxDiff(A, B, px, py), tol = curved ? 48 : 24; vh::stat("max_difference", curved ? 0 : d); vh::stat("max_curve_difference", curved ? d : 0);
  if (d > tol) fail("drawing", "stroked and filled coverage differ by %d at (%d, %d), transform order %d, matrix %zu, threads %d, width %g %s caps %s %s of %s", d, px, py, order, mi, threads, o.w, JN[o.join], CN[o.cap0], CN[o.cap1], text(s).c_str());
}
static Fig part(int z) { switch (z % 10) { case 0: return poly({{1, 1}, {4, 1}, {4, 3}}, false); case 1: return poly({{1, 1}, {4, 1}, {3, 4}}, true); case 2: return poly({{2, 2}, {2, 2}}, false); case 3: return poly({{0, 3}, {3, 3}, {0, 3}}, false); case 4: return {{0, 0}, {{2, {{2, 3}, {4, 0}}}}, false}; case 5: return {{0, 4}, {{3, {{1, 0}, {3, 0}, {4, 4}}}}, true}; case 6: return {{5, 1}, {{1, {{5, 3}}}, {2, {{5, 5}, {3, 5}}}, {3, {{2, 5}, {1, 4}, {1, 2}}}}, false}; case 7: return poly({{1, 1}, {5, 2}}, true); case 8: return poly({{3, 3}}, false); default: return poly({{0, 0}, {5, 0}, {5, 5}, {0, 5}, {0, 0}}, true); } }
// Widths and coordinates far from 1, options out of range, non-finite options and coordinates.
static void extreme(int z) {
  static const double V[] = {0, 1, -1, 1e-6, 1e-3, 1e3, 1e6, 1e-300, 1e9}; static const double W[] = {1, 0, -1, 1e-9, 1e-3, 1e3, 1e6, 1e12, NAN, INFINITY, -INFINITY}; static const double L[] = {4, 0, -1, 1e-9, 1e9, NAN, INFINITY};
  int wi = z % 11, li = z / 11 % 7, jn = z / 77 % 5, cp = z / 385 % 6; Opt o{jn, cp, (cp + 1) % 6, W[wi], L[li]};
  for (double a : V) for (double b : V) for (int k = 1; k < 4; k++) { Shape s{{{0, 0}, {{k, {{a, b}, {b, a}, {a + b, a}}}, {1, {{b, b}}}}, bool((k + wi) & 1)}}; BLPath src = mk(s), out; BLResult r = out.add_stroked_path(src, opts(o), bl_default_approximation_options); vh::stat("strokes", 1); bool fin = true; BLPathView v = out.view(); for (size_t i = 0; i < v.size; i++) if (v.command_data[i] != BL_PATH_CMD_CLOSE && !(std::isfinite(v.vertex_data[i].x) && std::isfinite(v.vertex_data[i].y))) fin = false;
    if (!fin && std::isfinite(o.w) && std::isfinite(o.limit)) { fail("extreme-not-finite", "result %u: width %g %s limit %g caps %s %s of %s", r, o.w, JN[jn], o.limit, CN[cp], CN[(cp + 1) % 6], text(s).c_str()); return; } if (r && out.size()) { fail("extreme-error", "error %u but %zu vertices added", r, out.size()); return; } if (r && std::isfinite(o.w) && o.w > 0 && std::isfinite(o.limit)) { fail("extreme-refused", "result %u: width %g %s limit %g of %s", r, o.w, JN[jn], o.limit, text(s).c_str()); return; } } }
static void more(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough;
  if (k == 6) for (int a = 0; a < 10; a++) for (int b = -1; b < 10; b++) for (int c = -1; c < (T ? 10 : 3); c++) { if (!item()) continue; Shape s{part(a)}; if (b >= 0) s.push_back(part(b)); if (c >= 0) s.push_back(part(c)); for (int j = 0; j < 5; j++) for (int cp = 0; cp < 6; cp++) for (double w : {0.5, 2.0}) ranges(s, {j, cp, (cp + j) % 6, w, 4}); }
  if (k == 7) for (int a = 0; a < 10; a++) for (size_t m = 0; m < 7; m++) for (int ord = 0; ord < 2; ord++) { if (!item()) continue; for (int j = 0; j < 5; j++) for (int cp = 0; cp < 6; cp++) for (double w : {0.3, 1.3}) for (int th = 0; th < (T ? 2 : 1); th++) drawing({part(a)}, {j, cp, (cp * 2 + j) % 6, w, 3}, ord, m, (j + cp + th) & 1); }
  if (k == 9) for (int z = 0; z < 9; z++) { if (!item()) continue; BLPath p, o; p.move_to(0, 0); p.conic_to(2, z / 3, 3, 3, 0.5 + z % 3); BLStrokeOptions so; BLResult r = o.add_stroked_path(p, so, bl_default_approximation_options); if (r || !o.size()) fail("conic", "stroking a conic curve gives result %u and %zu vertices", r, o.size()); }
  if (k == 8) for (int z = 0; z < 11 * 7 * 5 * 6; z++) { if (!item()) continue; extreme(z); }
}
int main(int argc, char** argv) {
  init(argc, argv); bl_runtime_init();
  for (size_t k = 0; k < 10; k++) { double t0 = now(); if (k < 6) group(k); else more(k); if (getenv("C24_DEV") && g.shard <= 0) fprintf(stderr, "group %zu: %llu items %.1fs\n", k, (unsigned long long)nIt, now() - t0); vh::stat("transitions", nIt / 8); }
  return done();
}
