// C21: patterns, image blits and gradients. Every pixel drawn equals the definition evaluated at the pixel's centre in double precision: texel or bilinear mix under the inverse
// transform with the extend mode, or the stop color at the geometric offset.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
static const double PI = 3.14159265358979323846; static const int W = 22, H = 14;
static const BLFormat FM[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8};
static uint32_t texel(int f, int x, int y) { uint32_t h = uint32_t(x * 0x9E3779B1u + y * 0x85EBCA77u + f * 77777u); h ^= h >> 15; h *= 0x2C1B3C6Du; h ^= h >> 12; uint32_t a = 60 + (h & 127) + ((h >> 7) & 63); if (f == 2) return (h >> 9) & 255; if (f == 1) return h; return a << 24 | (((h >> 8) & 255) * a / 255) << 16 | (((h >> 16) & 255) * a / 255) << 8 | ((h >> 24) * a / 255); }
struct Img { int f, w, h; uint8_t* mem; BLImage img; uint32_t at(int x, int y) const { if (f == 2) return mem[y * w + x] * 0x01010101u; uint32_t v; memcpy(&v, mem + (y * w + x) * 4, 4); return f == 1 ? v | 0xFF000000u : v; } };
// An image in a heap block of exactly its size (so that the sanitizer sees every stray read).
static Img* mkimg(int f, int w, int h) { Img* i = new Img; i->f = f; i->w = w; i->h = h; int bpp = f == 2 ? 1 : 4; i->mem = (uint8_t*)malloc(size_t(w) * h * bpp); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = texel(f, x, y); if (bpp == 1) i->mem[y * w + x] = uint8_t(v); else memcpy(i->mem + (y * w + x) * 4, &v, 4); } i->img.create_from_data(w, h, FM[f], i->mem, w * bpp); return i; }
static Img* getimg(int f, int w, int h) { static auto& m = *new std::map<int, Img*>; Img*& p = m[f * 10000 + w * 100 + h]; if (!p) p = mkimg(f, w, h); return p; }
static int ext1(int m, int64_t i, int n) { if (m == 0) return int(std::min<int64_t>(std::max<int64_t>(i, 0), n - 1)); if (m == 1) { int64_t r = i % n; return int(r < 0 ? r + n : r); } int64_t r = i % (2 * n); if (r < 0) r += 2 * n; return int(r < n ? r : 2 * n - 1 - r); }
static void extxy(int mode, int& ex, int& ey) { static const int X[] = {0, 1, 2, 0, 0, 1, 1, 2, 2}, Y[] = {0, 1, 2, 1, 2, 0, 2, 0, 1}; ex = X[mode]; ey = Y[mode]; }
struct Dst { BLImage img; uint32_t mem[H][W]; BLContext ctx; };
static Dst D[2]; static double maxErr;
static const uint32_t JUNK = 0x7B3D1F29u;
static BLPoint inv(const BLMatrix2D& m, double x, double y) { double det = m.m00 * m.m11 - m.m01 * m.m10, dx = x - m.m20, dy = y - m.m21; return BLPoint((dx * m.m11 - dy * m.m10) / det, (dy * m.m00 - dx * m.m01) / det); }
// How the area is drawn: 0 fill_all, 1 an inner rectangle, 2 a path of separate rectangles, 3 one pixel columns, 4 a path whose spans have gaps of different lengths.
static bool covered(int how, int x, int y) { switch (how) { case 0: return true; case 1: return x >= 3 && y >= 2 && x < 16 && y < 11; case 2: return (y >= 1 && y < 13) && ((x >= 1 && x < 4) || (x >= 5 && x < 6) || (x >= 9 && x < 21)); case 4: return x < 1 + (y & 1) || (x >= 4 + y && x < 6 + y) || x >= 20; default: return y >= 4 && y < 9 && x == 7; } }
static BLResult draw(BLContext& c, int how) { BLMatrix2D m = c.user_transform(); c.reset_transform(); BLResult r; if (how == 0) r = c.fill_all(); else if (how == 1) r = c.fill_rect(BLRectI(3, 2, 13, 9)); else if (how == 2) { BLPath p; p.add_rect(BLRect(1, 1, 3, 12)); p.add_rect(BLRect(5, 1, 1, 12)); p.add_rect(BLRect(9, 1, 12, 12)); r = c.fill_path(p); } else if (how == 4) { BLPath p; for (int y = 0; y < H; y++) { p.add_rect(BLRect(0, y, 1 + (y & 1), 1)); p.add_rect(BLRect(4 + y, y, 2, 1)); if (6 + y < 20) p.add_rect(BLRect(20, y, 2, 1)); else if (6 + y < 22) p.add_rect(BLRect(6 + y, y, 16 - y, 1)); } r = c.fill_path(p); } else r = c.fill_rect(BLRectI(7, 4, 1, 5)); c.set_transform(m); return r; }
static const char* HOW[] = {"fill_all", "rectangle", "path", "column", "path with gaps"};
static int hw(int n) { return (n + n / 5 + n / 7) % 5; }
static bool near(double v) { return fabs(v - floor(v + 0.5)) < 4e-3; }
// Compares pixel `got` with image `im` (area) sampled at q: nearest or bilinear.
static bool sample_ok(uint32_t got, const Img* im, BLRectI ar, int ex, int ey, bool bil, BLPoint q, double tol, std::string& why, double slack = 0) {
  auto tx = [&](int64_t i, int64_t j) { return im->at(ar.x + ext1(ex, i, ar.w), ar.y + ext1(ey, j, ar.h)); };
  if (!bil) { int64_t x0 = int64_t(floor(q.x)), y0 = int64_t(floor(q.y)); for (int dy = -1; dy <= 1; dy++) for (int dx = -1; dx <= 1; dx++) { bool okx = dx == 0 || (near(q.x) && floor(q.x + dx * 8e-3) == x0 + dx), oky = dy == 0 || (near(q.y) && floor(q.y + dy * 8e-3) == y0 + dy); if (okx && oky && tx(x0 + dx, y0 + dy) == got) return true; } char t[120]; snprintf(t, sizeof t, "%08x expected texel (%.3f,%.3f) %08x", got, q.x, q.y, tx(x0, y0)); why = t; return false; }
  double u = q.x - 0.5, v = q.y - 0.5, best = 1e9; uint32_t bc[4] = {}; 
  double us[3] = {u, u - slack, u + slack}, vs[3] = {v, v - slack, v + slack}; // (a position error of the fixed point at a fold of the extend mode)
  for (int a = 0; a < (slack > 0 ? 3 : 1); a++) for (int b = 0; b < (slack > 0 ? 3 : 1); b++) { double fu = floor(us[a]), fv = floor(vs[b]), wx = us[a] - fu, wy = vs[b] - fv; uint32_t t00 = tx(int64_t(fu), int64_t(fv)), t10 = tx(int64_t(fu) + 1, int64_t(fv)), t01 = tx(int64_t(fu), int64_t(fv) + 1), t11 = tx(int64_t(fu) + 1, int64_t(fv) + 1); double worst = 0; uint32_t ec[4]; for (int i = 0; i < 4; i++) { auto c = [&](uint32_t t) { return double((t >> (24 - i * 8)) & 255); }; double e = (c(t00) * (1 - wx) + c(t10) * wx) * (1 - wy) + (c(t01) * (1 - wx) + c(t11) * wx) * wy; ec[i] = uint32_t(lround(e)); worst = std::max(worst, fabs(e - c(got))); } if (worst < best) { best = worst; memcpy(bc, ec, sizeof bc); } }
  if (best > maxErr) maxErr = best; if (best <= tol) return true; char t[160]; snprintf(t, sizeof t, "%08x expected %02x%02x%02x%02x at (%.3f,%.3f)", got, bc[0], bc[1], bc[2], bc[3], q.x, q.y); why = t; return false;
}
static std::string mstr(const BLMatrix2D& m) { char t[160]; snprintf(t, sizeof t, "[%g %g %g %g %g %g]", m.m00, m.m01, m.m10, m.m11, m.m20, m.m21); return t; }
// Pattern fill. `um` is the user transform at the time the style is set.
static bool pattern(int f, int iw, int ih, BLRectI ar, int mode, bool bil, const BLMatrix2D& pm, const BLMatrix2D& um, int how, int q = 0) {
  Img* im = getimg(f, iw, ih); Dst& d = D[q]; BLPattern p; BLResult r0 = p.create(im->img, ar, BLExtendMode(mode), pm); if (r0 != BL_SUCCESS) { fail("create", "pattern create gives %u", r0); return false; }
  d.ctx.save(); d.ctx.set_comp_op(BL_COMP_OP_SRC_COPY); d.ctx.set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); d.ctx.set_transform(um); d.ctx.set_fill_style(p); for (auto& row : d.mem) for (auto& v : row) v = JUNK; BLResult r = draw(d.ctx, how); d.ctx.restore(); d.ctx.flush(BL_CONTEXT_FLUSH_SYNC); vh::stat("transitions");
  BLMatrix2D m(pm); m.post_transform(um); int ex, ey; extxy(mode, ex, ey); std::string why; bool affine = m.m00 != 1 || m.m11 != 1 || m.m01 != 0 || m.m10 != 0; double sc = 1 / std::max(0.05, sqrt(fabs(m.m00 * m.m11 - m.m01 * m.m10)));
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = d.mem[y][x]; bool ok; if (!covered(how, x, y)) { if ((ok = v == JUNK) == false) why = "outside of the shape changed"; } else if (r != BL_SUCCESS) { ok = false; why = "error " + std::to_string(r); } else ok = sample_ok(v, im, ar, ex, ey, bil, inv(m, x + 0.5, y + 0.5), affine ? 3.6 : 2.6, why, bil ? (affine ? 0.008 * sc : 0.0045) : 0);
    if (!ok) { fail(affine ? "pattern-affine" : "pattern", "%s image %dx%d area (%d,%d,%d,%d) extend %d %s matrix %s user %s by %s: pixel (%d,%d) is %s", f == 0 ? "PRGB32" : f == 1 ? "XRGB32" : "A8", iw, ih, ar.x, ar.y, ar.w, ar.h, mode, bil ? "bilinear" : "nearest", mstr(pm).c_str(), mstr(um).c_str(), HOW[how], x, y, why.c_str()); return false; } }
  return true;
}
// Blits: kind 0 blit_image(origin), 1 with area, 2 blit scaled into a rectangle.
static bool blit(int f, int iw, int ih, const BLRectI* ar, bool scaled, BLRect dst, bool bil, const BLMatrix2D& um, bool integer) {
  Img* im = getimg(f, iw, ih); Dst& d = D[0]; BLRectI a = ar ? *ar : BLRectI(0, 0, iw, ih); d.ctx.save(); d.ctx.set_comp_op(BL_COMP_OP_SRC_COPY); d.ctx.set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); d.ctx.set_transform(um); for (auto& row : d.mem) for (auto& v : row) v = JUNK; BLResult r;
  if (!scaled) { dst.w = a.w; dst.h = a.h; BLPointI oi(int(dst.x), int(dst.y)); BLPoint o(dst.x, dst.y); r = integer ? (ar ? d.ctx.blit_image(oi, im->img, a) : d.ctx.blit_image(oi, im->img)) : (ar ? d.ctx.blit_image(o, im->img, a) : d.ctx.blit_image(o, im->img)); } else { BLRectI ri(int(dst.x), int(dst.y), int(dst.w), int(dst.h)); r = integer ? (ar ? d.ctx.blit_image(ri, im->img, a) : d.ctx.blit_image(ri, im->img)) : (ar ? d.ctx.blit_image(dst, im->img, a) : d.ctx.blit_image(dst, im->img)); }
  d.ctx.restore(); d.ctx.flush(BL_CONTEXT_FLUSH_SYNC); vh::stat("transitions"); BLMatrix2D m(dst.w / a.w, 0, 0, dst.h / a.h, dst.x, dst.y); m.post_transform(um); std::string why; double sc = 1 / std::max(0.05, sqrt(fabs(m.m00 * m.m11 - m.m01 * m.m10))); bool affine = m.m00 != 1 || m.m11 != 1 || m.m01 != 0 || m.m10 != 0;
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = d.mem[y][x]; int in = 0; double mn = 1e9; for (int k = 0; k < 4; k++) { BLPoint q = inv(m, x + (k & 1), y + (k >> 1)); double e = std::min(std::min(q.x, a.w - q.x), std::min(q.y, a.h - q.y)); mn = std::min(mn, e); if (e >= -1e-9) in++; }
    BLPoint c = inv(m, x + 0.5, y + 0.5); BLPoint e1 = inv(m, x + 1.5, y + 0.5), e2 = inv(m, x + 0.5, y + 1.5); double ex_ = 0.52 * (fabs(e1.x - c.x) + fabs(e2.x - c.x)), ey_ = 0.52 * (fabs(e1.y - c.y) + fabs(e2.y - c.y)); bool far_ = c.x < -ex_ || c.y < -ey_ || c.x > a.w + ex_ || c.y > a.h + ey_, ok = true; if (in == 4) { if (r != BL_SUCCESS) { ok = false; why = "error " + std::to_string(r); } else if (mn > 0.02 || !affine) ok = sample_ok(v, im, a, 0, 0, bil, c, affine ? 3.6 : 2.6, why, bil ? (affine ? 0.008 * sc : 0.0045) : 0); } else if (far_) { ok = v == JUNK; why = "outside of the blit changed"; }
    if (!ok) { fail(scaled ? "blit-scaled" : "blit", "%s image %dx%d area (%d,%d,%d,%d)%s to (%g,%g,%g,%g) %s%s user %s: pixel (%d,%d) is %s", f == 0 ? "PRGB32" : f == 1 ? "XRGB32" : "A8", iw, ih, a.x, a.y, a.w, a.h, ar ? "" : " whole", dst.x, dst.y, dst.w, dst.h, bil ? "bilinear" : "nearest", integer ? " integer" : "", mstr(um).c_str(), x, y, why.c_str()); return false; } }
  return true;
}
struct Stop { double o; uint32_t c; }; typedef std::vector<Stop> Stops;
// Color of a gradient at t in 0..1 (straight interpolation, then premultiplied); side: at coincident stops take the one before (-1) or after (+1).
static void colorAt(const Stops& s, double t, int side, double* o) { uint32_t c0, c1; double w = 0; if (s.empty()) { for (int i = 0; i < 4; i++) o[i] = 0; return; } size_t n = s.size(), k = 0; if (side < 0) while (k < n && s[k].o < t) k++; else while (k < n && s[k].o <= t) k++; if (k == 0) c0 = c1 = s[0].c; else if (k == n) c0 = c1 = s[n - 1].c; else { c0 = s[k - 1].c; c1 = s[k].c; w = s[k].o > s[k - 1].o ? (t - s[k - 1].o) / (s[k].o - s[k - 1].o) : 0; }
  double v[4]; for (int i = 0; i < 4; i++) { double a = (c0 >> (24 - 8 * i)) & 255, b = (c1 >> (24 - 8 * i)) & 255; v[i] = a + (b - a) * w; } o[0] = v[0]; for (int i = 1; i < 4; i++) o[i] = v[i] * v[0] / 255; }
static bool color_ok(uint32_t got, const Stops& s, double t, double dt, int ext, bool wrap, double tol, std::string& why) {
  double lo[4] = {1e9, 1e9, 1e9, 1e9}, hi[4] = {-1, -1, -1, -1}; auto add = [&](double tt) { double f; if (wrap || ext == 1) { f = tt - floor(tt); } else if (ext == 0) f = std::min(1.0, std::max(0.0, tt)); else { f = fabs(tt); f = f - 2 * floor(f / 2); if (f > 1) f = 2 - f; } for (int side = -1; side <= 1; side += 2) { double c[4]; colorAt(s, f, side, c); for (int i = 0; i < 4; i++) { lo[i] = std::min(lo[i], c[i]); hi[i] = std::max(hi[i], c[i]); } if ((wrap || ext == 1) && (f < 1e-9)) { colorAt(s, 1, side, c); for (int i = 0; i < 4; i++) { lo[i] = std::min(lo[i], c[i]); hi[i] = std::max(hi[i], c[i]); } } } };
  double a = t - dt, b = t + dt; if (b - a > 1.5 && (wrap || ext)) { a = 0; b = 2; } for (int i = 0; i <= 12; i++) add(a + (b - a) * i / 12); for (auto& st : s) for (double k = floor(a) - 1; k <= floor(b) + 1 && k < floor(a) + 5; k++) { double e[2] = {k + st.o, k + 1 - st.o}; for (double x : e) if (x >= a && x <= b) { add(x); add(x + 1e-7); add(x - 1e-7); } } for (double k = floor(a); k <= b && k < a + 5; k++) if (k >= a) { add(k); add(k + 1e-7); add(k - 1e-7); }
  double worst = 0; for (int i = 0; i < 4; i++) { double g2 = (got >> (24 - 8 * i)) & 255; worst = std::max(worst, std::max(lo[i] - g2, g2 - hi[i])); } if (worst > maxErr) maxErr = worst; if (worst <= tol) return true; char z[160]; snprintf(z, sizeof z, "%08x expected %.0f-%.0f,%.0f-%.0f,%.0f-%.0f,%.0f-%.0f at offset %.4f+-%.4f", got, lo[0], hi[0], lo[1], hi[1], lo[2], hi[2], lo[3], hi[3], t, dt); why = z; return false;
}
struct Grad { int type; double v[6]; };
// The offset of a point in gradient space; false where it is not defined.
static bool offset(const Grad& g, BLPoint p, double& t) {
  if (g.type == 0) { double ax = g.v[2] - g.v[0], ay = g.v[3] - g.v[1]; t = ((p.x - g.v[0]) * ax + (p.y - g.v[1]) * ay) / (ax * ax + ay * ay); return true; }
  if (g.type == 1) { double cx = g.v[0], cy = g.v[1], fx = g.v[2], fy = g.v[3], r0 = g.v[4], r1 = g.v[5], dx = cx - fx, dy = cy - fy, dr = r0 - r1, px = p.x - fx, py = p.y - fy, a = dr * dr - dx * dx - dy * dy, b = px * dx + py * dy + r1 * dr, c = px * px + py * py - r1 * r1; if (a <= 0) return false; double disc = b * b + a * c; if (disc < 0) return false; t = (-b + 0) / a; t = (sqrt(disc) - b) / a; return true; }
  double an = atan2(p.y - g.v[1], p.x - g.v[0]); t = (an - g.v[2]) / (2 * PI); t -= floor(t); t *= g.v[3]; return hypot(p.x - g.v[0], p.y - g.v[1]) > 1e-9;
}
static bool gradient(const Grad& gr, const Stops& s, int ext, int quality, const BLMatrix2D& gm, const BLMatrix2D& um, int how, int q = 0) {
  BLGradient G; if (gr.type == 0) G.create(BLLinearGradientValues(gr.v[0], gr.v[1], gr.v[2], gr.v[3])); else if (gr.type == 1) G.create(BLRadialGradientValues(gr.v[0], gr.v[1], gr.v[2], gr.v[3], gr.v[4], gr.v[5])); else G.create(BLConicGradientValues(gr.v[0], gr.v[1], gr.v[2], gr.v[3]));
  G.set_extend_mode(BLExtendMode(ext)); for (auto& st : s) G.add_stop(st.o, BLRgba32(st.c)); G.set_transform(gm); Dst& d = D[q]; d.ctx.save(); d.ctx.set_comp_op(BL_COMP_OP_SRC_COPY); d.ctx.set_gradient_quality(BLGradientQuality(quality)); d.ctx.set_transform(um); d.ctx.set_fill_style(G); for (auto& row : d.mem) for (auto& v : row) v = JUNK; BLResult r = draw(d.ctx, how); d.ctx.restore(); d.ctx.flush(BL_CONTEXT_FLUSH_SYNC); vh::stat("transitions");
  BLMatrix2D m(gm); m.post_transform(um); std::string why; static const char* TN[] = {"linear", "radial", "conic"};
  for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = d.mem[y][x]; bool ok = true; if (!covered(how, x, y)) { ok = v == JUNK; why = "outside of the shape changed"; } else if (r != BL_SUCCESS) { ok = false; why = "error " + std::to_string(r); } else { double t, dt = 1.6 / 256; if (!offset(gr, inv(m, x + 0.5, y + 0.5), t)) continue; bool skip = false; double pe = 0.02; for (int k = 0; k < 4; k++) { double t2; if (!offset(gr, inv(m, x + 0.5 + (k == 0) * pe - (k == 1) * pe, y + 0.5 + (k == 2) * pe - (k == 3) * pe), t2)) { skip = true; break; } double e = fabs(t2 - t); if (gr.type == 2) e = std::min(e, fabs(gr.v[3] - e)); dt = std::max(dt, e + 1.6 / 256); } if (skip || dt > 0.2) continue; vh::stat("pixels"); if (gr.type == 2) { dt += gr.v[3] * 1e-3; if (t < dt || t > gr.v[3] - dt) { std::string w2; bool a = color_ok(v, s, t, dt, ext, true, 3, why), b = color_ok(v, s, 0, dt * 2, 0, false, 3, w2), c = color_ok(v, s, gr.v[3], dt * 2, 1, true, 3, w2); ok = a || b || c; } else ok = color_ok(v, s, t, dt, ext, true, quality == BL_GRADIENT_QUALITY_DITHER ? 3 : 2.2, why); } else ok = color_ok(v, s, t, dt, ext, false, quality == BL_GRADIENT_QUALITY_DITHER ? 3 : 2.2, why); }
    if (!ok) { std::string ss; for (auto& st : s) { char z[40]; snprintf(z, sizeof z, " %g:%08x", st.o, st.c); ss += z; } fail(TN[gr.type], "%s gradient (%g,%g,%g,%g,%g,%g) stops%s extend %d quality %d matrix %s user %s by %s: pixel (%d,%d) is %s", TN[gr.type], gr.v[0], gr.v[1], gr.v[2], gr.v[3], gr.v[4], gr.v[5], ss.c_str(), ext, quality, mstr(gm).c_str(), mstr(um).c_str(), HOW[how], x, y, why.c_str()); return false; } }
  return true;
}
static uint64_t nIt; static size_t nGrp;
static void item(const std::function<void()>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); f(); }
static void group(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough; const BLMatrix2D I(1, 0, 0, 1, 0, 0);
  std::vector<BLMatrix2D> AFF = {{2, 0, 0, 2, 0, 0}, {0.5, 0, 0, 0.5, 1, 2}, {3, 0, 0, 1, -4, 0}, {1, 0, 0, 2.5, 0.25, 3}, {-1, 0, 0, 1, 9, 0}, {1, 0, 0, -1, 0, 8}, {-1, 0, 0, -1, 7, 5}, {0, 1, -1, 0, 10, 0}, {0, -1, 1, 0, 0, 9}, {0, 1, 1, 0, 2, -3}, {0.8, 0.6, -0.6, 0.8, 5, 1}, {1, 0.5, 0, 1, 0, 0}, {1, 0, 0.75, 1, -2, 0}, {1.7, 0.3, -0.2, 0.9, 3.3, 4.4}, {0.3, 0.1, -0.1, 0.3, 8, 8}, {-2.2, 0.4, 0.7, 1.9, 11, 3}, {7, 0, 0, 7, -3, -2}, {0.125, 0, 0, 0.125, 0, 0}};
  std::vector<BLRectI> AR; for (int w : {1, 2, 3, 5, 8}) for (int h : {1, 2, 4, 7}) for (int x : {0, 1, 3}) for (int y : {0, 2}) if (x + w <= 9 && y + h <= 8 && ((x == 0 && y == 0) || w < 8)) AR.push_back({x, y, w, h});
  if (k == 0) // Whole and fractional translations.
    for (size_t a = 0; a < AR.size(); a++) for (int mode = 0; mode < 9; mode++) for (int bil = 0; bil < 2; bil++) item([=] { int n = 0; for (double tx : {0.0, 1.0, -3.0, 7.0, -40.0, 1000.0, 0.25, 0.5, -0.75, 3.9921875, 0.001953125, 0.9990234375}) for (double ty : {0.0, 2.0, -5.0, 33.0, 0.5, -0.125, 6.75}) { for (int f = 0; f < 3; f++) { if (!T && (n++ + int(a)) % 5) continue; if (!pattern(f, 9, 8, AR[a], mode, bil, BLMatrix2D(1, 0, 0, 1, tx, ty), I, hw(n + mode), n % 13 == 0)) return; } } });
  if (k == 1) // Affine transforms.
    for (size_t a = 0; a < AR.size(); a++) for (int mode = 0; mode < 9; mode++) for (int bil = 0; bil < 2; bil++) item([=] { int n = 0; for (auto& m : AFF) for (int f = 0; f < 3; f++) { if (!T && (n++ + int(a)) % 4) continue; if (!pattern(f, 9, 8, AR[a], mode, bil, m, I, hw(n + mode), n % 11 == 0)) return; } });
  if (k == 2) // Pattern transform under a user transform.
    for (auto& um : AFF) for (auto& pm : AFF) item([=] { int n = 0; for (int mode = 0; mode < 9; mode++) for (int bil = 0; bil < 2; bil++) { if (!T && (n++ % 4)) continue; if (!pattern(n % 3, 5, 4, BLRectI(0, 0, 5, 4), mode, bil, pm, um, hw(n)) || !pattern(n % 3, 9, 8, BLRectI(2, 1, 4, 3), mode, bil, BLMatrix2D(1, 0, 0, 1, 2, 0.5), um, hw(n))) return; } });
  if (k == 3) // Blits.
    for (int f = 0; f < 3; f++) for (int bil = 0; bil < 2; bil++) for (int ai = -1; ai < int(AR.size()); ai++) item([=] { int n = 0; BLRectI a = ai < 0 ? BLRectI() : AR[ai]; for (double x : {0.0, 3.0, -2.0, 5.25, 0.5, 17.9}) for (double y : {0.0, -3.0, 4.75, 9.0}) { bool integer = x == floor(x) && y == floor(y); if (!blit(f, 9, 8, ai < 0 ? nullptr : &a, false, BLRect(x, y, 0, 0), bil, I, integer && (n & 1)) ) return; n++; for (double w : {1.0, 3.0, 9.0, 12.5, 20.0}) for (double h : {1.0, 4.0, 8.0, 13.25}) { if (!T && (n++ + ai) % 3) continue; bool in2 = integer && w == floor(w) && h == floor(h); if (!blit(f, 9, 8, ai < 0 ? nullptr : &a, true, BLRect(x, y, w, h), bil, I, in2 && (n & 1))) return; } for (auto& m : AFF) { if (!T && (n++ + ai) % 3) continue; if (!blit(f, 9, 8, ai < 0 ? nullptr : &a, (n & 2) != 0, BLRect(x, y, 7, 5), bil, m, integer && (n & 1))) return; } } });
  if (k == 4) { // Extreme placements: memory stays in bounds and (nearest) only texels of the area appear.
    static const double E[] = {1e3, -1e3, 65535.5, -65536, 1e6, 8388607.75, -8388609, 2147483647.0, -2147483649.0, 1e10, -1e15, 1e100, 5e-324}; std::vector<BLMatrix2D> X; for (double e : E) for (double e2 : {0.0, 3.25, e}) { X.push_back({1, 0, 0, 1, e, e2}); X.push_back({1, 0, 0, 1, e2, e}); X.push_back({0.7, 0.2, -0.2, 0.7, e, e2}); X.push_back({e, 0, 0, 1, 2, 1}); X.push_back({1, e, 0, 1, 1, 1}); X.push_back({1 / e, 0, 0, 1 / e, 1, 1}); X.push_back({1 / e, 0.3, -0.3, e, 1, 1}); }
    for (size_t i = 0; i < X.size(); i++) item([=] { for (int f = 0; f < 3; f++) for (auto& a : {BLRectI(0, 0, 9, 8), BLRectI(3, 2, 2, 3), BLRectI(8, 7, 1, 1), BLRectI(0, 0, 1, 8)}) for (int mode = 0; mode < 9; mode++) for (int bil = 0; bil < 2; bil++) for (int how = 0; how < 5; how += 2) { Img* im = getimg(f, 9, 8); Dst& d = D[0]; BLPattern p; if (p.create(im->img, a, BLExtendMode(mode), X[i]) != BL_SUCCESS) continue; d.ctx.save(); d.ctx.set_comp_op(BL_COMP_OP_SRC_COPY); d.ctx.set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, bil ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); d.ctx.set_fill_style(p); for (auto& row : d.mem) for (auto& v : row) v = JUNK; (void)draw(d.ctx, how); d.ctx.restore(); d.ctx.flush(BL_CONTEXT_FLUSH_SYNC); vh::stat("transitions");
      std::vector<uint32_t> set; for (int y = 0; y < a.h; y++) for (int x = 0; x < a.w; x++) set.push_back(im->at(a.x + x, a.y + y)); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = d.mem[y][x]; if (v == JUNK) continue; if (!bil ? std::find(set.begin(), set.end(), v) == set.end() : a.w * a.h == 1 && v != set[0]) { fail("stray", "image of format %d area (%d,%d,%d,%d) extend %d %s matrix %s: pixel (%d,%d) %08x is no texel of the area", f, a.x, a.y, a.w, a.h, mode, bil ? "bilinear" : "nearest", mstr(X[i]).c_str(), x, y, v); return; } } } }); }
  std::vector<Stops> SS = {{{0, 0xFF000000}, {1, 0xFFFFFFFF}}, {{0, 0xFFFF0000}, {1, 0xFF00FF80}}, {{0, 0x00FFFFFF}, {1, 0xFF2040FF}}, {{0, 0x80FF8000}, {0.5, 0xFF00FF00}, {1, 0x400000FF}}, {{0.25, 0xFF102030}, {0.75, 0xFFF0E0D0}}, {{0.5, 0xFFABCDEF}}, {{0, 0xFFFF0000}, {0.5, 0xFFFF0000}, {0.5, 0xFF0000FF}, {1, 0xFF0000FF}}, {{0, 0xFF000000}, {0.1, 0xFFFFFFFF}, {0.35, 0xFF800000}, {0.4, 0x20808080}, {0.9, 0xFF00C0FF}}, {{0.3, 0xFF00FF00}, {0.3, 0xFFFF00FF}}, {{0, 0xFF010203}, {1.0 / 3, 0xFF908070}, {2.0 / 3, 0xFF20FFD0}, {1, 0xFF777777}}, {{1, 0xFF123456}}, {{0, 0xFF000000}, {0, 0xFFFFFFFF}, {1, 0xFF00FF00}, {1, 0xFFFF0000}}};
  std::vector<Grad> LG = {{0, {0, 0, 22, 0}}, {0, {22, 14, 0, 0}}, {0, {5, 3, 11, 9}}, {0, {0, 2, 0, 12}}, {0, {-40, 5, 60, -9}}, {0, {8, 7, 10, 7}}, {0, {3, 3, 3.5, 3.25}}, {0, {100, 0, 130, 4}}, {0, {-500, -500, 700, 900}}};
  std::vector<Grad> RG = {{1, {11, 7, 11, 7, 10, 0}}, {1, {11, 7, 8, 6, 10, 0}}, {1, {11, 7, 11, 7, 10, 3}}, {1, {11, 7, 13, 8, 12, 2}}, {1, {0, 0, 0, 0, 20, 0}}, {1, {30, -5, 28, -4, 25, 0}}, {1, {6, 6, 6, 6, 2, 0}}, {1, {11, 7, 5, 3, 9, 0.5}}, {1, {11, 7, 11, 7, 300, 0}}};
  std::vector<Grad> CG = {{2, {11, 7, 0, 1}}, {2, {11, 7, 1, 1}}, {2, {0, 0, 0.5, 1}}, {2, {11.5, 6.25, -2, 1}}, {2, {11, 7, 0, 2}}, {2, {11, 7, 0.7, 3}}, {2, {-8, 20, 4, 1}}, {2, {11, 7, 10, 4}}};
  std::vector<BLMatrix2D> GM = {I, {1, 0, 0, 1, 3.5, -2.25}, {2, 0, 0, 2, -5, -3}, {1, 0, 0, 2, 0, -6}, {0, 1, -1, 0, 18, -2}, {0.8, 0.6, -0.6, 0.8, 4, -4}, {1, 0, 0.5, 1, 0, 0}, {-1, 0, 0, 1, 22, 0}, {0.5, 0, 0, 0.25, 4, 3}, {1.5, 0.4, -0.3, 0.8, 1, 2}};
  if (k >= 5 && k <= 7) { auto& V = k == 5 ? LG : k == 6 ? RG : CG; for (auto& gr : V) for (auto& s : SS) for (size_t mi = 0; mi < GM.size(); mi++) item([=] { int n = int(mi); for (int ext = 0; ext < 3; ext++) for (int q = 0; q < 3; q++) for (size_t ui = 0; ui < GM.size(); ui++) { if (ui && (mi + ui + ext) % (T ? 2 : 5)) continue; if (!T && q == 1 && (n + ext) % 3) continue; if (!gradient(gr, s, ext, q, GM[mi], GM[ui], hw(n++), n % 17 == 0)) return; } }); }
  if (k == 8) { // Extreme gradients: no stray memory access, every color within the range of the stops.
    static const double E[] = {0, 1e-300, 1e-9, 1, 1e5, -1e7, 2147483648.0, 1e18, -1e300}; for (int type = 0; type < 3; type++) for (double a : E) for (double b : E) for (double c : {0.0, 1e-6, 7.0, 1e12}) item([=] { BLGradient G; for (int ext = 0; ext < 3; ext++) for (int q = 0; q < 3; q += 2) for (auto& m : {BLMatrix2D(1, 0, 0, 1, 0, 0), BLMatrix2D(1e-8, 0, 0, 1e-8, 0, 0), BLMatrix2D(1e9, 1e9, -1e9, 1e9, 4, 4), BLMatrix2D(0.8, 0.6, -0.6, 0.8, 1e8, 3)}) { if (type == 0) G.create(BLLinearGradientValues(a, b, c, a)); else if (type == 1) G.create(BLRadialGradientValues(a, b, c, b, c, 0)); else G.create(BLConicGradientValues(a, b, c, b)); G.set_extend_mode(BLExtendMode(ext)); G.add_stop(0, BLRgba32(0xFF204060u)); G.add_stop(1, BLRgba32(0xFF80A0C0u)); G.set_transform(m); Dst& d = D[0]; d.ctx.save(); d.ctx.set_comp_op(BL_COMP_OP_SRC_COPY); d.ctx.set_gradient_quality(BLGradientQuality(q)); d.ctx.set_fill_style(G); for (auto& row : d.mem) for (auto& v : row) v = JUNK; (void)draw(d.ctx, ext & 2); d.ctx.restore(); d.ctx.flush(BL_CONTEXT_FLUSH_SYNC); vh::stat("transitions");
      for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = d.mem[y][x]; if (v == JUNK) continue; int r = (v >> 16) & 255, gg = (v >> 8) & 255, bb = v & 255; if (v >> 24 != 255 || r < 0x1F || r > 0x81 || gg < 0x3F || gg > 0xA1 || bb < 0x5F || bb > 0xC1) { fail("stray-gradient", "gradient type %d (%g,%g,%g) extend %d quality %d matrix %s: pixel (%d,%d) %08x is no color of the gradient", type, a, b, c, ext, q, mstr(m).c_str(), x, y, v); return; } } } }); }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init(); for (int q = 0; q < 2; q++) { D[q].img.create_from_data(W, H, BL_FORMAT_PRGB32, D[q].mem, W * 4); BLContextCreateInfo ci{}; ci.thread_count = q; D[q].ctx.begin(D[q].img, ci); }
  for (size_t k = 0; k < 9; k++) { double t0 = now(); maxErr = 0; group(k); if (getenv("C21_DEV") && g.shard <= 1) fprintf(stderr, "group %zu: %llu items %.1fs max error %.2f\n", k, (unsigned long long)nIt, now() - t0, maxErr); }
  return done();
}
