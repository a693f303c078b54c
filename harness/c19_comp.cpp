// C19: compositing. Every operator x destination format x source alpha, color and kind x destination pixel x coverage x global alpha, compared with the Porter-Duff and blend
// formulas evaluated in real arithmetic; an operator the build does not implement must say so and draw nothing.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
struct C4 { double a, r, g, b; };
static const BLFormat FM[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8};
static const char* FN[] = {"PRGB32", "XRGB32", "A8"};
// The operators: result of one premultiplied component given the alphas (1: formula known).
static int formula(int op, double s, double d, double sa, double da, bool alpha, double& o) {
  switch (op) {
    case BL_COMP_OP_SRC_OVER: o = s + d * (1 - sa); return 1; case BL_COMP_OP_SRC_COPY: o = s; return 1; case BL_COMP_OP_SRC_IN: o = s * da; return 1; case BL_COMP_OP_SRC_OUT: o = s * (1 - da); return 1;
    case BL_COMP_OP_SRC_ATOP: o = s * da + d * (1 - sa); return 1; case BL_COMP_OP_DST_OVER: o = d + s * (1 - da); return 1; case BL_COMP_OP_DST_COPY: o = d; return 1; case BL_COMP_OP_DST_IN: o = d * sa; return 1;
    case BL_COMP_OP_DST_OUT: o = d * (1 - sa); return 1; case BL_COMP_OP_DST_ATOP: o = d * sa + s * (1 - da); return 1; case BL_COMP_OP_XOR: o = s * (1 - da) + d * (1 - sa); return 1; case BL_COMP_OP_CLEAR: o = 0; return 1;
    case BL_COMP_OP_PLUS: o = std::min(1.0, s + d); return 1; case BL_COMP_OP_MINUS: o = alpha ? da + sa * (1 - da) : std::max(d - s, 0.0) + s * (1 - da); return 1; case BL_COMP_OP_MODULATE: o = s * d; return 1;
    default: if (alpha) { o = sa + da - sa * da; return 1; } }
  switch (op) {
    case BL_COMP_OP_MULTIPLY: o = d * (s + 1 - sa) + s * (1 - da); return 1; case BL_COMP_OP_SCREEN: o = s + d * (1 - s); return 1; case BL_COMP_OP_DARKEN: o = std::min(s + d * (1 - sa), d + s * (1 - da)); return 1;
    case BL_COMP_OP_LIGHTEN: o = std::max(s + d * (1 - sa), d + s * (1 - da)); return 1; case BL_COMP_OP_DIFFERENCE: o = s + d - 2 * std::min(s * da, d * sa); return 1; case BL_COMP_OP_EXCLUSION: o = s + d - 2 * s * d; return 1; }
  return 0;
}
struct Src { C4 c; }; // premultiplied, 0..1
static C4 fromRgba(uint32_t v) { double a = (v >> 24); auto p = [&](unsigned c) { return floor(c * a / 255 + 0.5) / 255; }; return {a / 255, p((v >> 16) & 255), p((v >> 8) & 255), p(v & 255)}; }
static C4 fromPrgb(uint32_t v) { return {(v >> 24) / 255.0, ((v >> 16) & 255) / 255.0, ((v >> 8) & 255) / 255.0, (v & 255) / 255.0}; }
static double maxErr[4]; static bool whiteSrc; // the source is an alpha-only image: blending has no color to work with and is SRC_OVER
// Checks one pixel: `o` got, `d` before, `s` source, `m` coverage, tolerance in 1/255 steps.
static bool judge(int f, int op, uint32_t o, uint32_t d, C4 s, double m, double tol, std::string& why) {
  double comp[4]; C4 D = f == 2 ? C4{(d & 255) / 255.0, 0, 0, 0} : fromPrgb(d); if (f == 1) D.a = 1; double dv[4] = {D.a, D.r, D.g, D.b}, sv[4] = {s.a, s.r, s.g, s.b};
  for (int i = 0; i < (f == 2 ? 1 : 4); i++) { if (f == 1 && i == 0) continue; double e; if (m == 0) e = dv[i]; else if (!formula(op, sv[i], dv[i], s.a, D.a, i == 0, e)) { if (!whiteSrc) { why = "no formula"; return false; } e = -1; }
    int got = f == 2 ? int(o & 255) : int((o >> (24 - i * 8)) & 255); double err; if (e < 0) { double over; formula(BL_COMP_OP_SRC_OVER, sv[i], dv[i], s.a, D.a, false, over); e = fabs(got - (dv[i] * (1 - m) + over * m) * 255) <= tol ? over : dv[i]; } // (a white source: over, or no change)
    comp[i] = dv[i] * (1 - m) + e * m; err = fabs(got - comp[i] * 255); if (err > maxErr[0]) maxErr[0] = err; if (err > tol) { char t[160]; snprintf(t, sizeof t, "component %c is %d, formula %.2f", "ARGB"[i], got, comp[i] * 255); why = t; return false; } }
  if (f == 0 && ((d >> 16) & 255) <= d >> 24 && ((d >> 8) & 255) <= d >> 24 && (d & 255) <= d >> 24) for (int i = 0; i < 3; i++) if (((o >> (i * 8)) & 255) > o >> 24) { why = "the result is not a premultiplied color"; return false; }
  return true;
}
struct Surf { int f, w, h, bpp; std::vector<uint8_t> mem, bg; BLImage img; BLContext ctx;
  void open(int fi, int w_, int h_, bool q) { f = fi; w = w_; h = h_; bpp = f == 2 ? 1 : 4; mem.assign(size_t(w) * h * bpp + 16, 0); img.create_from_data(w, h, FM[f], mem.data(), w * bpp); BLContextCreateInfo ci{}; ci.thread_count = q ? 1 : 0; ctx.begin(img, ci); bg = mem; }
  void put(int x, int y, uint32_t v) { if (bpp == 1) bg[size_t(y) * w + x] = uint8_t(v); else memcpy(&bg[(size_t(y) * w + x) * 4], &v, 4); }
  uint32_t at(const std::vector<uint8_t>& m, int x, int y) const { if (bpp == 1) return m[size_t(y) * w + x]; uint32_t v; memcpy(&v, &m[(size_t(y) * w + x) * 4], 4); return v; }
  void reset() { memcpy(mem.data(), bg.data(), mem.size()); } void flush() { ctx.flush(BL_CONTEXT_FLUSH_SYNC); } };
// Every destination alpha (x) with 8 color levels (y); XRGB32: every component value, with junk in the X byte; A8: every value.
static void dstGrid(Surf& s) { for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) { uint32_t a = x & 255, v; if (s.f == 2) v = a; else if (s.f == 1) v = uint32_t((x * 37 + y * 11) & 255) << 24 | a << 16 | (255 - a) << 8 | ((a * (y + 1)) & 255); else v = a << 24 | (a * (y & 7) / 7) << 16 | (a * (7 - (y & 7)) / 7) << 8 | (a * ((y * 3) & 7) / 7); s.put(x, y, v); } }
static Surf gs[6], ms[6]; static BLImage gMask[2];
static const uint8_t CL[] = {0, 1, 127, 128, 254, 255};
static uint32_t color(int a, int k) { uint32_t c = CL[k % 6]; return uint32_t(a) << 24 | c << 16 | (255 - c) << 8 | CL[(k * 5 + 2) % 6]; }
static bool must(int op) { return op == BL_COMP_OP_SRC_OVER || op == BL_COMP_OP_SRC_COPY || op == BL_COMP_OP_CLEAR || op == BL_COMP_OP_DST_COPY; }
// Compares the drawn surface with the formula; x0..x1 drawn with coverage m(x, y), everything else unchanged.
template<class M> static bool verify(Surf& s, BLResult r, int op, C4 c, BLRectI box, double tol, const char* what, M m) {
  s.flush(); vh::stat("transitions"); if (r != BL_SUCCESS) { if (r != BL_ERROR_NOT_IMPLEMENTED || must(op)) { fail("error", "%s: operator %d onto %s fails with %u", what, op, FN[s.f], r); return false; } if (memcmp(s.mem.data(), s.bg.data(), s.mem.size())) { fail("error-drew", "%s: operator %d onto %s is not implemented but drew", what, op, FN[s.f]); return false; } vh::stat("not_implemented"); return true; }
  std::string why; for (int y = 0; y < s.h; y++) for (int x = 0; x < s.w; x++) { uint32_t o = s.at(s.mem, x, y), d = s.at(s.bg, x, y); if (x < box.x || y < box.y || x >= box.x + box.w || y >= box.y + box.h) { if (o != d) { fail("outside", "%s: operator %d onto %s: pixel (%d,%d) outside the shape changed", what, op, FN[s.f], x, y); return false; } continue; }
    double mm = m(x, y); if (!judge(s.f, op, o, d, c, mm, tol, why)) { fail("formula", "%s: operator %d onto %s: pixel (%d,%d) %08x with source A %.3f R %.3f G %.3f B %.3f and coverage %.3f becomes %08x: %s", what, op, FN[s.f], x, y, d, c.a * 255, c.r * 255, c.g * 255, c.b * 255, mm, o, why.c_str()); return false; } vh::stat("pixels"); }
  return true;
}
static auto FULL = [](int, int) { return 1.0; };
static uint64_t nIt; static size_t nGrp;
static void item(const std::function<void()>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); f(); }
static BLImage image(BLFormat f, int w, int h, std::function<uint32_t(int, int)> px) { BLImage i; i.create(w, h, f); BLImageData d; i.make_mutable(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = px(x, y); uint8_t* p = (uint8_t*)d.pixel_data + y * d.stride; if (f == BL_FORMAT_A8) p[x] = uint8_t(v); else memcpy(p + x * 4, &v, 4); } return i; }
static uint32_t premul(uint32_t v) { C4 c = fromRgba(v); return uint32_t(lround(c.a * 255)) << 24 | uint32_t(lround(c.r * 255)) << 16 | uint32_t(lround(c.g * 255)) << 8 | uint32_t(lround(c.b * 255)); }
// The kinds of source of one constant color. Returns the source color (in `c`), draws with `call`.
static const int NKIND = 25; static const char* KIND[NKIND] = {"explicit color", "fill style", "explicit style rgba32", "explicit style rgba64", "explicit style rgba", "linear gradient", "linear gradient repeat", "linear gradient dithered", "radial gradient", "conic gradient", "explicit gradient", "pattern", "pattern repeat", "pattern reflect", "pattern fractional", "pattern affine", "pattern affine nearest", "pattern XRGB32", "pattern A8", "pattern A8 affine", "blit", "blit XRGB32", "blit A8", "blit scaled", "explicit pattern"};
struct Kinds { uint32_t rgba; BLImage p, x, a; BLGradient lin, rad, con;
  Kinds(uint32_t v, int w, int h) : rgba(v) { uint32_t pv = premul(v); p = image(BL_FORMAT_PRGB32, w, h, [=](int, int) { return pv; }); x = image(BL_FORMAT_XRGB32, w, h, [=](int i, int j) { return (v & 0xFFFFFF) | uint32_t((i * 31 + j * 7) & 255) << 24; }); a = image(BL_FORMAT_A8, w, h, [=](int, int) { return v >> 24; });
    lin.create(BLLinearGradientValues(3, 2, 40, 17)); rad.create(BLRadialGradientValues(20, 4, 22, 5, 30)); con.create(BLConicGradientValues(20, 4, 0.3)); for (auto* q : {&lin, &rad, &con}) { q->add_stop(0, BLRgba32(v)); q->add_stop(0.4, BLRgba32(v)); q->add_stop(1, BLRgba32(v)); } }
  bool gray(int k) const { return k == 18 || k == 19 || k == 22; }
  C4 c(int k) const { whiteSrc = gray(k); if (gray(k)) { double al = (rgba >> 24) / 255.0; return {al, al, al, al}; } if (k == 17 || k == 21) return fromRgba(rgba | 0xFF000000u); return fromRgba(rgba); }
  double tol(int k) const { return (k >= 5 && k <= 10) || k == 3 || k == 4 || k == 15 || k == 14 || k == 19 ? 1.0 : 0; }
  BLResult draw(BLContext& t, int k, BLRectI b) const { BLPattern q; switch (k) { case 0: return t.fill_rect(b, BLRgba32(rgba)); case 1: t.set_fill_style(BLRgba32(rgba)); break; case 2: { BLVar s((BLRgba32(rgba))); return t.fill_rect(b, s); } case 3: { BLVar s((BLRgba64(BLRgba32(rgba)))); return t.fill_rect(b, s); } case 4: { BLVar s((BLRgba(BLRgba32(rgba)))); return t.fill_rect(b, s); }
      case 5: t.set_fill_style(lin); break; case 6: { BLGradient g2(lin); g2.set_extend_mode(BL_EXTEND_MODE_REPEAT); t.set_fill_style(g2); break; } case 7: t.set_hint(BL_CONTEXT_HINT_GRADIENT_QUALITY, BL_GRADIENT_QUALITY_DITHER); t.set_fill_style(lin); t.set_hint(BL_CONTEXT_HINT_GRADIENT_QUALITY, BL_GRADIENT_QUALITY_NEAREST); break; case 8: t.set_fill_style(rad); break; case 9: t.set_fill_style(con); break; case 10: return t.fill_rect(b, lin);
      case 11: q.create(p); t.set_fill_style(q); break; case 12: q.create(p, BL_EXTEND_MODE_REPEAT); q.translate(-5, 3); t.set_fill_style(q); break; case 13: q.create(p, BL_EXTEND_MODE_REFLECT); q.translate(7, -2); t.set_fill_style(q); break; case 14: q.create(p, BL_EXTEND_MODE_REPEAT); q.translate(0.3, 0.8); t.set_fill_style(q); break; case 15: case 16: q.create(p, BL_EXTEND_MODE_REPEAT); q.rotate(0.5); q.scale(1.3); t.set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, k == 15 ? BL_PATTERN_QUALITY_BILINEAR : BL_PATTERN_QUALITY_NEAREST); t.set_fill_style(q); t.set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, BL_PATTERN_QUALITY_BILINEAR); break;
      case 17: q.create(x, BL_EXTEND_MODE_REPEAT); t.set_fill_style(q); break; case 18: q.create(a, BL_EXTEND_MODE_PAD); t.set_fill_style(q); break; case 19: q.create(a, BL_EXTEND_MODE_REFLECT); q.rotate(0.2); t.set_fill_style(q); break;
      case 20: return t.blit_image(BLPointI(b.x, b.y), p, BLRectI(0, 0, b.w, b.h)); case 21: return t.blit_image(BLPointI(b.x, b.y), x, BLRectI(0, 0, b.w, b.h)); case 22: return t.blit_image(BLPointI(b.x, b.y), a, BLRectI(0, 0, b.w, b.h)); case 23: return t.blit_image(b, p, BLRectI(0, 0, 1, 1)); default: q.create(p, BL_EXTEND_MODE_REPEAT); return t.fill_rect(b, q); }
    return t.fill_rect(b); } };
static void group(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough;
  if (k == 0) // Solid colors at full coverage: all alphas x colors x all destination pixels x operators x formats.
    for (int op = 0; op < 29; op++) for (int f = 0; f < 3; f++) for (int a0 = 0; a0 < 256; a0 += 16) item([=] { for (int a = a0; a < a0 + 16; a++) for (int c = 0; c < 6; c++) { uint32_t v = color(a, c); for (int q = 0; q < 2; q++) { if (q && !T && (a + c) % 5) continue; Surf& s = gs[f + 3 * q]; s.reset(); s.ctx.set_comp_op(BLCompOp(op)); BLRectI b(0, 0, 256, 8); BLResult r; if (c & 1) r = s.ctx.fill_rect(b, BLRgba32(v)); else { s.ctx.set_fill_style(BLRgba32(v)); r = s.ctx.fill_rect(b); } if (!verify(s, r, op, fromRgba(v), b, 0.51, c & 1 ? "explicit color" : "solid style", FULL)) return; } } });
  static const int SA[] = {0, 1, 2, 63, 127, 128, 129, 200, 254, 255};
  if (k == 1) // Coverage from a mask: every level x sources x destinations.
    for (int op = 0; op < 29; op++) for (int f = 0; f < 3; f++) for (int a : SA) item([=] { for (int c = 0; c < 6; c++) for (int kind = 0; kind < 20; kind++) { if (kind == 0 || (kind >= 2 && kind <= 4) || kind == 10 || (kind >= 5 && !T && (a + c + kind) % 4)) continue; if (f == 2 && kind >= 17) continue; Kinds K(color(a, c), 16, 16); for (int q = 0; q < 2; q++) { if (q && (kind + c) % 4) continue; Surf& s = ms[f + 3 * q]; s.reset(); s.ctx.set_comp_op(BLCompOp(op)); K.draw(s.ctx, kind, BLRectI(-50, -50, 1, 1)); BLResult r = s.ctx.fill_mask(BLPointI(0, 0), gMask[0]); char w[80]; snprintf(w, sizeof w, "%s through a mask", KIND[kind]); if (!verify(s, r, op, K.c(kind), BLRectI(0, 0, 256, 20), 1.8 + K.tol(kind), w, [](int x, int) { return x / 255.0; })) return; } } });
  if (k == 2) // Coverage from geometry (a rectangle covering i / 256 of its pixels), as a box and as a path.
    for (int op = 0; op < 12; op++) for (int f = 0; f < 3; f++) for (int a : SA) item([=] { for (int i = 0; i <= 256; i += T ? 1 : 3) for (int kind : {0, 1, 5, 11, 14}) { if (!T && (i / 3 + kind) % 3) continue; Kinds K(color(a, i / 3), 8, 8); Surf& s = gs[f]; for (int path = 0; path < 2; path++) { s.reset(); s.ctx.set_comp_op(BLCompOp(op)); BLResult r; C4 c = K.c(kind); if (kind) K.draw(s.ctx, kind, BLRectI(-50, -50, 1, 1)); else s.ctx.set_fill_style(BLRgba32(K.rgba)); BLBox bx(7, 1, 250, 1 + i / 256.0); if (path) { BLPath p; p.move_to(bx.x0, bx.y0); p.line_to(bx.x1, bx.y0); p.line_to(bx.x1, bx.y1); p.line_to(bx.x0, bx.y1); p.close(); r = s.ctx.fill_path(p); } else r = s.ctx.fill_box(bx); if (r != BL_SUCCESS && i == 0) continue; char w[80]; snprintf(w, sizeof w, "%s through a %s", KIND[kind], path ? "path" : "box"); if (!verify(s, r, op, c, BLRectI(7, 1, 243, 1), 2.8 + K.tol(kind), w, [=](int, int) { return i / 256.0; })) return; } } });
  if (k == 3) // Global alpha x style alpha x kinds, with and without a mask.
    for (int op = 0; op < 29; op++) for (int f = 0; f < 3; f++) for (int ga = 0; ga < 256; ga += 1) item([=] { int nA = 0; for (double fa : {1.0, 0.5, 0.25, 0.0}) for (int kind = 0; kind < NKIND; kind++) { if (f == 2 && (kind == 17 || kind == 21)) continue; if (!T && (kind * 7 + ga + nA++) % 16) continue; Kinds K(color(SA[(ga + kind) % 10], ga), 64, 8); Surf& s = ms[f]; bool mask = (ga + kind) % 3 == 0 && kind && kind < 20 && !(kind >= 2 && kind <= 4) && kind != 10; s.reset(); s.ctx.save(); s.ctx.set_comp_op(BLCompOp(op)); s.ctx.set_global_alpha(ga / 255.0); s.ctx.set_fill_alpha(fa); BLRectI b(3, 2, 61, 7); BLResult r; double m = ga / 255.0; bool blit = kind >= 20 && kind < 24; if (!blit) m *= fa;
        if (mask) { K.draw(s.ctx, kind, BLRectI(-50, -50, 1, 1)); r = s.ctx.fill_mask(BLPointI(3, 2), gMask[1], BLRectI(0, 0, b.w, b.h)); } else r = K.draw(s.ctx, kind, b); s.ctx.restore(); char w[120]; snprintf(w, sizeof w, "%s with global alpha %d/255 and fill alpha %g%s", KIND[kind], ga, fa, mask ? " through a mask" : ""); if (!verify(s, r, op, K.c(kind), b, 2.3 + K.tol(kind), w, [=](int x, int y) { return mask ? m * (((x - 3) * 29 + (y - 2) * 53) & 255) / 255.0 : m; })) return; } });
  if (k == 4) // Kinds of source x position and length of the span.
    for (int kind = 0; kind < NKIND; kind++) for (int f = 0; f < 3; f++) for (int x = 0; x < 18; x++) item([=] { if (f == 2 && (kind == 17 || kind == 21)) return; for (int w = 1; w <= 41; w++) for (int op : {0, 1, 11}) { uint32_t v = color(SA[(w + x) % 10], w); Kinds K(v, 43, 9); for (int q = 0; q < 2; q++) { if (q && (w + x) % 3) continue; Surf& s = ms[f + 3 * q]; s.reset(); s.ctx.set_comp_op(BLCompOp(op)); BLRectI b(x, x % 5, w, 1 + w % 7); BLResult r = K.draw(s.ctx, kind, b); if (!verify(s, r, op, K.c(kind), b, 0.51 + K.tol(kind), KIND[kind], FULL)) return; } } });
  if (k == 5) // Images of every source alpha against every destination alpha.
    for (int sf = 0; sf < 3; sf++) for (int f = 0; f < 3; f++) for (int da = 0; da < 256; da++) item([=] { if (f == 2 && sf == 1) return; BLImage im = image(FM[sf], 256, 6, [=](int x, int y) -> uint32_t { uint32_t a = x; if (sf == 2) return a; if (sf == 1) return uint32_t((x * 3 + y) & 255) << 24 | a << 16 | (255 - a) << 8 | (a * y & 255); return a << 24 | (a * y / 5) << 16 | (a * (5 - y) / 5) << 8 | (a * ((y * 2) % 6) / 5); }); static Surf t[3]; Surf& s = t[f]; if (!s.w) s.open(f, 256, 6, false); for (int y = 0; y < 6; y++) for (int x = 0; x < 256; x++) s.put(x, y, f == 2 ? da : f == 1 ? uint32_t(x) << 24 | da << 16 | (255 - da) << 8 | ((da * y) & 255) : uint32_t(da) << 24 | (da * (5 - y) / 5) << 16 | (da * y / 5) << 8 | (da * ((y + 3) % 6) / 5));
      for (int op : {0, 1, 2, 4, 5, 7, 8, 9}) for (double ga : {1.0, 128 / 255.0, 1 / 255.0}) for (int via = 0; via < 2; via++) { s.reset(); s.ctx.save(); s.ctx.set_comp_op(BLCompOp(op)); s.ctx.set_global_alpha(ga); BLResult r; if (via) { BLPattern p(im); s.ctx.set_fill_style(p); r = s.ctx.fill_all(); } else r = s.ctx.blit_image(BLPointI(0, 0), im); s.ctx.restore(); s.flush(); vh::stat("transitions"); if (r != BL_SUCCESS) { if (r != BL_ERROR_NOT_IMPLEMENTED || must(op) || memcmp(s.mem.data(), s.bg.data(), s.mem.size())) { fail("error", "%s image onto %s with operator %d: %u", FN[sf], FN[f], op, r); return; } continue; }
        BLImageData id; im.get_data(&id); for (int y = 0; y < 6; y++) for (int x = 0; x < 256; x++) { uint32_t sv; if (sf == 2) { sv = ((const uint8_t*)id.pixel_data)[y * id.stride + x] * 0x01010101u; } else { memcpy(&sv, (const uint8_t*)id.pixel_data + y * id.stride + x * 4, 4); if (sf == 1) sv |= 0xFF000000u; } std::string why; if (!judge(f, op, s.at(s.mem, x, y), s.at(s.bg, x, y), fromPrgb(sv), ga, ga == 1 ? 0.51 : 1.8, why)) { fail("formula", "%s image %s %s with operator %d and global alpha %g: pixel (%d,%d) %08x with source %08x becomes %08x: %s", FN[sf], via ? "as a pattern onto" : "blitted onto", FN[f], op, ga, x, y, s.at(s.bg, x, y), sv, s.at(s.mem, x, y), why.c_str()); return; } vh::stat("pixels"); } } });
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init(); for (int i = 0; i < 6; i++) { gs[i].open(i % 3, 256, 8, i > 2); dstGrid(gs[i]); ms[i].open(i % 3, 256, 20, i > 2); for (int y = 0; y < 20; y++) for (int x = 0; x < 256; x++) { uint32_t a = (x * 5 + y * 67) & 255, v = a << 24 | (a * (y % 7) / 6) << 16 | (a * (x % 5) / 4) << 8 | (a * ((x + y) % 9) / 8); if (i % 3 == 2) v = a; if (i % 3 == 1) v = (v << 1) ^ 0x5A3C1122u; ms[i].put(x, y, v); } }
  gMask[0] = image(BL_FORMAT_A8, 256, 20, [](int x, int) { return uint32_t(x); }); gMask[1] = image(BL_FORMAT_A8, 64, 8, [](int x, int y) { return uint32_t(x * 29 + y * 53) & 255; });
  for (size_t k = 0; k < 6; k++) { double t0 = now(); maxErr[0] = 0; group(k); if (getenv("C19_DEV") && g.shard == 0) fprintf(stderr, "group %zu: %llu items %.1fs max error %.2f\n", k, (unsigned long long)nIt, now() - t0, maxErr[0]); }
  return done();
}
