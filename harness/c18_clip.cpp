// C18: clipping. Every drawing call x placement x style x operator x format is drawn unclipped and under clips of every kind, over a patterned background in a buffer
// with guard bytes: pixels outside the clip and bytes outside the image keep their values, pixels inside equal the unclipped drawing, pixels cut by the clip lie between.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
using namespace vh;
static const int W = 24, H = 20;
struct Box { double x0, y0, x1, y1; };
static uint32_t bgpix(int x, int y) { uint32_t a = 90 + (x * 7 + y * 13) % 160, c = (x * 31 + y * 57) % (a + 1); return a << 24 | c << 16 | (a - c) << 8 | (a / 2); }
struct Canvas {
  BLFormat f; int bpp; intptr_t stride; std::vector<uint8_t> mem, bg; BLImage img; BLContext ctx; uint8_t* px; bool queued;
  void open(BLFormat fm, bool q, bool neg) { f = fm; queued = q; bpp = fm == BL_FORMAT_A8 ? 1 : 4; stride = W * bpp + 20; mem.assign(size_t(stride) * H + 512, 0); uint8_t* first = mem.data() + 256; px = first; if (neg) { px = first + stride * (H - 1); stride = -stride; }
    for (size_t i = 0; i < mem.size(); i++) mem[i] = uint8_t(0xC3 ^ (i * 7)); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = bgpix(x, y); if (bpp == 1) px[y * stride + x] = uint8_t(v >> 16); else { if (f == BL_FORMAT_XRGB32) v |= 0xFF000000u; memcpy(px + y * stride + x * 4, &v, 4); } }
    bg = mem; img.create_from_data(W, H, fm, px, stride); BLContextCreateInfo ci{}; ci.thread_count = q ? 1 : 0; ctx.begin(img, ci); }
  void reset() { memcpy(mem.data(), bg.data(), mem.size()); }
  const uint8_t* at(const std::vector<uint8_t>& m, int x, int y) const { return m.data() + (px - mem.data()) + y * stride + x * bpp; }
};
static BLFont gFont; static BLImage gSrc, gMask; static BLGradient gLin, gRad; static BLPattern gPat, gPatF;
static const double PI = 3.14159265358979323846;
struct Op { const char* name; bool exact; std::function<BLResult(BLContext&, double, double)> f; };
static std::vector<Op> ops;
static void make_ops() {
  auto A = [](const char* n, bool e, std::function<BLResult(BLContext&, double, double)> f) { ops.push_back({n, e, f}); };
  A("fill_rect", true, [](BLContext& c, double x, double y) { return c.fill_rect(floor(x), floor(y), 10, 8); });
  A("fill_rect fractional", false, [](BLContext& c, double x, double y) { return c.fill_rect(x + 0.375, y - 0.25, 9.5, 7.125); });
  A("fill_rect integer", true, [](BLContext& c, double x, double y) { return c.fill_rect(BLRectI(int(floor(x)), int(floor(y)), 10, 8)); });
  A("fill_box huge", true, [](BLContext& c, double x, double y) { return c.fill_box(x - 4e6, floor(y), floor(x) + 5, y + 1e9); });
  A("fill_triangle", false, [](BLContext& c, double x, double y) { return c.fill_triangle(x, y, x + 12, y + 3.3, x + 2, y + 11); });
  A("fill_circle", false, [](BLContext& c, double x, double y) { return c.fill_circle(x + 5, y + 5, 6.3); });
  A("fill_round_rect", false, [](BLContext& c, double x, double y) { return c.fill_round_rect(x, y, 11, 9, 3, 2.5); });
  A("fill_pie", false, [](BLContext& c, double x, double y) { return c.fill_pie(x + 5, y + 5, 7, 6, 0.4, 4.4); });
  A("fill_path star", false, [](BLContext& c, double x, double y) { BLPath p; for (int i = 0; i < 5; i++) { double a = i * 4 * PI / 5; BLPoint q(x + 6 + 8 * cos(a), y + 6 + 8 * sin(a)); i ? p.line_to(q) : p.move_to(q); } p.close(); c.set_fill_rule(BL_FILL_RULE_EVEN_ODD); BLResult r = c.fill_path(p); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); return r; });
  A("fill_path curves", false, [](BLContext& c, double x, double y) { BLPath p; p.move_to(x, y); p.cubic_to(x + 20, y - 6, x - 9, y + 15, x + 10, y + 9); p.quad_to(x + 3, y + 14, x - 2, y + 6); p.close(); return c.fill_path(p); });
  A("fill_path giant", false, [](BLContext& c, double x, double y) { BLPath p; p.move_to(x - 30000, y - 1); p.line_to(x + 8, y + 4000); p.line_to(x + 20000, y - 900); p.line_to(x + 6, y + 4); p.close(); return c.fill_path(p); });
  A("fill_path at origin", false, [](BLContext& c, double x, double y) { BLPath p; p.move_to(0, 0); p.line_to(9, 2); p.line_to(4, 10); p.close(); return c.fill_path(BLPoint(x, y), p); });
  A("stroke_line", false, [](BLContext& c, double x, double y) { c.set_stroke_width(3); return c.stroke_line(x, y, x + 11, y + 9); });
  A("stroke_rect", false, [](BLContext& c, double x, double y) { c.set_stroke_width(2.5); return c.stroke_rect(x, y, 9, 7); });
  A("stroke_circle", false, [](BLContext& c, double x, double y) { c.set_stroke_width(2); return c.stroke_circle(x + 5, y + 4, 6); });
  A("stroke_path", false, [](BLContext& c, double x, double y) { c.set_stroke_width(4); c.set_stroke_join(BL_STROKE_JOIN_ROUND); c.set_stroke_caps(BL_STROKE_CAP_ROUND); BLPath p; p.move_to(x, y); p.quad_to(x + 12, y, x + 3, y + 9); p.line_to(x + 10, y + 9); BLResult r = c.stroke_path(p); c.set_stroke_join(BL_STROKE_JOIN_MITER_CLIP); c.set_stroke_caps(BL_STROKE_CAP_BUTT); return r; });
  A("fill_all", true, [](BLContext& c, double, double) { return c.fill_all(); });
  A("clear_all", true, [](BLContext& c, double, double) { return c.clear_all(); });
  A("clear_rect", true, [](BLContext& c, double x, double y) { return c.clear_rect(floor(x), floor(y), 10, 8); });
  A("clear_rect fractional", false, [](BLContext& c, double x, double y) { return c.clear_rect(x + 0.5, y + 0.25, 7.25, 8.5); });
  A("clear_rect integer", true, [](BLContext& c, double x, double y) { return c.clear_rect(BLRectI(int(floor(x)), int(floor(y)), 10, 8)); });
  A("blit_image", true, [](BLContext& c, double x, double y) { return c.blit_image(BLPoint(floor(x), floor(y)), gSrc); });
  A("blit_image fractional", false, [](BLContext& c, double x, double y) { return c.blit_image(BLPoint(x + 0.3, y + 0.6), gSrc); });
  A("blit_image integer", true, [](BLContext& c, double x, double y) { return c.blit_image(BLPointI(int(floor(x)), int(floor(y))), gSrc); });
  A("blit_image area", true, [](BLContext& c, double x, double y) { return c.blit_image(BLPointI(int(floor(x)), int(floor(y))), gSrc, BLRectI(2, 1, 5, 6)); });
  A("blit_image scaled", false, [](BLContext& c, double x, double y) { return c.blit_image(BLRect(x, y, 15, 12.5), gSrc); });
  A("blit_image scaled integer", false, [](BLContext& c, double x, double y) { return c.blit_image(BLRectI(int(floor(x)), int(floor(y)), 13, 5), gSrc, BLRectI(1, 1, 6, 5)); });
  A("fill_mask", true, [](BLContext& c, double x, double y) { return c.fill_mask(BLPointI(int(floor(x)), int(floor(y))), gMask); });
  A("fill_mask area", true, [](BLContext& c, double x, double y) { return c.fill_mask(BLPointI(int(floor(x)), int(floor(y))), gMask, BLRectI(3, 2, 6, 5)); });
  A("fill_mask double", true, [](BLContext& c, double x, double y) { return c.fill_mask(BLPoint(floor(x), floor(y)), gMask); });
  A("fill text", false, [](BLContext& c, double x, double y) { return c.fill_utf8_text(BLPoint(x, y + 9), gFont, "Wy"); });
  A("stroke text", false, [](BLContext& c, double x, double y) { c.set_stroke_width(1); return c.stroke_utf8_text(BLPoint(x, y + 9), gFont, "o"); });
  A("rotated rect", false, [](BLContext& c, double x, double y) { c.save(); c.translate(x + 5, y + 5); c.rotate(0.6); BLResult r = c.fill_rect(-5, -4, 10, 8); c.restore(); return r; });
  A("rotated blit", false, [](BLContext& c, double x, double y) { c.save(); c.translate(x + 5, y + 5); c.rotate(0.6); BLResult r = c.blit_image(BLPoint(-4, -4), gSrc); c.restore(); return r; });
}
// Clips: a list of calls. kind 0 double, 1 integer, 2 double under a user translation and scaling, 3 saved and restored around (no effect), 4 restore_clipping before, 5 under a 90 degree rotation.
struct Clip { int kind; double x, y, w, h; };
static Box meet(Box a, Box b) { return {std::max(a.x0, b.x0), std::max(a.y0, b.y0), std::min(a.x1, b.x1), std::min(a.y1, b.y1)}; }
static void apply(BLContext& c, const Clip& k, Box& b) {
  Box n = {k.x, k.y, k.x + k.w, k.y + k.h};
  switch (k.kind) {
    case 0: c.clip_to_rect(k.x, k.y, k.w, k.h); break; case 1: c.clip_to_rect(BLRectI(int(k.x), int(k.y), int(k.w), int(k.h))); break;
    case 2: { BLMatrix2D m = c.user_transform(); c.translate(2.5, -1); c.scale(2, 0.5); c.clip_to_rect((k.x - 2.5) / 2, (k.y + 1) * 2, k.w / 2, k.h * 2); c.set_transform(m); break; }
    case 3: c.save(); c.clip_to_rect(k.x, k.y, k.w, k.h); c.restore(); return;
    case 4: c.restore_clipping(); b = {0, 0, double(W), double(H)}; c.clip_to_rect(k.x, k.y, k.w, k.h); break;
    case 5: { BLMatrix2D m = c.user_transform(); c.set_transform(BLMatrix2D(0, 1, 1, 0, 0, 0)); c.clip_to_rect(k.y, k.x, k.h, k.w); c.set_transform(m); break; }
  }
  b = meet(b, n);
}
static const char* STYLE[] = {"solid", "translucent", "linear gradient", "pattern", "radial gradient", "fractional pattern"};
static void style(BLContext& c, int s) { switch (s) { case 0: c.set_fill_style(BLRgba32(0xFF20C0E0u)); c.set_stroke_style(BLRgba32(0xFF20C0E0u)); break; case 1: c.set_fill_style(BLRgba32(0x80FF4020u)); c.set_stroke_style(BLRgba32(0x80FF4020u)); break; case 2: c.set_fill_style(gLin); c.set_stroke_style(gLin); break; case 3: c.set_fill_style(gPat); c.set_stroke_style(gPat); break; case 4: c.set_fill_style(gRad); c.set_stroke_style(gRad); break; default: c.set_fill_style(gPatF); c.set_stroke_style(gPatF); } }
static Canvas cv[12];
static const BLFormat FM[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8};
static void state(BLContext& c, int st, int comp) { c.set_comp_op(comp ? BL_COMP_OP_SRC_COPY : BL_COMP_OP_SRC_OVER); style(c, st); }
// Draws `o` without a clip (result in `ref`), then with each clip, and compares.
static void check(Canvas& c, const Op& o, double x, double y, int st, int comp, const std::vector<std::vector<Clip>>& clips) {
  c.ctx.save(); state(c.ctx, st, comp); c.reset(); BLResult r0 = o.f(c.ctx, x, y); c.ctx.flush(BL_CONTEXT_FLUSH_SYNC); std::vector<uint8_t> ref = c.mem; c.ctx.restore(); vh::stat("transitions");
  const bool mask = !strncmp(o.name, "fill_mask", 9); // (known findings: masks under a fractional clip)
  for (size_t k = 0; k <= clips.size(); k++) {
    Box b = {0, 0, double(W), double(H)}; std::string d; std::vector<uint8_t> got;
    if (k < clips.size()) { c.ctx.save(); c.reset(); for (auto& q : clips[k]) { apply(c.ctx, q, b); char t[80]; snprintf(t, sizeof t, "%s%d(%g,%g,%g,%g)", d.empty() ? "" : ", ", q.kind, q.x, q.y, q.w, q.h); d += t; } state(c.ctx, st, comp); BLResult r = o.f(c.ctx, x, y); c.ctx.flush(BL_CONTEXT_FLUSH_SYNC); got = c.mem; c.ctx.restore(); vh::stat("transitions");
      bool none = b.x1 <= b.x0 || b.y1 <= b.y0; if (r != r0 && !none && !(r0 != BL_SUCCESS && got == c.bg)) fail(mask && r == BL_ERROR_NOT_IMPLEMENTED ? "mask not implemented" : "result", "%s at (%g,%g), %s, op %d, format %d, clip [%s] gives %u, unclipped %u", o.name, x, y, STYLE[st], comp, int(c.f), d.c_str(), r, r0); if (r != BL_SUCCESS) vh::stat("errors"); if (mask && r == BL_ERROR_NOT_IMPLEMENTED) { if (got != c.bg) fail("result", "%s failed and drew", o.name); continue; } }
    else got = ref;
    char ds[320]; snprintf(ds, sizeof ds, "%s at (%g,%g), %s, op %d, format %d%s, clip [%s]", o.name, x, y, STYLE[st], comp, int(c.f), c.queued ? " queued" : "", d.c_str());
    // Bytes outside the image.
    size_t p0 = size_t((c.stride < 0 ? c.px + c.stride * (H - 1) : c.px) - c.mem.data()), ast = size_t(c.stride < 0 ? -c.stride : c.stride);
    if (memcmp(got.data(), c.bg.data(), p0) || memcmp(got.data() + p0 + ast * (H - 1) + W * c.bpp, c.bg.data() + p0 + ast * (H - 1) + W * c.bpp, got.size() - (p0 + ast * (H - 1) + W * c.bpp))) { fail("guard", "%s: memory before or after the image changed", ds); return; }
    for (int y2 = 0; y2 < H - 1; y2++) if (memcmp(got.data() + p0 + ast * y2 + W * c.bpp, c.bg.data() + p0 + ast * y2 + W * c.bpp, ast - W * c.bpp)) { fail("padding", "%s: row padding changed", ds); return; }
    if (k == clips.size()) break;
    for (int py = 0; py < H; py++) for (int px = 0; px < W; px++) {
      double cw = std::min(b.x1, px + 1.0) - std::max(b.x0, double(px)), ch = std::min(b.y1, py + 1.0) - std::max(b.y0, double(py)); double cc = cw > 0 && ch > 0 ? cw * ch : 0; const uint8_t *gp = c.at(got, px, py), *rp = c.at(ref, px, py), *bp = c.at(c.bg, px, py);
      if (cc == 0) { if (memcmp(gp, bp, c.bpp)) { fail("outside", "%s: pixel (%d,%d) outside the clip changed", ds, px, py); return; } continue; }
      for (int i = 0; i < c.bpp; i++) { if (c.f == BL_FORMAT_XRGB32 && i == 3) continue; int v = gp[i], u = rp[i], q = bp[i];
        if (cc == 1) { if (abs(v - u) > (o.exact ? 0 : 3)) { fail("inside", "%s: pixel (%d,%d) inside the clip is %d, unclipped %d (background %d)", ds, px, py, v, u, q); return; } }
        else if (v < std::min(u, q) - 2 || v > std::max(u, q) + 2) { fail(strcmp(o.name, "fill_path star") ? "edge" : "even-odd edge", "%s: pixel (%d,%d) cut by the clip is %d, background %d, unclipped %d", ds, px, py, v, q, u); return; }
        else if (o.exact && abs(v - (q + (u - q) * cc)) > 3) { // (fully covered or untouched: interpolated by the clipped area)
          fail(mask ? "mask edge-area" : "edge-area", "%s: pixel (%d,%d) is %d, expected %.1f (background %d, unclipped %d, clip covers %.3f)", ds, px, py, v, q + (u - q) * cc, q, u, cc); return; } } }
  }
}
static uint64_t nIt; static size_t nGrp;
static void item(const std::function<void()>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); f(); }
static void group(size_t k) {
  nGrp = k; nIt = 0; static const double PX[] = {-12, -6.5, -3, 0, 7.25, 16, 21.5, 30}; static const double PY[] = {-11, -5.5, 0, 6, 9.75, 15, 18.5, 26};
  std::vector<Clip> K = {{0, 0, 0, 24, 20}, {1, 5, 4, 10, 9}, {0, 5, 4, 10, 9}, {1, 0, 0, 1, 1}, {0, 23, 19, 1, 1}, {1, -5, -5, 12, 30}, {0, 3, 19, 40, 5}, {1, 8, 5, 0, 3}, {0, 30, 30, 5, 5}, {0, 4.25, 3.5, 10.5, 9.25}, {0, 4.5, 4.5, 0.25, 0.25}, {0, 7.875, -3, 1.25, 40}, {0, -1e9, 6.5, 2e9, 1e9}, {2, 3, 2, 16, 15}, {2, 6.5, 0.5, 11.25, 12}, {3, 5, 5, 4, 4}, {4, 9, 3, 13, 15}, {5, 2, 6, 14, 8}, {0, 11, 0, 0.125, 20}, {1, 23, 0, 5, 20}};
  std::vector<std::vector<Clip>> one; for (auto& c : K) one.push_back({c});
  if (k == 0) for (size_t o = 0; o < ops.size(); o++) for (double x : PX) for (double y : PY) item([=] { for (int f = 0; f < 3; f++) for (int st = 0; st < 6; st++) { if (!g.thorough && st >= 2 && (int(o) + st + int(x) + int(y)) % 3) continue; for (int comp = 0; comp < 2; comp++) check(cv[f], ops[o], x, y, st, comp, one); } });
  if (k == 1) { std::vector<std::vector<Clip>> two; for (auto& a : K) for (auto& b : K) two.push_back({a, b}); for (size_t o = 0; o < ops.size(); o++) for (int p = 0; p < 3; p++) item([=] { check(cv[p], ops[o], p == 0 ? 2 : p == 1 ? 8.5 : -3, p == 0 ? 3 : p == 1 ? 7.25 : 11, int(o + p) % 6, p & 1, two); }); }
  if (k == 2) for (size_t o = 0; o < ops.size(); o++) for (double x : {-3.0, 7.25, 16.0}) for (double y : {-5.5, 9.75}) item([=] { for (int f = 0; f < 3; f++) for (int m = 1; m < 3; m++) check(cv[f + 3 * m], ops[o], x, y, (int(o) + f) % 6, m & 1, one); });
  if (k == 3) { // Extreme and non-finite coordinates: nothing outside the clip changes.
    static const double E[] = {1e5, -1e5, 8e6, -8e6, 2147483647.0, -2147483648.0, 4294967296.0, 1e12, -1e18, 1e300, -1e308, INFINITY, -INFINITY, NAN, 5e-324}; for (size_t o = 0; o < ops.size(); o++) for (double x : E) item([=] { for (double y : {0.0, 3.25, x, -x}) for (int f = 0; f < 3; f++) for (int sw = 0; sw < 2; sw++) { Canvas& c = cv[f]; for (auto& cl : K) { c.ctx.save(); c.reset(); Box b = {0, 0, double(W), double(H)}; apply(c.ctx, cl, b); state(c.ctx, int(o) % 6, 0); (void)ops[o].f(c.ctx, sw ? y : x, sw ? x : y); c.ctx.flush(BL_CONTEXT_FLUSH_SYNC); c.ctx.restore(); vh::stat("transitions");
      for (int py = 0; py < H; py++) for (int px = 0; px < W; px++) if (b.x1 <= px || b.x0 >= px + 1 || b.y1 <= py || b.y0 >= py + 1 || b.x1 <= b.x0 || b.y1 <= b.y0) if (memcmp(c.at(c.mem, px, py), c.at(c.bg, px, py), c.bpp)) { fail("extreme", "%s at (%g,%g): pixel (%d,%d) outside the clip %d(%g,%g,%g,%g) changed", ops[o].name, sw ? y : x, sw ? x : y, px, py, cl.kind, cl.x, cl.y, cl.w, cl.h); return; } } } }); }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init();
  BLFontFace face; std::string repo = getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo"; if (face.create_from_file((repo + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str()) != BL_SUCCESS) { fprintf(stderr, "no font\n"); return 2; } gFont.create_from_face(face, 12.0f);
  gSrc.create(9, 8, BL_FORMAT_PRGB32); gMask.create(11, 9, BL_FORMAT_A8); BLImageData d; gSrc.make_mutable(&d); for (int y = 0; y < 8; y++) for (int x = 0; x < 9; x++) { uint32_t a = 255 - (x * 20 + y * 9) % 256, v = a << 24 | (a * x / 9) << 16 | (a * y / 8) << 8 | a / 3; memcpy((uint8_t*)d.pixel_data + y * d.stride + x * 4, &v, 4); } gMask.make_mutable(&d); for (int y = 0; y < 9; y++) for (int x = 0; x < 11; x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = uint8_t(x * 23 + y * 5 + (x > 3));
  gLin.create(BLLinearGradientValues(2, 3, 20, 16)); gLin.add_stop(0, BLRgba32(0xFFFF0000u)); gLin.add_stop(0.6, BLRgba32(0x8000FF00u)); gLin.add_stop(1, BLRgba32(0xFF0000FFu)); gRad.create(BLRadialGradientValues(12, 9, 10, 7, 12)); gRad.add_stop(0, BLRgba32(0xFFFFFFFFu)); gRad.add_stop(1, BLRgba32(0x40102030u)); gPat.create(gSrc); gPatF.create(gSrc); gPatF.translate(0.4, 0.7);
  make_ops(); for (int i = 0; i < 9; i++) cv[i].open(FM[i % 3], i / 3 == 1, i / 3 == 2);
  for (size_t k = 0; k < 4; k++) { double t0 = now(); group(k); if (getenv("C18_DEV") && g.shard == 0) fprintf(stderr, "group %zu: %llu items %.1fs\n", k, (unsigned long long)nIt, now() - t0); }
  return done();
}
