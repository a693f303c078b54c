// C33: image scaling. Every source size x target size x filter x format in a bounded space, with every impulse (one white pixel) and further
// contents, compared with the filter-weighted average computed in double precision; exact relations between formats, strides and aliases.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
#include <climits>
#include <map>
using namespace vh;
static int bpp(int f) { return f == BL_FORMAT_A8 ? 1 : 4; }
static double kernel(int filter, double t) {
  t = std::fabs(t);
  switch (filter) {
    case BL_IMAGE_SCALE_FILTER_NEAREST: return t <= 0.5 ? 1 : 0;
    case BL_IMAGE_SCALE_FILTER_BILINEAR: return t < 1 ? 1 - t : 0;
    case BL_IMAGE_SCALE_FILTER_BICUBIC: return t < 1 ? 0.5 * t * t * t - t * t + 2.0 / 3 : t < 2 ? (2 - t) * (2 - t) * (2 - t) / 6 : 0;
    default: return t == 0 ? 1 : t < 2 ? std::sin(M_PI * t) * std::sin(M_PI * t / 2) / (M_PI * t * M_PI * t / 2) : 0;
  }
}
// Weights of all the source pixels for each target pixel: the filter stretched by the reduction, source pixels outside taken from the edge.
struct W1 { std::vector<std::vector<double>> w; };
static const W1& weights(int n, int m, int filter) {
  static std::map<uint64_t, W1> cache; uint64_t key = (uint64_t(n) * 65536 + m) * 8 + filter;
  auto it = cache.find(key); if (it != cache.end()) return it->second;
  if (cache.size() > 4000) cache.clear();
  W1 r; double s = double(m) / n, k = s < 1 ? s : 1, rad = (filter <= 2 ? 1 : 2) / k;
  for (int i = 0; i < m; i++) {
    double c = (i + 0.5) / s - 0.5, sum = 0; std::vector<double> v(n, 0.0);
    for (int j = int(std::floor(c - rad)) - 1; j <= int(std::ceil(c + rad)) + 1; j++) { double q = kernel(filter, (c - j) * k); v[j < 0 ? 0 : j >= n ? n - 1 : j] += q; sum += q; }
    for (auto& x : v) x /= sum;
    r.w.push_back(v);
  }
  return cache[key] = r;
}
// One line of one channel: value and bound of the error. Weights are multiples of 1/256, so an edge of height d moves the result by d/256.
static void line(const std::vector<double>& in, const std::vector<double>& ein, int m, int filter, std::vector<double>& out, std::vector<double>& eout) {
  int n = int(in.size()); const W1& W = weights(n, m, filter); out.resize(m); eout.resize(m);
  for (int i = 0; i < m; i++) {
    const auto& w = W.w[i]; double v = 0, e = 0, tv = 0; int first = -1, last = 0; double ein_max = 0, sw = 0;
    for (int j = 0; j < n; j++) if (w[j] != 0) { if (first < 0) first = j; last = j; v += w[j] * in[j]; e += std::fabs(w[j]) * ein[j]; sw += std::fabs(w[j]); if (ein[j] > ein_max) ein_max = ein[j]; }
    for (int j = first; j < last; j++) tv += std::fabs(in[j + 1] - in[j]);
    out[i] = v < 0 ? 0 : v > 255 ? 255 : v;
    eout[i] = e * 1.02 + (tv + 2 * ein_max) / 256.0 + 0.75;
  }
}
struct Buf { std::vector<uint8_t> mem; uint8_t* p0; intptr_t stride; int w, h, f; 
  // `pad` extra bytes per row; negative: rows stored bottom up.
  Buf(int w_, int h_, int f_, int pad) : w(w_), h(h_), f(f_) { size_t s = size_t(w) * bpp(f) + std::abs(pad); if (f != BL_FORMAT_A8) s = (s + 3) & ~size_t(3); mem.resize(s * h); std::fill(mem.begin(), mem.end(), 0xA5); stride = pad < 0 ? -intptr_t(s) : intptr_t(s); p0 = pad < 0 ? mem.data() + s * (h - 1) : mem.data(); }
  uint8_t* row(int y) { return p0 + y * stride; }
};
static uint32_t rnd(uint32_t x) { x *= 2654435761u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; return x ^ (x >> 16); }
// Contents: premultiplied for PRGB32.
static uint32_t content(int pat, uint32_t arg, int x, int y, int w, int h, int f) {
  uint32_t v = 0;
  switch (pat) {
    case 0: v = (uint32_t(y * w + x) == arg) ? 0xFFFFFFFFu : 0; break;             // One pixel set.
    case 1: v = (uint32_t(y * w + x) == arg) ? 0 : 0xFFFFFFFFu; break;             // One pixel clear.
    case 2: v = arg * 0x01010101u; break;                                          // Uniform.
    case 3: v = ((x + y) & 1) ? 0xFFFFFFFFu : 0; break;                            // Checkerboard.
    case 4: { uint32_t r = rnd(uint32_t(y * 977 + x) * 31 + arg), a = r >> 24; if (r & 1) a = 255; if ((r & 6) == 6) a = 0; uint32_t c = 0; for (int k = 0; k < 3; k++) c |= (((rnd(r + k) & 255) * a + 127) / 255) << (8 * k); v = a << 24 | c; break; }  // Pseudo-random.
    case 5: v = 0xFF000000u | uint32_t(x * 255 / (w > 1 ? w - 1 : 1)) << 16 | uint32_t(y * 255 / (h > 1 ? h - 1 : 1)) << 8 | uint32_t((x * 40) & 255); break;  // Gradients.
    case 6: v = x < w / 2 ? 0xFFFFFFFFu : 0x20202020u; break;                      // Edge.
    case 7: v = y < h / 2 ? 0xFF0080FFu : 0x80408000u; break;
  }
  return f == BL_FORMAT_A8 ? v >> 24 : v;
}
static void fill(Buf& b, int pat, uint32_t arg) { for (int y = 0; y < b.h; y++) for (int x = 0; x < b.w; x++) { uint32_t v = content(pat, arg, x, y, b.w, b.h, b.f); if (b.f == BL_FORMAT_A8) b.row(y)[x] = uint8_t(v); else memcpy(b.row(y) + x * 4, &v, 4); } }
static std::vector<uint8_t> pixels(const BLImage& im) { BLImageData d; (void)im.get_data(&d); std::vector<uint8_t> r; size_t n = size_t(d.size.w) * bpp(d.format); for (int y = 0; y < d.size.h; y++) { const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride; r.insert(r.end(), p, p + n); } return r; }
static const char* FN[] = {"none", "nearest", "bilinear", "bicubic", "lanczos"}; static const char* FM[] = {"none", "PRGB32", "XRGB32", "A8"};
enum { kOwn, kPad, kNeg, kRead, kAlias, kDstShared, kDstExternal, kModes };
static uint64_t nCases = 0, nPixels = 0, nExact = 0;
static void run(int w, int h, int tw, int th, int filter, int f, int pat, uint32_t arg, int mode) {
  std::vector<uint16_t> id = {uint16_t(w), uint16_t(h), uint16_t(tw), uint16_t(th), uint16_t(filter), uint16_t(f), uint16_t(pat), uint16_t(arg), uint16_t(mode)};
  if (g.replaying) { if (id != split(g.replay)) return; }
  else if (!mine(int64_t(nCases++))) return;
  if (over_budget()) return;
  set_case_s(join(id)); vh::stat("transitions");
  Buf b(w, h, f, mode == kPad ? 12 : mode == kNeg ? -8 : 0); fill(b, pat, arg); std::vector<uint8_t> before = b.mem;
  char what[160]; snprintf(what, sizeof what, "%s %dx%d to %dx%d filter %s content %d/%u mode %d", FM[f], w, h, tw, th, FN[filter], pat, arg, mode);
  BLImage src; BLResult r = BL_SUCCESS;
  if (mode == kPad || mode == kNeg || mode == kRead) r = src.create_from_data(w, h, BLFormat(f), b.p0, b.stride, mode == kRead ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW);
  else { r = src.create(w, h, BLFormat(f)); BLImageData d; (void)src.make_mutable(&d); for (int y = 0; y < h; y++) memcpy((uint8_t*)d.pixel_data + y * d.stride, b.row(y), size_t(w) * bpp(f)); }
  if (r != BL_SUCCESS) { fail("setup", "%s: source image result %u", what, r); return; }
  std::vector<uint8_t> spx = pixels(src); BLImage copy(src);
  BLImage dst, keep; std::vector<uint8_t> ext(256 * 4, 0x77); 
  if (mode == kDstShared) { (void)dst.create(3, 2, BL_FORMAT_PRGB32); BLImageData d; (void)dst.make_mutable(&d); for (int y = 0; y < 2; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 0x33, 12); keep = dst; }
  if (mode == kDstExternal) (void)dst.create_from_data(4, 4, BL_FORMAT_PRGB32, ext.data(), 16);
  BLImage* out = mode == kAlias ? &src : &dst;
  r = BLImage::scale(*out, src, BLSizeI(tw, th), BLImageScaleFilter(filter));
  if (r != BL_SUCCESS) { fail("error-result", "%s: result %u", what, r); return; }
  if (out->width() != tw || out->height() != th || int(out->format()) != f) { fail("geometry", "%s: got %dx%d format %u", what, out->width(), out->height(), unsigned(out->format())); return; }
  if (mode == kDstShared) { BLImageData d; (void)keep.get_data(&d); if (keep.width() != 3 || ((uint8_t*)d.pixel_data)[0] != 0x33) fail("shared-modified", "%s: a copy of the target was modified", what); }
  if (mode == kDstExternal) for (uint8_t x : ext) if (x != 0x77) { fail("external-modified", "%s: the memory of the replaced image was modified", what); break; }
  if (pixels(copy) != spx || b.mem != before) fail("source-modified", "%s: the source changed", what);
  std::vector<uint8_t> px = pixels(*out);
  // Reference: columns, then rows, in double precision per channel.
  int B = bpp(f); bool unif = true; std::vector<uint8_t> first(spx.begin(), spx.begin() + B); for (size_t i = 0; i < spx.size(); i++) if (spx[i] != first[i % B]) { unif = false; break; }
  for (int ch = 0; ch < B; ch++) {
    if (f == BL_FORMAT_XRGB32 && ch == 3) { for (size_t i = 3; i < px.size(); i += 4) if (px[i] != 255) { fail("x-byte", "%s: X byte %u", what, px[i]); break; } continue; }
    if (unif) { for (size_t i = ch; i < px.size(); i += B) if (px[i] != first[ch]) { fail("uniform", "%s: a uniform image of %u became %u at pixel %zu", what, first[ch], px[i], i / B); return; } nExact++; continue; }
    std::vector<std::vector<double>> mid(h), emid(h); std::vector<double> in(w), e(w), o, eo;
    for (int y = 0; y < h; y++) { for (int x = 0; x < w; x++) { in[x] = spx[(size_t(y) * w + x) * B + ch]; e[x] = 0; } if (tw != w || th == h) line(in, e, tw, filter, mid[y], emid[y]); else { mid[y] = in; emid[y] = e; } }
    bool clampA = f == BL_FORMAT_PRGB32 && filter == BL_IMAGE_SCALE_FILTER_LANCZOS && ch < 3;
    for (int x = 0; x < tw; x++) {
      std::vector<double> col(h), ec(h); for (int y = 0; y < h; y++) { col[y] = mid[y][x]; ec[y] = emid[y][x]; }
      if (th != h) line(col, ec, th, filter, o, eo); else { o = col; eo = ec; }
      for (int y = 0; y < th; y++) { double v = px[(size_t(y) * tw + x) * B + ch]; nPixels++;
        if (std::fabs(v - o[y]) > eo[y] && !(clampA && v < o[y])) { fail("value", "%s: channel %d at (%d,%d) is %g, definition %.2f +- %.2f", what, ch, x, y, v, o[y], eo[y]); return; } }
    }
  }
  if (f == BL_FORMAT_PRGB32) for (size_t i = 0; i < px.size(); i += 4) if (px[i] > px[i + 3] || px[i + 1] > px[i + 3] || px[i + 2] > px[i + 3]) { fail("premultiplied", "%s: pixel %zu has a component above its alpha", what, i / 4); break; }
  // The result depends neither on the memory layout nor on aliasing, and every channel is scaled like an A8 image of it.
  if (mode != kOwn) { BLImage s2(w, h, BLFormat(f)), d2; BLImageData d; (void)s2.make_mutable(&d); for (int y = 0; y < h; y++) memcpy((uint8_t*)d.pixel_data + y * d.stride, &spx[size_t(y) * w * B], size_t(w) * B); (void)BLImage::scale(d2, s2, BLSizeI(tw, th), BLImageScaleFilter(filter)); if (pixels(d2) != px) fail("layout", "%s: differs from scaling a plain copy", what); nExact++; }
  else if (f != BL_FORMAT_A8) for (int ch = 0; ch < 4; ch++) {
    if ((f == BL_FORMAT_XRGB32 && ch == 3) || (f == BL_FORMAT_PRGB32 && ch < 3 && filter == BL_IMAGE_SCALE_FILTER_LANCZOS)) continue;
    BLImage s2(w, h, BL_FORMAT_A8), d2; BLImageData d; (void)s2.make_mutable(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = spx[(size_t(y) * w + x) * 4 + ch];
    (void)BLImage::scale(d2, s2, BLSizeI(tw, th), BLImageScaleFilter(filter)); std::vector<uint8_t> p2 = pixels(d2); nExact++;
    for (size_t i = 0; i < p2.size(); i++) if (p2[i] != px[i * 4 + ch]) { fail("format", "%s: channel %d of pixel %zu is %u, scaled as A8 it is %u", what, ch, i, px[i * 4 + ch], p2[i]); break; }
  }
  if (nCases % 997 == 1) sample(what);
}
static void invalid() {
  std::vector<uint16_t> id = {0}; if (g.replaying ? split(g.replay) != id : g.shard != 0) return; set_case_s(join(id));
  static const int S[][2] = {{0, 1}, {1, 0}, {0, 0}, {-1, 4}, {4, -1}, {INT_MIN, INT_MIN}, {65536, 1}, {1, 65536}, {INT_MAX, 1}, {1, INT_MAX}, {INT_MAX, INT_MAX}, {3, 3}, {3, 3}, {3, 3}};
  for (int k = 0; k < 14; k++) for (int alias = 0; alias < 2; alias++) for (int f = 1; f <= 3; f++) {
    BLImageScaleFilter q = k == 11 ? BL_IMAGE_SCALE_FILTER_NONE : k == 12 ? BLImageScaleFilter(5) : k == 13 ? BLImageScaleFilter(0xFFFFFFFFu) : BL_IMAGE_SCALE_FILTER_BILINEAR;
    BLImage s(4, 3, BLFormat(f)), d(2, 2, BL_FORMAT_A8); BLImageData dd; (void)s.make_mutable(&dd); for (int y = 0; y < 3; y++) memset((uint8_t*)dd.pixel_data + y * dd.stride, 0x41 + y, 4 * bpp(f)); (void)d.make_mutable(&dd); for (int y = 0; y < 2; y++) memset((uint8_t*)dd.pixel_data + y * dd.stride, 9, 2);
    std::vector<uint8_t> ps = pixels(s), pd = pixels(d); vh::stat("transitions");
    BLResult r = BLImage::scale(alias ? s : d, s, BLSizeI(S[k][0], S[k][1]), q);
    if (r == BL_SUCCESS) fail("invalid-accepted", "size %dx%d filter %u accepted", S[k][0], S[k][1], unsigned(q));
    if (pixels(s) != ps || pixels(d) != pd || s.width() != 4) fail("failure-modified", "size %dx%d filter %u: failed with %u but modified an image", S[k][0], S[k][1], unsigned(q), r);
  }
  { BLImage e, d(2, 2, BL_FORMAT_A8); (void)BLImage::scale(d, e, BLSizeI(3, 3), BL_IMAGE_SCALE_FILTER_BILINEAR); if (!d.is_empty()) fail("empty", "scaling an empty image gave %dx%d", d.width(), d.height()); }
}
int main(int argc, char** argv) {
  init(argc, argv); bool T = g.thorough;
  invalid();
  int N = T ? 40 : 18, M = T ? 64 : 26;
  // One dimension, both directions: every impulse.
  for (int dir = 0; dir < 2; dir++) for (int n = 1; n <= N; n++) for (int m = 1; m <= M; m++) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) {
    for (int o = 1; o <= (dir ? 1 : 1); o++) for (int pat = 0; pat < 2; pat++) for (int k = 0; k < n; k++) { if (f == 2 && pat) continue; dir ? run(o, n, o, m, q, f, pat, k, kOwn) : run(n, o, m, o, q, f, pat, k, kOwn); }
    for (int pat = 3; pat < 8; pat++) dir ? run(1, n, 1, m, q, f, pat, 0, kOwn) : run(n, 1, m, 1, q, f, pat, 0, kOwn);
  }
  // Two dimensions: every small pair of sizes.
  int K = T ? 9 : 6, L = T ? 14 : 9;
  for (int w = 1; w <= K; w++) for (int h = 1; h <= K; h++) for (int tw = 1; tw <= L; tw++) for (int th = 1; th <= L; th++) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) {
    run(w, h, tw, th, q, f, 4, 1, kOwn); if (T) { run(w, h, tw, th, q, f, 3, 0, kOwn); run(w, h, tw, th, q, f, 5, 0, kOwn); }
    int md = 1 + (w + h + tw + th + q + f) % (kModes - 1); run(w, h, tw, th, q, f, 4, 2, md);
  }
  // Row widths around the blocks of the vertical pass, in every memory layout.
  for (int w = 1; w <= (T ? 20 : 12); w++) for (int h = 1; h <= 5; h++) for (int th : {1, 2, 3, 7, 9}) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) for (int md = 0; md < kModes; md++) run(w, h, w, th, q, f, 4, w * 8 + md, md);
  // Every uniform value, and reductions by large factors.
  for (int v = 0; v < 256; v++) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) { run(7, 5, 4, 9, q, f, 2, v, kOwn); run(5, 7, 11, 3, q, f, 2, v, kOwn); }
  static const int BIG[] = {63, 64, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1000, 1023, 2000, 4096, 10000, 65535};
  for (int n : BIG) for (int m : {1, 2, 3, 5}) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) for (int dir = 0; dir < 2; dir++) for (int pat : {2, 3, 4, 5, 6, 7}) { if (n > 5000 && !T && pat != 2 && pat != 6) continue; dir ? run(1, n, 1, m, q, f, pat, 255, kOwn) : run(n, 1, m, 1, q, f, pat, 255, kOwn); }
  for (int m : {63, 64, 100, 257, 1000, 4096, 65535}) for (int n : {1, 2, 3}) for (int q = 1; q <= 4; q++) for (int f = 1; f <= 3; f++) for (int dir = 0; dir < 2; dir++) { dir ? run(1, n, 1, m, q, f, 4, 5, kOwn) : run(n, 1, m, 1, q, f, 4, 5, kOwn); }
  vh::stat("cases", nCases); vh::stat("pixels", nPixels); vh::stat("exact_relations", nExact);
  return done();
}
