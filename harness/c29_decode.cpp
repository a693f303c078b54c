// C29: decoded pixels. Files of every supported kind are generated from known pixels (every color type, depth, filter, interlacing, transparency,
// chunk split, header version, mask, run-length token sequence in a bounded space) and decoded by the real decoders at every CPU level.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/api.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/codec/jpegops_p.h>
#include <blend2d/codec/pngops_p.h>
#include <blend2d/blend2d.h>
#include "vh.h"
#include "codec_gen.h"
#include "jpeg_gen.h"
using namespace vh;
using gen::Bytes;
static uint64_t nItems = 0;
static std::string gGroup;
// Runs the case unless it belongs to another shard or is not the one to be replayed.
static void item(const std::function<void()>& f) {
  std::string id = gGroup + ":" + std::to_string(nItems); uint64_t n = nItems++;
  if (g.replaying) { if (g.replay != id) return; } else if (!mine(int64_t(n)) || over_budget()) return;
  set_case_s(id); vh::stat("transitions"); f();
}
static bool group(const char* n) { gGroup = n; nItems = 0; return g.mode.empty() || g.mode == n; }
struct Exact { uint8_t* p; size_t n; Exact(const Bytes& b) : n(b.size()) { p = (uint8_t*)malloc(n ? n : 1); memcpy(p, b.data(), n); } ~Exact() { free(p); } };
typedef std::function<bool(int, int, uint32_t)> Accept;
static bool same(const BLImage& im, const gen::Image& e, std::string& d, const Accept* acc = nullptr) {
  BLImageData v; char t[200]; if (im.width() != e.w || im.height() != e.h) { snprintf(t, sizeof t, "size %dx%d instead of %dx%d", im.width(), im.height(), e.w, e.h); d = t; return false; }
  if (im.format() != (e.alpha ? BL_FORMAT_PRGB32 : BL_FORMAT_XRGB32)) { snprintf(t, sizeof t, "format %u", unsigned(im.format())); d = t; return false; }
  (void)im.get_data(&v);
  for (int y = 0; y < e.h; y++) for (int x = 0; x < e.w; x++) { uint32_t p; memcpy(&p, (const uint8_t*)v.pixel_data + y * v.stride + x * 4, 4); uint32_t q = e.px[size_t(y) * e.w + x]; if (!e.alpha) p |= 0xFF000000u, q |= 0xFF000000u; if (acc ? !(*acc)(x, y, p) : p != q) { snprintf(t, sizeof t, "pixel (%d,%d) is %08X instead of %08X", x, y, p, q); d = t; return false; } }
  return true;
}
static void check(const char* kind, const Bytes& b, const gen::Image& e, const std::string& what, const Accept* acc = nullptr, int depth = 0, bool full = true) {
  Exact x(b); std::string d; std::string K = kind;
  BLImageCodec codec; BLResult r = codec.find_by_data(x.p, x.n); if (r != BL_SUCCESS || std::string(codec.name().data()) != kind) { fail((K + "-codec").c_str(), "%s: not recognised (%u)", what.c_str(), r); return; }
  BLImageDecoder dec; r = codec.create_decoder(&dec); BLImageInfo info{}; r = dec.read_info(info, x.p, x.n);
  if (r != BL_SUCCESS) { fail((K + "-info").c_str(), "%s: read_info failed with %u", what.c_str(), r); return; }
  if (info.size.w != e.w || info.size.h != e.h || (depth && info.depth != depth) || info.frame_count != 1) { fail((K + "-info").c_str(), "%s: info says %dx%d depth %u frames %llu", what.c_str(), info.size.w, info.size.h, info.depth, (unsigned long long)info.frame_count); return; }
  BLImage im; r = dec.read_frame(im, x.p, x.n);
  if (r != BL_SUCCESS) { fail((K + "-rejected").c_str(), "%s: valid file rejected with %u", what.c_str(), r); return; }
  if (!same(im, e, d, acc)) { fail((K + "-pixels").c_str(), "%s: %s", what.c_str(), d.c_str()); return; }
  if (full) {
    BLImage im2; r = dec.read_frame(im2, x.p, x.n); if (r == BL_SUCCESS) fail((K + "-more").c_str(), "%s: a second frame was returned", what.c_str());
    BLImage im3(3, 3, BL_FORMAT_A8); r = im3.read_from_data(x.p, x.n); if (r != BL_SUCCESS || !same(im3, e, d, acc)) fail((K + "-read").c_str(), "%s: read_from_data %u %s", what.c_str(), r, d.c_str());
  }
  vh::stat("pixels", uint64_t(e.w) * e.h); if (nItems % 4999 == 1) sample(what);
}
static void level(int l) { bl::Png::Ops::FunctionTable& ft = bl::Png::Ops::func_table; if (l == 0) bl::Png::Ops::init_func_table_ref(ft); 
#ifdef BL_BUILD_OPT_SSE2
  if (l >= 1) bl::Png::Ops::init_func_table_sse2(ft);
#endif
#ifdef BL_BUILD_OPT_AVX
  if (l >= 2) bl::Png::Ops::init_func_table_avx(ft);
#endif
}
static std::string pw(const gen::Png& p, const char* x = "") { char t[160]; snprintf(t, sizeof t, "PNG %dx%d color type %d depth %d%s seed %u %s", p.w, p.h, p.ctype, p.depth, p.interlace ? " interlaced" : "", p.seed, x); return t; }
static const int CT[][2] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {2, 8}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {6, 8}};
static void pal(gen::Png& p, int n) { p.palette.clear(); for (int i = 0; i < n; i++) p.palette.push_back(gen::rnd(i * 17 + 3) & 0xFFFFFF); }
static void png(int lv) {
  bool T = g.thorough; int S = T ? 18 : 10; char lt[16]; snprintf(lt, sizeof lt, "level %d", lv);
  // Every color type x size x interlacing x filter.
  for (auto& c : CT) for (int il = 0; il < 2; il++) for (int w = 1; w <= S; w++) for (int h = 1; h <= S; h++) for (int f = 0; f < 6; f++) item([&] {
    gen::Png p; p.ctype = c[0]; p.depth = c[1]; p.interlace = il; p.w = w; p.h = h; p.seed = w * 31 + h; if (p.ctype == 3) pal(p, std::min(256, (1 << p.depth))); p.filter = [&](int ps, int r) { return f < 5 ? f : (ps * 2 + r * 3 + w) % 5; }; check("PNG", p.file(), p.image(), pw(p, lt), nullptr, p.depth * p.channels(), f == 5); });
  // Every combination of filters in three (four) rows for every row length around the vector blocks; random and extreme samples.
  for (int ct : {0, 2, 4, 6}) for (int w = 1; w <= (T ? 70 : 40); w++) for (int fs = 0; fs < 125; fs++) for (int ext = 0; ext < 2; ext++) { if (w > 20 && !T && (fs % 5 == 0 || (w & 1) != ext)) continue; item([&] {
    gen::Png p; p.ctype = ct; p.w = w; p.h = 3; p.seed = fs; p.filter = [&](int, int r) { return r == 0 ? fs % 5 : r == 1 ? fs / 5 % 5 : fs / 25; }; if (ext) p.sample = [&](int x, int y, int k) -> uint32_t { uint32_t q = gen::rnd(x * 3 + y * 71 + k * 7 + fs) & 7; return q < 3 ? 0 : q < 6 ? 255 : q == 6 ? 127 : 128; };
    check("PNG", p.file(), p.image(), pw(p, lt) + " filters " + std::to_string(fs), nullptr, 0, false); }); }
  // Larger interlaced and plain images.
  for (auto& c : CT) for (int il = 0; il < 2; il++) for (int w : {16, 17, 31, 33, 64, 65, 130, 257}) for (int h : {8, 11, 16, 33}) item([&] { gen::Png p; p.ctype = c[0]; p.depth = c[1]; p.interlace = il; p.w = w; p.h = h; if (p.ctype == 3) pal(p, 1 << p.depth); p.filter = [&](int ps, int r) { return (ps + r) % 5; }; p.level = 6; check("PNG", p.file(), p.image(), pw(p, lt), nullptr, 0, false); });
}
static void png_meta() {
  bool T = g.thorough;
  // Palette sizes and transparency tables.
  for (int d : {1, 2, 4, 8}) for (int n = 1; n <= (1 << d); n += (n < 20 || n > 250 ? 1 : T ? 3 : 37)) for (int t = 0; t <= n; t += (t < 5 || t + 3 > n ? 1 : T ? 5 : n / 4 + 1)) for (int il = 0; il < 2; il++) item([&] { gen::Png p; p.ctype = 3; p.depth = d; p.w = 9; p.h = 5; p.interlace = il; pal(p, n); if (t) { p.has_trns = 1; for (int i = 0; i < t; i++) p.trns.push_back(uint8_t(gen::rnd(i * 5 + n) >> (i % 3 ? 8 : 0))); } check("PNG", p.file(), p.image(), pw(p) + " palette " + std::to_string(n) + " tRNS " + std::to_string(t), nullptr, 0, false); });
  // Color keys: every gray value, present and absent; RGB keys.
  for (int d : {1, 2, 4, 8}) for (uint32_t k = 0; k < (1u << d) + 2; k++) for (int il = 0; il < 2; il++) item([&] { gen::Png p; p.ctype = 0; p.depth = d; p.w = 33; p.h = 4; p.interlace = il; p.has_trns = 1; p.trns = {uint8_t(k >> 8), uint8_t(k)}; p.sample = [&](int x, int y, int) -> uint32_t { return uint32_t(x + y * 33) & ((1u << d) - 1); }; check("PNG", p.file(), p.image(), pw(p) + " gray key " + std::to_string(k), nullptr, 0, false); });
  for (int k = 0; k < 30; k++) for (int il = 0; il < 2; il++) for (int w : {1, 3, 8, 17}) item([&] { gen::Png p; p.ctype = 2; p.w = w; p.h = 4; p.interlace = il; p.has_trns = 1; uint32_t r = k & 1 ? 200 : 0, gg = k & 2 ? 17 : 0, b = k & 4 ? 255 : 1; p.trns = {uint8_t(k >= 24), uint8_t(r), 0, uint8_t(gg), 0, uint8_t(b)}; p.sample = [&](int x, int y, int c) -> uint32_t { uint32_t q = gen::rnd(x * 7 + y + k) & 7; return c == 0 ? (q & 1 ? 200 : 0) : c == 1 ? (q & 2 ? 17 : 0) : (q & 4 ? 255 : 1); }; check("PNG", p.file(), p.image(), pw(p) + " RGB key " + std::to_string(k), nullptr, 0, false); });
  // Chunk splits: every cut of the compressed data in two and three IDAT chunks, with empty chunks; stored and compressed data.
  for (int lv : {-1, 1, 9}) for (auto& c : CT) { gen::Png p; p.ctype = c[0]; p.depth = c[1]; p.w = 5; p.h = 4; p.level = lv; if (p.ctype == 3) pal(p, 1 << p.depth); size_t n = gen::Png::deflate_(p.raw(5, 4), lv).size();
    for (size_t i = 0; i <= n; i++) for (size_t j = 0; i + j <= n; j += (T || j < 3 || i + j + 3 > n ? 1 : 7)) item([&] { p.idat = {i, j}; check("PNG", p.file(), p.image(), pw(p) + " IDAT " + std::to_string(i) + "+" + std::to_string(j), nullptr, 0, false); }); }
  // Ancillary chunks anywhere, zlib levels.
  for (int pos = 0; pos < 4; pos++) for (int len : {0, 1, 4, 13, 300}) for (const char* tag : {"tEXt", "gAMA", "zzZz", "iCCP", "acTl"}) for (int t : {2, 3}) item([&] { gen::Png p; p.ctype = t; p.w = 4; p.h = 3; if (t == 3) { pal(p, 7); p.has_trns = 1; p.trns = {1, 200}; } Bytes o = p.head(), junk(len, 0xFF); if (pos == 0) gen::Png::chunk(o, tag, junk); p.meta(o); if (pos == 1) gen::Png::chunk(o, tag, junk); p.data(o); if (pos == 2) gen::Png::chunk(o, tag, junk); gen::Png::chunk(o, "IEND", {}); if (pos == 3) o.insert(o.end(), junk.begin(), junk.end()); check("PNG", o, p.image(), pw(p) + " chunk " + tag + " at " + std::to_string(pos)); });
  for (int lv = 0; lv < 10; lv++) for (auto& c : CT) for (int w : {7, 100, 400}) item([&] { gen::Png p; p.ctype = c[0]; p.depth = c[1]; p.w = w; p.h = 60; p.level = lv; if (p.ctype == 3) pal(p, 1 << p.depth); p.sample = [&](int x, int y, int k) -> uint32_t { return ((x / 9 + y / 4) * (k + 1) + ((x * y) % 11 == 0)) & ((1u << p.depth) - 1); }; check("PNG", p.file(), p.image(), pw(p) + " zlib level " + std::to_string(lv), nullptr, 0, false); });
  // 16-bit samples: the right pixels or an error, never other pixels.
  for (int ct : {0, 2, 4, 6}) item([&] { gen::Png p; p.ctype = ct; p.depth = 16; p.w = 3; p.h = 2; Exact x(p.file()); BLImage im; BLResult r = im.read_from_data(x.p, x.n); if (r == BL_SUCCESS) { for (int y = 0; y < 2; y++) for (int xx = 0; xx < 3; xx++) { } fail("PNG-16", "16-bit samples are decoded but not judged"); } });
}
// Animated PNG: every combination of disposal and frame rectangles, played twice; frames replace their area.
static void apng() {
  static const int R[][4] = {{0, 0, 5, 4}, {1, 1, 2, 2}, {3, 0, 2, 4}, {0, 3, 5, 1}, {4, 3, 1, 1}};
  for (int ct : {6, 4, 3, 0, 2}) for (int d0 = 0; d0 < 3; d0++) for (int d1 = 0; d1 < 3; d1++) for (int d2 = 0; d2 < 3; d2++) for (int r1 = 0; r1 < 5; r1++) for (int r2 = 0; r2 < 5; r2++) for (int split = 0; split < 2; split++) item([&] {
    if (ct == 2 && (d0 == 1 || d1 == 1 || d2 == 1 || d0 == 2)) return;  // Disposed areas of opaque images are not judged.
    int W = 5, H = 4; gen::Png p; p.ctype = ct; p.w = W; p.h = H; if (ct == 3) { pal(p, 200); p.has_trns = 1; for (int i = 0; i < 150; i++) p.trns.push_back(uint8_t(i * 5)); }
    Bytes o = p.head(), a; gen::be32(a, 3); gen::be32(a, 0); gen::Png::chunk(o, "acTL", a); p.meta(o); uint32_t seq = 0; int disp[3] = {d0, d1, d2}; const int* rc[3] = {R[0], R[r1], R[r2]};
    std::vector<uint32_t> canvas(W * H, 0); std::vector<std::vector<uint32_t>> shown;
    for (int f = 0; f < 3; f++) {
      const int* q = rc[f]; Bytes c; gen::be32(c, seq++); gen::be32(c, q[2]); gen::be32(c, q[3]); gen::be32(c, q[0]); gen::be32(c, q[1]); gen::be16(c, 1); gen::be16(c, 10); c.push_back(uint8_t(disp[f])); c.push_back(0); gen::Png::chunk(o, "fcTL", c);
      p.seed = f + 1; Bytes z = gen::Png::deflate_(p.raw(q[2], q[3], q[0], q[1]), 6);
      if (f == 0) { size_t k = split ? z.size() / 2 : z.size(); gen::Png::chunk(o, "IDAT", Bytes(z.begin(), z.begin() + k)); if (k < z.size()) gen::Png::chunk(o, "IDAT", Bytes(z.begin() + k, z.end())); }
      else for (size_t i = 0, k = split ? z.size() / 2 : z.size(); i < z.size(); i += k) { Bytes fd; gen::be32(fd, seq++); fd.insert(fd.end(), z.begin() + i, z.begin() + std::min(z.size(), i + k)); gen::Png::chunk(o, "fdAT", fd); }
      std::vector<uint32_t> before = canvas; for (int y = 0; y < q[3]; y++) for (int x = 0; x < q[2]; x++) canvas[(q[1] + y) * W + q[0] + x] = p.color(q[0] + x, q[1] + y);
      shown.push_back(canvas);
      int dd = disp[f]; if (dd == 2 && f == 0) dd = 1; if (dd == 2) canvas = before; if (dd == 1) for (int y = 0; y < q[3]; y++) for (int x = 0; x < q[2]; x++) canvas[(q[1] + y) * W + q[0] + x] = 0;
    }
    gen::Png::chunk(o, "IEND", {}); Exact x(o); char what[160]; snprintf(what, sizeof what, "APNG color type %d dispose %d %d %d areas %d %d%s", ct, d0, d1, d2, r1, r2, split ? " split" : "");
    BLImageCodec codec; (void)codec.find_by_data(x.p, x.n); BLImageDecoder dec; (void)codec.create_decoder(&dec); BLImageInfo info{}; BLResult r = dec.read_info(info, x.p, x.n);
    if (r != BL_SUCCESS || info.frame_count != 3) { fail("APNG-info", "%s: result %u, %llu frames", what, r, (unsigned long long)info.frame_count); return; }
    BLImage im; std::vector<BLImage> held;
    for (int k = 0; k < 6; k++) { r = dec.read_frame(im, x.p, x.n); if (r != BL_SUCCESS) { fail("APNG-rejected", "%s: frame %d failed with %u", what, k, r); return; } gen::Image e; e.w = W; e.h = H; e.alpha = ct != 2; e.px = shown[k % 3]; std::string d; if (!same(im, e, d)) { fail("APNG-pixels", "%s: frame %d %s", what, k, d.c_str()); return; } held.push_back(im); }
    for (int k = 0; k < 6; k++) { gen::Image e; e.w = W; e.h = H; e.alpha = ct != 2; e.px = shown[k % 3]; std::string d; if (!same(held[k], e, d)) { fail("APNG-held", "%s: a copy of frame %d changed: %s", what, k, d.c_str()); return; } }
  });
}
static void qoi() {
  std::vector<gen::QoiTok> toks = {{4, 10, 20, 30, 0}, {4, 255, 0, 0, 0}, {5, 10, 20, 30, 128}, {5, 0, 0, 0, 0}, {5, 255, 255, 255, 255}, {5, 200, 100, 50, 1}, {1, -2, -2, -2, 0}, {1, 1, 1, 1, 0}, {1, 0, 0, 0, 0}, {1, -1, 0, 1, 0}, {2, -32, -8, -8, 0}, {2, 31, 7, 7, 0}, {2, 0, -8, 7, 0}, {2, -1, 3, -4, 0}, {3, 1, 0, 0, 0}, {3, 2, 0, 0, 0}, {3, 5, 0, 0, 0}, {3, 62, 0, 0, 0}};
  auto hash = [](int r, int gg, int b, int a) { return (r * 3 + gg * 5 + b * 7 + a * 11) % 64; };
  for (int k : {hash(10, 20, 30, 255), hash(255, 0, 0, 255), hash(10, 20, 30, 128), hash(255, 255, 255, 255), hash(0, 0, 0, 255), hash(0, 0, 0, 0)}) toks.push_back({0, k, 0, 0, 0});
  size_t N = toks.size(); int L = g.thorough ? 4 : 3;
  auto run = [&](const std::vector<int>& seq, int ch, int W) { item([&] {
    Bytes o; gen::QoiState s; s.alpha = ch == 4; Bytes body; std::string what = "QOI channels " + std::to_string(ch) + " width " + std::to_string(W) + " tokens"; for (int t : seq) { s.tok(body, toks[t]); what += " " + std::to_string(t); }
    if (!s.judged) return; int n = int(s.out.size()); if (n % W) { int miss = W - n % W; for (int i = 0; i < miss; i++) s.tok(body, {4, i, 7, 9, 0}); n = int(s.out.size()); }
    gen::qoi_head(o, W, n / W, ch); o.insert(o.end(), body.begin(), body.end()); gen::qoi_end(o); gen::Image e; e.w = W; e.h = n / W; e.alpha = ch == 4; e.px = s.out; check("QOI", o, e, what, nullptr, ch * 8, nItems % 16 == 0); }); };
  for (int ch : {3, 4}) for (int W : {1, 2, 3, 7}) for (int l = 1; l <= L; l++) { uint64_t tot = 1; for (int i = 0; i < l; i++) tot *= N; for (uint64_t k = 0; k < tot; k++) { std::vector<int> s; uint64_t q = k; for (int i = 0; i < l; i++) { s.push_back(int(q % N)); q /= N; } run(s, ch, W); } }
  // Every single token of every kind after a base color.
  for (int ch : {3, 4}) for (int base = 0; base < 3; base++) for (int t = 0; t < 64 + 64 * 256 + 62; t++) item([&] {
    gen::QoiState s; s.alpha = ch == 4; Bytes body; s.tok(body, base == 0 ? gen::QoiTok{4, 128, 128, 128, 0} : base == 1 ? gen::QoiTok{5, 3, 250, 1, 77} : gen::QoiTok{5, 255, 0, 254, 255});
    gen::QoiTok k = t < 64 ? gen::QoiTok{1, (t >> 4) - 2, ((t >> 2) & 3) - 2, (t & 3) - 2, 0} : t < 64 + 64 * 256 ? gen::QoiTok{2, (t - 64) / 256 - 32, ((t - 64) >> 4 & 15) - 8, ((t - 64) & 15) - 8, 0} : gen::QoiTok{3, t - 64 - 64 * 256 + 1, 0, 0, 0};
    s.tok(body, k); Bytes o; gen::qoi_head(o, 1, int(s.out.size()), ch, t & 1); o.insert(o.end(), body.begin(), body.end()); gen::qoi_end(o); gen::Image e; e.w = 1; e.h = int(s.out.size()); e.alpha = ch == 4; e.px = s.out; check("QOI", o, e, "QOI single token " + std::to_string(t) + " base " + std::to_string(base), nullptr, 0, false); });
  // Every color written directly, and found again by its index.
  for (int k = 0; k < 4096; k++) item([&] { int r = gen::rnd(k) & 255, gg = gen::rnd(k) >> 8 & 255, b = gen::rnd(k) >> 16 & 255, a = k & 255; gen::QoiState s; s.alpha = true; Bytes body; s.tok(body, {5, r, gg, b, a}); s.tok(body, {4, 1, 2, 3, 0}); int h = (r * 3 + gg * 5 + b * 7 + a * 11) % 64; bool self = !memcmp(s.idx[h], "\1\2\3", 3); s.tok(body, {0, h, 0, 0, 0}); (void)self; Bytes o; gen::qoi_head(o, 3, 1, 4); o.insert(o.end(), body.begin(), body.end()); gen::qoi_end(o); gen::Image e; e.w = 3; e.h = 1; e.alpha = true; e.px = s.out; check("QOI", o, e, "QOI color " + std::to_string(k), nullptr, 0, false); });
}
static std::string bw(const gen::Bmp& b) { char t[200]; snprintf(t, sizeof t, "BMP %dx%d depth %d header %d compression %d masks %x %x %x %x%s palette %zu gap %d", b.w, b.h, b.depth, b.header, b.comp, b.masks[0], b.masks[1], b.masks[2], b.masks[3], b.write_masks ? "" : " (not written)", b.palette.size(), b.gap); return t + std::string(b.topdown ? " top-down" : ""); }
static void bmp() {
  bool T = g.thorough; int S = T ? 17 : 9;
  static const int HD[] = {12, 40, 52, 56, 108, 124};
  auto go = [&](gen::Bmp& b) {
    gen::Image e; e.w = b.w; e.h = b.h; e.px.assign(size_t(b.w) * b.h, 0); bool bf = b.comp == 3 || b.comp == 6; e.alpha = bf && b.masks[3]; uint32_t M[4] = {b.masks[0], b.masks[1], b.masks[2], b.masks[3]};
    if (!bf && b.depth > 8) { e.alpha = false; M[3] = 0; if (b.depth == 16) M[0] = 0x7C00, M[1] = 0x3E0, M[2] = 0x1F; else M[0] = 0xFF0000, M[1] = 0xFF00, M[2] = 0xFF; }
    Accept acc = [&](int x, int y, uint32_t p) { uint32_t v = b.smp(x, y); if (b.depth <= 8) { uint32_t c = v < b.palette.size() ? b.palette[v] : 0; return (p & 0xFFFFFF) == c; }
      uint32_t av = 255; if (M[3]) { uint32_t lo, hi; gen::Bmp::comp8(v, M[3], lo, hi); av = p >> 24; if (av < lo || av > hi) return false; }
      for (int k = 0; k < 3; k++) { uint32_t lo, hi, c = p >> (16 - 8 * k) & 255; gen::Bmp::comp8(v, M[k], lo, hi); if (M[3] && lo > av) continue; /* component above alpha: not judged */ if (c < lo || c > hi) return false; } return true; };
    check("BMP", b.file(), e, bw(b), &acc, b.depth, true);
  };
  for (int hd : HD) for (int d : {1, 4, 8, 16, 24, 32}) for (int td = 0; td < 2; td++) for (int w = 1; w <= S; w++) for (int h = 1; h <= 4; h++) for (int z = 0; z < 2; z++) { if (hd == 12 && (td || z)) continue; item([&] { gen::Bmp b; b.header = hd; b.depth = d; b.topdown = td; b.w = w; b.h = h; b.seed = w * 5 + h; b.size_zero = z; b.gap = (w & 1) * 3 * (d > 8 || hd == 40); if (d <= 8) { b.gap = 0; for (int i = 0; i < (1 << d); i++) b.palette.push_back(gen::rnd(i * 3 + d) & 0xFFFFFF); } go(b); }); }
  for (int hd : HD) for (int d : {1, 4, 8}) for (int n : {1, 2, 3, 15, 16, 17, 200, 256}) { if (n > (1 << d)) continue; item([&] { gen::Bmp b; b.header = hd; b.depth = d; b.w = 19; b.h = 3; for (int i = 0; i < n; i++) b.palette.push_back(gen::rnd(i * 7 + d) & 0xFFFFFF); go(b); }); }
  // Bit fields: every layout of component widths.
  for (int hd : {40, 52, 56, 108, 124}) for (int d : {16, 32}) for (int r = 1; r <= 8; r++) for (int gg = 1; gg <= 8; gg++) for (int bb = 1; bb <= 8; bb++) for (int a = 0; a <= 8; a += T ? 1 : 4) for (int ord = 0; ord < (T ? 4 : 2); ord++) {
    if (r + gg + bb + a > d || (a && hd == 52)) continue; if (!T && hd != 40 && hd != 124 && (r != gg || gg != bb)) continue;
    item([&] { gen::Bmp b; b.header = hd; b.depth = d; b.w = 6; b.h = 2; b.comp = a && hd == 40 ? 6 : 3; b.write_masks = true; int n[4] = {r, gg, bb, a}, o4[4][4] = {{0, 1, 2, 3}, {2, 1, 0, 3}, {3, 0, 1, 2}, {1, 3, 2, 0}}, sh = 0; for (int k = 0; k < 4; k++) { int c = o4[ord][k]; b.masks[c] = n[c] ? ((1u << n[c]) - 1) << sh : 0; sh += n[c]; } b.seed = r * 64 + gg * 8 + bb; go(b); }); }
  // Masks written although the compression says they do not apply.
  for (int hd : {52, 56, 108, 124}) for (int d : {16, 24, 32}) item([&] { gen::Bmp b; b.header = hd; b.depth = d; b.w = 6; b.h = 2; b.write_masks = true; if (d == 16) b.masks[0] = 0x7C00, b.masks[1] = 0x3E0, b.masks[2] = 0x1F; else b.masks[0] = 0xFF0000, b.masks[1] = 0xFF00, b.masks[2] = 0xFF; go(b); });
  // Run-length data: every token sequence.
  for (int d : {8, 4}) for (int W : {1, 2, 4, 5, 9}) for (int H : {1, 2, 3}) { int L = T ? 5 : 4; const int N = 15; for (int l = 1; l <= L; l++) { uint64_t tot = 1; for (int i = 0; i < l; i++) tot *= N; for (uint64_t k = 0; k < tot; k++) item([&] {
    gen::Rle r(W, H, d); uint64_t q = k; std::string what = "BMP RLE" + std::to_string(d) + " " + std::to_string(W) + "x" + std::to_string(H) + " tokens"; 
    for (int i = 0; i < l; i++) { int t = int(q % N); q /= N; what += " " + std::to_string(t); switch (t) { case 0: r.fill(1, 0x12); break; case 1: r.fill(2, 0x34); break; case 2: r.fill(3, 0x56); break; case 3: r.fill(4, 0x71); break; case 4: r.fill(5, 0x0F); break; case 5: r.absolute({1, 2, 3}); break; case 6: r.absolute({4, 5, 6, 7}); break; case 7: r.absolute({8, 9, 10, 11, 12}); break; case 8: r.eol(); break; case 9: r.move(1, 0); break; case 10: r.move(0, 1); break; case 11: r.move(2, 1); break; case 12: r.move(0, 2); break; case 13: r.absolute({3, 1, 4, 1, 5, 9}); break; case 14: r.absolute({15, 14, 13, 12, 11, 10, 9}); break; } }
    if (r.over || r.y >= H) return; r.stop(); gen::Bmp b; b.header = 40; b.depth = d; b.comp = d == 8 ? 1 : 2; b.w = W; b.h = H; b.rle = r.data; for (int i = 0; i < (1 << d); i++) b.palette.push_back(gen::rnd(i * 3 + d) & 0xFFFFFF);
    gen::Image e; e.w = W; e.h = H; e.px.assign(W * H, 0); for (int i = 0; i < W * H; i++) e.px[i] = r.px[(H - 1 - i / W) * W + i % W] < 0 ? 0 : b.palette[r.px[(H - 1 - i / W) * W + i % W]];
    Accept acc = [&](int x, int y, uint32_t p) { int v = r.px[(H - 1 - y) * W + x]; p &= 0xFFFFFF; return v < 0 ? p == 0 || p == b.palette[0] : p == b.palette[v]; };
    check("BMP", b.file(), e, what, &acc, d, nItems % 16 == 0); }); } }
}

// JPEG
// ----
static std::string jw(const gen::Jpeg& j, const char* x) { char t[240]; snprintf(t, sizeof t, "JPEG %dx%d %s %d components", j.w, j.h, j.prog ? "progressive" : "sequential", j.nc); std::string s = t; for (int c = 0; c < j.nc; c++) s += " " + std::to_string(j.H[c]) + "x" + std::to_string(j.V[c]); snprintf(t, sizeof t, " scans %zu restart %d tables %d %s", j.scans.size(), j.restart, j.huff, x); return s + t; }
static void jcheck(gen::Jpeg& j, const char* x, double tol, bool full = false) {
  Bytes b = j.file(); j.decode(); gen::Image e; e.w = j.w; e.h = j.h; e.px.assign(size_t(j.w) * j.h, 0); std::vector<double> ref(size_t(j.w) * j.h * 3);
  for (int y = 0; y < j.h; y++) for (int x = 0; x < j.w; x++) { double* o = &ref[(size_t(y) * j.w + x) * 3]; j.rgb(x, y, o); e.at(x, y) = 0xFF000000u | uint32_t(lrint(o[0])) << 16 | uint32_t(lrint(o[1])) << 8 | uint32_t(lrint(o[2])); }
  double worst = 0;
  Accept acc = [&](int x, int y, uint32_t p) { double* o = &ref[(size_t(y) * j.w + x) * 3]; double m = 0; for (int i = 0; i < 3; i++) m = std::max(m, fabs(double((p >> (16 - 8 * i)) & 255) - o[i])); worst = std::max(worst, m); return m <= tol && p >> 24 == 0xFF; };
  check("JPEG", b, e, jw(j, x), &acc, 8 * j.nc, full); { auto& m = g.stats[j.nc == 1 ? "max_jpeg_gray_error_x100" : "max_jpeg_color_error_x100"]; m = std::max<uint64_t>(m, uint64_t(worst * 100)); }
  Exact xx(b); BLImageDecoder dec; BLImageCodec codec; codec.find_by_data(xx.p, xx.n); codec.create_decoder(&dec); BLImageInfo info{}; dec.read_info(info, xx.p, xx.n); if (bool(info.flags & BL_IMAGE_INFO_FLAG_PROGRESSIVE) != j.prog) fail("JPEG-info", "%s: progressive flag %u", jw(j, x).c_str(), unsigned(info.flags));
}
static void jlevel(int l) { bl::Jpeg::opts.idct8 = bl::Jpeg::idct8; bl::Jpeg::opts.conv_ycbcr8_to_rgb32 = bl::Jpeg::rgb32_from_ycbcr8;
#ifdef BL_BUILD_OPT_SSE2
  if (l) { bl::Jpeg::opts.idct8 = bl::Jpeg::idct8_sse2; bl::Jpeg::opts.conv_ycbcr8_to_rgb32 = bl::Jpeg::rgb32_from_ycbcr8_sse2; }
#endif
}
static const int SF[][6] = {{1, 1, 1, 1, 1, 1}, {2, 1, 1, 1, 1, 1}, {1, 2, 1, 1, 1, 1}, {2, 2, 1, 1, 1, 1}, {4, 1, 1, 1, 1, 1}, {1, 4, 1, 1, 1, 1}, {2, 2, 2, 1, 2, 1}, {2, 2, 1, 2, 2, 1}, {1, 1, 2, 2, 1, 1}, {4, 2, 1, 1, 2, 2}, {2, 4, 1, 1, 1, 2}, {3, 1, 1, 1, 3, 1}, {1, 3, 1, 1, 1, 1}, {2, 2, 2, 2, 2, 2}};
static const int JS[] = {1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 20, 24, 31, 33};
static double jpix(uint32_t kind, int c, int x, int y) { switch (kind) { case 0: return gen::rnd(uint32_t(c * 77 + y * 331 + x)) % 256; case 1: return c == 0 ? 128 + 90 * sin(x * 0.4 + y * 0.3) : 128 + 60 * cos(x * 0.25 - y * 0.5 + c); case 2: return (x * 5 + y * 3 + c * 60) % 256; default: return ((x / 3 + y / 2) & 1) ? 255 : 0; } }
static std::vector<gen::Scan> seq_scans(int nc, int k) { std::vector<gen::Scan> v; auto S = [](std::vector<int> c) { gen::Scan s; s.comps = c; return s; }; if (nc == 1) return {S({0})}; switch (k) { case 0: return {S({0, 1, 2})}; case 1: return {S({0}), S({1}), S({2})}; case 2: return {S({2}), S({0, 1})}; case 3: return {S({0}), S({1, 2})}; } return {S({0, 1, 2})}; }
static std::vector<gen::Scan> prog_scans(int nc, int k) {
  std::vector<gen::Scan> v; std::vector<int> all; for (int c = 0; c < nc; c++) all.push_back(c);
  auto dc = [&](bool inter, int ah, int al) { if (inter) v.push_back({all, 0, 0, ah, al}); else for (int c : all) v.push_back({{c}, 0, 0, ah, al}); };
  auto ac = [&](int s, int e, int ah, int al) { for (int c : all) v.push_back({{c}, s, e, ah, al}); };
  switch (k) {
    case 0: dc(true, 0, 0); ac(1, 63, 0, 0); break;
    case 1: dc(true, 0, 1); ac(1, 5, 0, 2); ac(6, 63, 0, 2); ac(1, 63, 2, 1); dc(true, 1, 0); ac(1, 63, 1, 0); break;  // The usual script.
    case 2: dc(false, 0, 0); ac(1, 1, 0, 0); ac(2, 20, 0, 0); ac(21, 63, 0, 0); break;
    case 3: dc(true, 0, 3); ac(1, 63, 0, 3); ac(1, 63, 3, 2); dc(false, 3, 2); ac(1, 63, 2, 1); dc(true, 2, 1); dc(true, 1, 0); ac(1, 30, 1, 0); ac(31, 63, 1, 0); break;
    case 4: dc(true, 0, 0); break;                                   // DC only.
    case 5: dc(true, 0, 0); ac(1, 63, 0, 1); ac(1, 63, 1, 0); break;
    case 6: dc(true, 0, 0); ac(10, 63, 0, 0); ac(1, 9, 0, 0); break;
  }
  return v;
}
// Coefficients that the scans do not send are zero, successive approximation is complete in all scripts.
static void drop_unsent(gen::Jpeg& j) { for (int c = 0; c < j.nc; c++) { bool sent[64] = {}; for (auto& s : j.scans) for (int x : s.comps) if (x == c) for (int k = s.ss; k <= s.se; k++) sent[gen::ZZ[k]] = true; for (size_t i = 0; i < j.co[c].size(); i++) if (!sent[i % 64]) j.co[c][i] = 0; } }
static void jpeg_sizes(bool prog, int lv) {
  jlevel(lv);
  for (int sf = -1; sf < 14; sf++) for (int w : JS) for (int h : JS) for (int k = 0; k < (prog ? 7 : sf < 0 ? 1 : 4); k++) {
    uint32_t hsh = gen::rnd(uint32_t(((sf + 1) * 64 + w) * 64 + h) * 8 + k + prog * 3);
    for (int m = 0; m < (g.thorough ? 12 : 2); m++) item([=] {
      gen::Jpeg j; j.w = w; j.h = h; j.nc = sf < 0 ? 1 : 3; for (int c = 0; c < 3 && sf >= 0; c++) { j.H[c] = SF[sf][c * 2]; j.V[c] = SF[sf][c * 2 + 1]; } if (sf < 0 && (hsh & 1)) { j.H[0] = 2; j.V[0] = 2; }
      j.prog = prog; j.huff = m % 4; j.restart = m == 0 ? 0 : int(hsh >> 3) % 5; j.id0 = int(hsh >> 6) & 1; j.split_tables = (hsh >> 7) & 1; j.fill = m % 3 == 2 ? 2 : 0; j.app = int(hsh >> 15) % 4; j.q16 = m == 1; j.max_eob = !((hsh >> 9) & 1);
      for (int c = 0; c < 3; c++) for (int i = 0; i < 64; i++) j.q[c][i] = m % 2 ? 1 + (i % 8 + i / 8) * (c + 2) : 2; uint32_t kind = (hsh >> 12) % 4;
      j.scans = prog ? prog_scans(j.nc, k) : seq_scans(j.nc, k);
      j.from([&](int c, int x, int y) { return jpix(kind, c, x, y); }); drop_unsent(j);
      jcheck(j, ("level " + std::to_string(lv) + " script " + std::to_string(k)).c_str(), j.nc == 1 ? 1.3 : 4.0, m == 0);
    });
  }
}
static void jpeg_coef() {   // Every coefficient alone and every pair of positions.
  for (int lv = 0; lv < 2; lv++) { 
    for (int k = 0; k < 64; k++) for (int qv : {1, 2, 7, 16, 99, 255}) for (int a = 0; a < 11; a++) for (int sgn = -1; sgn <= 1; sgn += 2) for (int d = -1; d <= 1; d++) { int v = ((1 << a) + d) * sgn; if (!v || abs(v) > 1023 || abs(v) * qv > (k ? 1200 : 1016)) continue;
      item([=] { jlevel(lv); gen::Jpeg j; j.huff = a % 4; j.scans = seq_scans(1, 0); for (int& q : j.q[0]) q = qv; j.layout(); j.co[0][gen::ZZ[k]] = v; char t[80]; snprintf(t, sizeof t, "level %d coefficient %d = %d quantizer %d", lv, k, v, qv); jcheck(j, t, 1.6);
        j.prog = true; j.scans = prog_scans(1, k == 0 ? 0 : 3); jcheck(j, t, 1.6); }); }
    for (int k = 0; k < 64; k++) for (int l = k + 1; l < 64; l++) for (int p = 0; p < (lv ? 1 : 4); p++) item([=] { jlevel(lv); gen::Jpeg j; j.huff = (k + l) % 4; j.scans = seq_scans(1, 0); j.layout(); int va = p == 0 ? 100 : p == 1 ? -1 : p == 2 ? 3 : -200, vb = p == 0 ? -90 : p == 1 ? 1 : p == 2 ? -2 : 250; j.co[0][gen::ZZ[k]] = va; j.co[0][gen::ZZ[l]] = vb; char t[80]; snprintf(t, sizeof t, "level %d coefficients %d = %d, %d = %d", lv, k, va, l, vb); jcheck(j, t, 1.6);
      j.prog = true; for (int s : {1, 2, 3}) { j.scans = prog_scans(1, s); jcheck(j, t, 1.6); } });
  }
}
static void jpeg_seq() {   // Sequences of differences of the DC coefficient and runs of empty blocks.
  jlevel(1);
  static const int D[] = {0, 1, -1, 2, -3, 7, 100, -127, 500, -1000};
  for (int n = 0; n < 1000; n++) item([=] { gen::Jpeg j; j.w = 24; j.scans = seq_scans(1, 0); j.huff = n % 4; j.layout(); int v = 0; int q = n; for (int b = 0; b < 3; b++) { v += D[q % 10]; q /= 10; if (v > 1015) v = 1015; if (v < -1024) v = -1024; j.co[0][size_t(b) * 64] = v; } jcheck(j, ("DC " + std::to_string(n)).c_str(), 1.6); j.prog = true; for (int s : {0, 1, 3}) { j.scans = prog_scans(1, s); jcheck(j, "DC", 1.6); } });
  // A non-zero coefficient before and after n empty blocks.
  for (int n = 0; n < (g.thorough ? 600 : 150); n++) for (int script : {0, 1, 3, 5}) for (int r : {0, 1, 7}) item([=] { gen::Jpeg j; j.w = (n + 2) * 8; j.prog = true; j.restart = r; j.huff = n % 4; j.scans = prog_scans(1, script); j.layout(); j.co[0][9] = 37; j.co[0][1] = -5; j.co[0][size_t(n + 1) * 64 + 2] = -21; j.co[0][size_t(n + 1) * 64 + 63] = 6; if (n > 8) j.co[0][size_t(n / 2) * 64 + 8] = 8; jcheck(j, ("empty blocks " + std::to_string(n)).c_str(), 1.6); });
  if (g.thorough) for (int n : {32766, 32767, 32768, 40000}) item([=] { gen::Jpeg j; j.w = 8 * 200; j.h = 8 * ((n + 199) / 200 + 1); j.prog = true; j.scans = prog_scans(1, 0); j.layout(); j.co[0][9] = 37; j.co[0][size_t(n + 1) * 64 + 2] = -21; jcheck(j, ("empty blocks " + std::to_string(n)).c_str(), 1.6); });
  // Eight blocks, all combinations of a restart interval and a table kind; all 16 first bytes of stuffing.
  for (int r = 0; r < 12; r++) for (int hf = 0; hf < 4; hf++) for (uint32_t s = 0; s < 40; s++) item([=] { gen::Jpeg j; j.w = 40; j.h = 16; j.restart = r; j.huff = hf; j.scans = seq_scans(1, 0); j.layout(); for (size_t i = 0; i < j.co[0].size(); i++) { uint32_t v = gen::rnd(uint32_t(i) * 41 + s); j.co[0][i] = v % 5 ? 0 : int(v >> 8) % 31 - 15; } jcheck(j, ("random " + std::to_string(s)).c_str(), 1.6);
    j.prog = true; for (int k = 0; k < 7; k++) { j.scans = prog_scans(1, k); gen::Jpeg z = j; drop_unsent(z); jcheck(z, "random", 1.6); } });
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init();
  struct G { const char* n; std::function<void()> f; };
  std::vector<G> gs = {{"png0", [] { level(0); png(0); }}, {"png1", [] { level(1); png(1); }}, {"png2", [] { level(2); png(2); }}, {"pngmeta", png_meta}, {"apng", apng}, {"qoi", qoi}, {"bmp", bmp}, {"jpeg0", [] { jpeg_sizes(false, 0); }}, {"jpeg1", [] { jpeg_sizes(false, 1); }}, {"jpegp0", [] { jpeg_sizes(true, 0); }}, {"jpegp1", [] { jpeg_sizes(true, 1); }}, {"jpegcoef", jpeg_coef}, {"jpegseq", jpeg_seq}};
  for (auto& x : gs) if (group(x.n)) { double t0 = now(); uint64_t n0 = g.stats["transitions"]; x.f(); if (getenv("C29_DEV") && g.shard == 0) fprintf(stderr, "%s %llu %.1fs\n", x.n, (unsigned long long)(g.stats["transitions"] - n0), now() - t0); }
  return done();
}
