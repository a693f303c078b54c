// C26: decoding of damaged files. Every truncation, byte replacement, insertion, deletion, field replacement, pair of header bytes and chunk-level edit of a
// corpus of small valid files of every kind is decoded from an exact-size heap block under a memory checker, with different contents of fresh memory.
#include <blend2d/blend2d.h>
#include "vh.h"
#include "codec_gen.h"
#include "jpeg_gen.h"
using namespace vh;
using gen::Bytes;
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
// libstdc++'s own tree functions are not instrumented; these (unbalanced) ones are.
namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
}
#endif
#endif
static int gFill = 0; static bool gIn = false; static const size_t kLimit = size_t(2) << 20;
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) {
  if (!gIn) return __real_malloc(n);
  if (n > kLimit) return nullptr;
  void* p = __real_malloc(n);
#ifndef MSAN
  if (p) memset(p, gFill, n);
#endif
  return p; }
void* __wrap_realloc(void* p, size_t n) { return gIn && n > kLimit ? nullptr : __real_realloc(p, n); }
}
// (zlib is not instrumented.)
static void initialised(const void* p, size_t n) {
#ifdef MSAN
  __msan_unpoison(p, n);
#else
  (void)p; (void)n;
#endif
}
struct File { const char* name; const char* codec; bool is(const char* c) const { return !strcmp(codec, c); } Bytes b; uint64_t full = 0; std::vector<std::pair<size_t, size_t>> parts; };
static std::vector<File> corpus;
static std::vector<std::pair<size_t, size_t>> png_parts(const Bytes& b) { std::vector<std::pair<size_t, size_t>> v; size_t p = 8; while (p + 12 <= b.size()) { size_t n = size_t(b[p]) << 24 | b[p + 1] << 16 | b[p + 2] << 8 | b[p + 3]; v.push_back({p, 12 + n}); p += 12 + n; } return v; }
static std::vector<std::pair<size_t, size_t>> jpg_parts(const Bytes& b) { std::vector<std::pair<size_t, size_t>> v; size_t p = 2; while (p + 4 <= b.size()) { size_t q = p; while (q < b.size() && b[q] == 0xFF) q++; size_t m = b[q], e = q + 1; if (m != 0xD9) e += size_t(b[q + 1] << 8 | b[q + 2]); if (m == 0xDA) while (e + 1 < b.size() && !(b[e] == 0xFF && b[e + 1] && (b[e + 1] & 0xF8) != 0xD0)) e++; v.push_back({p, e - p}); p = e; } return v; }
static const char* nm(const char* fmt, ...) { static char pool[1 << 14]; static size_t used = 0; if (used + 128 > sizeof pool) used = 0; char* b = pool + used; va_list ap; va_start(ap, fmt); vsnprintf(b, 128, fmt, ap); va_end(ap); used += strlen(b) + 1; return b; }
static void add(const char* n, const char* codec, const Bytes& b) { File f; f.name = n; f.codec = codec; f.b = b; initialised(f.b.data(), f.b.size()); if (f.is("PNG")) f.parts = png_parts(b); if (f.is("JPEG")) f.parts = jpg_parts(b); corpus.push_back(f); }
static void make_corpus() {
  static const int CT[][2] = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {2, 8}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {6, 8}};
  for (auto& c : CT) for (int il = 0; il < 2; il++) {
    gen::Png p; p.ctype = c[0]; p.depth = c[1]; p.interlace = il; p.w = c[1] < 8 ? 11 : 3; p.h = il ? 5 : 3; p.level = il ? 6 : -1; p.filter = [](int q, int r) { return (q + r) % 5; };
    if (c[0] == 3) for (int i = 0; i < std::min(1 << c[1], 5); i++) p.palette.push_back(gen::rnd(i) & 0xFFFFFF);
    if (c[0] == 3 && il) { p.has_trns = 1; p.trns = {1, 128}; } if (c[0] == 0 && !il) { p.has_trns = 1; p.trns = {0, 1}; } if (c[0] == 2 && il) { p.has_trns = 1; p.trns = {0, 1, 0, 2, 0, 3}; }
    if (il) p.idat = {3, 5};
    add(nm("PNG type %d depth %d%s", c[0], c[1], il ? " interlaced" : ""), "PNG", p.file());
  }
  for (int ct : {6, 2, 3}) { gen::Png p; p.ctype = ct; p.w = 4; p.h = 3; if (ct == 3) p.palette = {0x102030, 0xFF8000, 0x00FF00};
    Bytes o = p.head(), a; gen::be32(a, 3); gen::be32(a, 0); gen::Png::chunk(o, "acTL", a); p.meta(o); uint32_t seq = 0; static const int R[3][4] = {{0, 0, 4, 3}, {1, 1, 2, 2}, {3, 0, 1, 3}};
    for (int f = 0; f < 3; f++) { Bytes c; gen::be32(c, seq++); gen::be32(c, R[f][2]); gen::be32(c, R[f][3]); gen::be32(c, R[f][0]); gen::be32(c, R[f][1]); gen::be16(c, 1); gen::be16(c, 10); c.push_back(uint8_t(f == 1 ? 2 : 1)); c.push_back(0); gen::Png::chunk(o, "fcTL", c); Bytes z = gen::Png::deflate_(p.raw(R[f][2], R[f][3], R[f][0], R[f][1]), 6); if (f == 0) gen::Png::chunk(o, "IDAT", z); else for (size_t i = 0; i < z.size(); i += (z.size() + 1) / 2) { Bytes fd; gen::be32(fd, seq++); fd.insert(fd.end(), z.begin() + i, z.begin() + std::min(z.size(), i + (z.size() + 1) / 2)); gen::Png::chunk(o, "fdAT", fd); } }
    gen::Png::chunk(o, "IEND", {}); add(nm("APNG type %d", ct), "PNG", o); }
  for (int ch : {3, 4}) { gen::QoiState s; s.alpha = ch == 4; Bytes body; for (gen::QoiTok t : {gen::QoiTok{4, 10, 20, 30, 0}, {1, 1, -1, 0, 0}, {2, 5, 3, -2, 0}, {3, 4, 0, 0, 0}, {5, 1, 2, 3, 99}, {0, (10 * 3 + 20 * 5 + 30 * 7 + 255 * 11) % 64, 0, 0, 0}, {3, 3, 0, 0, 0}}) s.tok(body, t); Bytes o; gen::qoi_head(o, 4, int(s.out.size()) / 4, ch); o.insert(o.end(), body.begin(), body.end()); gen::qoi_end(o); add(nm("QOI %d", ch), "QOI", o); }
  struct B { int hd, d, comp; bool td; }; static const B BM[] = {{12, 1, 0, false}, {12, 24, 0, false}, {40, 1, 0, true}, {40, 4, 0, false}, {40, 8, 0, false}, {40, 16, 0, false}, {40, 16, 3, false}, {40, 24, 0, true}, {40, 32, 3, false}, {40, 32, 6, true}, {52, 32, 3, false}, {56, 32, 3, false}, {108, 16, 3, false}, {124, 32, 0, false}};
  for (auto& b : BM) { gen::Bmp m; m.header = b.hd; m.depth = b.d; m.comp = b.comp; m.topdown = b.td; m.w = b.d < 8 ? 9 : 3; m.h = 3; if (b.comp) { m.write_masks = true; if (b.d == 16) { m.masks[0] = 0xF800; m.masks[1] = 0x7E0; m.masks[2] = 0x1F; } else { m.masks[0] = 0xFF; m.masks[1] = 0xFF00; m.masks[2] = 0xFF0000; if (b.comp == 6 || b.hd > 52) m.masks[3] = 0xFF000000u; } } if (b.d <= 8) for (int i = 0; i < std::min(1 << b.d, 6); i++) m.palette.push_back(gen::rnd(i) & 0xFFFFFF); add(nm("BMP header %d depth %d compression %d", b.hd, b.d, b.comp), "BMP", m.file()); }
  for (int d : {4, 8}) { gen::Rle r(6, 4, d); r.fill(3, 0x12); r.absolute({1, 2, 3}); r.eol(); r.move(2, 1); r.fill(4, 0x31); r.eol(); r.absolute({1, 0, 2, 3, 1}); r.stop(); gen::Bmp m; m.header = 40; m.depth = d; m.comp = d == 8 ? 1 : 2; m.w = 6; m.h = 4; m.rle = r.data; for (int i = 0; i < 4; i++) m.palette.push_back(gen::rnd(i) & 0xFFFFFF); add(nm("BMP RLE%d", d), "BMP", m.file()); }
  auto jp = [&](const char* n, int nc, int h0, int v0, bool prog, int restart, int app, int huff, int script, int w, int h) {
    gen::Jpeg j; j.w = w; j.h = h; j.nc = nc; j.H[0] = h0; j.V[0] = v0; j.prog = prog; j.restart = restart; j.app = app; j.huff = huff; for (auto& q : j.q) for (int i = 0; i < 64; i++) q[i] = 40;
    std::vector<int> all; for (int c = 0; c < nc; c++) all.push_back(c); auto S = [&](std::vector<int> c, int ss, int se, int ah, int al) { gen::Scan s; s.comps = c; s.ss = ss; s.se = se; s.ah = ah; s.al = al; j.scans.push_back(s); };
    if (script == 0) S(all, 0, 63, 0, 0); if (script == 1) for (int c : all) S({c}, 0, 63, 0, 0);
    if (script == 2) { S(all, 0, 0, 0, 1); for (int c : all) { S({c}, 1, 63, 0, 1); } S(all, 0, 0, 1, 0); for (int c : all) S({c}, 1, 63, 1, 0); }
    j.from([&](int c, int x, int y) { return 128 + 100 * sin(x * 0.7 + y * 0.9 + c); }); add(nm("JPEG %s", n), "JPEG", j.file()); };
  jp("gray", 1, 1, 1, false, 0, 0, 0, 0, 9, 8); jp("gray, restarts, long codes", 1, 1, 1, false, 1, 1, 1, 0, 20, 9); jp("4:2:0", 3, 2, 2, false, 0, 2, 3, 0, 17, 9); jp("4:2:2, three scans, restarts", 3, 2, 1, false, 2, 3, 0, 1, 20, 9);
  jp("progressive gray", 1, 1, 1, true, 1, 0, 0, 2, 20, 9); jp("progressive 4:2:0", 3, 2, 2, true, 0, 0, 1, 2, 18, 17); jp("4:1:1", 3, 4, 1, false, 0, 0, 0, 0, 33, 3);
}
struct Res { BLResult r = 0; uint64_t h = 0; BLImageInfo info{}; };
static uint64_t himg(const BLImage& im) {
  BLImageData d; if (im.get_data(&d) != BL_SUCCESS) return 0; Hash h; h.u(d.size.w); h.u(d.size.h); h.u(d.format);
  for (int y = 0; y < d.size.h; y++) { const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride;
#ifdef MSAN
    intptr_t bad = __msan_test_shadow(p, size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); if (bad >= 0) { fail("uninitialised", "%s: pixel (%d,%d) of the %dx%d image is uninitialised", cur_case().c_str(), int(bad / 4), y, d.size.w, d.size.h); return 0; }
#endif
    if (d.format == BL_FORMAT_XRGB32) for (int x = 0; x < d.size.w; x++) { uint32_t v; memcpy(&v, p + x * 4, 4); h.u(v | 0xFF000000u); } else h.b(p, size_t(d.size.w) * (d.format == BL_FORMAT_A8 ? 1 : 4)); }
  return h.h; }
static BLImage gOld; static uint64_t gOldHash;
// Decodes one piece of data in every way; `trunc` says it is a prefix of a valid file.
static void decode(const File& f, const Bytes& b, bool trunc) {
  uint8_t* p = (uint8_t*)malloc(b.size() ? b.size() : 1); memcpy(p, b.data(), b.size());
  const char* nm = f.name; static int turn = 0;
  Res res[2]; int frames[2] = {0, 0}; uint64_t fh[2] = {0, 0}; BLImageCodec codec; codec.find_by_name(f.codec);
  for (int k = 0; k < 2; k++) {
#ifdef MSAN
    if (k) { res[1] = res[0]; fh[1] = fh[0]; frames[1] = frames[0]; break; }
#endif
    gFill = k ? 0xFF : (turn++ & 1) ? 0x5A : 0; gIn = true; {
      BLImageDecoder dec; codec.create_decoder(&dec); BLImageInfo info{}; BLResult ri = dec.read_info(info, p, b.size()); BLImage im(gOld); res[k].r = dec.read_frame(im, p, b.size()); res[k].info = info; 
      if (res[k].r == BL_SUCCESS) { if (ri != BL_SUCCESS) fail("info", "%s: read_info failed with %u, read_frame did not", nm, ri); else if (im.width() != info.size.w || im.height() != info.size.h) fail("announced", "%s: announced %dx%d, decoded %dx%d", nm, info.size.w, info.size.h, im.width(), im.height()); res[k].h = himg(im); }
      else { BLImageData d; if (im.get_data(&d) != BL_SUCCESS) fail("broken-image", "%s: destination has no data", nm); BLImage copy(im); (void)copy.make_mutable(&d); }
      Hash fhh; if (res[k].r == BL_SUCCESS) for (; frames[k] < 4; frames[k]++) { BLResult r = dec.read_frame(im, p, b.size()); fhh.u(r); if (r != BL_SUCCESS) break; fhh.u(himg(im)); if (im.width() != info.size.w || im.height() != info.size.h) { fail("frame-size", "%s: frame %d is %dx%d instead of %dx%d", nm, frames[k] + 1, im.width(), im.height(), info.size.w, info.size.h); break; } }
      fh[k] = fhh.h; } gIn = false;
  }
  if (res[0].r != res[1].r || res[0].h != res[1].h || fh[0] != fh[1] || frames[0] != frames[1]) fail("nondeterministic", "%s: results %u/%u, pixels %s, %d/%d further frames %s depend on the contents of fresh memory", nm, res[0].r, res[1].r, res[0].h == res[1].h ? "same" : "differ", frames[0], frames[1], fh[0] == fh[1] ? "same" : "differ");
  gFill = 0x33; gIn = true; { BLImage im(gOld); BLResult r = im.read_from_data(p, b.size()); gIn = false;
    BLImageCodec any; bool known = any.find_by_data(p, b.size()) == BL_SUCCESS;
    if (r != BL_SUCCESS && himg(im) != gOldHash) fail("destination-changed", "%s: failed with %u and changed the destination image", nm, r);
    if (known && any == codec && (r != res[0].r || (r == BL_SUCCESS && himg(im) != res[0].h))) fail("paths-differ", "%s: read_from_data %u, decoder %u", nm, r, res[0].r);
    if (trunc && r == BL_SUCCESS && himg(im) != f.full) fail("truncated", "%s: the first %zu of %zu bytes are accepted as a different image", nm, b.size(), f.b.size()); }
  free(p); vh::stat(res[0].r == BL_SUCCESS ? "accepted" : "rejected");
}
static uint64_t nIt; static size_t nFile;
static void item(const std::function<void(const File&)>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nFile, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); vh::stat("transitions"); f(corpus[nFile]); }
static void explore(size_t fi) {
  nFile = fi; nIt = 0; const File& f = corpus[fi]; size_t n = f.b.size();
  item([](const File& f) { BLImage im; BLResult r = im.read_from_data(f.b.data(), f.b.size()); if (r != BL_SUCCESS) fail("corpus", "%s: the valid file is rejected (%u)", f.name, r); decode(f, f.b, false); sample(::nm("%s of %zu bytes", f.name, f.b.size())); });
  for (size_t i = 0; i < n; i++) item([=](const File& f) { decode(f, Bytes(f.b.begin(), f.b.begin() + i), true); });
  static const int V[] = {0, 1, 2, 3, 4, 7, 8, 0x10, 0x11, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xD0, 0xD9, 0xDA, 0xFE, 0xFF};
  bool small = n < 400;
  for (size_t i = 0; i < n; i++) {
    if (g.thorough || (i < 90 && small)) for (int v = 0; v < 256; v++) { if (v != f.b[i]) item([=](const File& f) { Bytes b = f.b; b[i] = uint8_t(v); decode(f, b, false); }); }
    else { std::vector<int> vs; for (int v : V) vs.push_back(v); for (int k = 0; k < 8; k++) vs.push_back(f.b[i] ^ (1 << k)); vs.push_back((f.b[i] + 1) & 255); vs.push_back((f.b[i] - 1) & 255); for (int v : vs) if (v != f.b[i]) item([=](const File& f) { Bytes b = f.b; b[i] = uint8_t(v); decode(f, b, false); }); }
    item([=](const File& f) { Bytes b = f.b; b.erase(b.begin() + i); decode(f, b, false); });
    for (int v : {0, 255, 0x41}) item([=](const File& f) { Bytes b = f.b; b.insert(b.begin() + i, uint8_t(v)); decode(f, b, false); });
    for (int w : {2, 4}) for (uint64_t v : {uint64_t(0), uint64_t(1), uint64_t(0x7FFFFFFF), uint64_t(0x80000000), uint64_t(0xFFFFFFFF), uint64_t(0xFFFF), uint64_t(0x10000), uint64_t(0x4000), uint64_t(n), uint64_t(n - i), uint64_t(n - i - w), uint64_t(n - i - w - 4), uint64_t(n - i - w - 3), uint64_t(n - i + 1)}) for (int be = 0; be < 2; be++) if (i + w <= n) item([=](const File& f) { Bytes b = f.b; for (int k = 0; k < w; k++) b[i + (be ? w - 1 - k : k)] = uint8_t(v >> (8 * k)); decode(f, b, false); });
  }
  // Pairs of bytes.
  size_t hd = std::min<size_t>(n, g.thorough ? 140 : 60);
  for (size_t i = 0; i < hd; i++) for (size_t j = i + 1; j < (g.thorough ? hd : std::min(hd, i + 13)); j++) for (int a : {0, 1, 3, 0x80, 0xFF}) for (int c : {0, 1, 2, 0x7F, 0xFF}) item([=](const File& f) { Bytes b = f.b; b[i] = uint8_t(a); b[j] = uint8_t(c); decode(f, b, false); });
  // Chunks: removed, doubled, exchanged, moved to the end, cut together with truncation.
  auto part = [](const File& f, size_t k) { return Bytes(f.b.begin() + f.parts[k].first, f.b.begin() + f.parts[k].first + f.parts[k].second); };
  auto join = [](const File& f, const std::vector<Bytes>& v) { Bytes b(f.b.begin(), f.b.begin() + f.parts[0].first); for (auto& x : v) b.insert(b.end(), x.begin(), x.end()); return b; };
  size_t m = f.parts.size();
  for (size_t i = 0; i < m; i++) for (size_t j = 0; j < m; j++) for (int op = 0; op < 4; op++) item([=](const File& f) { std::vector<Bytes> v; for (size_t k = 0; k < f.parts.size(); k++) v.push_back(part(f, k));
    if (op == 0) { if (i == j) v.erase(v.begin() + i); else std::swap(v[i], v[j]); } else if (op == 1) v.insert(v.begin() + j, part(f, i)); else if (op == 2) { if (i == j) return; Bytes x = v[i]; v.erase(v.begin() + i); v.insert(v.begin() + (j > i ? j - 1 : j), x); } else { if (i >= j) return; v.erase(v.begin() + i, v.begin() + j); } decode(f, join(f, v), false); });
  // Chunks of other files of the same format in place of, or in addition to, their own.
  for (size_t o = 0; o < corpus.size(); o++) { const File& q = corpus[o]; if (o == fi || !q.is(f.codec) || q.parts.empty() || (!g.thorough && (o + fi) % 3)) continue; for (size_t i = 0; i < m; i++) for (size_t j = 0; j < q.parts.size(); j++) for (int op = 0; op < 2; op++) item([=](const File& f) { std::vector<Bytes> v; for (size_t k = 0; k < f.parts.size(); k++) v.push_back(part(f, k)); if (op) v.insert(v.begin() + i, part(corpus[o], j)); else v[i] = part(corpus[o], j); decode(f, join(f, v), false); }); }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init(); make_corpus(); gOld.create(3, 2, BL_FORMAT_A8); { BLImageData d; gOld.make_mutable(&d); for (int y = 0; y < 2; y++) memset((uint8_t*)d.pixel_data + y * d.stride, 0x21 + y, 3); } gOldHash = himg(gOld);
  for (auto& f : corpus) { BLImage im; if (im.read_from_data(f.b.data(), f.b.size()) == BL_SUCCESS) f.full = himg(im); }
  for (size_t i = 0; i < corpus.size(); i++) { double t0 = now(); explore(i); if (getenv("C26_DEV") && g.shard == 0) fprintf(stderr, "%zu %s (%zu bytes): %llu %.1fs\n", i, corpus[i].name, corpus[i].b.size(), (unsigned long long)nIt, now() - t0); }
  return done();
}
