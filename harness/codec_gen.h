// Generators of image files whose decoded pixels are known, independent of the library (zlib is used for compressed PNG data only).
#pragma once
#include <stdint.h>
#include <string.h>
#include <functional>
#include <string>
#include <vector>
#include <zlib.h>
namespace gen {
typedef std::vector<uint8_t> Bytes;
inline uint32_t rnd(uint32_t x) { x *= 2654435761u; x ^= x >> 15; x *= 2246822519u; x ^= x >> 13; x *= 3266489917u; return x ^ (x >> 16); }
inline void be32(Bytes& b, uint32_t v) { for (int i = 3; i >= 0; i--) b.push_back(uint8_t(v >> (8 * i))); }
inline void be16(Bytes& b, uint32_t v) { b.push_back(uint8_t(v >> 8)); b.push_back(uint8_t(v)); }
inline void le32(Bytes& b, uint32_t v) { for (int i = 0; i < 4; i++) b.push_back(uint8_t(v >> (8 * i))); }
inline void le16(Bytes& b, uint32_t v) { b.push_back(uint8_t(v)); b.push_back(uint8_t(v >> 8)); }
inline uint32_t div255(uint32_t x) { return (x + 127) / 255; }
// Premultiplied pixel of straight components.
inline uint32_t prgb(uint32_t r, uint32_t g, uint32_t b, uint32_t a) { return a << 24 | div255(r * a) << 16 | div255(g * a) << 8 | div255(b * a); }
struct Image { int w = 0, h = 0; bool alpha = false; std::vector<uint32_t> px; uint32_t& at(int x, int y) { return px[size_t(y) * w + x]; } };

// PNG
// ---
struct Png {
  int w = 1, h = 1, ctype = 2, depth = 8; bool interlace = false; uint32_t seed = 1;
  std::function<int(int, int)> filter = [](int, int) { return 0; };   // (pass, row) -> filter type.
  std::vector<uint32_t> palette;    // 0xRRGGBB
  Bytes trns; int has_trns = 0;     // Alpha of the palette entries, or the color key (2 or 6 bytes).
  int level = -1;                   // -1: stored blocks, otherwise zlib level.
  std::vector<size_t> idat;         // Sizes of the first IDAT chunks (the last one takes the rest).
  std::function<uint32_t(int, int, int)> sample; // (x, y, channel) -> value; by default pseudo-random.
  int channels() const { return ctype == 0 ? 1 : ctype == 2 ? 3 : ctype == 3 ? 1 : ctype == 4 ? 2 : 4; }
  uint32_t smp(int x, int y, int c) const { if (sample) return sample(x, y, c); uint32_t v = rnd(seed * 7919 + uint32_t(y) * 641 + uint32_t(x) * 5 + uint32_t(c)) >> 7; if (ctype == 3) return v % palette.size(); return v & ((1u << depth) - 1); }
  static void chunk(Bytes& o, const char* tag, const Bytes& d) { be32(o, uint32_t(d.size())); size_t p = o.size(); o.insert(o.end(), tag, tag + 4); o.insert(o.end(), d.begin(), d.end()); be32(o, uint32_t(crc32(0, &o[p], uInt(o.size() - p)))); }
  static Bytes deflate_(const Bytes& raw, int level) {
    if (level >= 0) { uLongf n = compressBound(raw.size()); Bytes z(n); compress2(z.data(), &n, raw.data(), raw.size(), level); z.resize(n); return z; }
    Bytes z = {0x78, 0x01}; size_t i = 0; do { size_t n = raw.size() - i; if (n > 65535) n = 65535; z.push_back(i + n == raw.size()); le16(z, uint32_t(n)); le16(z, uint32_t(~n & 0xFFFF)); z.insert(z.end(), raw.begin() + i, raw.begin() + i + n); i += n; } while (i < raw.size());
    be32(z, uint32_t(adler32(1, raw.data(), uInt(raw.size())))); return z;
  }
  // Filtered data of a w x h image (or of a frame placed at (ox, oy)).
  Bytes raw(int W, int H, int ox = 0, int oy = 0) const {
    static const int A[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
    Bytes out; int nc = channels(), bits = nc * depth, bpp = bits >= 8 ? bits / 8 : 1;
    for (int p = 0; p < (interlace ? 7 : 1); p++) {
      int x0 = interlace ? A[p][0] : 0, y0 = interlace ? A[p][1] : 0, dx = interlace ? A[p][2] : 1, dy = interlace ? A[p][3] : 1;
      int pw = (W - x0 + dx - 1) / dx, ph = (H - y0 + dy - 1) / dy; if (W <= x0 || H <= y0) continue;
      size_t bpl = (size_t(pw) * bits + 7) / 8; Bytes prev(bpl, 0);
      for (int r = 0; r < ph; r++) {
        Bytes row(bpl, 0); size_t bit = 0;
        for (int c = 0; c < pw; c++) for (int k = 0; k < nc; k++) { uint32_t v = smp(ox + x0 + c * dx, oy + y0 + r * dy, k); if (depth == 16) { row[bit / 8] = uint8_t(v >> 8); row[bit / 8 + 1] = uint8_t(v); } else row[bit / 8] |= uint8_t(v << (8 - depth - bit % 8)); bit += depth; }
        int f = filter(p, r); out.push_back(uint8_t(f));
        for (size_t i = 0; i < bpl; i++) {
          int a = i >= size_t(bpp) ? row[i - bpp] : 0, b = prev[i], c = i >= size_t(bpp) ? prev[i - bpp] : 0, pr = 0;
          switch (f) { case 1: pr = a; break; case 2: pr = b; break; case 3: pr = (a + b) / 2; break; case 4: { int q = a + b - c, pa = abs(q - a), pb = abs(q - b), pc = abs(q - c); pr = pa <= pb && pa <= pc ? a : pb <= pc ? b : c; } }
          out.push_back(uint8_t(row[i] - pr));
        }
        prev = row;
      }
    }
    return out;
  }
  Bytes head() const { Bytes o = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}, d; be32(d, w); be32(d, h); d.push_back(uint8_t(depth)); d.push_back(uint8_t(ctype)); d.push_back(0); d.push_back(0); d.push_back(interlace); chunk(o, "IHDR", d); return o; }
  void meta(Bytes& o) const { if (!palette.empty()) { Bytes d; for (uint32_t c : palette) { d.push_back(uint8_t(c >> 16)); d.push_back(uint8_t(c >> 8)); d.push_back(uint8_t(c)); } chunk(o, "PLTE", d); } if (has_trns) chunk(o, "tRNS", trns); }
  void data(Bytes& o) const { Bytes z = deflate_(raw(w, h), level); size_t i = 0; for (size_t n : idat) { if (i + n > z.size()) n = z.size() - i; chunk(o, "IDAT", Bytes(z.begin() + i, z.begin() + i + n)); i += n; } if (i < z.size()) chunk(o, "IDAT", Bytes(z.begin() + i, z.end())); }
  Bytes file() const { Bytes o = head(); meta(o); data(o); chunk(o, "IEND", {}); return o; }
  uint32_t color(int x, int y) const {
    uint32_t m = (1u << depth) - 1;
    if (ctype == 3) { uint32_t i = smp(x, y, 0), c = i < palette.size() ? palette[i] : 0, a = has_trns && i < trns.size() ? trns[i] : 255; return prgb(c >> 16, (c >> 8) & 255, c & 255, a); }
    if (ctype == 0) { uint32_t v = smp(x, y, 0), g = v * 255 / m; return has_trns && v == uint32_t(trns[0] << 8 | trns[1]) ? 0 : prgb(g, g, g, 255); }
    if (ctype == 4) { uint32_t g = smp(x, y, 0); return prgb(g, g, g, smp(x, y, 1)); }
    uint32_t r = smp(x, y, 0), g = smp(x, y, 1), b = smp(x, y, 2);
    if (ctype == 2) return has_trns && r == uint32_t(trns[0] << 8 | trns[1]) && g == uint32_t(trns[2] << 8 | trns[3]) && b == uint32_t(trns[4] << 8 | trns[5]) ? 0 : prgb(r, g, b, 255);
    return prgb(r, g, b, smp(x, y, 3));
  }
  Image image() const { Image im; im.w = w; im.h = h; im.px.resize(size_t(w) * h); im.alpha = ctype != 2 || has_trns; for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) im.at(x, y) = color(x, y); return im; }
};

// QOI
// ---
struct QoiTok { int op; int a, b, c, d; };   // op 0 index, 1 diff, 2 luma, 3 run, 4 rgb, 5 rgba.
inline void qoi_head(Bytes& o, int w, int h, int ch, int cs = 0) { for (char c : {'q', 'o', 'i', 'f'}) o.push_back(uint8_t(c)); be32(o, w); be32(o, h); o.push_back(uint8_t(ch)); o.push_back(uint8_t(cs)); }
// Applies tokens as the specification says; returns the number of pixels. `judged` is cleared when an index refers to an entry never written.
struct QoiState { uint8_t px[4] = {0, 0, 0, 255}; uint8_t idx[64][4] = {}; bool set[64] = {}; bool judged = true; std::vector<uint32_t> out; bool alpha;
  void put() { uint32_t v = alpha ? prgb(px[0], px[1], px[2], px[3]) : 0xFF000000u | px[0] << 16 | px[1] << 8 | px[2]; out.push_back(v); int k = (px[0] * 3 + px[1] * 5 + px[2] * 7 + px[3] * 11) % 64; memcpy(idx[k], px, 4); set[k] = true; }
  void tok(Bytes& o, const QoiTok& t) {
    switch (t.op) {
      case 0: o.push_back(uint8_t(t.a)); memcpy(px, idx[t.a], 4); if (!set[t.a]) judged = false; put(); break;
      case 1: o.push_back(uint8_t(0x40 | (t.a + 2) << 4 | (t.b + 2) << 2 | (t.c + 2))); px[0] += t.a; px[1] += t.b; px[2] += t.c; put(); break;
      case 2: o.push_back(uint8_t(0x80 | (t.a + 32))); o.push_back(uint8_t((t.b + 8) << 4 | (t.c + 8))); px[0] += t.a + t.b; px[1] += t.a; px[2] += t.a + t.c; put(); break;
      case 3: o.push_back(uint8_t(0xC0 | (t.a - 1))); for (int i = 0; i < t.a; i++) put(); break;
      case 4: o.push_back(0xFE); o.push_back(uint8_t(t.a)); o.push_back(uint8_t(t.b)); o.push_back(uint8_t(t.c)); px[0] = uint8_t(t.a); px[1] = uint8_t(t.b); px[2] = uint8_t(t.c); put(); break;
      case 5: o.push_back(0xFF); o.push_back(uint8_t(t.a)); o.push_back(uint8_t(t.b)); o.push_back(uint8_t(t.c)); o.push_back(uint8_t(t.d)); px[0] = uint8_t(t.a); px[1] = uint8_t(t.b); px[2] = uint8_t(t.c); px[3] = uint8_t(t.d); put(); break;
    }
  }
};
inline void qoi_end(Bytes& o) { for (int i = 0; i < 7; i++) o.push_back(0); o.push_back(1); }

// BMP
// ---
struct Bmp {
  int w = 1, h = 1, depth = 24, header = 40, comp = 0; bool topdown = false; uint32_t seed = 1;
  uint32_t masks[4] = {0, 0, 0, 0}; bool write_masks = false; std::vector<uint32_t> palette; int gap = 0; bool size_zero = false; Bytes rle; uint32_t rle_size = 0;
  std::function<uint32_t(int, int)> sample;
  uint32_t smp(int x, int y) const { if (sample) return sample(x, y); uint32_t v = rnd(seed * 131 + uint32_t(y) * 977 + uint32_t(x) * 3); return depth >= 32 ? v : v & ((1u << depth) - 1); }
  Bytes file() const {
    Bytes o = {'B', 'M'}; int pe = header == 12 ? 3 : 4; size_t extra = (header == 40 && (comp == 3 || comp == 6)) ? (comp == 6 ? 16 : 12) : 0; size_t off = 14 + header + extra + palette.size() * pe + gap, bpl = ((size_t(w) * depth + 31) / 32) * 4, isz = rle.empty() ? bpl * h : rle.size();
    le32(o, uint32_t(off + isz)); le32(o, 0); le32(o, uint32_t(off)); le32(o, header);
    if (header == 12) { le16(o, w); le16(o, h); le16(o, 1); le16(o, depth); }
    else {
      le32(o, w); le32(o, topdown ? uint32_t(-h) : uint32_t(h)); le16(o, 1); le16(o, depth); le32(o, comp); le32(o, size_zero ? 0 : uint32_t(isz)); le32(o, 2835); le32(o, 2835); le32(o, uint32_t(palette.size())); le32(o, 0);
      Bytes m; for (int i = 0; i < 4; i++) le32(m, write_masks ? masks[i] : 0);
      if (header >= 52) o.insert(o.end(), m.begin(), m.begin() + 12);
      if (header >= 56) o.insert(o.end(), m.begin() + 12, m.end());
      while (o.size() < size_t(14 + header)) o.push_back(0);
      if (extra) o.insert(o.end(), m.begin(), m.begin() + extra);
    }
    for (uint32_t c : palette) { o.push_back(uint8_t(c)); o.push_back(uint8_t(c >> 8)); o.push_back(uint8_t(c >> 16)); if (pe == 4) o.push_back(0); }
    for (int i = 0; i < gap; i++) o.push_back(0xEE);
    if (!rle.empty()) { o.insert(o.end(), rle.begin(), rle.end()); return o; }
    for (int r = 0; r < h; r++) { int y = topdown ? r : h - 1 - r; Bytes row(bpl, 0); for (int x = 0; x < w; x++) { uint32_t v = smp(x, y); if (depth < 8) row[size_t(x) * depth / 8] |= uint8_t(v << (8 - depth - (x * depth) % 8)); else for (int k = 0; k < depth / 8; k++) row[size_t(x) * depth / 8 + k] = uint8_t(v >> (8 * k)); } o.insert(o.end(), row.begin(), row.end()); }
    return o;
  }
  // Component under a mask, widened to 8 bits by bit repetition or scaling - `lo`..`hi` are the acceptable values.
  static void comp8(uint32_t v, uint32_t mask, uint32_t& lo, uint32_t& hi) { int s = __builtin_ctz(mask), n = __builtin_popcount(mask); uint32_t c = (v & mask) >> s, m = n == 32 ? 0xFFFFFFFFu : (1u << n) - 1; if (n >= 8) { lo = hi = c >> (n - 8); return; } uint32_t sc = (c * 255 * 2 + m) / (2 * m), rep = 0; for (int b = 8 - n; ; b -= n) { if (b >= 0) rep |= c << b; else { rep |= c >> -b; break; } if (b == 0) break; } lo = sc < rep ? sc : rep; hi = sc < rep ? rep : sc; }
};

// RLE data of BMP: applied as the format describes it. Pixels never written are `skip`.
struct Rle { int w, h, depth; Bytes data; std::vector<int> px; int x = 0, y = 0; bool over = false;
  Rle(int w_, int h_, int d) : w(w_), h(h_), depth(d), px(size_t(w_) * h_, -1) {}
  void set(int v) { if (y < h && x < w) px[size_t(y) * w + x] = v; else over = true; x++; }
  void fill(int n, int v) { data.push_back(uint8_t(n)); data.push_back(uint8_t(v)); for (int i = 0; i < n; i++) set(depth == 8 ? v : i & 1 ? v & 15 : v >> 4); }
  void absolute(const std::vector<int>& v) { data.push_back(0); data.push_back(uint8_t(v.size())); Bytes b; if (depth == 8) for (int i : v) b.push_back(uint8_t(i)); else for (size_t i = 0; i < v.size(); i += 2) b.push_back(uint8_t(v[i] << 4 | (i + 1 < v.size() ? v[i + 1] : 0))); if (b.size() & 1) b.push_back(0); data.insert(data.end(), b.begin(), b.end()); for (int i : v) set(i); }
  void eol() { data.push_back(0); data.push_back(0); x = 0; y++; }
  void move(int dx, int dy) { data.push_back(0); data.push_back(2); data.push_back(uint8_t(dx)); data.push_back(uint8_t(dy)); x += dx; y += dy; if (x > w || y > h) over = true; }
  void stop() { data.push_back(0); data.push_back(1); }
};
} // namespace
