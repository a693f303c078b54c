// Generator of JPEG files (sequential and progressive, Huffman) from given coefficients, and a double precision decoder of the same coefficients.
#pragma once
#include <math.h>
#include <map>
#include "codec_gen.h"
namespace gen {
static const int ZZ[64] = {0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};
struct DctTab { double c[8][8]; DctTab() { for (int u = 0; u < 8; u++) for (int x = 0; x < 8; x++) c[u][x] = (u ? 0.5 : 0.5 / sqrt(2.0)) * cos((2 * x + 1) * u * 3.14159265358979323846 / 16); } };
inline const DctTab& dct() { static DctTab t; return t; }
inline void fdct(const double* in, double* out) { double t[64]; auto& c = dct().c; for (int y = 0; y < 8; y++) for (int u = 0; u < 8; u++) { double s = 0; for (int x = 0; x < 8; x++) s += in[y * 8 + x] * c[u][x]; t[y * 8 + u] = s; } for (int v = 0; v < 8; v++) for (int u = 0; u < 8; u++) { double s = 0; for (int y = 0; y < 8; y++) s += t[y * 8 + u] * c[v][y]; out[v * 8 + u] = s; } }
inline void idct(const double* in, double* out) { double t[64]; auto& c = dct().c; for (int v = 0; v < 8; v++) for (int x = 0; x < 8; x++) { double s = 0; for (int u = 0; u < 8; u++) s += in[v * 8 + u] * c[u][x]; t[v * 8 + x] = s; } for (int y = 0; y < 8; y++) for (int x = 0; x < 8; x++) { double s = 0; for (int v = 0; v < 8; v++) s += t[v * 8 + x] * c[v][y]; out[y * 8 + x] = s; } }

struct Scan { std::vector<int> comps; int ss = 0, se = 63, ah = 0, al = 0; };
struct Jpeg {
  int w = 8, h = 8, nc = 1; int H[3] = {1, 1, 1}, V[3] = {1, 1, 1}; bool prog = false; int restart = 0; int huff = 0; int id0 = 1; bool q16 = false; int fill = 0; int app = 0; bool split_tables = false; bool dri_between = false; bool dc_only_tables_late = false; bool max_eob = true;
  int q[3][64]; std::vector<Scan> scans; int bw[3], bh[3], pw[3], ph[3], hm, vm; std::vector<int> co[3];   // Coefficients in natural order.
  Jpeg() { for (auto& t : q) for (int& v : t) v = 1; }
  void layout() { hm = vm = 1; int hh[3], vv[3]; for (int c = 0; c < nc; c++) { hh[c] = nc == 1 ? 1 : H[c]; vv[c] = nc == 1 ? 1 : V[c]; hm = std::max(hm, hh[c]); vm = std::max(vm, vv[c]); }
    for (int c = 0; c < nc; c++) { bw[c] = (w + hm * 8 - 1) / (hm * 8) * hh[c]; bh[c] = (h + vm * 8 - 1) / (vm * 8) * vv[c]; pw[c] = (w * hh[c] + hm - 1) / hm; ph[c] = (h * vv[c] + vm - 1) / vm; co[c].assign(size_t(bw[c]) * bh[c] * 64, 0); } }
  // Coefficients of sample planes given by a function (component, x, y) -> 0..255.
  void from(const std::function<double(int, int, int)>& f) { layout(); for (int c = 0; c < nc; c++) for (int b = 0; b < bw[c] * bh[c]; b++) { double in[64], out[64]; int bx = b % bw[c] * 8, by = b / bw[c] * 8; for (int i = 0; i < 64; i++) in[i] = f(c, bx + i % 8, by + i / 8) - 128; fdct(in, out); for (int i = 0; i < 64; i++) co[c][size_t(b) * 64 + i] = int(lrint(out[i] / q[c][i])); } }
  int* block(int c, int bx, int by) { return &co[c][(size_t(by) * bw[c] + bx) * 64]; }

  // Entropy coding: tokens are collected first, so that the tables can be made for the symbols that occur.
  struct Tok { int table; int sym; uint32_t bits; int n; };   // table -1: raw bits, -2: restart marker.
  std::vector<Tok> toks; void put(int t, int s, uint32_t b = 0, int n = 0) { toks.push_back({t, s, b, n}); }
  static int cat(int v) { v = abs(v); int n = 0; while (v) n++, v >>= 1; return n; }
  static uint32_t ext(int v, int n) { return v < 0 ? uint32_t(v - 1) & ((1u << n) - 1) : uint32_t(v); }
  int eobrun = 0, eobtab = 0; std::vector<int> corr;    // Pending end-of-band run and its correction bits.
  void flush_eob() { if (!eobrun) return; int n = cat(eobrun) - 1; put(eobtab, n << 4, uint32_t(eobrun) & ((1u << n) - 1), n); for (int b : corr) put(-1, 0, uint32_t(b), 1); eobrun = 0; corr.clear(); }
  void code_block(const Scan& s, int c, const int* b, int& pred) {
    int td = c ? 1 : 0, ta = 2 + td;
    if (!prog) {
      int n = cat(b[0] - pred); put(td, n, ext(b[0] - pred, n), n); pred = b[0]; int run = 0;
      for (int k = 1; k < 64; k++) { int v = b[ZZ[k]]; if (!v) { run++; continue; } while (run > 15) put(ta, 0xF0), run -= 16; int m = cat(v); put(ta, run << 4 | m, ext(v, m), m); run = 0; }
      if (run) put(ta, 0); return;
    }
    if (s.ss == 0) { if (!s.ah) { int v = b[0] >> s.al, n = cat(v - pred); put(td, n, ext(v - pred, n), n); pred = v; } else put(-1, 0, uint32_t(b[0] >> s.al) & 1, 1); return; }
    auto mag = [&](int k) { return abs(b[ZZ[k]]) >> s.al; };
    if (!s.ah) {
      int run = 0;
      for (int k = s.ss; k <= s.se; k++) { int m = mag(k); if (!m) { run++; continue; } flush_eob(); while (run > 15) put(ta, 0xF0), run -= 16; int v = b[ZZ[k]] < 0 ? -m : m, n = cat(v); put(ta, run << 4 | n, ext(v, n), n); run = 0; }
      if (run) { eobtab = ta; if (++eobrun == 0x7FFF || !max_eob) flush_eob(); }
    } else {
      int last = s.ss - 1; for (int k = s.ss; k <= s.se; k++) if (mag(k) == 1) last = k;
      int run = 0; std::vector<int> bits;
      for (int k = s.ss; k <= s.se; k++) {
        int m = mag(k); if (!m) { run++; continue; }
        while (run > 15 && k <= last) { flush_eob(); put(ta, 0xF0); run -= 16; for (int x : bits) put(-1, 0, uint32_t(x), 1); bits.clear(); }
        if (m > 1) { bits.push_back(m & 1); continue; }
        flush_eob(); put(ta, run << 4 | 1, b[ZZ[k]] > 0, 1); for (int x : bits) put(-1, 0, uint32_t(x), 1); bits.clear(); run = 0;
      }
      if (run || !bits.empty()) { eobtab = ta; eobrun++; corr.insert(corr.end(), bits.begin(), bits.end()); if (eobrun == 0x7FFF || !max_eob || corr.size() > 900) flush_eob(); }
    }
  }
  void code_scan(const Scan& s) {
    int pred[3] = {0, 0, 0}; int mw, mh; bool single = s.comps.size() == 1;
    if (single) { int c = s.comps[0]; mw = (pw[c] + 7) / 8; mh = (ph[c] + 7) / 8; } else { mw = (w + hm * 8 - 1) / (hm * 8); mh = (h + vm * 8 - 1) / (vm * 8); }
    int cnt = 0;
    for (int y = 0; y < mh; y++) for (int x = 0; x < mw; x++) {
      if (restart && cnt == restart) { flush_eob(); put(-2, 0); cnt = 0; pred[0] = pred[1] = pred[2] = 0; } cnt++;
      for (int c : s.comps) { int hh = single || nc == 1 ? 1 : H[c], vv = single || nc == 1 ? 1 : V[c]; for (int j = 0; j < vv; j++) for (int i = 0; i < hh; i++) code_block(s, c, block(c, x * hh + i, y * vv + j), pred[c]); }
    }
    flush_eob();
  }
  struct Huff { int len[256]; uint32_t code[256]; std::vector<int> order; int count[17]; };
  static Huff make(const std::map<int, int>& freq, int mode, bool ac) {
    Huff t; memset(t.len, 0, sizeof t.len); std::vector<std::pair<int, int>> s; for (auto& f : freq) s.push_back({-f.second, f.first}); std::sort(s.begin(), s.end()); if (s.empty()) s.push_back({0, 0});
    std::vector<int> L;
    if (mode == 2) { std::vector<bool> used(256); for (auto& x : s) used[x.second] = true; if (ac) { for (int v = 0; v < 256; v++) if (!used[v]) s.push_back({0, v}); for (int i = 0; i < 256; i++) L.push_back(i < 255 ? 8 : 9); } else { for (int v = 0; v < 16; v++) if (!used[v]) s.push_back({0, v}); for (int i = 0; i < 16; i++) L.push_back(i < 15 ? 4 : 5); } } // Complete tables.
    else if (mode == 1) { for (size_t i = 0; i < s.size(); i++) L.push_back(i < 6 ? int(i) + 1 : 16); }                       // Unary, then the longest codes.
    else if (mode == 3) { int n = 0; while ((1u << n) <= s.size()) n++; for (size_t i = 0; i < s.size(); i++) L.push_back(std::max(n, 9)); }   // All longer than the acceleration table.
    else { int n = 0; while ((1u << n) <= s.size()) n++; for (size_t i = 0; i < s.size(); i++) L.push_back(std::max(n, 1)); }     // The shortest fixed length.
    memset(t.count, 0, sizeof t.count); uint32_t code = 0; int prev = L[0];
    for (size_t i = 0; i < s.size(); i++) { code <<= L[i] - prev; prev = L[i]; t.len[s[i].second] = L[i]; t.code[s[i].second] = code++; t.order.push_back(s[i].second); t.count[L[i]]++; }
    return t;
  }
  void marker(Bytes& o, int m) const { for (int i = 0; i < fill; i++) o.push_back(0xFF); o.push_back(0xFF); o.push_back(uint8_t(m)); }
  void segment(Bytes& o, int m, const Bytes& d) const { marker(o, m); be16(o, uint32_t(d.size() + 2)); o.insert(o.end(), d.begin(), d.end()); }
  Bytes file() {
    Bytes o = {0xFF, 0xD8}; auto str = [](const char* s, size_t n) { return Bytes(s, s + n); };
    if (app == 1) { Bytes d = str("JFIF\0\1\2\1\0\x48\0\x60\0\0", 14); segment(o, 0xE0, d); }
    if (app == 2) { Bytes d = str("JFIF\0\1\1\2\0\x0A\0\x14\2\1", 14); for (int i = 0; i < 6; i++) d.push_back(uint8_t(i * 40)); segment(o, 0xE0, d); segment(o, 0xFE, str("comment\xFF\xD9", 9)); segment(o, 0xE1, str("Exif\0\0zz", 8)); segment(o, 0xFE, {}); }
    if (app == 3) { segment(o, 0xE0, str("JFIF\0\1\2\0\0\1\0\1\0\0", 14)); Bytes d = str("JFXX\0\x13\1\2", 8); for (int i = 0; i < 6; i++) d.push_back(uint8_t(i)); segment(o, 0xE0, d); segment(o, 0xEE, str("Adobe\0\x64\0\0\0\0\1", 12)); }
    auto dqt = [&] { Bytes d; for (int c = 0; c < nc; c++) { d.push_back(uint8_t((q16 ? 16 : 0) | c)); for (int k = 0; k < 64; k++) { if (q16) be16(d, uint32_t(q[c][ZZ[k]])); else d.push_back(uint8_t(q[c][ZZ[k]])); } if (split_tables) { segment(o, 0xDB, d); d.clear(); } } if (!d.empty()) segment(o, 0xDB, d); };
    auto sof = [&] { Bytes d; d.push_back(8); be16(d, uint32_t(h)); be16(d, uint32_t(w)); d.push_back(uint8_t(nc)); for (int c = 0; c < nc; c++) { d.push_back(uint8_t(c + id0)); d.push_back(uint8_t(H[c] << 4 | V[c])); d.push_back(uint8_t(c)); } segment(o, prog ? 0xC2 : app == 2 ? 0xC1 : 0xC0, d); };
    if (split_tables) { sof(); dqt(); } else { dqt(); sof(); }
    if (restart) { Bytes d; be16(d, uint32_t(restart)); segment(o, 0xDD, d); }
    for (const Scan& s : scans) {
      toks.clear(); eobrun = 0; corr.clear(); code_scan(s);
      std::map<int, int> f[4]; for (auto& t : toks) if (t.table >= 0) f[t.table][t.sym]++;
      Huff hu[4]; Bytes d; for (int t = 0; t < 4; t++) { if (f[t].empty()) continue; hu[t] = make(f[t], huff, t >= 2); d.push_back(uint8_t((t >> 1) << 4 | (t & 1))); for (int l = 1; l <= 16; l++) d.push_back(uint8_t(hu[t].count[l])); for (int v : hu[t].order) d.push_back(uint8_t(v)); if (split_tables) { segment(o, 0xC4, d); d.clear(); } }
      if (!d.empty()) segment(o, 0xC4, d);
      if (dri_between) { Bytes e; be16(e, uint32_t(restart)); segment(o, 0xDD, e); }
      Bytes e; e.push_back(uint8_t(s.comps.size())); for (int c : s.comps) { e.push_back(uint8_t(c + id0)); e.push_back(uint8_t(c ? 0x11 : 0x00)); } e.push_back(uint8_t(s.ss)); e.push_back(uint8_t(s.se)); e.push_back(uint8_t(s.ah << 4 | s.al)); segment(o, 0xDA, e);
      uint64_t acc = 0; int n = 0, rst = 0; auto bits = [&](uint32_t v, int k) { for (int i = k - 1; i >= 0; i--) { acc = acc << 1 | ((v >> i) & 1); if (++n == 8) { o.push_back(uint8_t(acc)); if (uint8_t(acc) == 0xFF) o.push_back(0); n = 0; acc = 0; } } };
      auto align = [&] { while (n) bits(1, 1); };
      for (auto& t : toks) { if (t.table == -2) { align(); o.push_back(0xFF); o.push_back(uint8_t(0xD0 + rst)); rst = (rst + 1) & 7; continue; } if (t.table >= 0) bits(hu[t.table].code[t.sym], hu[t.table].len[t.sym]); bits(t.bits, t.n); }
      align();
    }
    marker(o, 0xD9); return o;
  }
  // Decoded planes and colors.
  std::vector<double> plane[3];
  void decode() { for (int c = 0; c < nc; c++) { plane[c].assign(size_t(bw[c]) * bh[c] * 64, 0); for (int b = 0; b < bw[c] * bh[c]; b++) { double in[64], out[64]; for (int i = 0; i < 64; i++) in[i] = double(co[c][size_t(b) * 64 + i]) * q[c][i]; idct(in, out); for (int i = 0; i < 64; i++) plane[c][size_t(b / bw[c] * 8 + i / 8) * bw[c] * 8 + b % bw[c] * 8 + i % 8] = std::min(255.0, std::max(0.0, out[i] + 128)); } } }
  double smp(int c, int x, int y) const { x = std::max(0, std::min(x, pw[c] - 1)); y = std::max(0, std::min(y, ph[c] - 1)); return plane[c][size_t(y) * bw[c] * 8 + x]; }
  double up(int c, int x, int y) const {
    int hs = hm / (nc == 1 ? 1 : H[c]), vs = vm / (nc == 1 ? 1 : V[c]); int X = x / hs, Y = y / vs;
    if (hs > 2 || vs > 2) return smp(c, X, Y);
    int X2 = hs == 1 ? X : x & 1 ? X + 1 : X - 1, Y2 = vs == 1 ? Y : y & 1 ? Y + 1 : Y - 1;
    return ((smp(c, X, Y) * 3 + smp(c, X2, Y)) * 3 + smp(c, X, Y2) * 3 + smp(c, X2, Y2)) / 16;
  }
  void rgb(int x, int y, double* o) const { double Y = up(0, x, y); if (nc == 1) { o[0] = o[1] = o[2] = Y; return; } double cb = up(1, x, y) - 128, cr = up(2, x, y) - 128; double v[3] = {Y + 1.402 * cr, Y - 0.344136 * cb - 0.714136 * cr, Y + 1.772 * cb}; for (int i = 0; i < 3; i++) o[i] = std::min(255.0, std::max(0.0, v[i])); }
};
} // namespace
