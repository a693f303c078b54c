// C22: pixel conversion between every pair of formats of a table: every source value (or every component / alpha pair), every
// CPU level, row length, alignment, stride and gap, against a conversion computed from the bit layouts.
#include <cmath>
#include <blend2d/blend2d.h>
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include "vh.h"
using namespace vh;
struct Fmt { const char* name; uint32_t depth, flags; uint8_t s[4], sh[4]; int pal; };
enum { RGB = BL_FORMAT_FLAG_RGB, A = BL_FORMAT_FLAG_ALPHA, L = BL_FORMAT_FLAG_LUM, P = BL_FORMAT_FLAG_PREMULTIPLIED, SW = BL_FORMAT_FLAG_BYTE_SWAP, IX = BL_FORMAT_FLAG_INDEXED };
static std::vector<Fmt> F;
static BLRgba32 pal[4][256];
static void formats() {
  auto add = [&](const char* n, uint32_t d, uint32_t fl, int r, int g, int b, int a, int rs, int gs, int bs, int as, int p = 0) { F.push_back(Fmt{n, d, fl, {(uint8_t)r, (uint8_t)g, (uint8_t)b, (uint8_t)a}, {(uint8_t)rs, (uint8_t)gs, (uint8_t)bs, (uint8_t)as}, p}); };
  static const int perm[8][4] = {{16, 8, 0, 24}, {0, 8, 16, 24}, {24, 16, 8, 0}, {8, 16, 24, 0}, {24, 8, 0, 16}, {0, 16, 24, 8}, {8, 24, 0, 16}, {16, 24, 8, 0}};
  static const char* pn[8] = {"xrgb", "xbgr", "rgbx", "bgrx", "rxgb", "bgxr", "gxrb", "grbx"};
  static char names[200][40]; int k = 0; auto nm = [&](const char* f, const char* a, const char* b) { snprintf(names[k], 40, f, a, b); return names[k++]; };
  for (int i = 0; i < 8; i++) for (int m = 0; m < 3; m++) for (int sw = 0; sw < 2; sw++) if (!sw || i == 0 || i == 6)
    add(nm(m == 0 ? "%s32%s" : m == 1 ? "%s32a%s" : "%s32p%s", pn[i], sw ? "-swap" : ""), 32, RGB | (m ? A : 0) | (m == 2 ? P : 0) | (sw ? SW : 0), 8, 8, 8, m ? 8 : 0, perm[i][0], perm[i][1], perm[i][2], m ? perm[i][3] : 0);
  add("rgb24", 24, RGB, 8, 8, 8, 0, 16, 8, 0, 0); add("bgr24", 24, RGB, 8, 8, 8, 0, 0, 8, 16, 0); add("gbr24", 24, RGB, 8, 8, 8, 0, 8, 0, 16, 0); add("rgb24-swap", 24, RGB | SW, 8, 8, 8, 0, 16, 8, 0, 0);
  add("rgb666", 24, RGB, 6, 6, 6, 0, 12, 6, 0, 0); add("rgb666-swap", 24, RGB | SW, 6, 6, 6, 0, 12, 6, 0, 0); add("rgba6666", 24, RGB | A, 6, 6, 6, 6, 18, 12, 6, 0); add("rgba6666p", 24, RGB | A | P, 6, 6, 6, 6, 18, 12, 6, 0);
  for (int sw = 0; sw < 2; sw++) { uint32_t w = sw ? SW : 0; const char* t = sw ? "-swap" : "";
    add(nm("565%s", t, ""), 16, RGB | w, 5, 6, 5, 0, 11, 5, 0, 0); add(nm("555%s", t, ""), 16, RGB | w, 5, 5, 5, 0, 10, 5, 0, 0);
    add(nm("1555%s", t, ""), 16, RGB | A | w, 5, 5, 5, 1, 10, 5, 0, 15); add(nm("1555p%s", t, ""), 16, RGB | A | P | w, 5, 5, 5, 1, 10, 5, 0, 15);
    add(nm("4444%s", t, ""), 16, RGB | A | w, 4, 4, 4, 4, 8, 4, 0, 12); add(nm("4444p%s", t, ""), 16, RGB | A | P | w, 4, 4, 4, 4, 8, 4, 0, 12);
    add(nm("444%s", t, ""), 16, RGB | w, 4, 4, 4, 0, 8, 4, 0, 0); add(nm("la88%s", t, ""), 16, L | A | w, 8, 8, 8, 8, 0, 0, 0, 8); add(nm("8332%s", t, ""), 16, RGB | A | w, 3, 3, 2, 8, 5, 2, 0, 8);
    add(nm("2101010%s", t, ""), 32, RGB | A | w, 10, 10, 10, 2, 20, 10, 0, 30); add(nm("2101010p%s", t, ""), 32, RGB | A | P | w, 10, 10, 10, 2, 20, 10, 0, 30); add(nm("101010%s", t, ""), 32, RGB | w, 10, 10, 10, 0, 20, 10, 0, 0);
    add(nm("111111%s", t, ""), 32, RGB | w, 11, 11, 10, 0, 21, 10, 0, 0); add(nm("x4444%s", t, ""), 32, RGB | A | w, 4, 4, 4, 4, 20, 12, 4, 28); add(nm("r7g7b7a7%s", t, ""), 32, RGB | A | w, 7, 7, 7, 7, 0, 7, 14, 21); add(nm("r16%s", t, ""), 32, RGB | w, 12, 12, 8, 0, 20, 8, 0, 0); }
  add("332", 8, RGB, 3, 3, 2, 0, 5, 2, 0, 0); add("2222", 8, RGB | A, 2, 2, 2, 2, 4, 2, 0, 6); add("a8", 8, A, 0, 0, 0, 8, 0, 0, 0, 0); add("l8", 8, L, 8, 8, 8, 0, 0, 0, 0, 0); add("la44", 8, L | A, 4, 4, 4, 4, 0, 0, 0, 4); add("a16", 16, A, 0, 0, 0, 8, 0, 0, 0, 8); add("a32", 32, A, 0, 0, 0, 8, 0, 0, 0, 24); add("a4", 8, A, 0, 0, 0, 4, 0, 0, 0, 2); add("l16", 16, L, 16, 16, 16, 0, 0, 0, 0, 0);
  for (int d : {1, 2, 4, 8}) for (int p = 0; p < 4; p++) { add(nm(p == 0 ? "idx%s-rgb" : p == 1 ? "idx%s-rgba" : p == 2 ? "idx%s-rgbap" : "idx%s-a", d == 1 ? "1" : d == 2 ? "2" : d == 4 ? "4" : "8", ""), d, IX | (p == 0 ? RGB : p == 3 ? A : RGB | A) | (p == 2 ? P : 0), 0, 0, 0, 0, 0, 0, 0, 0, p); }
  for (int i = 0; i < 256; i++) { uint32_t a = i == 0 ? 255 : i == 1 ? 0 : (i * 37) & 255, x = i * 73 + 11, y = i * 151 + 200, z = i * 7; x &= 255; y &= 255; z &= 255; if (i == 2) x = y = z = 255;
    pal[0][i] = BLRgba32(0x77000000u | x << 16 | y << 8 | z); pal[1][i] = BLRgba32(a << 24 | x << 16 | y << 8 | z); auto m = [&](uint32_t c) { return c * a / 255; }; pal[2][i] = BLRgba32(a << 24 | m(x) << 16 | m(y) << 8 | m(z)); pal[3][i] = BLRgba32(((i * 3) & 255) << 24 | x); }
}
// ---- The definition.
struct Px { double c[4]; bool bad; };   // r, g, b, a in 0..255 (after expansion to 8 bits).
static uint32_t bits_of(const Fmt& f, const uint8_t* p) { uint32_t v = 0, n = f.depth / 8; for (uint32_t i = 0; i < n; i++) v |= uint32_t(p[i]) << 8 * ((f.flags & SW) ? n - 1 - i : i); return v; }
static uint32_t expand8(uint32_t v, uint32_t n) { if (n >= 8) return v >> (n - 8); uint32_t r = 0; int k = 8; for (; k > 0; k -= int(n)) r = r << n | v; return (r >> (-k)) & 255; }
struct Dec { uint32_t c[4]; bool hasrgb, hasa, premul; };
static Dec decode(const Fmt& f, uint32_t v, const BLRgba32* palette) {
  Dec d{}; d.hasa = f.flags & A; d.hasrgb = f.flags & (RGB | L); d.premul = f.flags & P;
  if (f.flags & IX) { uint32_t x = palette[v].value; d.c[0] = x >> 16 & 255; d.c[1] = x >> 8 & 255; d.c[2] = x & 255; d.c[3] = d.hasa ? x >> 24 : 255; if (d.hasa && !d.hasrgb) d.hasrgb = true; return d; }
  for (int i = 0; i < 4; i++) d.c[i] = f.s[i] ? expand8(v >> f.sh[i] & ((1u << f.s[i]) - 1), f.s[i]) : 255;
  if (!d.hasa) d.c[3] = 255; return d;
}
static uint32_t encode(uint32_t v8, uint32_t n) { if (n <= 8) return v8 >> (8 - n); return (v8 << (n - 8)) | (n == 16 ? v8 : v8 >> (16 - n)); }
// What the destination component has to be: a range of 8-bit values.
static bool range(const Dec& s, const Fmt& df, bool via, int i, int& lo, int& hi) {
  double a = s.c[3], c = s.c[i], tol = 0.51; bool drgb = df.flags & (RGB | L), da = df.flags & A;
  if (i == 3) { lo = hi = int(a); return true; }
  if (!s.hasrgb) { c = da && !(df.flags & P) ? 255 : a; if (!drgb) return false; lo = hi = int(c); return true; }
  if (s.hasa && s.premul && c > a) return false;
  bool want_straight = da && !(df.flags & P);
  if (s.hasa) {
    if (s.premul && want_straight) { if (a == 0) { lo = hi = 0; return true; } c = c * 255 / a; }
    else if (!s.premul && !want_straight) c = c * a / 255;
    else if (!s.premul && want_straight && via) { if (a == 0) { lo = 0; hi = 255; return true; } tol = 0.51 + 127.5 / a; }   // A premultiplied intermediate keeps less.
    else { lo = hi = int(c); return true; }
  } else { lo = hi = int(c); return true; }
  lo = std::max(0, int(std::ceil(c - tol))); hi = std::min(255, int(std::floor(c + tol))); return true;
}
// ---- Source rows.
static const uint32_t NV = 65536;
static void put_bits(const Fmt& f, uint8_t* p, uint32_t v) { uint32_t n = f.depth / 8; for (uint32_t i = 0; i < n; i++) p[i] = uint8_t(v >> 8 * ((f.flags & SW) ? n - 1 - i : i)); }
static std::vector<uint32_t> values(const Fmt& f, int salt) {
  std::vector<uint32_t> v;
  if (f.depth <= 16) { for (uint32_t i = 0; i < 1u << f.depth; i++) v.push_back(i); if (f.depth == 16 && false) v.resize(65536); return v; }
  for (uint32_t i = 0; i < NV; i++) {
    uint32_t x = i & 255, a = i >> 8, c[4] = {x, 255 - x, (x * 5 + uint32_t(salt) * 91) ^ 0x5A, a}; if (f.flags & P) { c[1] = x <= a ? a - x : 0; c[2] = (c[2] & 255) <= a ? c[2] : a; } if (!(f.flags & A)) c[2] = a;
    uint32_t w = i & 1 ? 0xFFFFFFFF : 0; if (f.depth == 24) w &= 0xFFFFFF;
    for (int k = 0; k < 4; k++) if (f.s[k]) { uint32_t m = (1u << f.s[k]) - 1, q = f.s[k] >= 8 ? ((c[k] & 255) << (f.s[k] - 8)) | (i * 2654435761u >> 20 & ((1u << (f.s[k] - 8)) - 1)) : (c[k] & 255) >> (8 - f.s[k]); w = (w & ~(m << f.sh[k])) | (q & m) << f.sh[k]; }
    v.push_back(w);
  }
  return v;
}
static BLFormatInfo info(const Fmt& f, BLRgba32* p) { BLFormatInfo i{}; i.depth = f.depth; i.flags = BLFormatFlags(f.flags); if (f.flags & IX) i.palette = p; else { memcpy(i.sizes, f.s, 4); memcpy(i.shifts, f.sh, 4); } return i; }
static uint32_t levels[40]; static const char* lname[40]; static int nl;
static uint32_t full;
static uint32_t hints[40];
static void level(int i) { memcpy((void*)&bl_runtime_context.system_info.cpu_features, &levels[i], 4); bl_runtime_context.optimization_info.cpu_hints = hints[i]; }
struct Guard { uint8_t* m; uint8_t* p; size_t n; Guard(size_t n_, size_t off) : n(n_) { m = (uint8_t*)malloc(n_ + off + (n_ + off == 0)); p = m + off; memset(m, 0xCD, n_ + off); } ~Guard() { free(m); } };
static const bool dev = getenv("C22_DEV");
static int fcount;
static void report(const char* key, const std::string& text) { if (dev) { printf("DEV %s %s\n", key, text.c_str()); return; } fail(key, "%s", text.c_str()); }
static void pair_(int di, int si) {
  const Fmt& d = F[di]; const Fmt& s = F[si]; bool ix = s.flags & IX; char nm[100]; snprintf(nm, sizeof nm, "%s from %s", d.name, s.name);
  set_case("P:%d:%d", di, si);
  for (int variant = 0; variant < (ix ? 6 : 1); variant++) {
    // Palettes: general; 0 and 1 zero or all ones; 1 = {0, one}; not copied; altered in place.
    BLRgba32 pl[256]; memcpy(pl, pal[s.pal], sizeof pl); if (variant == 1) pl[0] = BLRgba32(0), pl[1] = BLRgba32(0xFFFFFFFF); if (variant == 2) pl[0] = BLRgba32(0), pl[1] = BLRgba32(0x01010101); if (variant == 3) for (int i = 0; i < 256; i++) pl[i] = pal[s.pal][255 - i];
    BLRgba32 orig[256]; memcpy(orig, pl, sizeof orig);
    uint32_t cf = variant == 4 ? BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE : variant == 5 ? BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE | BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE : 0;
    std::vector<uint32_t> vals = values(s, 0); if ((s.flags & P) && !ix) for (uint32_t& v : vals) { Dec c = decode(s, v, nullptr); if (c.c[0] > c.c[3] || c.c[1] > c.c[3] || c.c[2] > c.c[3]) v = 0; }   // Not premultiplied colors.
    uint32_t W = ix ? 64 : 256, H = ix ? 0 : uint32_t(vals.size() / 256); if (ix) { W = 256 * 8 / s.depth; H = 1; vals.clear(); for (uint32_t i = 0; i < 256; i++) for (uint32_t k = 0; k < 8; k += s.depth) vals.push_back(i >> (8 - s.depth - k) & ((1u << s.depth) - 1)); }
    uint32_t db = d.depth / 8; size_t srow = ix ? 256 : size_t(W) * (s.depth / 8);
    std::vector<uint8_t> src(srow * H); if (ix) for (int i = 0; i < 256; i++) src[i] = uint8_t(i); else for (size_t i = 0; i < vals.size(); i++) put_bits(s, &src[i * (s.depth / 8)], vals[i]);
    std::vector<uint8_t> canon; BLResult r0 = 0; bool multi = false;
    for (int lv = 0; lv < nl; lv++) {
      level(lv); memcpy(pl, orig, sizeof pl);
      BLPixelConverter pc; BLResult r = pc.create(info(d, nullptr), info(s, pl), BLPixelConverterCreateFlags(cf));
      { BLPixelConverter one; multi = !ix && one.create(info(d, nullptr), info(s, pl), BL_PIXEL_CONVERTER_CREATE_FLAG_NO_MULTI_STEP) != BL_SUCCESS; }
      if (lv == 0) r0 = r; vh::stat("transitions");
      if (r != r0) { report("create-level", std::string(nm) + ": whether the conversion is supported depends on the CPU features"); return; }
      if (r) { if (r != BL_ERROR_NOT_IMPLEMENTED && r != BL_ERROR_INVALID_VALUE) report("create", std::string(nm) + ": create() fails with " + std::to_string(r)); vh::stat("unsupported_pairs"); break; }
      if (!(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_DONT_COPY_PALETTE)) memset(pl, 0x5A, sizeof pl);   // The palette was copied.
      else if (!(cf & BL_PIXEL_CONVERTER_CREATE_FLAG_ALTERABLE_PALETTE) && memcmp(pl, orig, sizeof pl)) report("palette", std::string(nm) + ": the palette was altered");
      if (lv == 0 && (variant == 0)) { vh::stat("pairs"); }
      std::vector<uint8_t> out(size_t(W) * H * db, 0xCD);
      if (pc.convert_rect(out.data(), intptr_t(W) * db, src.data(), intptr_t(srow), W, H) != BL_SUCCESS) { report("convert", std::string(nm) + ": convert_rect() fails"); return; }
      vh::stat("pixels", vals.size());
      if (lv == 0) {
        canon = out;
        for (size_t i = 0; i < vals.size(); i++) {
          uint32_t v = bits_of(d, &out[i * db]); Dec c = decode(s, vals[i], orig); bool bad = false; uint32_t used = 0;
          for (int k = 0; k < 4 && !bad; k++) if (d.s[k]) { used |= ((1u << d.s[k]) - 1) << d.sh[k]; int lo, hi; if (!range(c, d, multi, k, lo, hi)) continue; uint32_t got = v >> d.sh[k] & ((1u << d.s[k]) - 1);
            if ((d.flags & L) && k < 3 && (c.c[0] != c.c[1] || c.c[1] != c.c[2])) continue;
            uint32_t g8 = d.s[k] > 8 ? got >> (d.s[k] - 8) : got, e = std::min<uint32_t>(d.s[k], 8); if (g8 < encode(lo, e) || g8 > encode(hi, e)) { char b[300]; snprintf(b, sizeof b, "%s (%s): the source pixel 0x%X (r,g,b,a = %u,%u,%u,%u) gives 0x%X, whose %s component is %u instead of %u..%u", nm, lname[lv], vals[i], c.c[0], c.c[1], c.c[2], c.c[3], v, k == 0 ? "red" : k == 1 ? "green" : k == 2 ? "blue" : "alpha", got, encode(lo, d.s[k]), encode(hi, d.s[k])); report(ix ? "indexed" : multi ? "multi-step" : (s.flags & SW) ? "swapped-source" : (d.flags & SW) ? "swapped-destination" : "value", b); bad = true; } }
          if (!bad && d.depth == 32 && !(d.flags & (A | SW)) && d.s[0] == 8 && d.s[1] == 8 && d.s[2] == 8 && d.sh[0] == 16 && d.sh[1] == 8 && d.sh[2] == 0 && (v | used) != 0xFFFFFFFFu) { char b[200]; snprintf(b, sizeof b, "%s: the undefined bits of 0x%X are not ones", nm, v); report("undefined-bits", b); bad = true; }
          if (bad) break;
        }
      } else if (out != canon) { size_t i = 0; while (out[i] == canon[i]) i++; i /= db; char b[300]; snprintf(b, sizeof b, "%s: the source pixel 0x%X gives 0x%X with CPU level %s and 0x%X without", nm, vals[i], bits_of(d, &out[i * db]), lname[lv], bits_of(d, &canon[i * db])); report("level", b); return; }
      // Rows of every length at every alignment, with strides, gaps and in both vertical directions.
      if (variant == 0 || variant == 4) {
        BLPixelConverter copy(pc), third; third.assign(copy); if (variant == 0) pc.reset();
        const BLPixelConverter& use = (variant == 0) ? third : pc; uint32_t maxw = g.thorough ? 70 : 35; int cfg = 0;
        for (uint32_t w = 0; w <= maxw + 6; w++) { uint32_t ww = w <= maxw ? w : w == maxw + 1 ? 767 : w == maxw + 2 ? 768 : w == maxw + 3 ? 769 : w == maxw + 4 ? 1023 : w == maxw + 5 ? 1600 : 100; if (ix && ww > W) continue; if (ix && ww > 200 && s.depth == 8) continue;
          for (int q = 0; q < (g.thorough ? 12 : 3); q++, cfg++) { if (w > maxw && (q || (!multi && ww > 800))) continue;
            uint32_t h = w > maxw ? 2 : 1 + cfg % 3; size_t doff = (cfg * 5 + q) % 4, soff = (cfg * 3 + q / 2) % 4, dpad = cfg % 4 == 1 ? 3 : 0, spad = cfg % 5 == 2 ? 5 : 0, gap = cfg % 7 == 3 ? 3 : 0; bool down = cfg % 6 == 5; if (gap && dpad < gap) dpad = gap;
            uint32_t bpr = ix ? (ww * s.depth + 7) / 8 : ww * (s.depth / 8); uint32_t first = ix ? (cfg * 7) % 200 : (cfg * 4099u + 77) % uint32_t(vals.size()); if (ix && first + bpr > 256) first = 0;
            size_t ss = bpr + spad, ds = size_t(ww) * db + dpad; if (h == 0) continue;
            size_t dn = ds * (h - 1) + size_t(ww) * db + gap, sn = ss * (h - 1) + bpr; Guard D(dn, doff), S(sn, soff);
            // Row y is made of the pixels from `first + y` on.
            for (uint32_t y = 0; y < h; y++) { size_t row = down ? h - 1 - y : y; if (ix) memcpy(S.p + row * ss, &src[first + 0], bpr); else for (uint32_t x = 0; x < ww; x++) { size_t p = (size_t(first) + y * 31 + x) % vals.size(); memcpy(S.p + row * ss + x * (s.depth / 8), &src[p * (s.depth / 8)], s.depth / 8); } }
            BLPixelConverterOptions o{}; o.gap = gap; vh::stat("transitions");
            BLResult r2 = use.convert_rect(down ? D.p + (h - 1) * ds : D.p, down ? -intptr_t(ds) : intptr_t(ds), down ? S.p + (h - 1) * ss : S.p, down ? -intptr_t(ss) : intptr_t(ss), ww, h, gap || cfg % 2 ? &o : nullptr);
            const char* what = nullptr; uint32_t by = 0, bx = 0; if (r2) what = "fails";
            for (uint32_t y = 0; y < h && !what; y++) { uint8_t* row = D.p + (down ? h - 1 - y : y) * ds; for (uint32_t x = 0; x < ww && !what; x++) { size_t p = ix ? first * (8 / s.depth) + x : (size_t(first) + y * 31 + x) % vals.size(); if (memcmp(row + x * db, &canon[p * db], db)) what = "a pixel differs from its conversion in a long row", by = y, bx = x; }
              for (size_t k = 0; k < gap && !what; k++) if (row[ww * db + k] != 0) what = "a gap byte is not zero", by = y; if (down ? y > 0 : y + 1 < h) for (size_t k = gap; k < dpad && !what; k++) if (row[ww * db + k] != 0xCD) what = "a byte between the rows was written", by = y; }
            for (size_t k = 0; k < doff && !what; k++) if (D.m[k] != 0xCD) what = "a byte before the rows was written";
            if (what) { char b[300]; snprintf(b, sizeof b, "%s (%s), %ux%u, offsets %zu/%zu, paddings %zu/%zu, gap %zu%s: %s (row %u, pixel %u)", nm, lname[lv], ww, h, doff, soff, dpad, spad, gap, down ? ", bottom-up" : "", what, by, bx); report("geometry", b); level(nl - 1); return; } } }
      }
    }
    level(nl - 1);
  }
}
int main(int argc, char** argv) {
  vh::init(argc, argv); bl_runtime_init(); formats(); full = bl_runtime_context.system_info.cpu_features;
  levels[0] = 0; lname[0] = "baseline"; nl = 1; uint32_t f = 0; static const uint32_t steps[] = {BL_RUNTIME_CPU_FEATURE_X86_SSSE3, BL_RUNTIME_CPU_FEATURE_X86_AVX2}; static const char* sn[] = {"SSSE3", "AVX2"};
  for (int i = 0; i < 2; i++) { f |= (steps[i] << 1) - 1; levels[nl] = full & f; hints[nl] = 0; lname[nl++] = sn[i]; }
  levels[nl] = full; hints[nl] = ~0u; lname[nl++] = "AVX2 with fast multiplication"; levels[nl] = full; hints[nl] = bl_runtime_context.optimization_info.cpu_hints; lname[nl++] = "all";
  int n = int(F.size()), d, s;
  if (g.replaying) { if (sscanf(g.replay.c_str(), "P:%d:%d", &d, &s) == 2 && d < n && s < n) pair_(d, s); return done(); }
  for (d = 0; d < n; d++) for (s = 0; s < n; s++) if (mine(d * n + s)) { if (F[d].flags & IX) { if (s) continue; } if (over_budget()) return done(); pair_(d, s); }
  return done();
}
