// C30: Unicode validation, conversion and glyph-buffer text input over exhaustively enumerated short texts, against the encodings' definitions.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/api.h>
#include <blend2d/core/glyphbuffer.h>
#include <blend2d/core/runtime.h>
#include <blend2d/unicode/unicode_p.h>
#include "vh.h"
using namespace vh;
namespace U = bl::Unicode;
typedef std::vector<uint8_t> Bytes;
enum Kind { OK, BAD, TRUNC };
struct CP { uint32_t c; uint32_t at, n; Kind k; bool surrogate; };   // One decoded code point (or ill-formed unit) at byte offset `at`.
// Table 3-7 of the Unicode Standard.
static int wf8(const uint8_t* p, size_t n, uint32_t& c, Kind& k) {
  static const struct { uint8_t l0, l1, b0, b1; int len; } T[] = {{0xC2,0xDF,0x80,0xBF,2},{0xE0,0xE0,0xA0,0xBF,3},{0xE1,0xEC,0x80,0xBF,3},{0xED,0xED,0x80,0x9F,3},{0xEE,0xEF,0x80,0xBF,3},{0xF0,0xF0,0x90,0xBF,4},{0xF1,0xF3,0x80,0xBF,4},{0xF4,0xF4,0x80,0x8F,4}};
  k = BAD; if (p[0] < 0x80) { c = p[0]; k = OK; return 1; }
  for (auto& t : T) if (p[0] >= t.l0 && p[0] <= t.l1) {
    for (int i = 1; i < t.len; i++) { if (size_t(i) >= n) { k = TRUNC; return 0; } uint8_t lo = i == 1 ? t.b0 : 0x80, hi = i == 1 ? t.b1 : 0xBF; if (p[i] < lo || p[i] > hi) return 0; }
    c = p[0] & (0x7F >> t.len); for (int i = 1; i < t.len; i++) c = c << 6 | (p[i] & 63);
    k = OK; return t.len;
  }
  return 0;
}
static uint32_t rd(const uint8_t* p, int n) { uint32_t v = 0; for (int i = 0; i < n; i++) v |= uint32_t(p[i]) << (8 * i); return v; }
static CP decode(const Bytes& s, int enc, size_t at) {
  CP r{0xFFFD, uint32_t(at), 0, BAD, false}; size_t n = s.size() - at; const uint8_t* p = s.data() + at;
  switch (enc) {
    case BL_TEXT_ENCODING_LATIN1: r.c = p[0]; r.n = 1; r.k = OK; break;
    case BL_TEXT_ENCODING_UTF8: { uint32_t c; int l = wf8(p, n, c, r.k); if (l) { r.c = c; r.n = l; } else { r.n = 1; if (p[0] == 0xED && n >= 3 && p[1] >= 0xA0 && p[1] <= 0xBF && (p[2] & 0xC0) == 0x80) r.surrogate = true; } break; }
    case BL_TEXT_ENCODING_UTF16: {
      if (n < 2) { r.n = uint32_t(n); r.k = TRUNC; break; }
      uint32_t u = rd(p, 2); r.n = 2;
      if (u < 0xD800 || u > 0xDFFF) { r.c = u; r.k = OK; }
      else if (u < 0xDC00 && n >= 4 && rd(p + 2, 2) >= 0xDC00 && rd(p + 2, 2) <= 0xDFFF) { r.c = 0x10000 + ((u - 0xD800) << 10) + (rd(p + 2, 2) - 0xDC00); r.n = 4; r.k = OK; }
      else { r.surrogate = true; r.k = u < 0xDC00 && n < 4 ? TRUNC : BAD; }
      break; }
    default: {
      if (n < 4) { r.n = uint32_t(n); r.k = TRUNC; break; }
      uint32_t u = rd(p, 4); r.n = 4; if (u <= 0x10FFFF && !(u >= 0xD800 && u <= 0xDFFF)) { r.c = u; r.k = OK; } else r.surrogate = u <= 0x10FFFF;
    }
  }
  return r;
}
static void encode(Bytes& o, int enc, uint32_t c) {
  auto w = [&](uint32_t v, int n) { for (int i = 0; i < n; i++) o.push_back(uint8_t(v >> (8 * i))); };
  switch (enc) {
    case BL_TEXT_ENCODING_LATIN1: w(c, 1); break;
    case BL_TEXT_ENCODING_UTF8: if (c < 0x80) w(c, 1); else if (c < 0x800) { w(0xC0 | c >> 6, 1); w(0x80 | (c & 63), 1); } else if (c < 0x10000) { w(0xE0 | c >> 12, 1); w(0x80 | (c >> 6 & 63), 1); w(0x80 | (c & 63), 1); }
      else { w(0xF0 | c >> 18, 1); w(0x80 | (c >> 12 & 63), 1); w(0x80 | (c >> 6 & 63), 1); w(0x80 | (c & 63), 1); } break;
    case BL_TEXT_ENCODING_UTF16: if (c < 0x10000) w(c, 2); else { c -= 0x10000; w(0xD800 + (c >> 10), 2); w(0xDC00 + (c & 1023), 2); } break;
    default: w(c, 4);
  }
}
static const char* EN[] = {"Latin-1", "UTF-8", "UTF-16", "UTF-32"};
static int EID(int e) { static const int m[] = {BL_TEXT_ENCODING_LATIN1, BL_TEXT_ENCODING_UTF8, BL_TEXT_ENCODING_UTF16, BL_TEXT_ENCODING_UTF32}; return m[e]; }
static std::string hex(const Bytes& b) { std::string s; char t[4]; for (auto c : b) { snprintf(t, 4, "%02x", c); s += t; } return s; }
// Exact-size heap copies so that AddressSanitizer sees any access beyond them. `off` shifts the start (alignment).
struct Heap { uint8_t* b; uint8_t* p; Heap(size_t n, size_t off = 0) { b = (uint8_t*)malloc(n + off ? n + off : 1); p = b + off; if (n + off == 0) p = b + 1; } ~Heap() { free(b); } };
static bool quick_dst = false;
static bool is_err(BLResult r) { return r == BL_ERROR_INVALID_STRING || r == BL_ERROR_DATA_TRUNCATED; }

static void test(const Bytes& s, int e, int mask = 7, size_t off = 0) {
  int enc = EID(e);
  char cs[64]; snprintf(cs, sizeof cs, "%d:%d:%zu:", e, mask, off); set_case_s(cs + hex(s));
  std::vector<CP> cps; Kind verdict = OK; size_t at = 0;
  while (at < s.size()) { CP c = decode(s, enc, at); if (c.k != OK) { verdict = c.k; break; } cps.push_back(c); at += c.n; }
  size_t n8 = 0, n16 = 0; for (auto& c : cps) { n8 += c.c < 0x80 ? 1 : c.c < 0x800 ? 2 : c.c < 0x10000 ? 3 : 4; n16 += c.c < 0x10000 ? 1 : 2; }
  Heap src(s.size(), off); memcpy(src.p, s.data(), s.size());
  if (mask & 1) {
    U::ValidationState st; memset(&st, 0xCC, sizeof st);
    BLResult r = U::bl_validate_unicode(src.p, s.size(), BLTextEncoding(enc), st); vh::stat("transitions");
    if (verdict == OK ? r != BL_SUCCESS : !is_err(r)) fail("validate-verdict", "validating %s %s gives result %u; it is %s", EN[e], hex(s).c_str(), r, verdict == OK ? "well-formed" : verdict == BAD ? "ill-formed" : "truncated");
    else if (st.utf8_index != n8 || st.utf16_index != n16 || st.utf32_index != cps.size()) fail("validate-size", "validating %s %s counts %zu/%zu/%zu UTF-8/16/32 units, expected %zu/%zu/%zu", EN[e], hex(s).c_str(), st.utf8_index, st.utf16_index, st.utf32_index, n8, n16, cps.size());
  }
  if (mask & 2) for (int d = 0; d < 4; d++) {
    if (d == 0 && e != 0) continue;   // Conversion to Latin-1 is not offered.
    Bytes full; std::vector<size_t> ends{0}; for (auto& c : cps) { encode(full, EID(d), c.c); ends.push_back(full.size()); }
    size_t hi = full.size() + 5;
    for (size_t dn = 0; dn <= hi; dn++) {
      if (quick_dst && dn != full.size() && dn != hi) continue;
      Heap dst(dn, off); memset(dst.p, 0xEE, dn);
      U::ConversionState st; memset(&st, 0xCC, sizeof st);
      BLResult r = U::convert_unicode(dst.p, dn, EID(d), src.p, s.size(), enc, st); vh::stat("transitions");
      size_t k = 0; while (k < cps.size() && ends[k + 1] <= dn) k++;
      bool nospace = k < cps.size(); size_t want_src = k < cps.size() ? cps[k].at : at;
      // Same-encoding copies may meet the end of the destination and an error of the source in the same place.
      bool ok = nospace ? r == BL_ERROR_NO_SPACE_LEFT : verdict == OK ? r == BL_SUCCESS : is_err(r);
      if (!ok && !nospace && verdict != OK && e == d && r == BL_ERROR_NO_SPACE_LEFT && dn < s.size()) ok = true;
      const char* w = nospace ? "does not fit" : verdict == OK ? "is well-formed and fits" : "is ill-formed";
      if (!ok) fail("convert-verdict", "converting %s %s to %s with %zu bytes of space gives result %u, but the text %s", EN[e], hex(s).c_str(), EN[d], dn, r, w);
      else if (st.dst_index != ends[k] || st.src_index != want_src) fail("convert-index", "converting %s %s to %s with %zu bytes of space reports %zu bytes read and %zu written, expected %zu and %zu (the text %s)", EN[e], hex(s).c_str(), EN[d], dn, st.src_index, st.dst_index, want_src, ends[k], w);
      else if (memcmp(dst.p, full.data(), ends[k])) fail("convert-bytes", "converting %s %s to %s with %zu bytes of space writes wrong bytes", EN[e], hex(s).c_str(), EN[d], dn);
      else for (size_t i = ends[k]; i < dn; i++) if (dst.p[i] != 0xEE) { fail("convert-beyond", "converting %s %s to %s with %zu bytes of space changes byte %zu beyond the %zu it reports", EN[e], hex(s).c_str(), EN[d], dn, i, ends[k]); break; }
    }
  }
  if ((mask & 4) && s.size() % (e == 2 ? 2 : e == 3 ? 4 : 1) == 0) {
    std::vector<CP> all; bool bad = false, sur = false;
    size_t unit = e == 2 ? 2 : e == 3 ? 4 : 1;
    for (size_t p = 0; p < s.size();) { CP c = decode(s, enc, p); if (c.k != OK) { c.n = uint32_t(unit); if (c.surrogate) sur = true; else bad = true; } all.push_back(c); p += c.n; }
    bool has_nul = false; for (size_t p = 0; p < s.size(); p += unit) if (!rd(s.data() + p, int(unit))) has_nul = true;
    for (int form = 0; form < (has_nul ? 1 : 2); form++) {
      Heap z(s.size() + (form ? unit : 0), e < 2 ? off : 0); memcpy(z.p, s.data(), s.size()); if (form) memset(z.p + s.size(), 0, unit);
      BLGlyphBuffer gb; gb.set_utf8_text("previous \xFF content", 18);
      BLResult r = gb.set_text(z.p, form ? SIZE_MAX : s.size() / unit, BLTextEncoding(enc)); vh::stat("transitions");
      const char* fn = form ? "NUL-terminated" : "sized";
      if (r != BL_SUCCESS) { fail("glyphs-result", "set_text() of %s %s %s fails with %u", fn, EN[e], hex(s).c_str(), r); continue; }
      bool flag = gb.has_invalid_chars();
      if (sur ? false : flag != bad) fail("glyphs-flag", "set_text() of %s %s %s %s", fn, EN[e], hex(s).c_str(), bad ? "does not report that the text is invalid" : "reports valid text as invalid");
      // A lone surrogate may be kept as such or replaced; both stay at the right position.
      std::vector<std::pair<uint32_t, uint32_t>> want, got;
      bool ok = true; size_t j = 0, p = 0;
      while (p < s.size() && ok) {
        CP c = decode(s, enc, p); if (j >= gb.size()) { ok = false; break; }
        uint32_t g0 = gb.content()[j], cl = gb.info_data()[j].cluster; j++;
        if (cl != p / unit) ok = false;
        if (c.k == OK) { if (g0 != c.c) ok = false; p += c.n; }
        else if (g0 == 0xFFFD) { p += unit; if (!flag) ok = false; }
        else if (c.surrogate && g0 >= 0xD800 && g0 <= 0xDFFF) p += e == 1 ? 3 : unit;
        else ok = false;
      }
      if (j != gb.size()) ok = false;
      if (!ok) { std::string c; for (size_t i = 0; i < gb.size(); i++) { char t[40]; snprintf(t, 40, "U+%04X@%u ", gb.content()[i], gb.info_data()[i].cluster); c += t; } fail("glyphs-content", "set_text() of %s %s %s yields %s", fn, EN[e], hex(s).c_str(), c.c_str()); }
    }
  }
}
static void set_glyphs_case(size_t n, size_t idsize, int adv) {
  set_case("glyphs:%zu:%zu:%d", n, idsize, adv); vh::stat("transitions");
  size_t step = size_t(abs(adv)); Heap h(n ? (n - 1) * step + idsize : 0);
  std::vector<uint32_t> want;
  for (size_t i = 0; i < n; i++) { uint32_t v = uint32_t(idsize == 2 ? 0x1100 + i * 3 : 0x11002200 + i * 0x10203); want.push_back(v); memcpy(h.p + (adv < 0 ? (n - 1 - i) : i) * step, &v, idsize); }
  BLGlyphBuffer gb; const uint8_t* start = adv < 0 && n ? h.p + (n - 1) * step : h.p;
  BLResult r = idsize == 0 ? 0 : gb.set_glyphs_from_struct(start, n, idsize, adv);
  auto cmp = [&](const char* w) { if (r || gb.size() != n) { fail("set-glyphs", "%s of %zu glyphs gives result %u and size %zu", w, n, r, gb.size()); return; } for (size_t i = 0; i < n; i++) if (gb.content()[i] != want[i] || gb.info_data()[i].cluster != i) { fail("set-glyphs", "%s of %zu glyphs stores %08x (cluster %u) at %zu, expected %08x", w, n, gb.content()[i], gb.info_data()[i].cluster, i, want[i]); return; } };
  cmp("set_glyphs_from_struct()");
  if (idsize == 4 && adv == 4) { Heap e(n * 4); memcpy(e.p, want.data(), n * 4); r = gb.set_glyphs((const uint32_t*)e.p, n); cmp("set_glyphs()"); }
}
int main(int argc, char** argv) {
  init(argc, argv); bl_runtime_init(); bool T = g.thorough;
  if (g.replaying) {
    int e, m; size_t off, n, id; int adv; char hx[4096] = "";
    if (sscanf(g.replay.c_str(), "glyphs:%zu:%zu:%d", &n, &id, &adv) == 3) set_glyphs_case(n, id, adv);
    else if (sscanf(g.replay.c_str(), "%d:%d:%zu:%4000s", &e, &m, &off, hx) >= 3) { Bytes b; for (size_t i = 0; hx[i]; i += 2) { unsigned v; sscanf(hx + i, "%2x", &v); b.push_back(uint8_t(v)); } test(b, e, m, off); }
    return done();
  }
  uint64_t u = 0;
  auto words = [&](const std::vector<uint32_t>& al, int unit, int e, size_t maxlen, int mask, auto&& tails) {
    for (size_t len = 0; len <= maxlen; len++) {
      uint64_t tot = 1; for (size_t i = 0; i < len; i++) tot *= al.size();
      for (uint64_t v = 0; v < tot; v++) { if (!mine(u++ >> 3)) continue; Bytes b; uint64_t x = v; for (size_t i = 0; i < len; i++) { uint32_t w = al[x % al.size()]; x /= al.size(); for (int k = 0; k < unit; k++) b.push_back(uint8_t(w >> (8 * k))); } tails(b, mask, e); }
    }
  };
  auto plain = [&](const Bytes& b, int m, int e) { test(b, e, m, b.size() & 1); };
  // UTF-8: every string over representatives of all byte classes; every string of two bytes (three in thorough).
  std::vector<uint32_t> r8 = {0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFF};
  std::vector<uint32_t> s8 = {0x41, 0x80, 0x9F, 0xBF, 0xC2, 0xED, 0xE1, 0xF0, 0xF4, 0xFF, 0};
  words(r8, 1, 1, 3, 7, plain);
  quick_dst = true; words(r8, 1, 1, 4, 7, plain); words(s8, 1, 1, T ? 7 : 5, 7, plain); if (T) words(r8, 1, 1, 5, 5, plain); quick_dst = false;
  std::vector<uint32_t> all256; for (int i = 0; i < 256; i++) all256.push_back(i);
  words(all256, 1, 0, 1, 7, plain); words(all256, 1, 1, 2, 7, plain); if (T) words(all256, 1, 1, 3, 5, plain);
  // Latin-1 strings.
  words({0, 0x41, 0x7F, 0x80, 0xC2, 0xFF}, 1, 0, T ? 7 : 5, 7, plain);
  // UTF-16 and UTF-32, with and without odd trailing bytes, aligned and unaligned.
  auto tails = [&](Bytes b, int m, int e) { for (size_t off = 0; off < (e == 2 ? 2 : 3); off++) { test(b, e, m, off); Bytes c = b; for (int t = 1; t < (e == 2 ? 2 : 4); t++) { c.push_back(uint8_t(t == 1 ? 0x41 : 0)); test(c, e, m & 3, off); } } };
  std::vector<uint32_t> r16 = {0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF};
  words(r16, 2, 2, T ? 4 : 3, 7, tails);
  words({0, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFFFFFF}, 4, 3, T ? 3 : 2, 7, tails);
  // Every code point alone in every encoding (every UTF-16 pair of surrogates is one of them); every 16-bit unit.
  quick_dst = true;
  for (uint32_t c = 0; c < 0x110100; c++) if (mine(c >> 8)) for (int e = 1; e < 4; e++) {
    if (e == 2 && c > 0x10FFFF) continue;
    Bytes b; if (e == 1 && c > 0x10FFFF) { b = {0xF4, uint8_t(0x80 | (c >> 12 & 63)), uint8_t(0x80 | (c >> 6 & 63)), uint8_t(0x80 | (c & 63))}; } else encode(b, EID(e), c);
    test(b, e, T ? 7 : (c < 0x3000 || (c & 255) == 0 || (c & 0xFFFF) >= 0xFF00) ? 7 : 3);
  }
  quick_dst = false;
  for (size_t n = 0; n < 40; n++) for (size_t id : {2, 4}) for (int adv : {2, 4, 6, 8, 20, -2, -4, -8}) if (mine(u++) && size_t(abs(adv)) >= id) set_glyphs_case(n, id, adv);
  sample("UTF-8 e0 80 80 41 (overlong), every destination size"); sample("UTF-16 d8 00 / odd byte, unaligned"); sample("every code point in UTF-8, UTF-16 and UTF-32");
  return done();
}
