// C32: glyph mapping, metrics, outlines, kerning and shaping of synthesised fonts against what their tables say.
#include <blend2d/blend2d.h>
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <array>
#include "vh.h"
#include "font_gen.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
using namespace vh;
using namespace fg;
static uint64_t nIt; static size_t nGrp;
static bool item() { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return false; } else if (!mine(int64_t(n)) || over_budget()) return false; set_case("%s", cs); return true; }
static std::string txt(const std::vector<uint32_t>& v) { std::string o; char b[20]; for (auto x : v) { snprintf(b, sizeof b, "%s%u", o.empty() ? "" : " ", x); o += b; } return o; }
static std::string txtX(const std::vector<uint32_t>& v) { std::string o; char b[20]; for (auto x : v) { snprintf(b, sizeof b, "%s%X", o.empty() ? "" : " ", x); o += b; } return o; }
// ---- character maps
typedef std::function<uint32_t(uint32_t)> Map;
static void runMap(BLFont& font, const std::vector<uint32_t>& text, const Map& want, const char* key, const char* what) {
  BLGlyphBuffer gb; gb.set_utf32_text(text.data(), text.size()); BLGlyphMappingState st; BLResult r = font.map_text_to_glyphs(gb, st); vh::stat("texts", 1); vh::stat("code_points", text.size()); if (r || gb.size() != text.size() || st.glyph_count != text.size()) { fail(key, "%s: result %u, %zu glyphs (state %zu) for %zu code points", what, r, gb.size(), st.glyph_count, text.size()); return; }
  size_t und = 0, first = SIZE_MAX; for (size_t i = 0; i < text.size(); i++) { uint32_t w = want(text[i]); if (!w) { if (!und++) first = i; } if (gb.content()[i] != w) { std::vector<uint32_t> near(text.begin() + long(i >= 2 ? i - 2 : 0), text.begin() + long(i + 1)); fail(key, "%s: U+%X is glyph %u, expected %u (after %s)", what, text[i], gb.content()[i], w, txtX(near).c_str()); return; } }
  if (st.undefined_count != und || (und && st.undefined_first != first) || (!und && st.undefined_first != SIZE_MAX)) fail(key, "%s: %zu undefined, first at %zu; reported %zu and %zu", what, und, first, st.undefined_count, st.undefined_first);
  if (((gb.flags() & BL_GLYPH_RUN_FLAG_UNDEFINED_GLYPHS) != 0) != (und != 0)) fail(key, "%s: flag of undefined glyphs", what);
}
// `pts` sorted code points of interest; all others are expected unmapped (coverage).
static void checkMap(const std::string& cmap, std::vector<uint32_t> pts, const Map& want, const char* what) {
  Font f; f.glyphs.assign(40, ""); f.glyphs[1] = simple({{{0, 0, true}, {9, 0, true}, {9, 9, true}}}, 3); f.adv.assign(40, 500); f.t["cmap"] = cmap; BLFontFace face; std::string d = f.build(); BLResult r = load(d, face); char key[80]; snprintf(key, sizeof key, "%.*s", int(strcspn(what, " ")), what); if (r) { fail(key, "%s: face refused with %u", what, r); return; } if (!face.has_char_to_glyph_mapping()) { fail(key, "%s: a valid character map is not used (diagnostics %x)", what, face.face_info().diag_flags); return; }
  BLFont font; font.create_from_face(face, 20.f); std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end()); pts.erase(std::remove_if(pts.begin(), pts.end(), [](uint32_t c) { return c > 0x10FFFF || (c >= 0xD800 && c < 0xE000) || !c; }), pts.end());
  for (uint32_t p : pts) runMap(font, {p}, want, key, what); std::vector<uint32_t> all; for (uint32_t a : pts) for (uint32_t b : pts) { all.push_back(a); all.push_back(b); } runMap(font, all, want, key, what); std::reverse(all.begin(), all.end()); runMap(font, all, want, key, what);
  BLBitSet cov; r = face.get_character_coverage(&cov); if (r) { fail(key, "%s: coverage: %u", what, r); return; } uint32_t n = 0; for (uint32_t p : pts) { bool w = want(p) != 0; n += w; if (cov.has_bit(p) != w) { char k2[100]; snprintf(k2, sizeof k2, "%s-coverage", key); fail(k2, "%s: U+%X is %scovered, glyph %u", what, p, w ? "not " : "", want(p)); return; } } if (want(0)) n++; for (uint32_t p = 0xD800; p < 0xD820; p++) n += cov.has_bit(p); if (cov.cardinality() != n) { char k2[100]; snprintf(k2, sizeof k2, "%s-coverage", key); fail(k2, "%s: %zu covered code points, expected %u", what, size_t(cov.cardinality()), n); }
  if (face.glyph_count() != 40) fail(key, "glyph count");
}
// All ways to choose up to three disjoint ranges of six consecutive code points.
static std::vector<std::vector<std::pair<int, int>>> ranges6() { std::vector<std::vector<std::pair<int, int>>> o; std::function<void(int, std::vector<std::pair<int, int>>)> go = [&](int at, std::vector<std::pair<int, int>> v) { if (!v.empty()) o.push_back(v); if (v.size() == 3) return; for (int a = at; a < 6; a++) for (int b = a; b < 6; b++) { auto w = v; w.push_back({a, b}); go(b + 1, w); } }; go(0, {}); return o; }
static void cmaps(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough; auto R = ranges6();
  if (k == 0) { for (uint32_t first : {0u, 1u, 65u, 250u, 0xFFF0u, 0xFFF8u, 0xFFFFu}) for (int n = 1; n <= 10; n++) for (int z = 0; z < (n < 8 ? 1 << n : 64); z += 1 + n / 6) for (int fmt : {0, 6, 10}) { if (fmt == 0 && first + uint32_t(n) > 256) continue; if (fmt == 6 && first + uint32_t(n) > 0x10000) continue; if (!item()) continue; std::vector<int> gid; for (int i = 0; i < n; i++) gid.push_back((z >> i & 1) ? 1 + i * 3 : 0); std::vector<uint32_t> pts{1, 0xFFFF, 0x10000, 0x10FFFF, first - 1, first + uint32_t(n), first + 256, first + 65536}; for (int i = 0; i < n; i++) pts.push_back(first + uint32_t(i)); std::vector<int> g0(256); if (fmt == 0) for (int i = 0; i < n; i++) g0[first + uint32_t(i)] = gid[size_t(i)]; Map m = [&](uint32_t c) -> uint32_t { return c - first < gid.size() ? uint32_t(gid[c - first]) : 0; }; char w[80]; snprintf(w, sizeof w, "format%d first %X count %d glyphs %x", fmt, first, n, z); checkMap(cmapTable({{3, fmt == 10 ? 10 : 1, fmt == 0 ? cmap0(g0) : fmt == 6 ? cmap6(first, gid) : cmap10(first, gid)}}), pts, m, w); }
    for (uint32_t first : {0x10000u, 0x1F600u, 0x10FFF0u, 0x10FFF6u}) for (int n = 1; n <= 10; n++) { if (!item()) continue; std::vector<int> gid; std::vector<uint32_t> pts{first - 1, first + uint32_t(n), 65, 0x10FFFF}; for (int i = 0; i < n; i++) { gid.push_back(i % 3 ? i : 0); pts.push_back(first + uint32_t(i)); } char w[80]; snprintf(w, sizeof w, "format10 first %X count %d", first, n); checkMap(cmapTable({{3, 10, cmap10(first, gid)}}), pts, [&](uint32_t c) -> uint32_t { return c - first < gid.size() ? uint32_t(gid[c - first]) : 0; }, w); } }
  if (k == 1) { // Format 4. Modes of a segment: 0 positive delta, 1 delta that wraps around 65536, 2 glyph array, 3 glyph array with zeros and a delta, 4 delta hitting glyph 0.
    for (uint32_t base : {1u, 0x41u, 0xD7FCu, 0xFFF9u, 0xFFFAu}) for (auto& r : R) for (int md = 0; md < (r.size() == 1 ? 5 : r.size() == 2 ? 25 : 125); md += r.size() == 3 && !T ? 3 : 1) { if (!item()) continue; std::vector<Seg4> sg; int z = md; uint32_t n = 0; for (auto& p : r) { Seg4 s{base + uint32_t(p.first), base + uint32_t(p.second), 0, {}}; int mode = z % 5; z /= 5; uint32_t tgt = 3 + n * 5; if (mode == 0) s.delta = int(tgt) - int(s.first); else if (mode == 1) s.delta = int(tgt) - int(s.first) + 65536 * 2; else if (mode == 4) s.delta = -int(s.first) - (p.second > p.first ? 1 : 0); else { for (int i = p.first; i <= p.second; i++) s.gids.push_back(mode == 3 && (i - p.first) % 2 == 0 ? 0 : int(tgt) + 2 * i); s.delta = mode == 3 ? 5 : 0; } sg.push_back(s); n++; }
      Map m = [sg](uint32_t c) -> uint32_t { for (auto& s : sg) if (c >= s.first && c <= s.last) { if (s.gids.empty()) return (c + uint32_t(s.delta)) & 0xFFFF; uint32_t q = uint32_t(s.gids[c - s.first]); return q ? (q + uint32_t(s.delta)) & 0xFFFF : 0; } return 0; }; std::vector<Seg4> w = sg; if (w.back().last != 0xFFFF) w.push_back({0xFFFF, 0xFFFF, 1, {}}); std::vector<uint32_t> pts{base - 1, 0xFFFE, 0xFFFF, 0x10000 + base}; for (uint32_t i = 0; i < 8; i++) pts.push_back(base + i); if (w.back().first == 0xFFFF && sg.back().last == 0xFFFF) continue; std::string wd = "format4 base "; char b[60]; snprintf(b, sizeof b, "%X segments", base); wd += b; for (auto& s : sg) { snprintf(b, sizeof b, " [%X-%X %+d%s]", s.first, s.last, s.delta, s.gids.empty() ? "" : " array"); wd += b; } checkMap(cmapTable({{3, 1, cmap4(w)}}), pts, m, wd.c_str()); }
    for (int n = 1; n <= 40; n++) for (int gap = 0; gap < 3; gap++) { if (!item()) continue; std::vector<Seg4> sg; std::vector<uint32_t> pts; uint32_t c = 30; for (int i = 0; i < n; i++) { uint32_t l = c + uint32_t(i % 3); sg.push_back({c, l, int(1 + i % 30) - int(c), {}}); for (uint32_t q = c - 1; q <= l + 1; q++) pts.push_back(q); c = l + 1 + uint32_t(gap); } Map m = [sg](uint32_t u) -> uint32_t { for (auto& s : sg) if (u >= s.first && u <= s.last) return (u + uint32_t(s.delta)) & 0xFFFF; return 0; }; auto w = sg; w.push_back({0xFFFF, 0xFFFF, 1, {}}); char b[60]; snprintf(b, sizeof b, "format4 %d segments gap %d", n, gap); checkMap(cmapTable({{3, 1, cmap4(w)}}), pts, m, b); } }
  if (k == 2) { for (int fmt : {12, 13}) for (uint32_t base : {1u, 0x41u, 0xFFFDu, 0x1F600u, 0x10FFFAu}) for (auto& r : R) for (int md = 0; md < (r.size() == 1 ? 3 : r.size() == 2 ? 9 : 27); md++) { if (!item()) continue; std::vector<Grp> v; int z = md, n = 0; for (auto& p : r) { int mode = z % 3; z /= 3; v.push_back({base + uint32_t(p.first), base + uint32_t(p.second), mode == 0 ? 2u + uint32_t(n) * 7 : mode == 1 ? 0u : 1u}); n++; } Map m = [v, fmt](uint32_t c) -> uint32_t { for (auto& x : v) if (c >= x.first && c <= x.last) return fmt == 12 ? x.gid + (c - x.first) : x.gid; return 0; }; std::vector<uint32_t> pts{65, 0xFFFF, 0x10FFFF, base - 1}; for (uint32_t i = 0; i < 8; i++) pts.push_back(base + i); std::string wd = fmt == 12 ? "format12" : "format13"; char b[60]; for (auto& x : v) { snprintf(b, sizeof b, " [%X-%X %u]", x.first, x.last, x.gid); wd += b; } checkMap(cmapTable({{3, 10, cmap12(fmt, v)}}), pts, m, wd.c_str()); }
    for (int fmt : {12, 13}) for (int n = 1; n <= 40; n++) for (int gap = 0; gap < 3; gap++) { if (!item()) continue; std::vector<Grp> v; std::vector<uint32_t> pts{5}; uint32_t c = 0x12345; for (int i = 0; i < n; i++) { uint32_t l = c + uint32_t(i % 3); v.push_back({c, l, uint32_t(1 + i % 30)}); for (uint32_t q = c - 1; q <= l + 1; q++) pts.push_back(q); c = l + 1 + uint32_t(gap); } char b[60]; snprintf(b, sizeof b, "format%d %d groups gap %d", fmt, n, gap); checkMap(cmapTable({{0, 4, cmap12(fmt, v)}}), pts, [&](uint32_t u) -> uint32_t { for (auto& x : v) if (u >= x.first && u <= x.last) return fmt == 12 ? x.gid + (u - x.first) : x.gid; return 0; }, b); }
    // Several tables: an unusable or unsupported one does not hide a usable one.
    std::vector<Enc> pool{{3, 10, cmap12(12, {{0x41, 0x43, 2}})}, {3, 1, cmap4({{0x41, 0x43, 2 - 0x41, {}}, {0xFFFF, 0xFFFF, 1, {}}})}, {0, 3, cmap6(0x41, {2, 3, 4})}, {3, 10, std::string("\0\x08\0\0\0\0\0\0", 8)}, {3, 10, cmap12(12, {{0x50, 0x4F, 9}})}, {0, 5, std::string("\0\x0E\0\0\0\x0A\0\0\0\0", 10)}, {9, 9, cmap6(0x41, {9, 9, 9})}}; for (int a = 0; a < 7; a++) for (int b = 0; b < 7; b++) for (int c = 0; c < 7; c++) { if ((a > 2) && (b > 2) && (c > 2)) continue; if (!item()) continue; char w[60]; snprintf(w, sizeof w, "encodings %d %d %d", a, b, c); checkMap(cmapTable({pool[size_t(a)], pool[size_t(b)], pool[size_t(c)]}), {0x40, 0x41, 0x42, 0x43, 0x44, 0x4F, 0x50}, [](uint32_t u) -> uint32_t { return u >= 0x41 && u <= 0x43 ? u - 0x41 + 2 : 0; }, w); } }
}
// ---- outlines
struct Cv { int n; double v[8]; bool operator<(const Cv& o) const { if (n != o.n) return n < o.n; for (int i = 0; i < 8; i++) if (v[i] != o.v[i]) return v[i] < o.v[i]; return false; } bool operator==(const Cv& o) const { return n == o.n && !memcmp(v, o.v, sizeof v); } };
typedef std::vector<Cv> Loop;
static void put(Loop& l, int n, const double* v) { Cv c{n, {}}; for (int i = 0; i < 2 * n + 2; i++) c.v[i] = v[i] + 0.0; if (n == 1 && v[0] == v[2] && v[1] == v[3]) return; l.push_back(c); }
static Loop canon(const Loop& l) { size_t n = l.size(), b = 0; for (size_t i = 1; i < n; i++) for (size_t q = 0; q < n; q++) { const Cv &x = l[(i + q) % n], &y = l[(b + q) % n]; if (x < y) { b = i; break; } if (y < x) break; } Loop r(l.begin() + long(b), l.end()); r.insert(r.end(), l.begin(), l.begin() + long(b)); return r; }
// Figures of a path; `lone` counts moves that draw nothing.
static std::vector<Loop> loops(const BLPath& p, bool& closed, bool rotate = true) { std::vector<Loop> o; BLPathView v = p.view(); double s[2] = {}, c[2] = {}; Loop cur; bool open = false; closed = true; auto fin = [&] { if (!cur.empty()) { if (open) closed = false; o.push_back(rotate ? canon(cur) : cur); } cur.clear(); open = false; };
  for (size_t i = 0; i < v.size;) { uint8_t k = v.command_data[i]; if (k == BL_PATH_CMD_CLOSE) { double q[4] = {c[0], c[1], s[0], s[1]}; put(cur, 1, q); open = false; fin(); c[0] = s[0]; c[1] = s[1]; i++; continue; } int n = k == BL_PATH_CMD_QUAD ? 2 : k == BL_PATH_CMD_CUBIC ? 3 : 1; double q[8] = {c[0], c[1]}; for (int j = 0; j < n; j++) { q[2 + 2 * j] = v.vertex_data[i + size_t(j)].x; q[3 + 2 * j] = v.vertex_data[i + size_t(j)].y; } if (k == BL_PATH_CMD_MOVE) { fin(); s[0] = q[2]; s[1] = q[3]; } else { put(cur, n, q); open = true; } c[0] = q[2 * n]; c[1] = q[2 * n + 1]; i += size_t(n); } fin(); return o; }
static std::vector<Loop> expect(const Outline& o) { std::vector<Loop> r; for (auto& c : o) { size_t n = c.size(); if (n < 2) continue; Loop l; size_t st = 0; double s[2]; bool any = false; for (size_t i = 0; i < n; i++) if (c[i].on) { st = i; any = true; break; } auto X = [&](size_t i) { return double(c[i % n].x); }; auto Y = [&](size_t i) { return -double(c[i % n].y); }; size_t i; if (any) { s[0] = X(st); s[1] = Y(st); i = st + 1; } else { s[0] = (X(0) + X(n - 1)) / 2; s[1] = (Y(0) + Y(n - 1)) / 2; i = 0; } double p[2] = {s[0], s[1]}; size_t end = i + (any ? n - 1 : n);
    for (; i < end; i++) { if (c[i % n].on) { double q[4] = {p[0], p[1], X(i), Y(i)}; put(l, 1, q); p[0] = q[2]; p[1] = q[3]; continue; } double e[2]; if (i + 1 == end) { e[0] = s[0]; e[1] = s[1]; } else if (c[(i + 1) % n].on) { e[0] = X(i + 1); e[1] = Y(i + 1); } else { e[0] = (X(i) + X(i + 1)) / 2; e[1] = (Y(i) + Y(i + 1)) / 2; } double q[6] = {p[0], p[1], X(i), Y(i), e[0], e[1]}; put(l, 2, q); p[0] = e[0]; p[1] = e[1]; if (i + 1 < end && c[(i + 1) % n].on) i++; } double q[4] = {p[0], p[1], s[0], s[1]}; put(l, 1, q); if (!l.empty()) r.push_back(canon(l)); } return r; }
static std::string lt(const std::vector<Loop>& v) { std::string o; char b[64]; for (auto& l : v) { o += "{"; for (auto& c : l) { o += c.n == 1 ? "L" : c.n == 2 ? "Q" : "C"; for (int i = 0; i <= c.n; i++) { snprintf(b, sizeof b, " %g,%g", c.v[2 * i], c.v[2 * i + 1]); o += b; } o += " "; } o += "}"; } return o.size() > 400 ? o.substr(0, 400) : o; }
static std::string ot(const Outline& o) { std::string s; char b[40]; for (auto& c : o) { s += "["; for (auto& p : c) { snprintf(b, sizeof b, " %d,%d%s", p.x, p.y, p.on ? "" : "*"); s += b; } s += "]"; } return s.size() > 300 ? s.substr(0, 300) : s; }
static uint32_t fullFeatures; static const char* LV[] = {"scalar", "SSE4.2", "AVX2"};
static void level(int l) { uint32_t f = l == 0 ? 0 : l == 1 ? BL_RUNTIME_CPU_FEATURE_X86_SSE2 | BL_RUNTIME_CPU_FEATURE_X86_SSE3 | BL_RUNTIME_CPU_FEATURE_X86_SSSE3 | BL_RUNTIME_CPU_FEATURE_X86_SSE4_1 | BL_RUNTIME_CPU_FEATURE_X86_SSE4_2 : fullFeatures; memcpy(reinterpret_cast<void*>(&bl_runtime_context.system_info.cpu_features), &f, 4); }
static const BLMatrix2D MX[] = {{2, 0, 0, 2, 5, 7}, {0, 1.5, -0.5, 0, 10, -3}, {1, 0.25, 0.5, -1, 0.125, 100}};
static void near(const std::vector<Loop>& a, const BLMatrix2D& m, const std::vector<Loop>& b, double eps, const char* key, const std::string& what) { if (a.size() != b.size()) { fail(key, "%zu figures instead of %zu: %s", b.size(), a.size(), what.c_str()); return; } for (size_t i = 0; i < a.size(); i++) { if (a[i].size() != b[i].size()) { fail(key, "figure %zu has %zu segments instead of %zu: %s", i, b[i].size(), a[i].size(), what.c_str()); return; } for (size_t j = 0; j < a[i].size(); j++) for (int q = 0; q <= a[i][j].n; q++) { double x = a[i][j].v[2 * q], y = a[i][j].v[2 * q + 1], X = x * m.m00 + y * m.m10 + m.m20, Y = x * m.m01 + y * m.m11 + m.m21; if (a[i][j].n != b[i][j].n || fabs(X - b[i][j].v[2 * q]) > eps || fabs(Y - b[i][j].v[2 * q + 1]) > eps) { fail(key, "figure %zu segment %zu point %d is %g,%g instead of %g,%g: %s", i, j, q, b[i][j].v[2 * q], b[i][j].v[2 * q + 1], X, Y, what.c_str()); return; } } } }
// Glyph 1 of every font; `more` for glyphs after it.
static bool oneGlyph(const std::string& file, uint32_t gid, const std::vector<Loop>& want, const char* key, const std::string& what, float size = 1024.f, bool mats = false, double tol = 0) {
  for (int l = 0; l < 3; l++) { level(l); BLFontFace face; BLResult r = load(file, face); if (r) { fail(key, "face refused with %u: %s", r, what.c_str()); return false; } BLFont font; font.create_from_face(face, size); BLPath p; r = font.get_glyph_outlines(gid, p); vh::stat("outlines", 1); if (r) { fail(key, "%s: result %u: %s", LV[l], r, what.c_str()); return false; } bool cl; std::vector<Loop> got = loops(p, cl);
    bool same = got == want; if (!same && tol > 0) { BLMatrix2D I{1, 0, 0, 1, 0, 0}; bool ok = got.size() == want.size(); for (size_t i = 0; ok && i < got.size(); i++) { ok = got[i].size() == want[i].size(); for (size_t j = 0; ok && j < got[i].size(); j++) for (int q = 0; q < 2 * got[i][j].n + 2; q++) ok = ok && got[i][j].n == want[i][j].n && fabs(got[i][j].v[q] - want[i][j].v[q]) <= tol; } same = ok; }
    if (!same) { fail(key, "%s: %s: got %s expected %s", LV[l], what.c_str(), lt(got).c_str(), lt(want).c_str()); return false; } if (!cl) { fail(key, "%s: a figure is not closed: %s", LV[l], what.c_str()); return false; }
    if (mats) { bool c2; auto base = loops(p, c2, false); for (auto& m : MX) { BLPath q; font.get_glyph_outlines(gid, m, q); near(base, m, loops(q, c2, false), 1e-6, "outline-matrix", what); } for (float s : {512.f, 10.f, 1536.f}) { BLFont f2; f2.create_from_face(face, s); BLPath q; f2.get_glyph_outlines(gid, q); double k = s / size; near(base, BLMatrix2D(k, 0, 0, k, 0, 0), loops(q, c2, false), 1e-4, "outline-size", what); } BLPath pre; pre.move_to(1, 2); pre.line_to(3, 4); BLPath cat = pre; cat.add_path(p); font.get_glyph_outlines(gid, pre); if (!pre.equals(cat)) fail("outline-append", "outline appended to a path with content differs: %s", what.c_str());
      struct S { unsigned n; size_t contours; } sk{0, 0}; BLPath q; font.get_glyph_outlines(gid, q, [](BLPathCore* pp, const void* info, void* u) noexcept -> BLResult { (void)pp; S& s2 = *static_cast<S*>(u); s2.n++; s2.contours = static_cast<const BLGlyphOutlineSinkInfo*>(info)->contour_count; return BL_SUCCESS; }, &sk); if (sk.n != 1) fail("outline-sink", "sink called %u times: %s", sk.n, what.c_str()); } }
  level(2); return true;
}
static const int STEP[] = {0, 1, -1, 200, -255, 256, -300, 1000};
static bool glyph(const Outline& o, int enc, int instr, int pad, bool lng, const char* key, bool mats = false) { Font f; f.longLoca = lng; f.glyphs = {"", simple(o, enc, instr, pad), ""}; if (pad == 99) f.glyphs[2] = simple(o, 3); f.adv = {500, 600, 700}; char b[80]; snprintf(b, sizeof b, "encoding %d instructions %d padding %d %s: ", enc, instr, pad, lng ? "long" : "short"); std::string d = f.build(); bool ok = oneGlyph(d, 1, expect(o), key, b + ot(o), 1024.f, mats);
  BLFontFace face; load(d, face); BLFont font; font.create_from_face(face, 1024.f); uint32_t gid = 1; BLBoxI bx; int x0 = 32767, y0 = 32767, x1 = -32768, y1 = -32768; for (auto& c : o) for (auto& p : c) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } BLResult r = font.get_glyph_bounds(&gid, 4, &bx, 1); if (ok && (r || bx.x0 != x0 || bx.x1 != x1 || bx.y0 != -y1 || bx.y1 != -y0)) fail("glyph-bounds", "%u: [%d %d %d %d]: %s", r, bx.x0, bx.y0, bx.x1, bx.y1, ot(o).c_str()); return ok; }
static Outline mkOutline(int n, int onMask, int seq, int brk) { Outline o(1); int x = 100, y = -50; for (int i = 0; i < n; i++) { if (i && (brk >> (i - 1) & 1)) o.push_back({}); int s = seq + i * 3; x += STEP[(seq >> (i % 3 * 3)) & 7] + (i & 1 ? 3 : 0); y += STEP[(s * 5 + i) & 7]; if (abs(x) > 9000) x = i; if (abs(y) > 9000) y = -i; o.back().push_back({x, y, bool(onMask >> (i % 16) & 1)}); } return o; }
static void glyfs(size_t k) {
  nGrp = k; nIt = 0; const bool T = g.thorough;
  if (k == 3) for (int n = 1; n <= 5; n++) for (int on = 0; on < 1 << n; on++) for (int brk = 0; brk < 1 << (n - 1); brk++) for (int s = 0; s < (T ? 64 : 12); s++) { if (!item()) continue; Outline o = mkOutline(n, on, s * 37 & 511, brk); int e = (s * 5 + on + brk) & 31; if (!glyph(o, e, (on + s) % 4, s % 3 == 0 ? 0 : s % 3 == 1 ? 20 : 99, (s ^ on) & 1, "simple glyph", s < 2)) continue; }
  if (k == 4) { // All encodings of all combinations of steps of two and three points; long contours and many contours.
    for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) for (int c = 0; c < 8; c++) for (int d = 0; d < 8; d++) { if (!item()) continue; for (int e = 0; e < 32; e++) { Outline o{{{STEP[a], STEP[b], true}, {STEP[a] + STEP[c], STEP[b] + STEP[d], bool(e & 1)}, {STEP[a] + STEP[c] + STEP[b], STEP[b] + STEP[d] + STEP[a], !(e & 2)}}}; if (!glyph(o, e, 0, e & 1 ? 32 : 0, false, "simple glyph")) break; } }
    for (int n = 6; n <= 300; n += n < 70 ? 1 : 23) for (int s = 0; s < (T ? 40 : 8); s++) { if (!item()) continue; int brk = s % 4 == 0 ? 0 : 1; Outline o(1); int x = 0, y = 0; for (int i = 0; i < n; i++) { if (brk && i && (i * 7 + s) % (3 + s) == 0) o.push_back({}); int dx = STEP[(i * (s + 1) + s) & 7], dy = STEP[(i * 3 + s * (i / 9)) & 7]; if (s % 3 == 0) { dx = i & 1 ? 5 : -3; dy = 2; } x += dx; y += dy; if (abs(x) > 9000) x = 0; if (abs(y) > 9000) y = 0; o.back().push_back({x, y, s % 5 == 0 ? true : s % 5 == 1 ? i % 3 == 0 : s % 5 == 2 ? false : bool((i * i + s) & 2)}); } for (int e = 0; e < 32; e += 1 + s % 3) if (!glyph(o, e, s % 3, e & 2 ? 0 : 17, true, n > 31 ? "long glyph" : "simple glyph")) break; }
    // Very long contours, whose coordinate arrays need more than 65535 bytes.
    for (int n : {16384, 20000, 32767, 32768, 40000, 65535}) for (int e : {0, 4}) { if (!item()) continue; Outline o(1); for (int i = 0; i < n; i++) o[0].push_back({(i & 1) ? 300 + i % 7 : 0, (i & 2) ? 400 : i % 5, true}); glyph(o, e, 0, 0, true, "huge glyph"); } }
  if (k == 5) { // Compound glyphs over glyphs 1 and 2.
    Outline a{{{0, 0, true}, {64, 0, true}, {64, 128, false}}}, b{{{10, 10, false}, {30, 50, false}, {90, -40, false}}, {{1, 2, true}, {3, 4, true}, {5, 9, true}}};
    struct X { int s; double m[4]; }; static const X XF[] = {{0, {1, 0, 0, 1}}, {1, {0.5, 0, 0, 0.5}}, {1, {-1, 0, 0, -1}}, {2, {1.5, 0, 0, -0.25}}, {3, {0, 1, -1, 0}}, {3, {0.5, 0.25, -0.75, 1}}}; static const int OF[][2] = {{0, 0}, {7, -9}, {127, -128}, {300, 1000}, {-1, 255}, {-32768, 32767}, {-129, 3}};
    auto app = [](std::vector<Loop> v, const double* m, double ax, double ay) { for (auto& l : v) for (auto& c : l) for (int i = 0; i <= c.n; i++) { double x = c.v[2 * i], y = -c.v[2 * i + 1]; c.v[2 * i] = x * m[0] + y * m[2] + ax; c.v[2 * i + 1] = -(x * m[1] + y * m[3] + ay) + 0.0; } for (auto& l : v) l = canon(l); return v; };
    auto A = expect(a), Bq = expect(b); for (int x1 = 0; x1 < 6; x1++) for (int o1 = 0; o1 < 7; o1++) for (int x2 = 0; x2 < 6; x2++) for (int o2 = 0; o2 < 7; o2++) for (int mode = 0; mode < 4; mode++) { if (!item()) continue; if (mode == 2 && x1 != 0 && false) continue; auto cp = [&](int gid, int x, int o, bool forceWords, int extra) { Comp c{gid, OF[o][0], OF[o][1], XF[x].s, {}, forceWords || abs(OF[o][0]) > 127 || OF[o][1] > 127 || OF[o][1] < -128, extra}; memcpy(c.m, XF[x].m, sizeof c.m); return c; };
      Font f; f.adv = {500, 600, 700, 800, 900, 950}; std::vector<Loop> want; f.glyphs = {"", simple(a, 3), simple(b, 1), "", "", ""}; auto add = [&](std::vector<Loop> v) { want.insert(want.end(), v.begin(), v.end()); }; uint32_t gid = 3; std::string w;
      if (mode < 2) { f.glyphs[3] = compound({cp(1, x1, o1, mode, 0x200), cp(2, x2, o2, mode, mode ? 0x1400 : 4)}, mode ? 3 : 0); add(app(A, XF[x1].m, OF[o1][0], OF[o1][1])); add(app(Bq, XF[x2].m, OF[o2][0], OF[o2][1])); }
      else if (mode == 2) { // nested: 3 = T1(1) + T2(2); 4 = 1 + T2(3) + 2
        f.glyphs[3] = compound({cp(1, x1, o1, false, 0), cp(2, x2, o2, false, 0)}); f.glyphs[4] = compound({cp(1, 0, 0, false, 0), cp(3, x2, o1, false, 0), cp(2, 0, 1, true, 0)}); gid = 4; std::vector<Loop> in = app(A, XF[x1].m, OF[o1][0], OF[o1][1]), i2 = app(Bq, XF[x2].m, OF[o2][0], OF[o2][1]); in.insert(in.end(), i2.begin(), i2.end()); add(A); add(app(in, XF[x2].m, OF[o1][0], OF[o1][1])); static const double I[4] = {1, 0, 0, 1}; add(app(Bq, I, OF[1][0], OF[1][1])); }
      else { // empty components between, and a deep chain of single components
        f.glyphs[3] = compound({cp(0, x1, o1, false, 0), cp(1, x1, o1, false, 0), cp(0, x2, 0, false, 0)}); f.glyphs[4] = compound({cp(3, x2, o2, false, 0)}); f.glyphs[5] = compound({cp(4, 0, 0, false, 0)}); gid = 5; add(app(app(A, XF[x1].m, OF[o1][0], OF[o1][1]), XF[x2].m, OF[o2][0], OF[o2][1])); }
      char bb[120]; snprintf(bb, sizeof bb, "mode %d transforms %d %d offsets %d,%d %d,%d", mode, x1, x2, OF[o1][0], OF[o1][1], OF[o2][0], OF[o2][1]); oneGlyph(f.build(), gid, want, "compound glyph", bb, 1024.f, x1 == 5 && o1 == 1, 1e-6); } }
}
#include "c32_more.h"
int main(int argc, char** argv) {
  init(argc, argv); bl_runtime_init(); memcpy(&fullFeatures, &bl_runtime_context.system_info.cpu_features, 4);
  const char* only = getenv("C32_ONLY"); for (size_t k = 0; k < 12; k++) { if (only && size_t(atoi(only)) != k) continue; double t0 = now(); if (k < 3) cmaps(k); else if (k < 6) glyfs(k); else more(k); if (getenv("C32_DEV") && g.shard <= 0) fprintf(stderr, "group %zu: %llu items %.1fs\n", k, (unsigned long long)nIt, now() - t0); vh::stat("transitions", nIt / 8); }
  return done();
}
