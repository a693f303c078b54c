// Groups 6 to 11 of C32.
typedef std::vector<uint32_t> Ids;
static Font baseFont(size_t n) { Font f; f.glyphs.assign(n, ""); f.glyphs[1] = simple({{{0, 0, true}, {90, 0, true}, {90, 80, true}}}, 3); for (size_t i = 0; i < n; i++) f.adv.push_back(500 + 10 * int(i)); return f; }
static bool face1(const std::string& d, BLFontFace& face, BLFont& font, const char* key, const std::string& what) { BLResult r = load(d, face); if (r) { fail(key, "face refused with %u: %s", r, what.c_str()); return false; } font.create_from_face(face, 1024.f); return true; }
// All texts over the glyphs of `alpha` up to `len` glyphs, and one with every sequence of `len` glyphs somewhere.
static std::vector<Ids> texts(const Ids& alpha, size_t len) { std::vector<Ids> o; o.push_back({}); for (size_t i = 0; i < o.size(); i++) { if (o[i].size() == len) continue; Ids base = o[i]; for (uint32_t a : alpha) { Ids t = base; t.push_back(a); o.push_back(t); } } Ids all; for (auto& t : o) if (t.size() == len) all.insert(all.end(), t.begin(), t.end()); o.push_back(all); o.erase(o.begin()); return o; }
static int roundi(double v) { return int(lrint(v)); }
static void metrics() {
  static const int AV[] = {0, 1, 500, 40000, 65535}; const int n = 5;
  for (int L = 1; L <= n; L++) for (int s = 0; s < 60; s++) for (int trunc = 0; trunc < 3; trunc++) { if (!item()) continue; Font f; f.glyphs.assign(size_t(n), ""); f.glyphs[1] = simple({{{10, -20, true}, {90, 0, true}, {90, 80, true}}}, 3); f.glyphs[2] = simple({{{-30, 0, true}, {700, 5, true}, {1, 900, true}}}, 3); f.nLong = L; int z = s; for (int i = 0; i < n; i++) { f.adv.push_back(AV[(z + i * (1 + s / 7)) % 5]); f.lsb.push_back(i * 7 - 9); } f.t["cmap"] = cmapSimple(65, 3, 1); if (s % 4 == 3) f.upm = 2000; f.asc = 700 + s; f.desc = s % 2 ? -200 - s : 100 + s; f.gap = s * 3;
    std::string d = f.build(); if (trunc) { // hmtx without the bearings after the long metrics (some fonts leave them out); maxp stays
      B b; for (int i = 0; i < L; i++) b.u16(uint32_t(f.adv[size_t(i)])).u16(0); if (trunc == 2 && L < n) b.u16(5); f.t["hmtx"] = b.s; d = f.build(); }
    char w[100]; snprintf(w, sizeof w, "%d long metrics of %d, variant %d, hmtx %d", L, n, s, trunc); BLFontFace face; if (load(d, face)) { fail("metrics", "face refused: %s", w); continue; } vh::stat("faces", 1); auto want = [&](uint32_t g2) { return f.adv[size_t(std::min<uint32_t>(g2, uint32_t(L - 1)))]; };
    for (float size : {1024.f, 16.f, 7.5f}) { BLFont font; font.create_from_face(face, size); double k = double(size) / f.upm; Ids ids; for (uint32_t i = 0; i < 12; i++) ids.push_back((i * 5) % 7 % uint32_t(n)); std::vector<BLGlyphPlacement> pl(ids.size()); memset(pl.data(), 0xEE, pl.size() * sizeof(pl[0])); BLResult r = font.get_glyph_advances(ids.data(), 4, pl.data(), ids.size()); bool ok = r == 0; for (size_t i = 0; ok && i < ids.size(); i++) ok = pl[i].advance.x == want(ids[i]) && pl[i].advance.y == 0 && pl[i].placement.x == 0 && pl[i].placement.y == 0; if (!ok) fail("advances", "result %u: %s", r, w);
      // strided ids
      struct P { uint32_t a, gid, b; }; P st[4] = {{9, 4, 9}, {9, 0, 9}, {9, 2, 9}, {9, 1, 9}}; BLGlyphPlacement sp[4]; font.get_glyph_advances(&st[0].gid, sizeof(P), sp, 4); for (int i = 0; i < 4; i++) if (sp[i].advance.x != want(st[i].gid)) fail("advances", "strided glyph %d: %s", i, w);
      BLFontMetrics m = font.metrics(); auto nr = [](double a, double b) { return fabs(a - b) <= 1e-4 * (1 + fabs(b)); }; if (m.size != size || !nr(m.ascent, f.asc * k) || !nr(m.descent, abs(f.desc) * k) || !nr(m.line_gap, f.gap * k)) fail("font-metrics", "size %g: %g %g %g, expected %g %g %g: %s", double(size), double(m.ascent), double(m.descent), double(m.line_gap), f.asc * k, abs(f.desc) * k, f.gap * k, w);
      BLFontDesignMetrics dm = face.design_metrics(); if (dm.units_per_em != int(f.upm) || dm.ascent != f.asc || dm.descent != abs(f.desc) || dm.line_gap != f.gap) fail("font-metrics", "design metrics: %s", w); BLFontMatrix fm = font.matrix(); if (!nr(fm.m00, k) || !nr(fm.m11, -k) || fm.m01 != 0 || fm.m10 != 0) fail("font-metrics", "matrix %g %g: %s", fm.m00, fm.m11, w);
      for (int a = 0; a < 3; a++) for (int b = 0; b < 3; b++) for (int c = 0; c < 4; c++) { char t[4] = {char(65 + a), char(65 + b), char(65 + c), 0}; if (c == 3) t[2] = 0; BLGlyphBuffer gb; gb.set_utf8_text(t); BLTextMetrics tm; r = font.get_text_metrics(gb, tm); vh::stat("texts", 1); size_t nn = strlen(t); double adv = 0; for (size_t i = 0; i < nn; i++) adv += want(uint32_t(t[i] - 64)); uint32_t g0 = uint32_t(t[0] - 64), g1 = uint32_t(t[nn - 1] - 64); auto bx = [&](uint32_t g2) { return g2 == 1 ? std::pair<int, int>(10, 90) : g2 == 2 ? std::pair<int, int>(-30, 700) : std::pair<int, int>(0, 0); }; double lsb = bx(g0).first, rsb = want(g1) - bx(g1).second; if (r || !nr(tm.advance.x, adv * k) || tm.advance.y != 0 || !nr(tm.leading_bearing.x, lsb * k) || !nr(tm.trailing_bearing.x, rsb * k) || !nr(tm.bounding_box.x0, lsb * k) || !nr(tm.bounding_box.x1, (adv - rsb) * k)) fail("text-metrics", "'%s' result %u: advance %g, expected %g; bearings %g %g, expected %g %g: %s", t, r, tm.advance.x, adv * k, tm.leading_bearing.x, tm.trailing_bearing.x, lsb * k, rsb * k, w); }
      BLGlyphBuffer gb; BLTextMetrics tm; if (font.get_text_metrics(gb, tm) || tm.advance.x != 0) fail("text-metrics", "empty text: %s", w); } }
  // OS/2 and post.
  for (int typo = 0; typo < 2; typo++) for (int v = 0; v < 5; v++) for (int s = 0; s < 12; s++) { if (!item()) continue; Font f = baseFont(3); B b; int ta = 600 + s, td = s % 2 ? -150 : 160, tg = 33 * s, xh = 400 + s, ch = 650 - s, wt = s * 90, wd = s; b.u16(uint32_t(v)).u16(500).u16(uint32_t(wt)).u16(uint32_t(wd)).u16(0); for (int i = 0; i < 8; i++) b.u16(60 + i); b.u16(uint32_t(50 + s)).u16(uint32_t(250 - s)).u16(0); for (int i = 0; i < 10; i++) b.u8(uint32_t(i + 2)); for (int i = 0; i < 4; i++) b.u32(0x10u << i); b.tag("TEST").u16(uint32_t((typo ? 0x80 : 0) | (s % 3 == 1 ? 1 : s % 3 == 2 ? 0x200 : 0))).u16(32).u16(90).u16(uint32_t(ta)).u16(uint32_t(td)).u16(uint32_t(tg)).u16(1000).u16(200); if (v >= 1) b.u32(0).u32(0); if (v >= 2) b.u16(uint32_t(xh)).u16(uint32_t(ch)).u16(0).u16(32).u16(1); f.t["OS/2"] = b.s; char w[80]; snprintf(w, sizeof w, "OS/2 version %d, typographic %d, variant %d", v, typo, s); BLFontFace face; if (load(f.build(), face)) { fail("metrics", "face refused: %s", w); continue; } vh::stat("faces", 1); BLFontDesignMetrics dm = face.design_metrics(); int wa = typo ? ta : f.asc, we = typo ? abs(td) : abs(f.desc), wg = typo ? tg : f.gap; if (dm.ascent != wa || dm.descent != we || dm.line_gap != wg) fail("os2", "ascent, descent, gap %d %d %d, expected %d %d %d: %s", dm.ascent, dm.descent, dm.line_gap, wa, we, wg, w); if (v >= 2 && (dm.x_height != xh || dm.cap_height != ch)) fail("os2", "heights %d %d: %s", dm.x_height, dm.cap_height, w); int ew = wt == 0 ? 400 : wt < 10 ? wt * 100 : wt > 999 ? 999 : wt; int ed = wd == 0 ? 5 : wd > 9 ? 9 : wd; if (int(face.weight()) != ew || int(face.stretch()) != ed) fail("os2", "weight %d stretch %d, expected %d %d: %s", int(face.weight()), int(face.stretch()), ew, ed, w); int es = s % 3 == 1 ? BL_FONT_STYLE_ITALIC : s % 3 == 2 ? BL_FONT_STYLE_OBLIQUE : BL_FONT_STYLE_NORMAL; if (int(face.style()) != es) fail("os2", "style %d, expected %d: %s", int(face.style()), es, w); if (dm.strikethrough_thickness != 50 + s) fail("os2", "strikethrough thickness %d: %s", dm.strikethrough_thickness, w); const BLFontPanoseInfo& pi = face.panose_info(); for (int i = 0; i < 10; i++) if (pi.data[i] != i + 2) { fail("os2", "panose: %s", w); break; } }
}
// ---- kerning
struct KM { int kind; std::function<int(int, int, bool&)> f; int flags; }; // flags as in kernWin
static int kernOf(const std::vector<KM>& m, int l, int r) { int v = 0; for (auto& k : m) { if (!(k.flags & 1) || (k.flags & 4)) continue; bool hit = false; int q = k.f(l, r, hit); if (!hit) continue; v = (k.flags & 8) ? q : v + q; } return v; }
static void checkKern(const std::string& tbl, const std::vector<KM>& m, int n, const char* key, const std::string& what) { Font f = baseFont(size_t(n)); f.t["kern"] = tbl; BLFontFace face; BLFont font; if (!face1(f.build(), face, font, key, what)) return; vh::stat("faces", 1); Ids al; for (int i = 0; i < n; i++) al.push_back(uint32_t(i)); auto T = texts(al, n <= 6 ? 2 : 1); if (n > 6) { Ids all; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) { all.push_back(uint32_t(a)); all.push_back(uint32_t(b)); } T.push_back(all); } for (auto& t : T) { BLGlyphBuffer gb; gb.set_glyphs(t.data(), t.size()); BLResult r = font.position_glyphs(gb); vh::stat("texts", 1); vh::stat("pairs", t.size()); if (r || gb.size() != t.size()) { fail(key, "result %u: %s", r, what.c_str()); return; } for (size_t i = 0; i < t.size(); i++) { int k = i + 1 < t.size() ? kernOf(m, int(t[i]), int(t[i + 1])) : 0; auto& p = gb.placement_data()[i]; if (p.advance.x != f.adv[t[i]] + k || p.advance.y || p.placement.x || p.placement.y) { fail(key, "glyphs %u %d: advance %d+(%d), expected %d+(%d): %s", t[i], i + 1 < t.size() ? int(t[i + 1]) : -1, f.adv[t[i]], p.advance.x - f.adv[t[i]], f.adv[t[i]], k, what.c_str()); return; } } } 
  BLFontFeatureSettings fs; fs.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0); BLFont f2; f2.create_from_face(face, 1024.f, fs); Ids t = T.back(); BLGlyphBuffer gb; gb.set_glyphs(t.data(), t.size()); f2.position_glyphs(gb); for (size_t i = 0; i < t.size(); i++) if (gb.placement_data()[i].advance.x != f.adv[t[i]]) { fail("kern-off", "kerning applied although switched off: %s", what.c_str()); return; } }
static KM km0(const std::vector<KP>& v, int flags) { return {0, [v](int l, int r, bool& h) { for (auto& k : v) if (k.l == l && k.r == r) { h = true; return k.v; } return 0; }, flags}; }
static KM km2(int lf, const std::vector<int>& lc, int rf, const std::vector<int>& rc, int nr, const std::vector<int>& val, int flags) { return {2, [=](int l, int r, bool& h) { if (l < lf || l >= lf + int(lc.size()) || r < rf || r >= rf + int(rc.size())) return 0; h = true; return val[size_t(lc[size_t(l - lf)] * nr + rc[size_t(r - rf)])]; }, flags}; }
static KM km3(const std::vector<int>& kv, const std::vector<int>& lc, const std::vector<int>& rc, int nr, const std::vector<int>& idx, int flags) { return {3, [=](int l, int r, bool& h) { if (l >= int(lc.size()) || r >= int(lc.size())) return 0; h = true; return kv[size_t(idx[size_t(lc[size_t(l)] * nr + rc[size_t(r)])])]; }, flags}; }
static void kerns() {
  static const KP PO[] = {{1, 2, -50}, {1, 3, 20}, {2, 1, 7}, {0, 5, -32768}, {5, 5, 32767}, {3, 1, -1}}; char w[120];
  for (int mac = 0; mac < 2; mac++) for (int mask = 1; mask < 64; mask++) { if (!item()) continue; std::vector<KP> v; for (int i = 0; i < 6; i++) if (mask >> i & 1) v.push_back(PO[i]); std::vector<int> o; for (size_t i = 0; i < v.size(); i++) o.push_back(int(i)); int np = 0; std::sort(v.begin(), v.end(), [](const KP& a, const KP& b) { return a.l * 10 + a.r < b.l * 10 + b.r; }); do { std::vector<KP> q; for (int i : o) q.push_back(v[size_t(i)]); snprintf(w, sizeof w, "format 0 %s pairs %x permutation %d", mac ? "mac" : "win", mask, np); KSub s{0, kern0(q), 1}; checkKern(mac ? kernMac({s}) : kernWin({s}), {km0(q, 1)}, 6, "kern0", w); np++; } while (std::next_permutation(o.begin(), o.end()) && np < (g.thorough ? 800 : 60)); }
  // Long lists in disorder: reversed runs, interleaved runs, a few misplaced pairs.
  for (int n : {8, 31, 32, 33, 64, 65, 100, 300, 600}) for (int how = 0; how < 12; how++) { if (!item()) continue; std::vector<KP> v; for (int i = 0; i < n; i++) v.push_back({i / 30, i % 30, i % 2 ? i + 1 : -i - 1}); size_t N = size_t(n); if (how == 1) std::reverse(v.begin(), v.end()); else if (how == 2) std::swap(v[0], v[N - 1]); else if (how == 3) std::rotate(v.begin(), v.begin() + n / 2, v.end()); else if (how == 4) std::rotate(v.begin(), v.begin() + n / 3, v.end()); else if (how == 5) { std::vector<KP> a; for (size_t r = 0; r < 5; r++) for (size_t i = r; i < N; i += 5) a.push_back(v[i]); v = a; } else if (how == 6) { for (size_t i = 0; i + 1 < N; i += 2) std::swap(v[i], v[i + 1]); } else if (how == 7) { for (size_t i = 40; i + 1 < N; i += 41) std::swap(v[i], v[i + 1]); } else if (how >= 8) { uint32_t x = uint32_t(how) * 77; for (size_t i = N - 1; i > 0; i--) { x = x * 1664525 + 1013904223; std::swap(v[i], v[(x >> 8) % (how == 8 ? i + 1 : how == 9 ? std::min<size_t>(i + 1, 9) + (i - std::min<size_t>(i, 8)) : i + 1)]); } if (how == 11) std::sort(v.begin() + n / 4, v.end(), [](const KP& a, const KP& b) { return a.l * 100 + a.r < b.l * 100 + b.r; }); } snprintf(w, sizeof w, "format 0, %d pairs, disorder %d", n, how); checkKern(kernWin({{0, kern0(v), 1}}), {km0(v, 1)}, 32, "kern0 unsorted", w); }
  static const int VAL[] = {-30, 11, 5, -77, 200, 9, 64, -8, 33};
  for (int mac = 0; mac < 2; mac++) for (int lf = 0; lf < 3; lf++) for (int ln = 1; ln <= 4; ln++) for (int rf = 0; rf < 3; rf++) for (int rn = 1; rn <= 4; rn++) for (int s = 0; s < 6; s++) { if (!item()) continue; int nl = 1 + s % 3, nr = 1 + (s + lf) % 3; std::vector<int> lc, rc, val; for (int i = 0; i < ln; i++) lc.push_back((i + s / 3) % nl); for (int i = 0; i < rn; i++) rc.push_back((i * 2 + s) % nr); for (int i = 0; i < nl * nr; i++) val.push_back(VAL[(i + s) % 9]); snprintf(w, sizeof w, "format 2 %s left %d+%d right %d+%d classes %dx%d variant %d", mac ? "mac" : "win", lf, ln, rf, rn, nl, nr, s); KSub k{2, kern2(mac ? 8 : 6, lf, lc, rf, rc, nl, nr, val), 1}; checkKern(mac ? kernMac({k}) : kernWin({k}), {km2(lf, lc, rf, rc, nr, val, 1)}, 6, "kern2", w);
    if (lf == 0 && rf == 0) for (int pad : {0, 1, 6}) { std::vector<int> lc3, rc3, idx, kv; for (int i = 0; i < ln + 1; i++) { lc3.push_back((i + s / 3) % nl); rc3.push_back((i * 2 + s) % nr); } for (int i = 0; i < rn; i++) kv.push_back(VAL[(i * 2 + s) % 9]); for (int i = 0; i < nl * nr; i++) idx.push_back((i + s) % rn); snprintf(w, sizeof w, "format 3 %s %d glyphs %d values classes %dx%d padding %d", mac ? "mac" : "win", ln + 1, rn, nl, nr, pad); KSub k3{3, kern3(kv, lc3, rc3, nl, nr, idx, pad), 1}; checkKern(mac ? kernMac({k3}) : kernWin({k3}), {km3(kv, lc3, rc3, nr, idx, 1)}, 6, "kern3", w); } }
  // Several sub-tables; each horizontal, vertical (0), cross-stream (5) or overriding (9).
  for (int mac = 0; mac < 2; mac++) for (int len = 1; len <= 3; len++) { int tot = 1; for (int i = 0; i < len; i++) tot *= 12; for (int z = 0; z < tot; z++) { if (len == 3 && !g.thorough && z % 3) continue; if (!item()) continue; std::vector<KSub> s; std::vector<KM> m; std::string wd = mac ? "mac" : "win"; bool skip = false; for (int i = 0, q = z; i < len; i++, q /= 12) { int kind = q % 3, fl = q / 3 % 4; static const int FL[] = {1, 0, 5, 9}; fl = FL[fl]; if (mac && fl == 9) skip = true; int d = 10 * (i + 1); snprintf(w, sizeof w, " [format %d flags %d]", kind == 0 ? 0 : kind + 1, fl); wd += w; std::vector<KP> v{{1, 2, d}, {2, 3, -d - 1}, {3, 3, i ? 0 : d}}; std::vector<int> c1{0, 1, 0, 1}, vv{d, d + 1, d + 2, d + 3}, id{0, 1, 2, 3}; if (kind == 0) { s.push_back({0, kern0(v), fl}); m.push_back(km0(v, fl)); } else if (kind == 1) { s.push_back({2, kern2(mac ? 8 : 6, 1, c1, 1, c1, 2, 2, vv), fl}); m.push_back(km2(1, c1, 1, c1, 2, vv, fl)); } else { s.push_back({3, kern3(vv, c1, c1, 2, 2, id, 0), fl}); m.push_back(km3(vv, c1, c1, 2, id, fl)); } } if (skip) continue; checkKern(mac ? kernMac(s) : kernWin(s), m, 5, "kern groups", wd); } }
}
// ---- layout
struct G { uint32_t id; uint32_t cl; };
typedef std::vector<G> Run;
// A substitution at position i: fills `out` with replacement glyphs and returns the number of glyphs consumed; 0 when it does not apply.
typedef std::function<size_t(const Run&, size_t, Run&)> Sub;
static Run gsubOnce(const Run& in, const std::vector<Sub>& subs) { Run o; for (size_t i = 0; i < in.size();) { Run r; size_t n = 0; for (auto& s : subs) { n = s(in, i, r); if (n) break; } if (!n) { o.push_back(in[i++]); continue; } o.insert(o.end(), r.begin(), r.end()); i += n; } return o; }
static int inCov(const std::vector<int>& c, uint32_t g2) { for (size_t i = 0; i < c.size(); i++) if (c[i] == int(g2)) return int(i); return -1; }
static Sub mSingle1(std::vector<int> cov, int d) { return [=](const Run& r, size_t i, Run& o) -> size_t { if (inCov(cov, r[i].id) < 0) return 0; o = {{(r[i].id + uint32_t(d)) & 0xFFFF, r[i].cl}}; return 1; }; }
static Sub mSeq(std::vector<int> cov, std::vector<std::vector<int>> to, bool alt = false) { return [=](const Run& r, size_t i, Run& o) -> size_t { int k = inCov(cov, r[i].id); if (k < 0) return 0; o.clear(); for (int x : to[size_t(k)]) { o.push_back({uint32_t(x), r[i].cl}); if (alt) break; } return 1; }; }
static Sub mSingle2(std::vector<int> cov, std::vector<int> to) { std::vector<std::vector<int>> t; for (int x : to) t.push_back({x}); return mSeq(cov, t); }
static Sub mLig(std::vector<int> cov, std::vector<std::vector<Lig>> to) { return [=](const Run& r, size_t i, Run& o) -> size_t { int k = inCov(cov, r[i].id); if (k < 0) return 0; for (auto& l : to[size_t(k)]) { if (i + l.rest.size() >= r.size()) continue; bool ok = true; for (size_t j = 0; j < l.rest.size(); j++) ok = ok && r[i + 1 + j].id == uint32_t(l.rest[j]); if (ok) { o = {{uint32_t(l.gid), r[i].cl}}; return 1 + l.rest.size(); } } return 0; }; }
static std::string rt(const Run& r) { std::string o; char b[24]; for (auto& q : r) { snprintf(b, sizeof b, "%s%u", o.empty() ? "" : " ", q.id); o += b; } return o.size() > 200 ? o.substr(0, 200) : o; }
static bool sameRun(BLGlyphBuffer& gb, const Run& want, bool clusters = true) { if (gb.size() != want.size()) return false; for (size_t i = 0; i < want.size(); i++) if (gb.content()[i] != want[i].id || (clusters && gb.info_data()[i].cluster != want[i].cl)) return false; return true; }
// `on`: lookups to apply.
static void checkGsub(const std::vector<Look>& L, const std::vector<std::vector<Sub>>& M, uint32_t on, const std::vector<Ids>& T, const char* key, const std::string& what, int n = 12) {
  Font f = baseFont(size_t(n)); std::vector<int> all; for (size_t i = 0; i < L.size(); i++) all.push_back(int(i)); f.t["GSUB"] = layout(L, {{"liga", all}}, false); f.t["cmap"] = cmapSimple(65, n, 0); BLFontFace face; BLFont font; if (!face1(f.build(), face, font, key, what)) return; vh::stat("faces", 1); BLBitArray plan; plan.resize(uint32_t(L.size())); for (uint32_t i = 0; i < L.size(); i++) if (on >> i & 1) plan.set_bit(i);
  for (auto& t : T) { Run w; std::vector<uint32_t> txt; for (size_t i = 0; i < t.size(); i++) { w.push_back({t[i], uint32_t(i)}); txt.push_back(65 + t[i]); } Run src = w; for (size_t i = 0; i < L.size(); i++) if (on >> i & 1) w = gsubOnce(w, M[i]); BLGlyphBuffer gb; gb.set_utf32_text(txt.data(), txt.size()); BLResult r = font.map_text_to_glyphs(gb); if (!r) r = font.apply_gsub(gb, plan); vh::stat("texts", 1); vh::stat("glyphs", t.size()); if (r || !sameRun(gb, w)) { Run got; for (size_t i = 0; i < gb.size(); i++) got.push_back({gb.content()[i], gb.info_data()[i].cluster}); bool idsOk = got.size() == w.size(); for (size_t i = 0; idsOk && i < w.size(); i++) idsOk = got[i].id == w[i].id; char k2[80]; snprintf(k2, sizeof k2, "%s%s", key, idsOk ? "-clusters" : ""); if (!strcmp(key, "subtables")) { Run seq = src; for (size_t i = 0; i < L.size(); i++) if (on >> i & 1) for (auto& m : M[i]) seq = gsubOnce(seq, {m}); if (r || !sameRun(gb, seq)) snprintf(k2, sizeof k2, "subtables wrong"); } fail(k2, "%s becomes %s, expected %s (result %u): %s", rt(src).c_str(), rt(got).c_str(), rt(w).c_str(), r, what.c_str()); return; } }
}
static std::vector<int> covOf(int mask, int first = 1) { std::vector<int> o; for (int i = 0; i < 16; i++) if (mask >> i & 1) o.push_back(first + i); return o; }
static void gsubs() {
  char w[160]; auto T3 = texts({0, 1, 2, 3}, 3), T2 = texts({0, 1, 2, 3, 4, 5, 6}, 2);
  for (int m = 1; m < 64; m++) for (int cf = 1; cf <= 2; cf++) for (int ext = 0; ext < 2; ext++) { for (int d : {1, -1, 0, 4, 65535, -2}) { if (!item()) continue; auto c = covOf(m); snprintf(w, sizeof w, "single 1, coverage %x format %d, delta %d%s", m, cf, d, ext ? ", extension" : ""); checkGsub({{1, {single1(cf, c, d)}, 0, bool(ext)}}, {{mSingle1(c, d)}}, 1, T2, "single", w); }
    for (int s = 0; s < 4; s++) { if (!item()) continue; auto c = covOf(m); std::vector<int> to; for (size_t i = 0; i < c.size(); i++) to.push_back(s == 0 ? 11 - int(i) : s == 1 ? 5 : s == 2 ? 0 : c[c.size() - 1 - i]); snprintf(w, sizeof w, "single 2, coverage %x format %d, variant %d", m, cf, s); checkGsub({{1, {single2(cf, c, to)}, 0, bool(ext)}}, {{mSingle2(c, to)}}, 1, T2, "single", w); } }
  static const std::vector<int> SQ[] = {{7}, {8, 9}, {1, 2}, {2, 2, 2}, {3}, {9, 1, 8, 2, 7}, {}}; // the empty sequence deletes the glyph
  for (int m = 1; m < 8; m++) for (int cf = 1; cf <= 2; cf++) for (int ext = 0; ext < 2; ext++) { auto c = covOf(m); int tot = 1; for (size_t i = 0; i < c.size(); i++) tot *= 7; for (int z = 0; z < tot; z++) { if (!item()) continue; std::vector<std::vector<int>> to; bool empty = false; for (size_t i = 0, q = size_t(z); i < c.size(); i++, q /= 7) { to.push_back(SQ[q % 7]); empty = empty || SQ[q % 7].empty(); } snprintf(w, sizeof w, "coverage %x format %d, sequences %d", m, cf, z); checkGsub({{2, {seqs(cf, c, to)}, 0, bool(ext)}}, {{mSeq(c, to)}}, 1, T3, empty ? "multiple empty" : "multiple", w); if (!empty) checkGsub({{3, {seqs(cf, c, to)}, 0, bool(ext)}}, {{mSeq(c, to, true)}}, 1, T3, "alternate", w); } }
  static const std::vector<int> RS[] = {{1}, {2}, {1, 2}, {2, 1}, {1, 1}, {3, 2, 1}, {}};
  std::vector<std::vector<int>> sets; for (int a = 0; a < 7; a++) { sets.push_back({a}); for (int b = 0; b < 7; b++) if (b != a) { sets.push_back({a, b}); for (int c = 0; c < 7; c++) if (c != a && c != b) sets.push_back({a, b, c}); } }
  auto mk = [&](const std::vector<int>& v, int base) { std::vector<Lig> o; for (size_t i = 0; i < v.size(); i++) o.push_back({base + int(i), RS[v[i]]}); return o; };
  auto T4 = texts({1, 2, 3}, 4); for (int cf = 1; cf <= 2; cf++) for (size_t a = 0; a < sets.size(); a++) for (size_t b = 0; b < (g.thorough ? sets.size() : 8); b++) { if (!item()) continue; std::vector<std::vector<Lig>> to{mk(sets[a], 7)}; std::vector<int> c{1}; size_t bi = g.thorough ? b : (b * 37 + a) % sets.size(); bool one = std::count(sets[a].begin(), sets[a].end(), 6) > 0; if (b) { c.push_back(2); to.push_back(mk(sets[bi], 4)); one = one || std::count(sets[bi].begin(), sets[bi].end(), 6) > 0; } snprintf(w, sizeof w, "coverage format %d, set %zu and %d", cf, a, b ? int(bi) : -1); checkGsub({{4, {ligatures(cf, c, to)}, 0, bool((a + b) % 2)}}, {{mLig(c, to)}}, 1, T4, one ? "ligature of one" : "ligature", w); }
  // Wide coverage: many glyphs or ranges with gaps.
  for (int n = 1; n <= 64; n++) for (int gap = 1; gap <= 4; gap++) for (int cf = 1; cf <= 2; cf++) { if (!item()) continue; std::vector<int> c, to; std::vector<std::vector<int>> sq; int gid = 3; for (int i = 0; i < n; i++) { c.push_back(gid); to.push_back(299 - i); sq.push_back({i, 299 - i}); gid += i % 3 == 2 ? gap : 1; } Ids all; for (uint32_t i = 0; i < 300; i++) all.push_back(i); Ids rev = all; std::reverse(rev.begin(), rev.end()); std::vector<Ids> T{all, rev, {uint32_t(c[0])}, {uint32_t(c.back())}, {uint32_t(c[0] - 1)}, {uint32_t(c.back() + 1)}}; snprintf(w, sizeof w, "%d covered glyphs, gap %d, coverage format %d", n, gap, cf); checkGsub({{1, {single2(cf, c, to)}}}, {{mSingle2(c, to)}}, 1, T, "single", w, 300); checkGsub({{1, {single1(cf, c, 30)}}}, {{mSingle1(c, 30)}}, 1, T, "single", w, 300); checkGsub({{2, {seqs(cf, c, sq)}}}, {{mSeq(c, sq)}}, 1, T, "multiple", w, 300); }
}
// Lookups used in combinations: text of the sub-table and its model.
struct LM { int type; std::string t; Sub m; };
static std::vector<LM> lookPool() { std::vector<LM> p; p.push_back({1, single1(1, {1, 2}, 1), mSingle1({1, 2}, 1)}); p.push_back({1, single2(2, {2, 3}, {3, 1}), mSingle2({2, 3}, {3, 1})}); p.push_back({2, seqs(1, {1, 3}, {{2, 3}, {1}}), mSeq({1, 3}, {{2, 3}, {1}})}); p.push_back({3, seqs(1, {2}, {{1, 3}}), mSeq({2}, {{1, 3}}, true)}); std::vector<std::vector<Lig>> l1{{{5, {2, 3}}, {4, {2}}}}, l2{{{1, {3}}}, {{2, {1}}, {6, {3, 3}}}}; p.push_back({4, ligatures(1, {1}, l1), mLig({1}, l1)}); p.push_back({4, ligatures(2, {2, 3}, l2), mLig({2, 3}, l2)}); return p; }
static void gsub2() {
  char w[160]; auto P = lookPool(); auto T = texts({1, 2, 3}, 4);
  // One to three lookups, all subsets of them switched on.
  for (int a = 0; a < 6; a++) for (int b = -1; b < 6; b++) for (int c = -1; c < (b < 0 ? 0 : 6); c++) for (int on = 1; on < (b < 0 ? 2 : c < 0 ? 4 : 8); on++) { if (!item()) continue; std::vector<Look> L; std::vector<std::vector<Sub>> M; for (int x : {a, b, c}) if (x >= 0) { L.push_back({P[size_t(x)].type, {P[size_t(x)].t}, 0, bool((x + on) % 2)}); M.push_back({P[size_t(x)].m}); } snprintf(w, sizeof w, "lookups %d %d %d, on %x", a, b, c, on); checkGsub(L, M, uint32_t(on), T, "lookups", w); }
  // Two sub-tables of the same type in one lookup: the first that applies at a glyph is used.
  for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) for (int ext = 0; ext < 2; ext++) { if (P[size_t(a)].type != P[size_t(b)].type) continue; if (!item()) continue; snprintf(w, sizeof w, "sub-tables %d %d%s", a, b, ext ? ", extension" : ""); checkGsub({{P[size_t(a)].type, {P[size_t(a)].t, P[size_t(b)].t}, 0, bool(ext)}}, {{P[size_t(a)].m, P[size_t(b)].m}}, 1, T, "subtables", w); }
  // Features: which lookups shape() applies.
  struct FT { const char* tag; bool def; }; static const FT FE[] = {{"ccmp", false}, {"liga", true}, {"calt", true}, {"clig", true}, {"locl", false}, {"rlig", false}, {"dlig", false}, {"smcp", false}, {"ss01", false}, {"salt", false}};
  for (int a = 0; a < 10; a++) for (int b = 0; b < 10; b++) for (int st = 0; st < 9; st++) for (int lay = 0; lay < 4; lay++) { if (a == b) continue; if (!item()) continue; if (strcmp(FE[a].tag, FE[b].tag) > 0 && false) continue; int x = (a + st) % 6, y = (b + lay + 1) % 6; std::vector<Look> L{{P[size_t(x)].type, {P[size_t(x)].t}}, {P[size_t(y)].type, {P[size_t(y)].t}}, {P[size_t((x + y) % 6)].type, {P[size_t((x + y) % 6)].t}}}; Sub M[3] = {P[size_t(x)].m, P[size_t(y)].m, P[size_t((x + y) % 6)].m}; std::vector<int> la = lay == 0 ? std::vector<int>{0} : lay == 1 ? std::vector<int>{1} : lay == 2 ? std::vector<int>{2, 0} : std::vector<int>{0, 1}, lb = lay == 0 ? std::vector<int>{1} : lay == 1 ? std::vector<int>{0} : lay == 2 ? std::vector<int>{1} : std::vector<int>{1, 2}; Font f = baseFont(12); f.t["GSUB"] = layout(L, {{FE[a].tag, la}, {FE[b].tag, lb}}, false, lay % 2 ? "latn" : "DFLT"); f.t["cmap"] = cmapSimple(65, 12, 0); snprintf(w, sizeof w, "features %s %s, settings %d, layout %d, lookups %d %d", FE[a].tag, FE[b].tag, st, lay, x, y); BLFontFace face; if (load(f.build(), face)) { fail("features", "face refused: %s", w); continue; } vh::stat("faces", 1); BLFontFeatureSettings fs; bool ea = FE[a].def, eb = FE[b].def; if (st % 3) { ea = st % 3 == 2; fs.set_value(BL_MAKE_TAG(uint8_t(FE[a].tag[0]), uint8_t(FE[a].tag[1]), uint8_t(FE[a].tag[2]), uint8_t(FE[a].tag[3])), ea); } if (st / 3) { eb = st / 3 == 2; fs.set_value(BL_MAKE_TAG(uint8_t(FE[b].tag[0]), uint8_t(FE[b].tag[1]), uint8_t(FE[b].tag[2]), uint8_t(FE[b].tag[3])), eb); } bool on[3] = {}; if (ea) for (int q : la) on[q] = true; if (eb) for (int q : lb) on[q] = true; BLFont font; font.create_from_face(face, 1024.f, fs);
    for (auto& t : T) { if (t.size() != 3 && t.size() < 5) continue; Run r; std::vector<uint32_t> txt; for (size_t i = 0; i < t.size(); i++) { r.push_back({t[i], uint32_t(i)}); txt.push_back(65 + t[i]); } Run src = r; for (int i = 0; i < 3; i++) if (on[i]) r = gsubOnce(r, {M[i]}); BLGlyphBuffer gb; gb.set_utf32_text(txt.data(), txt.size()); BLResult res = font.shape(gb); vh::stat("texts", 1); bool adv = true; if (!res && sameRun(gb, r)) for (size_t i = 0; i < r.size(); i++) adv = adv && gb.placement_data()[i].advance.x == f.adv[r[i].id]; if (res || !sameRun(gb, r) || !adv) { Run got; for (size_t i = 0; i < gb.size(); i++) got.push_back({gb.content()[i], 0}); fail("features", "%s becomes %s, expected %s (result %u, on %d%d%d)%s: %s", rt(src).c_str(), rt(got).c_str(), rt(r).c_str(), res, on[0], on[1], on[2], adv ? "" : " wrong advances", w); break; } } }
}
// ---- GPOS
struct Adj { int v[4]; };
static void addV(Adj& a, int f, const Val& v) { for (int i = 0; i < 4; i++) if (f >> i & 1) a.v[i] += v.v[i]; }
// A positioning at i: adjusts and returns the number of glyphs consumed; 0 when it does not apply.
typedef std::function<size_t(const Ids&, size_t, std::vector<Adj>&)> Pos;
static Pos mPos1(std::vector<int> cov, int f, std::vector<Val> v) { return [=](const Ids& t, size_t i, std::vector<Adj>& a) -> size_t { int k = inCov(cov, t[i]); if (k < 0) return 0; addV(a[i], f, v[v.size() == 1 ? 0 : size_t(k)]); return 1; }; }
static Pos mPair1(std::vector<int> cov, int f1, int f2, std::vector<std::vector<PP>> v) { return [=](const Ids& t, size_t i, std::vector<Adj>& a) -> size_t { int k = inCov(cov, t[i]); if (k < 0 || i + 1 >= t.size()) return 0; for (auto& p : v[size_t(k)]) if (uint32_t(p.r) == t[i + 1]) { addV(a[i], f1, p.a); addV(a[i + 1], f2, p.b); return f2 ? 2 : 1; } return 0; }; }
static Pos mPair2(std::vector<int> cov, int f1, int f2, std::function<int(uint32_t)> c1, std::function<int(uint32_t)> c2, int n2, std::vector<std::pair<Val, Val>> v) { return [=](const Ids& t, size_t i, std::vector<Adj>& a) -> size_t { int k = inCov(cov, t[i]); if (k < 0 || i + 1 >= t.size()) return 0; auto& q = v[size_t(c1(t[i]) * n2 + c2(t[i + 1]))]; addV(a[i], f1, q.first); addV(a[i + 1], f2, q.second); return f2 ? 2 : 1; }; }
static void checkGpos(const std::vector<Look>& L, const std::vector<std::vector<Pos>>& M, uint32_t on, const std::vector<Ids>& T, const char* key, const std::string& what, int n = 12) {
  Font f = baseFont(size_t(n)); std::vector<int> all; for (size_t i = 0; i < L.size(); i++) if (on >> i & 1) all.push_back(int(i)); f.t["GPOS"] = layout(L, {{"kern", all}}, true); BLFontFace face; BLFont font; if (!face1(f.build(), face, font, key, what)) return; vh::stat("faces", 1);
  for (auto& t : T) { std::vector<Adj> a(t.size(), Adj{{0, 0, 0, 0}}); for (size_t l = 0; l < L.size(); l++) if (on >> l & 1) for (size_t i = 0; i < t.size();) { size_t k = 0; for (auto& m : M[l]) { k = m(t, i, a); if (k) break; } i += k ? k : 1; } BLGlyphBuffer gb; gb.set_glyphs(t.data(), t.size()); BLResult r = font.position_glyphs(gb); vh::stat("texts", 1); vh::stat("glyphs", t.size()); if (r) { fail(key, "result %u: %s", r, what.c_str()); return; } for (size_t i = 0; i < t.size(); i++) { auto& p = gb.placement_data()[i]; int e[4] = {a[i].v[0], a[i].v[1], f.adv[t[i]] + a[i].v[2], a[i].v[3]}; if (p.placement.x != e[0] || p.placement.y != e[1] || p.advance.x != e[2] || p.advance.y != e[3]) { char k2[80]; snprintf(k2, sizeof k2, "%s", key); if (!strcmp(key, "pos subtables")) { std::vector<Adj> b(t.size(), Adj{{0, 0, 0, 0}}); for (size_t l = 0; l < L.size(); l++) if (on >> l & 1) for (auto& m : M[l]) for (size_t j = 0; j < t.size();) { size_t k = m(t, j, b); j += k ? k : 1; } for (size_t j = 0; j < t.size(); j++) { auto& q = gb.placement_data()[j]; if (q.placement.x != b[j].v[0] || q.placement.y != b[j].v[1] || q.advance.x != f.adv[t[j]] + b[j].v[2] || q.advance.y != b[j].v[3]) snprintf(k2, sizeof k2, "pos subtables wrong"); } } fail(k2, "glyphs %s at %zu: %d %d %d %d, expected %d %d %d %d: %s", txt(t).substr(0, 90).c_str(), i, p.placement.x, p.placement.y, p.advance.x, p.advance.y, e[0], e[1], e[2], e[3], what.c_str()); return; } } }
}
static Val val(int s) { return Val{{s * 7 - 20, 3 - s * 11, s % 2 ? -s * 13 : s * 5, s * 2 - 1}}; }
static void gposs() {
  char w[160]; auto T2 = texts({0, 1, 2, 3, 4}, 2), T3 = texts({1, 2, 3}, 3);
  for (int f = 1; f < 16; f++) for (int dev = 0; dev < 16; dev += dev ? 8 : 1) for (int m = 1; m < 16; m += 1 + dev) for (int cf = 1; cf <= 2; cf++) { if (!item()) continue; auto c = covOf(m); int vf = f | dev << 4; std::vector<Val> v; for (size_t i = 0; i < c.size(); i++) v.push_back(val(int(i) + 1)); snprintf(w, sizeof w, "value format %x, coverage %x format %d", vf, m, cf); checkGpos({{1, {pos1(cf, c, vf, val(3))}}}, {{mPos1(c, f, {val(3)})}}, 1, T2, "single pos", w); std::vector<Val> vv = v; if (v.size() > 1) checkGpos({{1, {pos2(cf, c, vf, v)}, 0, true}}, {{mPos1(c, f, vv)}}, 1, T2, "single pos", w); }
  for (int f1 = 0; f1 < 16; f1++) for (int f2 = 0; f2 < 16; f2++) for (int m = 1; m < 4; m++) for (int cf = 1; cf <= 2; cf++) { if (!f1 && !f2) continue; if (!item()) continue; auto c = covOf(m); std::vector<std::vector<PP>> v; for (size_t i = 0; i < c.size(); i++) { v.push_back({}); for (int r : {0, 1, 3}) v.back().push_back({r, val(r + int(i)), val(r + 5)}); } snprintf(w, sizeof w, "value formats %x %x, coverage %x format %d", f1, f2, m, cf); checkGpos({{2, {pair1(cf, c, f1, f2, v)}, 0, bool(f1 & 1)}}, {{mPair1(c, f1, f2, v)}}, 1, T3, f2 ? "pair 1 with second value" : "pair 1", w);
    for (int cd = 1; cd <= 2; cd++) { std::vector<int> k1{1, 0, 2}, k2{2, 1, 1}; std::vector<std::pair<Val, Val>> q; for (int i = 0; i < 9; i++) q.push_back({val(i), val(i + 3)}); auto c1 = [=](uint32_t x) { return x >= 1 && x < 4 ? k1[x - 1] : 0; }; auto c2 = [=](uint32_t x) { return x >= 2 && x < 5 ? k2[x - 2] : 0; }; snprintf(w, sizeof w, "value formats %x %x, coverage %x format %d, class format %d", f1, f2, m, cf, cd); checkGpos({{2, {pair2(cf, c, f1, f2, classDef(cd, 1, k1), classDef(3 - cd, 2, k2), 3, 3, q)}}}, {{mPair2(c, f1, f2, c1, c2, 3, q)}}, 1, T3, f2 ? "pair 2 with second value" : "pair 2", w); } }
  for (int n = 1; n <= 40; n++) for (int gap = 1; gap <= 3; gap++) { if (!item()) continue; std::vector<PP> v; int r = 2; for (int i = 0; i < n; i++) { v.push_back({r, val(i), val(0)}); r += i % 4 == 3 ? gap : 1; } std::vector<int> c{1, 5, 9}; std::vector<std::vector<PP>> vv{v, {}, v}; Ids t; for (uint32_t i = 0; i < 100; i++) { t.push_back(i % 3 ? 1 : 9); t.push_back(i); t.push_back(5); } snprintf(w, sizeof w, "%d pairs, gap %d", n, gap); checkGpos({{2, {pair1(1 + n % 2, c, 4, 0, vv)}}}, {{mPair1(c, 4, 0, vv)}}, 1, {t}, "pair 1", w, 120); }
  // Several lookups, and several sub-tables in one lookup.
  std::vector<int> c1{1, 2}, c2{2, 3}; std::vector<std::vector<PP>> pv{{{1, val(2), val(1)}, {2, val(4), val(1)}}, {{3, val(6), val(1)}}}; std::vector<std::pair<Val, Val>> q; for (int i = 0; i < 4; i++) q.push_back({val(i + 1), val(0)}); auto k1 = [](uint32_t x) { return x == 2 ? 1 : 0; }; struct PL { int type; std::string t; Pos m; }; std::vector<PL> P{{1, pos1(1, c1, 5, val(4)), mPos1(c1, 5, {val(4)})}, {1, pos2(2, c2, 10, {val(1), val(5)}), mPos1(c2, 10, {val(1), val(5)})}, {2, pair1(1, c1, 4, 0, pv), mPair1(c1, 4, 0, pv)}, {2, pair2(1, c2, 5, 0, classDef(1, 2, {1}), classDef(2, 2, {1}), 2, 2, q), mPair2(c2, 5, 0, k1, k1, 2, q)}};
  for (int a = 0; a < 4; a++) for (int b = -1; b < 4; b++) for (int c = -1; c < (b < 0 ? 0 : 4); c++) for (int on = 1; on < (b < 0 ? 2 : c < 0 ? 4 : 8); on++) { if (!item()) continue; std::vector<Look> L; std::vector<std::vector<Pos>> M; for (int x : {a, b, c}) if (x >= 0) { L.push_back({P[size_t(x)].type, {P[size_t(x)].t}, 0, bool((x + on) % 2)}); M.push_back({P[size_t(x)].m}); } snprintf(w, sizeof w, "lookups %d %d %d, on %x", a, b, c, on); checkGpos(L, M, uint32_t(on), T3, "pos lookups", w); }
  for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) { if (P[size_t(a)].type != P[size_t(b)].type) continue; if (!item()) continue; snprintf(w, sizeof w, "sub-tables %d %d", a, b); checkGpos({{P[size_t(a)].type, {P[size_t(a)].t, P[size_t(b)].t}}}, {{P[size_t(a)].m, P[size_t(b)].m}}, 1, T3, "pos subtables", w); }
}
// ---- CFF: a reference interpreter of Type 2 charstrings, written from the specification. `ok` is cleared where the specification leaves the result open.
struct Ref {
  const std::vector<std::string>* cs[3]; std::vector<double> st; std::map<int, double> mem; std::vector<std::array<double, 3>> out; double x = 0, y = 0; bool open = false, ok = true, width = false; size_t hints = 0; int depth = 0;
  static int bias(size_t n) { return n < 1240 ? 107 : n < 33900 ? 1131 : 32768; }
  void to(double c, double dx, double dy) { x += dx; y += dy; out.push_back({c, x, y}); }
  void line(double dx, double dy) { if (!open) ok = false; to(1, dx, dy); }
  void curve(double a, double b, double c, double d, double e, double f) { if (!open) ok = false; to(4, a, b); to(4, c, d); to(4, e, f); }
  void close() { if (open) out.push_back({5, 0, 0}); open = false; }
  void take(size_t want, bool even = false) { bool extra = even ? st.size() % 2 != 0 : st.size() > want; if (extra) { if (width || (!even && st.size() != want + 1)) ok = false; st.erase(st.begin()); } width = true; if (!even && st.size() != want) ok = false; }
  // Returns true when the glyph has ended.
  bool run(const std::string& p) {
    if (++depth > 11) ok = false; size_t i = 0, n = p.size(); auto u = [&](size_t k) { return int(uint8_t(p[k])); };
    while (ok && i < n) { int b = u(i++); if (b == 28 || b >= 32) { double v; if (b == 28) { v = int16_t(u(i) << 8 | u(i + 1)); i += 2; } else if (b <= 246) v = b - 139; else if (b <= 250) v = (b - 247) * 256 + u(i++) + 108; else if (b <= 254) v = -(b - 251) * 256 - u(i++) - 108; else { v = double(int32_t(uint32_t(u(i)) << 24 | uint32_t(u(i + 1)) << 16 | uint32_t(u(i + 2)) << 8 | uint32_t(u(i + 3)))) / 65536.0; i += 4; } st.push_back(v); if (st.size() > 48) ok = false; continue; }
      auto need = [&](bool c) { if (!c) ok = false; return c; }; size_t k = st.size(), j = 0; auto a = [&](size_t q) { return st[q]; };
      switch (b) {
        case 21: take(2); if (ok) { close(); to(0, st[0], st[1]); open = true; } st.clear(); break;
        case 22: take(1); if (ok) { close(); to(0, st[0], 0); open = true; } st.clear(); break;
        case 4: take(1); if (ok) { close(); to(0, 0, st[0]); open = true; } st.clear(); break;
        case 5: if (need(k >= 2 && k % 2 == 0)) for (; j < k; j += 2) line(a(j), a(j + 1)); st.clear(); break;
        case 6: case 7: if (need(k >= 1)) for (; j < k; j++) if ((j % 2 == 0) == (b == 6)) line(a(j), 0); else line(0, a(j)); st.clear(); break;
        case 8: if (need(k >= 6 && k % 6 == 0)) for (; j < k; j += 6) curve(a(j), a(j + 1), a(j + 2), a(j + 3), a(j + 4), a(j + 5)); st.clear(); break;
        case 24: if (need(k >= 8 && k % 6 == 2)) { for (; j + 2 < k; j += 6) curve(a(j), a(j + 1), a(j + 2), a(j + 3), a(j + 4), a(j + 5)); line(a(j), a(j + 1)); } st.clear(); break;
        case 25: if (need(k >= 8 && k % 2 == 0)) { for (; j + 6 < k; j += 2) line(a(j), a(j + 1)); curve(a(j), a(j + 1), a(j + 2), a(j + 3), a(j + 4), a(j + 5)); } st.clear(); break;
        case 27: if (need(k >= 4 && k % 4 <= 1)) { double e = 0; if (k % 4) e = a(j++); for (; j < k; j += 4, e = 0) curve(a(j), e, a(j + 1), a(j + 2), a(j + 3), 0); } st.clear(); break;
        case 26: if (need(k >= 4 && k % 4 <= 1)) { double e = 0; if (k % 4) e = a(j++); for (; j < k; j += 4, e = 0) curve(e, a(j), a(j + 1), a(j + 2), 0, a(j + 3)); } st.clear(); break;
        case 30: case 31: if (need(k >= 4 && k % 4 <= 1)) { bool h = b == 31; for (; j + 4 <= k; j += 4, h = !h) { double l = k - j == 5 ? a(j + 4) : 0; if (h) curve(a(j), 0, a(j + 1), a(j + 2), l, a(j + 3)); else curve(0, a(j), a(j + 1), a(j + 2), a(j + 3), l); } } st.clear(); break;
        case 1: case 3: case 18: case 23: take(0, true); if (need(st.size() >= 2)) hints += st.size() / 2; st.clear(); break;
        case 19: case 20: take(0, true); hints += st.size() / 2; i += (hints + 7) / 8; if (i > n || !hints) ok = false; st.clear(); break;
        case 10: case 29: { if (!need(k >= 1)) break; auto& v = *cs[b == 10 ? 2 : 1]; int id = int(st.back()) + bias(v.size()); st.pop_back(); if (!need(id >= 0 && size_t(id) < v.size())) break; if (run(v[size_t(id)])) return true; break; }
        case 11: depth--; return false;
        case 14: take(0); close(); return true;
        case 12: { int e = i < n ? u(i++) : 255; auto pop = [&]() { if (st.empty()) { ok = false; return 0.0; } double v = st.back(); st.pop_back(); return v; };
          auto whole = [&](double v) { if (v != floor(v) || fabs(v) > 1000) ok = false; return int(v); };
          switch (e) {
            case 35: if (need(k == 13)) { curve(a(0), a(1), a(2), a(3), a(4), a(5)); curve(a(6), a(7), a(8), a(9), a(10), a(11)); } st.clear(); break;
            case 34: if (need(k == 7)) { curve(a(0), 0, a(1), a(2), a(3), 0); curve(a(4), 0, a(5), -a(2), a(6), 0); } st.clear(); break;
            case 36: if (need(k == 9)) { curve(a(0), a(1), a(2), a(3), a(4), 0); curve(a(5), 0, a(6), a(7), a(8), -(a(1) + a(3) + a(7))); } st.clear(); break;
            case 37: if (need(k == 11)) { double dx = a(0) + a(2) + a(4) + a(6) + a(8), dy = a(1) + a(3) + a(5) + a(7) + a(9); curve(a(0), a(1), a(2), a(3), a(4), a(5)); if (fabs(dx) > fabs(dy)) curve(a(6), a(7), a(8), a(9), a(10), -dy); else curve(a(6), a(7), a(8), a(9), -dx, a(10)); } st.clear(); break;
            case 3: { double q = pop(), r = pop(); st.push_back(q != 0 && r != 0); break; } case 4: { double q = pop(), r = pop(); st.push_back(q != 0 || r != 0); break; } case 5: st.push_back(pop() == 0); break; case 9: st.push_back(fabs(pop())); break; case 10: { double q = pop(), r = pop(); st.push_back(r + q); break; } case 11: { double q = pop(), r = pop(); st.push_back(r - q); break; } case 12: { double q = pop(), r = pop(); if (q == 0) ok = false; st.push_back(ok ? r / q : 0); break; } case 14: st.push_back(-pop()); break; case 15: { double q = pop(), r = pop(); st.push_back(q == r); break; } case 18: pop(); break;
            case 20: { int q = whole(pop()); double v = pop(); if (q < 0 || q > 31) ok = false; mem[q] = v; break; } case 21: { int q = whole(pop()); if (!mem.count(q)) ok = false; st.push_back(ok ? mem[q] : 0); break; }
            case 22: { double v2 = pop(), v1 = pop(), s2 = pop(), s1 = pop(); st.push_back(v1 <= v2 ? s1 : s2); break; } case 24: { double q = pop(), r = pop(); st.push_back(r * q); break; } case 26: { double q = pop(); if (q < 0) ok = false; st.push_back(ok ? sqrt(q) : 0); break; } case 27: { double q = pop(); st.push_back(q); st.push_back(q); break; } case 28: { double q = pop(), r = pop(); st.push_back(q); st.push_back(r); break; }
            case 29: { int q = whole(pop()); if (q < 0) q = 0; if (!need(size_t(q) < st.size())) break; st.push_back(st[st.size() - 1 - size_t(q)]); break; }
            case 30: { int J = whole(pop()), N = whole(pop()); if (!need(N >= 1 && size_t(N) <= st.size())) break; int sh = ((J % N) + N) % N; std::rotate(st.end() - N, st.end() - sh, st.end()); break; }
            default: ok = false;
          } if (st.size() > 48) ok = false; break; }
        default: ok = false;
      } }
    if (depth == 1) ok = false; // no endchar
    else if (ok) ok = false; // no return
    depth--; return false;
  }
};
static void num(std::string& s, double v, int how = 0) { int i = int(v); auto o = [&](int b) { s.push_back(char(b)); }; if (how == 3 || v != i) { int32_t f = int32_t(lrint(v * 65536)); o(255); o(f >> 24); o(f >> 16); o(f >> 8); o(f); } else if (how == 2 || i < -1131 || i > 1131) { o(28); o(i >> 8); o(i); } else if (i >= -107 && i <= 107) o(i + 139); else if (i > 0) { o(247 + ((i - 108) >> 8)); o(i - 108); } else { o(251 + ((-i - 108) >> 8)); o(-i - 108); } }
typedef std::vector<std::string> Strs;
static std::string hexOf(const std::string& s) { std::string o; char b[4]; for (size_t i = 0; i < s.size() && i < 60; i++) { snprintf(b, sizeof b, "%02x", uint8_t(s[i])); o += b; } return o; }
static std::string outText(const std::vector<std::array<double, 3>>& v) { std::string o; char b[60]; for (size_t i = 0; i < v.size() && i < 14; i++) { snprintf(b, sizeof b, v[i][0] == 5 ? "Z " : "%c%g,%g ", "ML??C"[int(v[i][0])], v[i][1], v[i][2]); o += b; } return o; }
static std::vector<std::array<double, 3>> outOf(const BLPath& p) { std::vector<std::array<double, 3>> o; for (size_t i = 0; i < p.size(); i++) { int c = p.command_data()[i]; auto v = p.vertex_data()[i]; if (c == BL_PATH_CMD_CLOSE) o.push_back({5, 0, 0}); else if (c == BL_PATH_CMD_MOVE) o.push_back({0, v.x, -v.y}); else { bool cub = c == BL_PATH_CMD_CUBIC || (o.size() && o.back()[0] == 4.5); (void)cub; o.push_back({c == BL_PATH_CMD_CUBIC ? 4.0 : 1.0, v.x, -v.y}); } }
  // Only the first vertex of a cubic carries its command.
  for (size_t i = 0, n = o.size(); i < n; i++) if (o[i][0] == 4) { for (size_t j = i + 1; j < std::min(n, i + 3); j++) o[j][0] = 4; i += 2; } return o; }
// One font holding many charstrings; `cs[0]` is the missing glyph.
static void checkCff(const Strs& cs, const Strs& g, const Strs& l, const char* key, const std::string& what, int offSize = 0, const std::vector<const Strs*>* lsub = nullptr, const std::string* raw = nullptr) {
  Font f; f.otto = true; f.adv.assign(cs.size(), 500); f.t["CFF "] = raw ? *raw : fg::cff(cs, g, l, offSize); BLFontFace face; BLFont font; if (!face1(f.build(), face, font, key, what)) return; vh::stat("faces", 1); if (face.outline_type() != BL_FONT_OUTLINE_TYPE_CFF) { fail(key, "outline type %u: %s", uint32_t(face.outline_type()), what.c_str()); return; }
  static const BLMatrix2D M2(0.5, 0.25, -0.125, 2, 3, -7);
  for (uint32_t gid = 0; gid < cs.size(); gid++) { Ref r; r.cs[0] = &cs; r.cs[1] = &g; r.cs[2] = lsub ? (*lsub)[gid] : &l; r.run(cs[gid]); if (!r.ok) { vh::stat("unspecified", 1); continue; } vh::stat("glyphs_checked", 1); bool big = false; for (auto& q : r.out) big = big || fabs(q[1]) > 1e6 || fabs(q[2]) > 1e6; if (big) { vh::stat("unspecified", 1); continue; }
    BLPath p; BLResult res = font.get_glyph_outlines(gid, p); auto got = outOf(p); bool same = !res && got.size() == r.out.size(); for (size_t i = 0; same && i < got.size(); i++) same = got[i][0] == r.out[i][0] && fabs(got[i][1] - r.out[i][1]) < 1e-6 && fabs(got[i][2] - r.out[i][2]) < 1e-6;
    if (!same) { fail(key, "%s: glyph %u %s: result %u, %s expected %s", what.c_str(), gid, hexOf(cs[gid]).c_str(), res, outText(got).c_str(), outText(r.out).c_str()); return; }
    BLPath q; res = font.get_glyph_outlines(gid, M2, q); auto g2 = outOf(q); same = !res && g2.size() == r.out.size(); for (size_t i = 0; same && i < g2.size(); i++) if (g2[i][0] != 5) { double X = r.out[i][1], Y = -r.out[i][2]; same = fabs(g2[i][1] - (X * M2.m00 + Y * M2.m10 + M2.m20)) < 1e-6 && fabs(-g2[i][2] - (X * M2.m01 + Y * M2.m11 + M2.m21)) < 1e-6; } if (!same) { fail("cff matrix", "%s: glyph %u %s", what.c_str(), gid, hexOf(cs[gid]).c_str()); return; }
    BLBoxI bx; res = font.get_glyph_bounds(&gid, 4, &bx, 1); double b[4] = {1e9, 1e9, -1e9, -1e9}; double cx = 0, cy = 0; auto add = [&](double X, double Y) { b[0] = std::min(b[0], X); b[1] = std::min(b[1], Y); b[2] = std::max(b[2], X); b[3] = std::max(b[3], Y); }; for (size_t i = 0; i < r.out.size(); i++) { auto& v = r.out[i]; if (v[0] == 5) continue; if (v[0] == 4) { auto &v2 = r.out[i + 1], &v3 = r.out[i + 2]; for (int t = 1; t <= 256; t++) { double T = t / 256.0, S = 1 - T; add(S * S * S * cx + 3 * S * S * T * v[1] + 3 * S * T * T * v2[1] + T * T * T * v3[1], S * S * S * cy + 3 * S * S * T * v[2] + 3 * S * T * T * v2[2] + T * T * T * v3[2]); } cx = v3[1]; cy = v3[2]; i += 2; } else { cx = v[1]; cy = v[2]; add(cx, cy); } }
    if (b[0] > b[2]) b[0] = b[1] = b[2] = b[3] = 0; double e[4] = {floor(b[0]), floor(b[1]), ceil(b[2]), ceil(b[3])}, o[4] = {double(bx.x0), double(bx.y0), double(bx.x1), double(bx.y1)}; for (int i = 0; i < 4; i++) if (res || fabs(o[i] - e[i]) > 1 || (i < 2 ? o[i] > b[i] + 1e-6 : o[i] < b[i] - 1e-6)) { fail("cff bounds", "%s: glyph %u %s: result %u, %g %g %g %g expected %g %g %g %g", what.c_str(), gid, hexOf(cs[gid]).c_str(), res, o[0], o[1], o[2], o[3], e[0], e[1], e[2], e[3]); return; } }
}
struct DOp { int op, esc; int base, step, odd; }; // counts: base + n * step, and one more where `odd`
static const DOp DO[] = {{21, 0, 2, 0, 0}, {22, 0, 1, 0, 0}, {4, 0, 1, 0, 0}, {5, 0, 2, 2, 0}, {6, 0, 1, 1, 0}, {7, 0, 1, 1, 0}, {8, 0, 6, 6, 0}, {24, 0, 8, 6, 0}, {25, 0, 8, 2, 0}, {27, 0, 4, 4, 1}, {26, 0, 4, 4, 1}, {30, 0, 4, 4, 1}, {31, 0, 4, 4, 1}, {12, 35, 13, 0, 0}, {12, 34, 7, 0, 0}, {12, 36, 9, 0, 0}, {12, 37, 11, 0, 0}};
static const int nDO = 17;
static double argv(int i, int s) { static const int V[] = {13, -7, 40, 111, 5, -160, 33, 21, -9, 64, 2, -35, 77, 0, 19, -3}; int v = V[(i * 3 + s * 5) % 16]; switch (s % 4) { case 1: return -v; case 2: return v * 9; case 3: return v + 0.25; } return v; }
static void put(std::string& o, const DOp& d, int n, int s) { for (int i = 0; i < n; i++) num(o, argv(i, s)); o.push_back(char(d.op)); if (d.op == 12) o.push_back(char(d.esc)); }
static std::string B1(std::initializer_list<int> v) { std::string s; for (int x : v) s.push_back(char(x)); return s; }
static void cffs() {
  char w[160]; const std::string END("\x0e"), MV = [] { std::string s; num(s, 10); num(s, 20); s.push_back(21); return s; }();
  // Every count of operands of each drawing operator.
  for (int d = 0; d < nDO; d++) for (int s = 0; s < 8; s++) { if (!item()) continue; Strs cs{END}; for (int n = 1; n <= 48; n++) { std::string c = MV; put(c, DO[d], n, s); put(c, DO[3], 2, s + 1); cs.push_back(c + END); c = MV; for (int i = 0; i < 3; i++) put(c, DO[d], n, s + i); cs.push_back(c + END); } snprintf(w, sizeof w, "operator %d %d, operands %d", DO[d].op, DO[d].esc, s); checkCff(cs, {}, {}, "cff operands", w); }
  // Every sequence of three operators, each with its fewest operands, or with more.
  for (int a = 0; a < nDO; a++) for (int b = 0; b < nDO; b++) { if (!item()) continue; Strs cs{END}; for (int c = 0; c < nDO; c++) for (int v = 0; v < 8; v++) { std::string o = MV; auto pt = [&](int d, bool more, int s) { auto& q = DO[d]; put(o, q, q.base + (more ? q.step + q.odd : 0), s); }; pt(a, v & 1, v + c); pt(b, v & 2, v); pt(c, v & 4, a + v); cs.push_back(o + END); } snprintf(w, sizeof w, "operators %d %d", a, b); checkCff(cs, {}, {}, "cff sequences", w); }
  // Numbers in every encoding, first or second or last before an operator.
  for (int blk = 0; blk < (g.thorough ? 512 : 40); blk++) { if (!item()) continue; Strs cs{END}; for (int k = 0; k < 128; k++) { int v = g.thorough ? blk * 128 + k - 32768 : blk < 20 ? -1280 + blk * 128 + k : ((blk - 20) * 128 + k) * 25 - 32768 + 3; for (int how : {0, 2, 3}) { std::string o = MV; num(o, v, how); num(o, 3); o.push_back(5); num(o, -4); num(o, v, how); o.push_back(5); num(o, v, how); o.push_back(6); num(o, 300); num(o, v, how); num(o, v, how); num(o, v / 2, 2); o.push_back(5); if (how == 3 && abs(v) < 8000) { num(o, v / 4.0 + 1 / 65536.0, 3); o.push_back(7); } cs.push_back(o + END); } } snprintf(w, sizeof w, "numbers %d", blk); checkCff(cs, {}, {}, "cff numbers", w); }
  // Widths and hints.
  for (int hs = 0; hs <= 24; hs++) for (int vs = 0; vs <= (g.thorough ? 24 : 9); vs++) { if (!item()) continue; Strs cs{END}; if (hs + vs <= 96) for (int wd = 0; wd < 2; wd++) for (int hm = 0; hm < 2; hm++) for (int im = 0; im < 3; im++) for (int m = 0; m < 3; m++) { std::string o; if (wd) num(o, 77 + 100 * m); auto stems = [&](int n, int op, bool width) { int left = n; bool first = true; do { int k = std::min(left, width && first ? 23 : 24); for (int i = 0; i < 2 * k; i++) num(o, 3 + i); left -= k; if (op >= 0 || left) o.push_back(char(op >= 0 ? op : 23)); first = false; } while (left); };
          int total = hs; if (hs) stems(hs, hm ? 18 : 1, wd); if (im == 1) { if (vs) stems(vs, -1, wd && !hs); total += vs; } else if (im == 0) { if (vs) stems(vs, hm ? 23 : 3, wd && !hs); total += vs; } auto mask = [&](int op) { o.push_back(char(op)); for (int i = 0; i < (total + 7) / 8; i++) o.push_back(char(i % 3 == 0 ? 21 : i % 3 == 1 ? 14 : 255)); }; if (im != 2 && total) { mask(m == 2 ? 20 : 19); if (m) mask(19); } int mv = m; for (int i = 0; i < (mv == 0 ? 2 : 1); i++) num(o, 10 + i); o.push_back(char(mv == 0 ? 21 : mv == 1 ? 22 : 4)); put(o, DO[3], 4, hs); if (im != 2 && total) mask(20); put(o, DO[8], 10, vs); cs.push_back(o + END); }
    { std::string o; num(o, 50); cs.push_back(o + END); } snprintf(w, sizeof w, "%d horizontal and %d vertical stems", hs, vs); checkCff(cs, {}, {}, "cff hints", w); }
  // Subroutines: every number of them around the changes of the bias, nesting, and operands passed along.
  static const int NS[] = {1, 2, 106, 107, 108, 214, 215, 1238, 1239, 1240, 1241, 2300, 33899, 33900, 33901};
  for (int nl = 0; nl < 15; nl++) for (int ng = 0; ng < 15; ng++) { if (!g.thorough && nl > 11 && ng > 8) continue; if (!item()) continue; auto subs = [&](int n, int t) { Strs v; for (int i = 0; i < n; i++) { std::string o; num(o, i % 1000 + t); num(o, i / 1000); o.push_back(5); o.push_back(11); v.push_back(o); } return v; }; Strs l = subs(NS[nl], 0), gg = subs(NS[ng], 5), cs{END}; for (int which = 0; which < 2; which++) { int n = which ? NS[ng] : NS[nl]; for (int id : {0, 1, n / 2, n - 2, n - 1, 107, 1131}) { if (id < 0 || id >= n) continue; std::string o = MV; num(o, id - Ref::bias(size_t(n)), id % 2 ? 2 : 0); o.push_back(char(which ? 29 : 10)); put(o, DO[3], 2, id); cs.push_back(o + END); } } snprintf(w, sizeof w, "%d local and %d global subroutines", NS[nl], NS[ng]); checkCff(cs, gg, l, "cff subroutines", w); }
  for (int z = 0; z < 729; z++) { if (!item()) continue; // six levels, each calling a local or global one before, after or around its own operator
    Strs l, gg; int q = z; int loc[7], pos[7]; for (int i = 0; i < 6; i++) { loc[i] = (q + i) % 2; pos[i] = q % 3; q /= 3; } loc[6] = z & 1; for (int lv = 6; lv >= 0; lv--) { std::string call; if (lv < 6) { size_t tn = 7; int id = lv + 1; num(call, id - Ref::bias(tn)); call.push_back(char(loc[lv] ? 29 : 10)); } std::string own; put(own, DO[3 + (lv + z) % 3], 2, lv); std::string o; if (lv == 6) { o = own; if (z % 5 == 4) o += END; } else if (pos[lv] == 0) o = call + own; else if (pos[lv] == 1) o = own + call; else { num(o, 9); o += call; num(o, 4); o.push_back(7); } if (lv == 6 || z % 7 != 6 || true) o.push_back(11); l.insert(l.begin(), o); gg.insert(gg.begin(), o); } Strs cs{END}; for (int st = 0; st < 7; st++) { std::string o = MV; num(o, st - 107); o.push_back(char(z % 2 ? 29 : 10)); cs.push_back(o + END); std::string t = MV; num(t, 31); num(t, st - 107); t.push_back(10); put(t, DO[4], 1, st); cs.push_back(t + END); } snprintf(w, sizeof w, "nested calls %d", z); checkCff(cs, gg, l, "cff nesting", w); }
  // Arithmetic: every pair (thorough: triple) of operators over small values; the whole stack becomes a line.
  static const int AR[] = {3, 4, 5, 9, 10, 11, 12, 14, 15, 18, 20, 21, 22, 24, 26, 27, 28, 29, 30}; static const double AV[] = {0, 1, 2, 3, -1, 2.5, -2, 5};
  for (int a = 0; a < 19; a++) for (int b = 0; b < 19; b++) for (int c = -1; c < (g.thorough ? 19 : 0); c++) { if (!item()) continue; Strs cs{END}; for (int s = 0; s < 512; s++) { std::string o = MV; if ((s >> 3) % 3 == 0) { num(o, 6); num(o, 2); o += B1({12, 20}); num(o, -8); num(o, 1); o += B1({12, 20}); } num(o, 7); num(o, 11); num(o, -6); num(o, AV[s & 7]); num(o, AV[(s >> 3) & 7]); num(o, AV[(s >> 6) & 7]); o += B1({12, AR[a]}); if (s & 1) num(o, AV[(s >> 2) & 3]); o += B1({12, AR[b]}); if (c >= 0) { o += B1({12, AR[c]}); } o.push_back(6); cs.push_back(o + END); } snprintf(w, sizeof w, "arithmetic %d %d %d", AR[a], AR[b], c < 0 ? -1 : AR[c]); checkCff(cs, {}, {}, "cff arithmetic", w); }
  for (int n = 1; n <= 12; n++) for (int extra = 0; extra < 4; extra++) { if (!item()) continue; Strs cs{END}; for (int j = -2 * n - 1; j <= 2 * n + 1; j++) { std::string o = MV; for (int i = 0; i < n + extra; i++) num(o, 1 + i); num(o, n); num(o, j); o += B1({12, 30}); o.push_back(6); cs.push_back(o + END); } for (int k = -1; k < n + extra; k++) { std::string o = MV; for (int i = 0; i < n + extra; i++) num(o, 1 + i); num(o, k); o += B1({12, 29, 6}); cs.push_back(o + END); } snprintf(w, sizeof w, "roll %d of %d", n, n + extra); checkCff(cs, {}, {}, "cff roll", w); }
  // Offset sizes and lengths of the index of glyphs.
  for (int os = 1; os <= 4; os++) for (int n : {1, 2, 3, 9, 10, 40, 300}) { if (!item()) continue; Strs cs; for (int i = 0; i < n; i++) { std::string o = MV; put(o, DO[3], 2 + (i % 4) * 2, i); cs.push_back(o + END); } size_t t = 1; for (auto& c : cs) t += c.size(); if (os == 1 && t > 255) continue; snprintf(w, sizeof w, "%d glyphs, offsets of %d bytes", n, os); checkCff(cs, {}, {}, "cff index", w, os); }
  // CID fonts: every assignment of five glyphs to three font dictionaries with their own subroutines, in both formats.
  for (int z = 0; z < 243; z++) for (int fmt : {0, 3}) for (int none = 0; none < 2; none++) { if (!item()) continue; int fd[5], q = z; for (int i = 0; i < 5; i++) { fd[i] = q % 3; q /= 3; } Strs L[3], gl{B1({11})}; for (int i = 0; i < 3; i++) for (int k = 0; k <= i; k++) { std::string o; num(o, 5 + 10 * i); num(o, 3 + k); o += B1({5, 11}); L[i].push_back(o); } if (none) L[1].clear(); Strs cs; std::vector<const Strs*> lp; for (int i = 0; i < 5; i++) { std::string o = MV; if (!L[fd[i]].empty()) { num(o, -107); o.push_back(10); if (fd[i]) { num(o, fd[i] - 107); o.push_back(10); } } put(o, DO[3], 2, i); cs.push_back(o + END); lp.push_back(&L[fd[i]]); }
    // Layout: header, names, top dictionary, strings, global subroutines, glyphs, FDSelect, FDArray, then each private dictionary with its subroutines.
    std::string hdr("\x01\x00\x04\x04", 4), names = cffIndex({"Synth"}), strs = cffIndex({"Adobe", "Identity"}), gs = cffIndex(gl), chars = cffIndex(cs); fg::B sel; sel.u8(uint32_t(fmt)); if (fmt == 0) for (int i = 0; i < 5; i++) sel.u8(uint32_t(fd[i])); else { std::vector<std::pair<int, int>> rg; for (int i = 0; i < 5; i++) if (!i || fd[i] != fd[i - 1]) rg.push_back({i, fd[i]}); sel.u16(uint32_t(rg.size())); for (auto& r : rg) sel.u16(uint32_t(r.first)).u8(uint32_t(r.second)); sel.u16(5); }
    size_t topLen = 15 + 2 + 6 + 7 + 7, fdLen = 11; size_t top = 2 + 1 + 2 + topLen, base = hdr.size() + names.size() + top + strs.size() + gs.size(), oSel = base + chars.size(), oArr = oSel + sel.size(), arrLen = 3 + 4 + 3 * fdLen, o = oArr + arrLen; Strs fds; std::string tail; for (int i = 0; i < 3; i++) { fg::B pv; if (!L[i].empty()) { fg::dictInt(pv, 6); pv.u8(19); } fg::B d; fg::dictInt(d, int(pv.size())); fg::dictInt(d, int(o + tail.size())); d.u8(18); fds.push_back(d.s); tail += pv.s; if (!L[i].empty()) tail += cffIndex(L[i]); }
    fg::B d; fg::dictInt(d, 391); fg::dictInt(d, 392); fg::dictInt(d, 0); d.u8(12).u8(30); fg::dictInt(d, int(base)); d.u8(17); fg::dictInt(d, int(oArr)); d.u8(12).u8(36); fg::dictInt(d, int(oSel)); d.u8(12).u8(37); std::string raw = hdr + names + cffIndex({d.s}, 1) + strs + gs + chars + sel.s + cffIndex(fds, 1) + tail; snprintf(w, sizeof w, "CID %d, format %d%s", z, fmt, none ? ", one dictionary without subroutines" : ""); checkCff(cs, gl, {}, "cff cid", w, 0, &lp, &raw); }
}
static void more(size_t k) { nGrp = k; nIt = 0; if (k == 6) metrics(); else if (k == 7) kerns(); else if (k == 8) gsubs(); else if (k == 9) gsub2(); else if (k == 10) gposs(); else if (k == 11) cffs(); }
