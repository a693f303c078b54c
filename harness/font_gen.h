// Builders of small OpenType fonts; every table is written from the specification.
#pragma once
#include <map>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <blend2d/blend2d.h>
namespace fg {
struct B {
  std::string s;
  B& u8(uint32_t v) { s.push_back(char(v)); return *this; }
  B& u16(uint32_t v) { return u8(v >> 8).u8(v); }
  B& u32(uint32_t v) { return u16(v >> 16).u16(v); }
  B& tag(const char* t) { s.append(t, 4); return *this; }
  B& add(const std::string& t) { s.append(t); return *this; }
  B& pad(size_t a) { while (s.size() % a) s.push_back(0); return *this; }
  size_t size() const { return s.size(); }
  void set16(size_t at, uint32_t v) { s[at] = char(v >> 8); s[at + 1] = char(v); }
  void set32(size_t at, uint32_t v) { set16(at, v >> 16); set16(at + 2, v); }
};
struct Pt { int x, y; bool on; };
typedef std::vector<std::vector<Pt>> Outline;
// How a simple glyph is encoded: bit 0 use short vectors, 1 use "same" flags, 2 repeat flags, 3 set the overlap bit, 4 also repeat with a count of zero; `instr` instruction bytes; `pad` bytes at the end.
static inline std::string simple(const Outline& o, int enc, int instr = 0, int pad = 0) {
  B b; int x0 = 32767, y0 = 32767, x1 = -32768, y1 = -32768; for (auto& c : o) for (auto& p : c) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); } if (x0 > x1) x0 = y0 = x1 = y1 = 0;
  b.u16(uint32_t(o.size())).u16(uint32_t(x0)).u16(uint32_t(y0)).u16(uint32_t(x1)).u16(uint32_t(y1)); uint32_t n = 0; for (auto& c : o) { n += uint32_t(c.size()); b.u16(n - 1); } b.u16(uint32_t(instr)); for (int i = 0; i < instr; i++) b.u8(0x40 + i);
  std::vector<int> f; B xs, ys; int px = 0, py = 0; bool first = true; for (auto& c : o) for (auto& p : c) { int dx = p.x - px, dy = p.y - py, g = p.on ? 1 : 0; px = p.x; py = p.y; if (first && (enc & 8)) g |= 0x40; first = false;
    if (dx == 0 && (enc & 2)) g |= 0x10; else if ((enc & 1) && dx >= -255 && dx <= 255) { g |= 2 | (dx >= 0 ? 0x10 : 0); xs.u8(uint32_t(abs(dx))); } else xs.u16(uint32_t(dx));
    if (dy == 0 && (enc & 2)) g |= 0x20; else if ((enc & 1) && dy >= -255 && dy <= 255) { g |= 4 | (dy >= 0 ? 0x20 : 0); ys.u8(uint32_t(abs(dy))); } else ys.u16(uint32_t(dy)); f.push_back(g); }
  for (size_t i = 0; i < f.size();) { size_t r = 1; if (enc & 4) while (i + r < f.size() && f[i + r] == f[i] && r < 256) r++; if (r > 1 || (enc & 16)) b.u8(uint32_t(f[i] | 8)).u8(uint32_t(r - 1)); else b.u8(uint32_t(f[i])); i += r; }
  b.add(xs.s).add(ys.s); for (int i = 0; i < pad; i++) b.u8(0xA5); return b.s;
}
struct Comp { int gid, ax, ay; int scale; double m[4]; bool words; int extra; }; // scale: 0 none, 1 one, 2 two, 3 four
static inline int f2d14(double v) { return int(v * 16384); }
static inline std::string compound(const std::vector<Comp>& c, int instr = 0) { B b; b.u16(0xFFFF).u16(0).u16(0).u16(100).u16(100); for (size_t i = 0; i < c.size(); i++) { auto& q = c[i]; int f = q.extra | 2 | (q.words ? 1 : 0) | (q.scale == 1 ? 8 : q.scale == 2 ? 0x40 : q.scale == 3 ? 0x80 : 0) | (i + 1 < c.size() ? 0x20 : 0) | (instr ? 0x100 : 0); b.u16(uint32_t(f)).u16(uint32_t(q.gid)); if (q.words) b.u16(uint32_t(q.ax)).u16(uint32_t(q.ay)); else b.u8(uint32_t(q.ax)).u8(uint32_t(q.ay)); int n = q.scale == 3 ? 4 : q.scale; for (int j = 0; j < n; j++) b.u16(uint32_t(f2d14(q.m[q.scale == 2 && j ? 3 : j]))); } if (instr) { b.u16(uint32_t(instr)); for (int i = 0; i < instr; i++) b.u8(1); } return b.s; }
struct Font {
  uint32_t upm = 1024; bool longLoca = false; int nLong = -1; std::vector<std::string> glyphs; std::vector<int> adv, lsb; std::map<std::string, std::string> t; bool otto = false; int asc = 800, desc = -200, gap = 90; int headBox[4] = {-10, -20, 900, 800};
  std::string build() const {
    std::map<std::string, std::string> q = t; size_t n = std::max(glyphs.size(), adv.size()); auto put = [&](const char* k, const B& b) { if (!q.count(k)) q[k] = b.s; };
    { B b; b.u32(0x10000).u32(0x18000).u32(0).u32(0x5F0F3CF5).u16(0x3).u16(upm).u32(0).u32(0).u32(0).u32(0).u16(uint32_t(headBox[0])).u16(uint32_t(headBox[1])).u16(uint32_t(headBox[2])).u16(uint32_t(headBox[3])).u16(0).u16(7).u16(2).u16(longLoca).u16(0); put("head", b); }
    { B b; b.u32(0x10000).u16(uint32_t(asc)).u16(uint32_t(desc)).u16(uint32_t(gap)).u16(2000).u16(0xFFF0).u16(5).u16(900).u16(1).u16(0).u16(0).u16(0).u16(0).u16(0).u16(0).u16(0).u16(uint32_t(nLong < 0 ? int(n) : nLong)); put("hhea", b); }
    { B b; b.u32(0x10000).u16(uint32_t(n)); for (int i = 0; i < 13; i++) b.u16(i == 0 ? 100 : 1); put("maxp", b); }
    { B b; size_t L = nLong < 0 ? n : size_t(nLong); for (size_t i = 0; i < n; i++) { if (i < L) b.u16(uint32_t(i < adv.size() ? adv[i] : 500)); b.u16(uint32_t(i < lsb.size() ? lsb[i] : 0)); } put("hmtx", b); }
    { B b, s; const char* nm[] = {"Synth", "Regular", "Synth Regular", "Synth-Regular"}; int id[] = {1, 2, 4, 6}; b.u16(0).u16(4).u16(6 + 4 * 12); for (int i = 0; i < 4; i++) { size_t l = strlen(nm[i]); b.u16(3).u16(1).u16(0x409).u16(uint32_t(id[i])).u16(uint32_t(2 * l)).u16(uint32_t(s.size())); for (size_t j = 0; j < l; j++) s.u16(uint8_t(nm[i][j])); } b.add(s.s); put("name", b); }
    if (!otto) { B l, g; for (size_t i = 0; i <= n; i++) { if (longLoca) l.u32(uint32_t(g.size())); else l.u16(uint32_t(g.size() / 2)); if (i < glyphs.size()) { g.add(glyphs[i]); g.pad(longLoca ? 1 : 2); } } put("loca", l); put("glyf", g); }
    return sfnt(q);
  }
  std::string sfnt(const std::map<std::string, std::string>& q) const { B b; uint32_t c = 0; for (auto& k : q) c += k.second != "\x01none"; b.u32(otto ? 0x4F54544F : 0x10000).u16(c).u16(16).u16(0).u16(0); size_t off = 12 + 16 * size_t(c); for (auto& k : q) { if (k.second == "\x01none") continue; b.tag(k.first.c_str()).u32(0).u32(uint32_t(off)).u32(uint32_t(k.second.size())); off += (k.second.size() + 3) & ~size_t(3); } for (auto& k : q) { if (k.second == "\x01none") continue; b.add(k.second).pad(4); } return b.s; }
};
// Face over a copy of the data in a heap block of exactly its size, so that a memory checker sees accesses outside of it.
static inline BLResult load(const std::string& d, BLFontFace& f, uint32_t idx = 0) { uint8_t* p = static_cast<uint8_t*>(malloc(d.size() + !d.size())); memcpy(p, d.data(), d.size()); BLFontData fd; BLResult r = fd.create_from_data(p, d.size(), [](void*, void* e, void*) noexcept { free(e); }, nullptr); if (r) { free(p); return r; } return f.create_from_data(fd, idx); }
struct Enc { int platform, id; std::string table; };
static inline std::string cmapTable(const std::vector<Enc>& e) { B b; b.u16(0).u16(uint32_t(e.size())); size_t off = 4 + 8 * e.size(); for (auto& x : e) { b.u16(uint32_t(x.platform)).u16(uint32_t(x.id)).u32(uint32_t(off)); off += x.table.size(); } for (auto& x : e) b.add(x.table); return b.s; }
static inline std::string cmap0(const std::vector<int>& g) { B b; b.u16(0).u16(262).u16(0); for (size_t i = 0; i < 256; i++) b.u8(i < g.size() ? uint32_t(g[i]) : 0); return b.s; }
struct Seg4 { uint32_t first, last; int delta; std::vector<int> gids; }; // gids given: through the glyph array
static inline std::string cmap4(const std::vector<Seg4>& v, int pad = 0) { B b; size_t n = v.size(), ga = 0; size_t sz = 16 + n * 8; for (auto& x : v) sz += x.gids.size() * 2; b.u16(4).u16(uint32_t(sz) + uint32_t(pad)).u16(0).u16(uint32_t(n * 2)).u16(0).u16(0).u16(0); for (auto& x : v) b.u16(x.last); b.u16(0); for (auto& x : v) b.u16(x.first); for (auto& x : v) b.u16(uint32_t(x.delta)); for (size_t i = 0; i < n; i++) { if (v[i].gids.empty()) b.u16(0); else { b.u16(uint32_t((n - i) * 2 + ga * 2)); ga += v[i].gids.size(); } } for (auto& x : v) for (int q : x.gids) b.u16(uint32_t(q)); for (int i = 0; i < pad; i++) b.u8(0xEE); return b.s; }
static inline std::string cmap6(uint32_t first, const std::vector<int>& g) { B b; b.u16(6).u16(uint32_t(10 + 2 * g.size())).u16(0).u16(first).u16(uint32_t(g.size())); for (int q : g) b.u16(uint32_t(q)); return b.s; }
static inline std::string cmap10(uint32_t first, const std::vector<int>& g) { B b; b.u16(10).u16(0).u32(uint32_t(20 + 2 * g.size())).u32(0).u32(first).u32(uint32_t(g.size())); for (int q : g) b.u16(uint32_t(q)); return b.s; }
struct Grp { uint32_t first, last, gid; };
static inline std::string cmap12(int fmt, const std::vector<Grp>& v) { B b; b.u16(uint32_t(fmt)).u16(0).u32(uint32_t(16 + 12 * v.size())).u32(0).u32(uint32_t(v.size())); for (auto& x : v) b.u32(x.first).u32(x.last).u32(x.gid); return b.s; }
static inline std::string cmapSimple(uint32_t first, int count, int gid) { return cmapTable({{3, 1, cmap4({{first, first + uint32_t(count) - 1, gid - int(first), {}}, {0xFFFF, 0xFFFF, 1, {}}})}}); }
// Kerning.
struct KP { int l, r, v; };
static inline std::string kern0(const std::vector<KP>& v) { B b; b.u16(uint32_t(v.size())).u16(0).u16(0).u16(0); for (auto& k : v) b.u16(uint32_t(k.l)).u16(uint32_t(k.r)).u16(uint32_t(k.v)); return b.s; }
struct KSub { int format; std::string data; int cov; }; // cov: Windows coverage low byte (1 horizontal, 2 minimum, 4 cross-stream, 8 override)
static inline std::string kernWin(const std::vector<KSub>& v) { B b; b.u16(0).u16(uint32_t(v.size())); for (auto& k : v) b.u16(0).u16(uint32_t(6 + k.data.size())).u16(uint32_t(k.format << 8 | k.cov)).add(k.data); return b.s; }
static inline std::string kernMac(const std::vector<KSub>& v) { B b; b.u32(0x10000).u32(uint32_t(v.size())); for (auto& k : v) b.u32(uint32_t(8 + k.data.size())).u8(uint32_t(((k.cov & 1) ? 0 : 0x80) | ((k.cov & 4) ? 0x40 : 0))).u8(uint32_t(k.format)).u16(0).add(k.data); return b.s; }
// `hs`: size of the sub-table header in front. Class 0 is for glyphs without a class.
static inline std::string kern2(int hs, int lf, const std::vector<int>& lc, int rf, const std::vector<int>& rc, int nl, int nr, const std::vector<int>& val) { B b; size_t lt = size_t(hs) + 8, rt = lt + 4 + 2 * lc.size(), at = rt + 4 + 2 * rc.size(); b.u16(uint32_t(nr * 2)).u16(uint32_t(lt)).u16(uint32_t(rt)).u16(uint32_t(at)); b.u16(uint32_t(lf)).u16(uint32_t(lc.size())); for (int c : lc) b.u16(uint32_t(at) + uint32_t(c * nr * 2)); b.u16(uint32_t(rf)).u16(uint32_t(rc.size())); for (int c : rc) b.u16(uint32_t(c * 2)); (void)nl; for (int v : val) b.u16(uint32_t(v)); return b.s; }
static inline std::string kern3(const std::vector<int>& kv, const std::vector<int>& lc, const std::vector<int>& rc, int nl, int nr, const std::vector<int>& idx, int pad) { B b; b.u16(uint32_t(lc.size())).u8(uint32_t(kv.size())).u8(uint32_t(nl)).u8(uint32_t(nr)).u8(0); for (int v : kv) b.u16(uint32_t(v)); for (int c : lc) b.u8(uint32_t(c)); for (int c : rc) b.u8(uint32_t(c)); for (int i : idx) b.u8(uint32_t(i)); for (int i = 0; i < pad; i++) b.u8(0); return b.s; }
// Layout.
static inline std::string coverage(int fmt, const std::vector<int>& g) { B b; if (fmt == 1) { b.u16(1).u16(uint32_t(g.size())); for (int x : g) b.u16(uint32_t(x)); } else { std::vector<std::pair<int, int>> r; for (int x : g) if (!r.empty() && r.back().second + 1 == x) r.back().second = x; else r.push_back({x, x}); b.u16(2).u16(uint32_t(r.size())); int i = 0; for (auto& p : r) { b.u16(uint32_t(p.first)).u16(uint32_t(p.second)).u16(uint32_t(i)); i += p.second - p.first + 1; } } return b.s; }
static inline std::string classDef(int fmt, int first, const std::vector<int>& c) { B b; if (fmt == 1) { b.u16(1).u16(uint32_t(first)).u16(uint32_t(c.size())); for (int x : c) b.u16(uint32_t(x)); } else { std::vector<std::pair<int, int>> r; std::vector<int> k; for (size_t i = 0; i < c.size(); i++) { if (!c[i]) continue; int gid = first + int(i); if (!r.empty() && r.back().second + 1 == gid && k.back() == c[i]) r.back().second = gid; else { r.push_back({gid, gid}); k.push_back(c[i]); } } b.u16(2).u16(uint32_t(r.size())); for (size_t i = 0; i < r.size(); i++) b.u16(uint32_t(r[i].first)).u16(uint32_t(r[i].second)).u16(uint32_t(k[i])); } return b.s; }
struct Look { int type; std::vector<std::string> subs; int flags = 0; bool ext = false; };
struct Feat { const char* tag; std::vector<int> lookups; };
static inline std::string layout(const std::vector<Look>& L, const std::vector<Feat>& F, bool gpos, const char* script = "DFLT", int required = 0xFFFF) {
  B b; b.u32(0x10000).u16(10); B sl; sl.u16(1).tag(script).u16(8).u16(4).u16(0).u16(0).u16(uint32_t(required)).u16(uint32_t(F.size())); for (size_t i = 0; i < F.size(); i++) sl.u16(uint32_t(i));
  B fl; fl.u16(uint32_t(F.size())); size_t o = 2 + 6 * F.size(); for (auto& f : F) { fl.tag(f.tag).u16(uint32_t(o)); o += 4 + 2 * f.lookups.size(); } for (auto& f : F) { fl.u16(0).u16(uint32_t(f.lookups.size())); for (int l : f.lookups) fl.u16(uint32_t(l)); }
  B ll; ll.u16(uint32_t(L.size())); o = 2 + 2 * L.size(); std::vector<std::string> tb; for (auto& l : L) { B x; x.u16(uint32_t(l.ext ? (gpos ? 9 : 7) : l.type)).u16(uint32_t(l.flags)).u16(uint32_t(l.subs.size())); size_t at = 6 + 2 * l.subs.size(); for (auto& s : l.subs) { x.u16(uint32_t(at)); at += s.size() + (l.ext ? 8 : 0); } for (auto& s : l.subs) { if (l.ext) x.u16(1).u16(uint32_t(l.type)).u32(8); x.add(s); } tb.push_back(x.s); ll.u16(uint32_t(o)); o += x.size(); } for (auto& x : tb) ll.add(x);
  b.u16(uint32_t(10 + sl.size())).u16(uint32_t(10 + sl.size() + fl.size())); return b.add(sl.s).add(fl.s).add(ll.s).s;
}
// GSUB sub-tables; coverage is given sorted.
static inline std::string single1(int cf, const std::vector<int>& cov, int delta) { B b; b.u16(1).u16(6).u16(uint32_t(delta)).add(coverage(cf, cov)); return b.s; }
static inline std::string single2(int cf, const std::vector<int>& cov, const std::vector<int>& to) { B b; b.u16(2).u16(uint32_t(6 + 2 * to.size())).u16(uint32_t(to.size())); for (int x : to) b.u16(uint32_t(x)); return b.add(coverage(cf, cov)).s; }
static inline std::string seqs(int cf, const std::vector<int>& cov, const std::vector<std::vector<int>>& to) { B b, d; b.u16(1); size_t h = 6 + 2 * to.size(); std::string c = coverage(cf, cov); b.u16(uint32_t(h)).u16(uint32_t(to.size())); size_t o = h + c.size(); for (auto& v : to) { b.u16(uint32_t(o + d.size())); d.u16(uint32_t(v.size())); for (int x : v) d.u16(uint32_t(x)); } return b.add(c).add(d.s).s; }
struct Lig { int gid; std::vector<int> rest; };
static inline std::string ligatures(int cf, const std::vector<int>& cov, const std::vector<std::vector<Lig>>& to) { B b, d; b.u16(1); size_t h = 6 + 2 * to.size(); std::string c = coverage(cf, cov); b.u16(uint32_t(h)).u16(uint32_t(to.size())); for (auto& set : to) { b.u16(uint32_t(h + c.size() + d.size())); B s, e; s.u16(uint32_t(set.size())); size_t o = 2 + 2 * set.size(); for (auto& l : set) { s.u16(uint32_t(o + e.size())); e.u16(uint32_t(l.gid)).u16(uint32_t(l.rest.size() + 1)); for (int x : l.rest) e.u16(uint32_t(x)); } d.add(s.s).add(e.s); } return b.add(c).add(d.s).s; }
// GPOS sub-tables. Value: x, y, xa, ya with a format of bits 1, 2, 4, 8 (device bits 0x10.. write null offsets).
struct Val { int v[4]; };
static inline void value(B& b, int f, const Val& v) { for (int i = 0; i < 4; i++) if (f >> i & 1) b.u16(uint32_t(v.v[i])); for (int i = 4; i < 8; i++) if (f >> i & 1) b.u16(0); }
static inline std::string pos1(int cf, const std::vector<int>& cov, int f, const Val& v) { B b, x; value(x, f, v); b.u16(1).u16(uint32_t(6 + x.size())).u16(uint32_t(f)).add(x.s).add(coverage(cf, cov)); return b.s; }
static inline std::string pos2(int cf, const std::vector<int>& cov, int f, const std::vector<Val>& v) { B b, x; for (auto& q : v) value(x, f, q); b.u16(2).u16(uint32_t(8 + x.size())).u16(uint32_t(f)).u16(uint32_t(v.size())).add(x.s).add(coverage(cf, cov)); return b.s; }
struct PP { int r; Val a, b; };
static inline std::string pair1(int cf, const std::vector<int>& cov, int f1, int f2, const std::vector<std::vector<PP>>& v) { B b, d; size_t h = 10 + 2 * v.size(); std::string c = coverage(cf, cov); b.u16(1).u16(uint32_t(h)).u16(uint32_t(f1)).u16(uint32_t(f2)).u16(uint32_t(v.size())); for (auto& s : v) { b.u16(uint32_t(h + c.size() + d.size())); d.u16(uint32_t(s.size())); for (auto& p : s) { d.u16(uint32_t(p.r)); value(d, f1, p.a); value(d, f2, p.b); } } return b.add(c).add(d.s).s; }
static inline std::string pair2(int cf, const std::vector<int>& cov, int f1, int f2, const std::string& cd1, const std::string& cd2, int n1, int n2, const std::vector<std::pair<Val, Val>>& v) { B b, x; for (auto& q : v) { value(x, f1, q.first); value(x, f2, q.second); } size_t h = 16 + x.size(); std::string c = coverage(cf, cov); b.u16(2).u16(uint32_t(h)).u16(uint32_t(f1)).u16(uint32_t(f2)).u16(uint32_t(h + c.size())).u16(uint32_t(h + c.size() + cd1.size())).u16(uint32_t(n1)).u16(uint32_t(n2)).add(x.s).add(c).add(cd1).add(cd2); return b.s; }
// CFF.
static inline std::string cffIndex(const std::vector<std::string>& v, int offSize = 0) { B b; b.u16(uint32_t(v.size())); if (v.empty()) return b.s; size_t t = 1; for (auto& x : v) t += x.size(); int os = offSize ? offSize : t < 256 ? 1 : t < 65536 ? 2 : 4; b.u8(uint32_t(os)); auto off = [&](size_t o) { for (int i = os - 1; i >= 0; i--) b.u8(uint32_t(o >> (8 * i))); }; size_t o = 1; off(o); for (auto& x : v) { o += x.size(); off(o); } for (auto& x : v) b.add(x); return b.s; }
static inline void dictInt(B& b, int v) { b.u8(29).u32(uint32_t(v)); }
static inline std::string cff(const std::vector<std::string>& cs, const std::vector<std::string>& gsubrs, const std::vector<std::string>& lsubrs, int offSize = 0) {
  std::string hdr("\x01\x00\x04\x02", 4), names = cffIndex({"Synth"}), strs = cffIndex({}), gs = cffIndex(gsubrs, offSize), chars = cffIndex(cs, offSize); size_t topLen = 6 + 11, top = 2 + 1 + 2 + topLen; size_t base = hdr.size() + names.size() + top + strs.size() + gs.size(); size_t pr = base + chars.size(); B priv; if (!lsubrs.empty()) { dictInt(priv, 6); priv.u8(19); }
  B d; dictInt(d, int(base)); d.u8(17); dictInt(d, int(priv.size())); dictInt(d, int(pr)); d.u8(18); B b; b.add(hdr).add(names).add(cffIndex({d.s}, 1)).add(strs).add(gs).add(chars).add(priv.s); if (!lsubrs.empty()) b.add(cffIndex(lsubrs, offSize)); return b.s;
}
}
