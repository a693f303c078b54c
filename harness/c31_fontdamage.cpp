// C31: damaged fonts. Every truncation of small valid fonts that together contain every kind of table, and for each kind of table (placed at the very end of an
// exact-size heap block): every shorter length, boundary values in every byte, 16-bit and 32-bit field, pairs of fields, its removal. Each result is loaded and,
// if accepted, fully queried (names, tags, coverage, mapping, shaping, kerning, all lookups, metrics, outlines of valid and invalid glyph ids) under a memory
// checker, with different contents of fresh memory, which must not show.
#include <blend2d/blend2d.h>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>
#include "vh.h"
#include "font_gen.h"
using namespace vh;
typedef std::string S; typedef std::vector<int> I;
static int gFill = 0; static bool gIn = false; static const size_t kLimit = size_t(8) << 20;
extern "C" {
void* __real_malloc(size_t); void* __real_realloc(void*, size_t);
void* __wrap_malloc(size_t n) { if (!gIn) return __real_malloc(n); if (n > kLimit) return nullptr; void* p = __real_malloc(n); if (p) memset(p, gFill, n); return p; }
void* __wrap_realloc(void* p, size_t n) { return gIn && n > kLimit ? nullptr : __real_realloc(p, n); }
}
// A table with offsets to sub-tables behind it.
struct T { fg::B b; std::vector<std::pair<size_t, S>> subs; T& u(uint32_t v) { b.u16(v); return *this; } T& us(const I& v) { for (int x : v) b.u16(uint32_t(x)); return *this; } T& ref(const S& s) { subs.push_back({b.size(), s}); b.u16(0); return *this; } S str() { fg::B o = b; for (auto& s : subs) { o.set16(s.first, uint32_t(o.size())); o.add(s.second); } return o.s; } };
struct Case { const char* name; const char* table; fg::Font f; S bytes; uint32_t index = 0; bool raw = false; };
static std::vector<Case> corpus;
static const int N = 6;
static fg::Font base() { fg::Font f; f.glyphs = {fg::simple({{{0, 0, true}, {500, 0, true}, {500, 500, true}}}, 0), fg::simple({{{10, 10, true}, {60, 300, false}, {200, 10, true}, {90, -40, true}}}, 7), fg::simple({{{0, 0, false}, {100, 0, false}, {100, 100, false}}, {{5, 5, true}, {9, 5, true}, {9, 9, true}}}, 3), "", fg::compound({{1, 10, 20, 0, {1, 0, 0, 1}, true, 0}, {2, -5, 7, 3, {0.5, 0.25, 0, 1}, false, 0}}, 3), fg::compound({{4, 1, 2, 1, {0.5, 0, 0, 0.5}, true, 0}, {1, 0, 0, 2, {1, 0, 0, 0.5}, true, 0}})}; f.adv = {500, 510, 520, 530, 540, 550}; f.lsb = {0, 10, 20, -30, 40, 5}; f.t["cmap"] = fg::cmapSimple(0x61, 5, 1); return f; }
static void add(const char* n, const char* table, const S& bytes, fg::Font f = base()) { Case c; c.name = n; c.table = table; c.f = f; c.bytes = bytes; corpus.push_back(c); }
// The font as a file with the given table last and of exactly its length.
struct Pre { S head; size_t lenAt = 0; };
static Pre prefix(const fg::Font& f, const char* table, bool removed) {
  S s = f.build(); uint32_t n = uint32_t(uint8_t(s[4])) << 8 | uint8_t(s[5]); std::map<S, S> t; auto u32 = [&](size_t p) { return uint32_t(uint8_t(s[p])) << 24 | uint32_t(uint8_t(s[p + 1])) << 16 | uint32_t(uint8_t(s[p + 2])) << 8 | uint8_t(s[p + 3]); };
  for (uint32_t i = 0; i < n; i++) t[s.substr(12 + 16 * i, 4)] = s.substr(u32(12 + 16 * i + 8), u32(12 + 16 * i + 12)); t.erase(table); bool last = !removed;
  fg::B b; Pre r; b.u32(f.otto ? 0x4F54544F : 0x10000).u16(uint32_t(t.size()) + last).u16(16).u16(0).u16(0); size_t off = 12 + 16 * (t.size() + last); std::map<S, size_t> at; for (auto& k : t) { at[k.first] = off; off += (k.second.size() + 3) & ~size_t(3); }
  std::map<S, S> d = t; if (last) { d[table] = S(); at[table] = off; } for (auto& k : d) { b.tag(k.first.c_str()).u32(0).u32(uint32_t(at[k.first])); if (k.first == table) r.lenAt = b.size(); b.u32(uint32_t(k.second.size())); } for (auto& k : t) b.add(k.second).pad(4); r.head = b.s; return r; }
static S file(const fg::Font& f, const char* table, const S& bytes, bool removed = false) {
  if (removed) return prefix(f, table, true).head; static const fg::Font* last = nullptr; static Pre p; if (last != &f) { p = prefix(f, table, false); last = &f; }
  S s; s.reserve(p.head.size() + bytes.size()); s = p.head; size_t n = bytes.size(); for (size_t i = 0; i < 4; i++) s[p.lenAt + i] = char(n >> (8 * (3 - i))); return s += bytes; }
static S tableOf(const fg::Font& f, const char* table) { S s = f.build(); uint32_t n = uint32_t(uint8_t(s[4])) << 8 | uint8_t(s[5]); auto u32 = [&](size_t p) { return uint32_t(uint8_t(s[p])) << 24 | uint32_t(uint8_t(s[p + 1])) << 16 | uint32_t(uint8_t(s[p + 2])) << 8 | uint8_t(s[p + 3]); }; for (uint32_t i = 0; i < n; i++) if (s.substr(12 + 16 * i, 4) == table) return s.substr(u32(12 + 16 * i + 8), u32(12 + 16 * i + 12)); return S(); }
static S one(bool gpos, int type, const S& sub, bool ext = false, int flags = 0) { return fg::layout({{type, {sub}, flags, ext}}, {{gpos ? "kern" : "liga", {0}}}, gpos, "latn"); }
static S ruleSet(const std::vector<S>& r) { T t; t.u(uint32_t(r.size())); for (auto& x : r) t.ref(x); return t.str(); }
static S rule(const I& in, const I& recs) { T t; t.u(uint32_t(in.size() + 1)).u(uint32_t(recs.size() / 2)).us(in).us(recs); return t.str(); }
static S crule(const I& back, const I& in, const I& look, const I& recs) { T t; t.u(uint32_t(back.size())).us(back).u(uint32_t(in.size() + 1)).us(in).u(uint32_t(look.size())).us(look).u(uint32_t(recs.size() / 2)).us(recs); return t.str(); }
static S anchor(int f, int x, int y) { T t; t.u(uint32_t(f)).u(uint32_t(x)).u(uint32_t(y)); if (f == 2) t.u(1); if (f == 3) t.u(0).u(0); return t.str(); }
static S ctx(int kind, int fmt) { // kind 0: sequence, 1: chained
  S cov = fg::coverage(fmt == 2 ? 2 : 1, {1, 2}), cd = fg::classDef(1 + (kind ^ (fmt == 1)), 1, {1, 2, 1}); T t; t.u(uint32_t(fmt));
  if (!kind) { if (fmt == 1) return t.ref(cov).u(2).ref(ruleSet({rule({2}, {0, 0}), rule({2, 3}, {1, 0})})).ref(ruleSet({rule({3}, {0, 0})})).str(); if (fmt == 2) return t.ref(cov).ref(cd).u(3).u(0).ref(ruleSet({rule({2}, {0, 0})})).ref(ruleSet({rule({1}, {1, 0})})).str(); return t.u(2).u(1).ref(cov).ref(fg::coverage(2, {2, 3})).u(0).u(0).str(); }
  if (fmt == 1) return t.ref(cov).u(2).ref(ruleSet({crule({1}, {2}, {3}, {0, 0}), crule({}, {2, 3}, {}, {1, 0})})).ref(ruleSet({crule({}, {}, {}, {0, 0})})).str();
  if (fmt == 2) return t.ref(cov).ref(cd).ref(cd).ref(cd).u(3).u(0).ref(ruleSet({crule({1}, {2}, {1}, {0, 0})})).ref(ruleSet({crule({}, {1}, {}, {1, 0})})).str();
  return t.u(1).ref(cov).u(2).ref(cov).ref(fg::coverage(2, {2, 3})).u(1).ref(cov).u(1).u(0).u(0).str(); }
static void make_corpus() {
  for (const char* t : {"head", "hhea", "maxp", "hmtx", "name", "loca", "glyf", "cmap"}) add(t, t, tableOf(base(), t));
  { fg::Font f = base(); f.longLoca = true; f.nLong = 3; for (const char* t : {"loca", "hmtx", "glyf"}) add(t == S("loca") ? "long loca" : t == S("hmtx") ? "hmtx of 3" : "glyf of long loca", t, tableOf(f, t), f); }
  auto cm = [&](const char* n, const S& sub, int pl = 3, int id = 10) { add(n, "cmap", fg::cmapTable({{pl, id, sub}})); };
  cm("cmap 0", fg::cmap0({}), 1, 0); { I g(256, 0); for (int i = 0; i < 6; i++) g[size_t(0x61 + i)] = i; cm("cmap 0 used", fg::cmap0(g), 1, 0); }
  cm("cmap 4", fg::cmap4({{0x61, 0x63, 1 - 0x61, {}}, {0x64, 0x66, 0, {4, 5, 1}}, {0x1000, 0x1001, 0, {1, 2}}}), 3, 1); cm("cmap 6", fg::cmap6(0x61, {1, 2, 3, 4, 5}), 0, 3); cm("cmap 10", fg::cmap10(0x61, {1, 2, 3, 4, 5})); cm("cmap 12", fg::cmap12(12, {{0x61, 0x63, 1}, {0x64, 0x65, 4}, {0x10000, 0x10002, 1}})); cm("cmap 13", fg::cmap12(13, {{0x61, 0x63, 1}, {0x64, 0x10000, 4}}));
  { S c14; fg::B b; b.u16(14).u32(10 + 11 + 4 + 4 + 4 + 5).u32(1).u8(0).u16(0xFE00).u32(21).u32(29).u32(1).u8(0).u16(0x61).u8(2).u32(1).u8(0).u16(0x62).u16(3); add("cmap 14 and 4", "cmap", fg::cmapTable({{0, 3, fg::cmap4({{0x61, 0x65, 1 - 0x61, {}}})}, {0, 5, b.s}})); }
  { fg::B b; b.u16(4).u16(500).u16(400).u16(5).u16(0); for (int i = 0; i < 10; i++) b.u16(uint32_t(100 + i)); b.u16(0x0802); for (int i = 0; i < 10; i++) b.u8(uint32_t(i + 1)); b.u32(0x10000003).u32(1).u32(2).u32(3).tag("VERF").u16(0x40).u16(0x20).u16(0xFFFF).u16(800).u16(0xFF38).u16(90).u16(1000).u16(200).u32(1).u32(2).u16(300).u16(600).u16(0).u16(0x20).u16(1).u16(10).u16(20); add("OS/2", "OS/2", b.s); }
  { fg::B b; b.u32(0x20000).u32(0).u16(0xFF9C).u16(50).u32(1).u32(0).u32(0).u32(0).u32(0).u16(N); for (int i = 0; i < N; i++) b.u16(uint32_t(258 + i)); for (int i = 0; i < N; i++) b.u8(2).u8(uint32_t('a' + i)).u8('x'); add("post", "post", b.s); }
  { fg::Font f = base(); fg::B h, m; h.u32(0x10000).u16(500).u16(uint32_t(-500)).u16(10).u16(900).u16(1).u16(2).u16(3).u16(1).u16(0).u16(0); for (int i = 0; i < 5; i++) h.u16(0); h.u16(N); for (int i = 0; i < N; i++) m.u16(uint32_t(1000 + i)).u16(uint32_t(i)); f.t["vhea"] = h.s; f.t["vmtx"] = m.s; add("vhea", "vhea", h.s, f); add("vmtx", "vmtx", m.s, f); }
  S k0 = fg::kern0({{1, 2, -10}, {1, 3, 20}, {2, 2, 5}, {3, 1, 7}}), k2 = fg::kern2(14, 1, {0, 1, 1, 0}, 1, {0, 1, 0, 1}, 2, 2, {1, 2, 3, 4}), k3 = fg::kern3({0, 5, -7}, {0, 1, 1, 0, 1, 0}, {0, 1, 0, 1, 0, 1}, 2, 2, {0, 1, 2, 1}, 0);
  add("kern 0", "kern", fg::kernWin({{0, k0, 1}})); add("kern 0+2", "kern", fg::kernWin({{0, k0, 1}, {2, k2, 9}})); add("kern 3", "kern", fg::kernWin({{3, k3, 1}})); add("mac kern 0+3", "kern", fg::kernMac({{0, k0, 1}, {3, k3, 1}})); add("mac kern 2", "kern", fg::kernMac({{2, k2, 1}}));
  auto gs = [&](const char* n, int t, const S& s, bool e = false) { add(n, "GSUB", one(false, t, s, e)); }; auto gp = [&](const char* n, int t, const S& s, bool e = false) { add(n, "GPOS", one(true, t, s, e)); };
  for (int cf : {1, 2}) { gs(cf == 1 ? "GSUB 1.1" : "GSUB 1.1 c2", 1, fg::single1(cf, {1, 2, 4}, 1)); gs(cf == 1 ? "GSUB 1.2" : "GSUB 1.2 c2", 1, fg::single2(cf, {1, 2, 4}, {3, 4, 1})); gs(cf == 1 ? "GSUB 2" : "GSUB 2 c2", 2, fg::seqs(cf, {1, 2, 3}, {{2, 3}, {1, 1, 2}, {4}})); gs(cf == 1 ? "GSUB 3" : "GSUB 3 c2", 3, fg::seqs(cf, {1, 2}, {{2, 3}, {4, 1}})); gs(cf == 1 ? "GSUB 4" : "GSUB 4 c2", 4, fg::ligatures(cf, {1, 2}, {{{4, {2, 3}}, {3, {2}}}, {{1, {}}, {5, {3}}}})); }
  gs("GSUB 1 ext", 1, fg::single1(1, {1, 2}, 1), true); gs("GSUB 4 ext", 4, fg::ligatures(1, {1, 2}, {{{4, {2, 3}}}, {{5, {3}}}}), true);
  for (int fmt = 1; fmt <= 3; fmt++) { static const char* nm[] = {"GSUB 5.1", "GSUB 5.2", "GSUB 5.3", "GSUB 6.1", "GSUB 6.2", "GSUB 6.3", "GPOS 7.1", "GPOS 7.2", "GPOS 7.3", "GPOS 8.1", "GPOS 8.2", "GPOS 8.3"}; gs(nm[fmt - 1], 5, ctx(0, fmt)); gs(nm[fmt + 2], 6, ctx(1, fmt)); gp(nm[fmt + 5], 7, ctx(0, fmt)); gp(nm[fmt + 8], 8, ctx(1, fmt)); }
  { S cov = fg::coverage(1, {1, 2}); T t; t.u(1).ref(cov).u(1).ref(fg::coverage(2, {2, 3})).u(1).ref(cov).u(2).u(3).u(4); gs("GSUB 8", 8, t.str()); }
  for (int cf : {1, 2}) { gp(cf == 1 ? "GPOS 1.1" : "GPOS 1.1 c2", 1, fg::pos1(cf, {1, 2, 4}, 0xF, {{1, 2, 3, 4}})); gp(cf == 1 ? "GPOS 1.2" : "GPOS 1.2 c2", 1, fg::pos2(cf, {1, 2, 4}, cf == 1 ? 4 : 0x57, {{{1, 2, 3, 4}}, {{5, 6, 7, 8}}, {{9, 8, 7, 6}}})); gp(cf == 1 ? "GPOS 2.1" : "GPOS 2.1 c2", 2, fg::pair1(cf, {1, 2}, cf == 1 ? 4 : 5, cf == 1 ? 0 : 3, {{{1, {{1, 2, 3, 4}}, {{1, 1, 1, 1}}}, {2, {{5, 6, 7, 8}}, {{2, 2, 2, 2}}}}, {{3, {{9, 9, 9, 9}}, {{3, 3, 3, 3}}}}}));
    std::vector<std::pair<fg::Val, fg::Val>> v; for (int i = 0; i < 6; i++) v.push_back({{{i, i + 1, i + 2, i + 3}}, {{-i, 0, 1, 2}}}); gp(cf == 1 ? "GPOS 2.2" : "GPOS 2.2 c2", 2, fg::pair2(cf, {1, 2, 3}, cf == 1 ? 4 : 0xF, cf == 1 ? 0 : 5, fg::classDef(cf, 1, {1, 0, 1}), fg::classDef(3 - cf, 1, {1, 2, 0}), 2, 3, v)); }
  gp("GPOS 2 ext", 2, fg::pair1(1, {1}, 4, 0, {{{1, {{1, 2, 3, 4}}, {{1, 1, 1, 1}}}}}), true);
  { S cov = fg::coverage(1, {1, 2}), cov2 = fg::coverage(2, {2, 3}); { T t; t.u(1).ref(cov).u(2).ref(anchor(1, 3, 4)).u(0).ref(anchor(2, 5, 6)).ref(anchor(3, 7, 8)); gp("GPOS 3", 3, t.str()); }
    T ma; ma.u(2).u(0).ref(anchor(1, 1, 2)).u(1).ref(anchor(1, 3, 4)); T ba; ba.u(2).ref(anchor(1, 1, 1)).ref(anchor(2, 2, 2)).u(0).ref(anchor(3, 3, 3)); { T t; t.u(1).ref(cov).ref(cov2).u(2).ref(ma.str()).ref(ba.str()); gp("GPOS 4", 4, t.str()); gp("GPOS 6", 6, t.str()); } T la; la.u(2).ref(ba.str()).ref(ba.str()); { T t; t.u(1).ref(cov).ref(cov2).u(2).ref(ma.str()).ref(la.str()); gp("GPOS 5", 5, t.str()); } }
  // Several scripts, languages, features and lookups.
  { std::vector<fg::Look> L{{1, {fg::single1(1, {1}, 1), fg::single2(2, {2, 3}, {4, 5})}}, {4, {fg::ligatures(1, {1}, {{{4, {2}}}})}, 0x10}, {2, {fg::seqs(1, {5}, {{1, 2}})}}}; add("GSUB of several", "GSUB", fg::layout(L, {{"calt", {0}}, {"liga", {1, 2}}, {"smcp", {0, 1, 2}}}, false, "latn", 1)); }
  { fg::B b; b.u32(0x10000).u16(10).u16(46).u16(60); b.u16(2).tag("DFLT").u16(14).tag("latn").u16(14); b.u16(10).u16(1).tag("DEU ").u16(10).u16(0).u16(0xFFFF).u16(1).u16(0); while (b.size() < 46) b.u16(0); b.u16(1).tag("liga").u16(8).u16(0).u16(1).u16(0); b.u16(1).u16(4); b.u16(1).u16(0).u16(1).u16(8).add(fg::single1(1, {1, 2}, 1)); add("GSUB with languages", "GSUB", b.s); }
  for (int v : {0, 2, 3}) { S cd = fg::classDef(1, 1, {1, 2, 3, 1}), cd2 = fg::classDef(2, 1, {1, 1, 0, 2}); T al; al.u(0).u(0); T t; t.u(1).u(uint32_t(v)).ref(cd).ref(al.str()).ref(al.str()).ref(cd2); if (v >= 2) t.ref(al.str()); if (v >= 3) t.u(0).u(0); fg::Font f = base(); f.t["GSUB"] = one(false, 4, fg::ligatures(1, {1, 2}, {{{4, {2, 3}}}, {{5, {3}}}}), false, 0x108); f.t["GPOS"] = one(true, 2, fg::pair1(1, {1}, 4, 0, {{{1, {{1, 2, 3, 4}}, {{1, 1, 1, 1}}}}}), false, 8); add(v == 0 ? "GDEF 1.0" : v == 2 ? "GDEF 1.2" : "GDEF 1.3", "GDEF", t.str(), f); }
  // CFF.
  auto num = [](S& o, int v) { o.push_back(char(28)); o.push_back(char(v >> 8)); o.push_back(char(v)); }; auto B1 = [](const I& v) { S o; for (int x : v) o.push_back(char(x)); return o; }; fg::Font cf; cf.otto = true; cf.adv = {500, 510, 520, 530, 540, 550}; cf.t["cmap"] = fg::cmapSimple(0x61, 5, 1);
  std::vector<S> cs, gl, ll; { S a; num(a, 10); num(a, 20); a += B1({21}); for (int v : {1, 2, 3, 4, 5, 6}) num(a, v); a += B1({8}); num(a, 7); a += B1({6}); num(a, -107); a += B1({10}); num(a, -107); a += B1({29, 14}); cs.push_back(a); S h; num(h, 1); num(h, 2); num(h, 3); num(h, 4); h += B1({18}); num(h, 5); num(h, 6); h += B1({19, 0xC0}); num(h, 3); h += B1({22}); for (int v = 1; v <= 13; v++) num(h, v); h += B1({12, 35}); for (int v = 1; v <= 9; v++) num(h, v); h += B1({12, 36, 14}); cs.push_back(h); S r; num(r, 5); r += B1({4}); num(r, 1); num(r, 2); num(r, 3); num(r, 2); num(r, 1); r += B1({12, 30, 12, 10, 12, 29}); num(r, 4); num(r, 2); r += B1({12, 20}); num(r, 2); r += B1({12, 21, 5, 14}); cs.push_back(r); cs.push_back(B1({14})); S q; num(q, 100); num(q, 10); num(q, 20); q += B1({21}); for (int v = 0; v < 8; v++) num(q, v + 1); q += B1({30}); for (int v = 0; v < 9; v++) num(q, v + 1); q += B1({27, 255, 0, 1, 0x80, 0, 7, 14}); cs.push_back(q); S e; for (int v : {0, 0, 65, 66}) num(e, v); e += B1({14}); cs.push_back(e); S g1; num(g1, 9); g1 += B1({7, 11}); gl.push_back(g1); S l1; num(l1, 8); num(l1, 3); l1 += B1({5, 11}); ll.push_back(l1); }
  cf.t["CFF "] = fg::cff(cs, gl, ll); add("CFF", "CFF ", cf.t["CFF "], cf); add("CFF of wide offsets", "CFF ", fg::cff(cs, gl, ll, 3), cf);
  for (int fmt : {0, 3}) { S hdr("\x01\x00\x04\x04", 4), names = fg::cffIndex({"Synth"}), strs = fg::cffIndex({"Adobe", "Identity"}), gs = fg::cffIndex(gl), chars = fg::cffIndex(cs); fg::B sel; sel.u8(uint32_t(fmt)); if (!fmt) for (int i = 0; i < N; i++) sel.u8(uint32_t(i & 1)); else sel.u16(2).u16(0).u8(0).u16(3).u8(1).u16(N);
    size_t topLen = 37, fdLen = 11, top = 5 + topLen, bs = hdr.size() + names.size() + top + strs.size() + gs.size(), oSel = bs + chars.size(), oArr = oSel + sel.size(), o = oArr + 3 + 3 + 2 * fdLen; std::vector<S> fds; S tail; for (int i = 0; i < 2; i++) { fg::B pv; fg::dictInt(pv, 6); pv.u8(19); fg::B d; fg::dictInt(d, int(pv.size())); fg::dictInt(d, int(o + tail.size())); d.u8(18); fds.push_back(d.s); tail += pv.s + fg::cffIndex(ll); }
    fg::B d; fg::dictInt(d, 391); fg::dictInt(d, 392); fg::dictInt(d, 0); d.u8(12).u8(30); fg::dictInt(d, int(bs)); d.u8(17); fg::dictInt(d, int(oArr)); d.u8(12).u8(36); fg::dictInt(d, int(oSel)); d.u8(12).u8(37); add(fmt ? "CFF CID 3" : "CFF CID 0", "CFF ", hdr + names + fg::cffIndex({d.s}, 1) + strs + gs + chars + sel.s + fg::cffIndex(fds, 1) + tail, cf); }
  { auto idx = [](const std::vector<S>& v) { S i = fg::cffIndex(v); return S(2, '\0') + i; }; S gs = idx(gl), chars = idx(cs); fg::B priv; fg::dictInt(priv, 6); priv.u8(19); size_t topLen = 17, top = 4 + 1 + 2 + topLen, bs = 5 + top + gs.size(), pr = bs + chars.size(); fg::B d; fg::dictInt(d, int(bs)); d.u8(17); fg::dictInt(d, int(priv.size())); fg::dictInt(d, int(pr)); d.u8(18); fg::B b; b.u8(2).u8(0).u8(5).u16(uint32_t(top)).add(idx({d.s})).add(gs).add(chars).add(priv.s).add(idx(ll)); fg::Font f2 = cf; f2.t.erase("CFF "); add("CFF2", "CFF2", b.s, f2); }
  // Whole files: the directory, and a collection.
  { Case c; c.name = "file"; c.table = ""; c.raw = true; fg::Font f = base(); f.t["kern"] = fg::kernWin({{0, k0, 1}}); f.t["GSUB"] = one(false, 1, fg::single1(1, {1, 2}, 1)); c.bytes = f.build(); corpus.push_back(c); c.name = "CFF file"; c.bytes = cf.build(); corpus.push_back(c); c.name = "collection"; S s = base().build(); uint32_t n = uint32_t(uint8_t(s[5])); fg::B h; h.tag("ttcf").u32(0x20000).u32(2).u32(24 + 12).u32(24 + 12).tag("DSIG").u32(0).u32(0); size_t sh = h.size(); fg::B b; b.add(s); for (uint32_t i = 0; i < n; i++) { size_t p = 12 + 16 * i + 8; uint32_t v = uint32_t(uint8_t(s[p])) << 24 | uint32_t(uint8_t(s[p + 1])) << 16 | uint32_t(uint8_t(s[p + 2])) << 8 | uint8_t(s[p + 3]); b.set32(p, uint32_t(v + sh)); } h.set32(12, uint32_t(sh)); h.set32(16, uint32_t(sh)); c.bytes = h.s + b.s; c.index = 1; corpus.push_back(c); }
}
static bool gDev = getenv("C31_DEV") != nullptr;
static void hs(Hash& h, const BLString& s) { h.b(s.data(), s.size()); }
static void hw(Hash& h, const void* p, size_t n) { const char* c = (const char*)p; for (; n >= 8; c += 8, n -= 8) { uint64_t v; memcpy(&v, c, 8); h.h = (h.h ^ v) * 0x9E3779B97F4A7C15ull; h.h ^= h.h >> 29; } h.b(c, n); }
static uint64_t hpath(const BLPath& p) { Hash h; hw(h, p.command_data(), p.size()); for (size_t i = 0; i < p.size(); i++) { double v[2] = {p.vertex_data()[i].x, p.vertex_data()[i].y}; if (v[0] != v[0]) v[0] = -12345; if (v[1] != v[1]) v[1] = -12345; hw(h, v, 16); } return h.h; }
static void hgb(Hash& h, const BLGlyphBuffer& gb) { h.u(gb.size()); h.u(gb.flags()); for (size_t i = 0; i < gb.size(); i++) { h.u(gb.content()[i]); if (gb.info_data()) h.u(gb.info_data()[i].cluster); if (gb.placement_data()) { auto& p = gb.placement_data()[i]; h.u(uint32_t(p.placement.x)); h.u(uint32_t(p.placement.y)); h.u(uint32_t(p.advance.x)); h.u(uint32_t(p.advance.y)); } } }
static const uint32_t TXT[][8] = {{0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x61, 0x61}, {0x62, 0x62, 0x61, 0x63, 0x63, 0x65, 0xFFFF, 0x10FFFF}, {0x61, 0xFE00, 0x10000, 0x10001, 0x1000, 0x1001, 0, 0x64}};
static const uint32_t GID[] = {0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x80000001u, 0xFFFFFFFFu};
static void query(const S& d, uint32_t index, Hash& h, bool& ok) {
  BLFontFace f; BLResult r = fg::load(d, f, index); h.u(r); ok = r == BL_SUCCESS; if (r) { if (f.is_valid()) fail("half loaded", "a face is there although loading failed with %u", r); return; }
  hs(h, f.full_name()); hs(h, f.family_name()); hs(h, f.subfamily_name()); hs(h, f.post_script_name()); const BLFontFaceInfo& fi = f.face_info(); h.u(fi.face_flags); h.u(fi.diag_flags); h.u(fi.glyph_count); h.u(fi.outline_type); h.u(f.weight()); h.u(f.stretch()); h.u(f.style()); const BLFontDesignMetrics& dm = f.design_metrics(); h.b(&dm, sizeof dm); h.b(&f.panose_info(), sizeof(BLFontPanoseInfo)); h.b(&f.coverage_info(), sizeof(BLFontCoverageInfo));
  if (dm.units_per_em <= 0) fail("units per em", "an accepted face has %d units per em", dm.units_per_em);
  BLArray<BLTag> tags; h.u(f.get_script_tags(&tags)); h.b(tags.data(), 4 * tags.size()); h.u(f.get_feature_tags(&tags)); h.b(tags.data(), 4 * tags.size()); h.u(f.get_variation_tags(&tags)); h.u(f.has_feature_tag(BL_MAKE_TAG('l', 'i', 'g', 'a'))); h.u(f.data().get_table_tags(index, tags)); h.b(tags.data(), 4 * tags.size());
  BLBitSet bs; h.u(f.get_character_coverage(&bs)); h.u(bs.cardinality()); h.u(bs.cardinality_in_range(0x60, 0x70));
  BLFont font; h.u(font.create_from_face(f, 20.0f)); BLFontMetrics fm = font.metrics(); h.b(&fm, sizeof fm);
  std::vector<uint32_t> ids(GID, GID + sizeof GID / 4); ids.push_back(fi.glyph_count); ids.push_back(fi.glyph_count - 1);
  BLGlyphBuffer gb; BLTextMetrics tm; BLPath path;
  for (auto& t : TXT) { gb.set_utf32_text(t, 8); BLGlyphMappingState st{}; h.u(font.map_text_to_glyphs(gb, st)); h.u(st.glyph_count); h.u(st.undefined_count); hgb(h, gb); gb.set_utf32_text(t, 8); BLResult s = font.shape(gb); h.u(s); if (!s) { hgb(h, gb); for (size_t i = 0; i < gb.size(); i++) if (gb.content()[i] > 0xFFFF) fail("glyph id", "shaping yields glyph id %u", gb.content()[i]); s = font.get_text_metrics(gb, tm); h.u(s); if (!s) h.b(&tm, sizeof tm); } }
  gb.set_utf32_text(TXT[0], 6); if (!font.shape(gb)) { BLResult s = font.get_glyph_run_outlines(gb.glyph_run(), path); h.u(s); if (!s) h.u(hpath(path)); }
  path.clear();
  std::vector<BLGlyphPlacement> pl(ids.size()); std::vector<BLBoxI> bx(ids.size());
  for (size_t i = 0; i < ids.size(); i++) { BLGlyphPlacement p{}; BLBoxI b{}; BLResult s = font.get_glyph_advances(&ids[i], 4, &p, 1); h.u(s); if (!s) { h.u(uint32_t(p.advance.x)); h.u(uint32_t(p.advance.y)); } s = font.get_glyph_bounds(&ids[i], 4, &b, 1); h.u(s); if (!s) h.b(&b, sizeof b);
    BLPath q; s = font.get_glyph_outlines(ids[i], q); h.u(s); if (!s) h.u(hpath(q)); if (ids[i] >= fi.glyph_count && fi.outline_type != BL_FONT_OUTLINE_TYPE_CFF && fi.outline_type != BL_FONT_OUTLINE_TYPE_CFF2 && !s && !q.is_empty()) fail("glyph out of range", "glyph %u of %u has an outline of %zu vertices", ids[i], fi.glyph_count, q.size()); if (s && s != BL_ERROR_OUT_OF_MEMORY && !q.is_empty()) fail("partial outline", "glyph %u fails with %u and leaves %zu vertices", ids[i], s, q.size()); }
  static BLBitArray& all = *new BLBitArray; if (all.is_empty()) { all.resize(70); all.fill_range(0, 70); }
  static const int SEQ[][6] = {{1, 2, 3, 4, 5, 1}, {1, 2, 2, 3, 1, 1}, {5, 4, 3, 2, 1, 0}, {1, 13, 2, 14, 1, 17}};
  for (auto& q : SEQ) for (int op = 0; op < 7; op++) { uint32_t v[6]; for (int i = 0; i < 6; i++) v[i] = ids[size_t(q[i])]; h.u(gb.set_glyphs(v, 6)); BLResult s; if (op == 0) s = font.apply_gsub(gb, all); else if (op >= 5) { s = font.position_glyphs(gb); h.u(s); if (op == 5) { if (!s) s = font.apply_gsub(gb, all); } else { uint32_t w[70]; for (int i = 0; i < 70; i++) w[i] = v[i % 6]; h.u(gb.set_glyphs(w, 70)); } if (!s) { h.u(font.apply_kerning(gb)); h.u(font.apply_gpos(gb, all)); path.clear(); s = font.get_glyph_run_outlines(gb.glyph_run(), path); h.u(s); if (!s) h.u(hpath(path)); BLTextMetrics m; s = font.get_text_metrics(gb, m); if (!s) h.b(&m, sizeof m); } } else { s = op == 4 ? font.apply_gsub(gb, all) : BL_SUCCESS; if (!s) s = font.position_glyphs(gb); h.u(s); if (!s) hgb(h, gb); s = op == 1 ? font.apply_kerning(gb) : op == 2 ? font.apply_gpos(gb, all) : s; if (op == 3) { BLTextMetrics m; s = font.get_text_metrics(gb, m); if (!s) h.b(&m, sizeof m); } } h.u(s); if (!s) hgb(h, gb); if (op == 0 && !s && gb.size() > 4096) fail("growth", "six glyphs become %zu", gb.size()); }
}
static void onalarm(int) { fail("endless", "the queries do not end within the time limit"); fflush(stdout); _exit(0); }
static void damaged(const S& d, uint32_t index) {
  uint64_t hh[2]; bool ok[2]; static int turn = 0; itimerval tv{}; tv.it_value.tv_sec = 10; setitimer(ITIMER_REAL, &tv, nullptr);
  for (int k = 0; k < 2; k++) { Hash h; gFill = k ? 0xFF : (turn++ & 1) ? 0x5A : 0; gIn = true; query(d, index, h, ok[k]); gIn = false; hh[k] = h.h; }
  tv.it_value.tv_sec = 0; setitimer(ITIMER_REAL, &tv, nullptr);
  if (ok[0] != ok[1] || hh[0] != hh[1]) fail("nondeterministic", "results depend on the contents of fresh memory"); vh::stat(ok[0] ? "accepted" : "rejected"); }
static uint64_t nIt; static size_t nFile;
static bool item() { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nFile, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return false; } else if (!mine(int64_t(n)) || over_budget()) return false; set_case("%s", cs); vh::stat("transitions"); return true; }
static void explore(size_t fi) {
  nFile = fi; nIt = 0; const Case& c = corpus[fi]; const S& b = c.bytes; size_t n = b.size();
  auto go = [&](const S& x) { damaged(c.raw ? x : file(c.f, c.table, x), c.index); };
  if (item()) { S d = c.raw ? b : file(c.f, c.table, b); BLFontFace f; BLResult r = fg::load(d, f, c.index); if (r) fail("corpus", "%s: the valid font is rejected (%u)", c.name, r); go(b); sample(S(c.name)); }
  if (!c.raw && item()) damaged(file(c.f, c.table, S(), true), 0);
  for (size_t i = 0; i < n; i++) if (item()) go(b.substr(0, i));
  if (c.raw) { for (uint32_t x : {0u, 1u, 2u, 0x7FFFFFFFu, 0xFFFFFFFFu}) if (item()) damaged(b, x); }
  size_t lim = c.raw && !g.thorough ? std::min<size_t>(n, 12 + 16 * 12 + 40) : n; bool big = n > 300;
  for (size_t i = 0; i < lim; i++) {
    std::vector<int> vs{0, 1, 2, 3, 4, 0x7F, 0x80, 0xFF}; int o = uint8_t(b[i]); vs.push_back((o + 1) & 255); vs.push_back((o - 1) & 255); if (!big) for (int k = 0; k < 8; k++) vs.push_back(o ^ (1 << k)); if (g.thorough) { vs.clear(); for (int k = 0; k < 256; k++) vs.push_back(k); }
    for (size_t k = 0; k < vs.size(); k++) if (vs[k] != o && std::find(vs.begin(), vs.begin() + long(k), vs[k]) == vs.begin() + long(k)) if (item()) { S x = b; x[i] = char(vs[k]); go(x); }
    if (big && !g.thorough && i > 300 && (i & 3)) continue;
    for (int w : {2, 4}) { if (i + size_t(w) > n) continue; uint32_t old = 0; for (int k = 0; k < w; k++) old = old << 8 | uint8_t(b[i + size_t(k)]); std::vector<uint32_t> v; if (w == 2) v = {0x7FFF, 0x8000, 0xFFFF, 0xFFFE, 0x0100, 0x00FF, 0x4000, 0x5555, 0x2AAB, old + 2, old - 2, old * 2}; else v = {0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0x10000, 0xFFFF, 0x55555556, 0x15555556, 0x1FFFFFFF, 0x20000000, 0x40000000, old + 2, old - 2, 0xFFFFFFFFu - uint32_t(i), 0u - old};
      for (size_t k : {n, n - 1, n - 2, n - 4, n - i, n - i - 2, n / 2, i, n + 1, n + 2}) v.push_back(uint32_t(k)); for (auto x : v) { uint32_t y = w == 2 ? x & 0xFFFF : x; if (y == old) continue; if (item()) { S z = b; for (int k = 0; k < w; k++) z[i + size_t(k)] = char(y >> (8 * (w - 1 - k))); go(z); } } }
  }
  // A shorter table and a boundary value: counts and offsets that fit only just.
  if (!c.raw && n < (g.thorough ? 600u : 150u)) for (size_t len = n - 1; len > 3 && len + (g.thorough ? 40 : 9) > n; len--) for (size_t i = 0; i + 2 <= len; i += 2) for (uint32_t v : {uint32_t(len), uint32_t(len - 2), uint32_t(len - 1), 0u, 1u, 0xFFFFu, uint32_t(uint8_t(b[i])) << 8 | uint32_t(uint8_t(b[i + 1])) + 1}) if (item()) { S z = b.substr(0, len); z[i] = char(v >> 8); z[i + 1] = char(v); go(z); }
  // Pairs of 16-bit fields.
  size_t pl = c.raw ? 0 : std::min<size_t>(n, g.thorough ? 120 : 64); for (size_t i = 0; i + 2 <= pl; i += 2) for (size_t j = i + 2; j + 2 <= pl; j += 2) { if (!g.thorough && j - i > 12) break; for (uint32_t a : {0u, 1u, 2u, 0xFFFFu, uint32_t(n - 2)}) for (uint32_t e : {0u, 1u, 3u, 0x8000u, 0xFFFFu}) if (item()) { S z = b; z[i] = char(a >> 8); z[i + 1] = char(a); z[j] = char(e >> 8); z[j + 1] = char(e); go(z); } }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init(); make_corpus(); signal(SIGALRM, onalarm); const char* only = getenv("C31_ONLY");
  for (size_t i = 0; i < corpus.size(); i++) { if (only && size_t(atoi(only)) != i) continue; double t0 = now(); explore(i); if (gDev && g.shard == 0) fprintf(stderr, "%zu %s (%zu bytes): %llu %.1fs\n", i, corpus[i].name, corpus[i].bytes.size(), (unsigned long long)nIt, now() - t0); }
  return done();
}
