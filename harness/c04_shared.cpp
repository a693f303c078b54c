// C04: copies of one object used by several threads at once, under every schedule (bounded). Content is compared with what
// the same script does to an object of its own; storage must be released exactly once; no data races.
#include <climits>
#include <cmath>
#include "vh.h"
#include "mc_rt.h"
#include <blend2d/blend2d.h>
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/core/gradient_p.h>
using namespace vh;
struct HH : vh::Hash { void u64(uint64_t v) { u(v); } void bytes(const void* p, size_t n) { b(p, n); } };
#define Hash HH

static void okr(BLResult r, const char* w) { mc::check(r == BL_SUCCESS, "result", "%s returns %u", w, unsigned(r)); }
struct Type { std::string name; virtual void make(void* o) = 0; virtual void copy(void* o, const void* s) = 0; virtual void destroy(void* o) = 0; virtual void assign(void* o, const void* s) = 0; virtual void reset(void* o) = 0;
  virtual void modify(void* o, int k) = 0; virtual uint64_t digest(const void* o) = 0; virtual uint64_t lazy(void* o, int) { return digest(o); } virtual ~Type() {} };
template<class T> struct TypeOf : Type {
  void make(void* o) override { new (o) T(); build(*(T*)o); }
  void copy(void* o, const void* s) override { new (o) T(*(const T*)s); }
  void destroy(void* o) override { ((T*)o)->~T(); }
  void assign(void* o, const void* s) override { assign_to(*(T*)o, *(const T*)s); }
  template<class X> static void assign_to(X& a, const X& b) { a = b; } static void assign_to(BLVar& a, const BLVar& b) { okr(bl_var_assign_weak(&a, &b), "assign_weak"); }
  void reset(void* o) override { ((T*)o)->reset(); }
  void modify(void* o, int k) override { mod(*(T*)o, k); }
  uint64_t digest(const void* o) override { Hash h; dig(*(const T*)o, h); return h.h; }
  uint64_t lazy(void* o, int k) override { Hash h; laz(*(T*)o, k, h); return h.h; }
  virtual void build(T&) = 0; virtual void mod(T&, int k) = 0; virtual void dig(const T&, Hash&) = 0; virtual void laz(T& o, int, Hash& h) { dig(o, h); }
};
static int destroyed; static size_t ext_size;
static void on_destroy(void*, void* data, void* info) noexcept { destroyed++; if (info != (void*)0x1234) fail("destroy-info", "the release callback gets a wrong argument"); free(data); }
static std::vector<uint8_t> fontfile; static BLFontFace gface;

struct TArrayU : TypeOf<BLArray<uint32_t>> { bool ext; TArrayU(bool e) : ext(e) {}
  void build(BLArray<uint32_t>& a) override { if (ext) { uint32_t* p = (uint32_t*)malloc(40); for (int i = 0; i < 10; i++) p[i] = i * 3; okr(bl_array_assign_external_data(&a, p, 5, 10, BL_DATA_ACCESS_RW, on_destroy, (void*)0x1234), "assign_external_data"); } else for (int i = 0; i < 5; i++) a.append(i * 7); }
  void mod(BLArray<uint32_t>& a, int k) override { if (k == 0) okr(a.append(99u), "append"); else if (k == 1) okr(a.insert(0, 5u), "insert"); else if (k == 2) { uint32_t* p = nullptr; okr(a.make_mutable(&p), "make_mutable"); if (a.size()) p[0] ^= 0x55; } else if (k == 3) okr(a.clear(), "clear"); else if (k == 4) { if (a.size()) okr(a.remove(0), "remove"); } else if (k == 5) okr(a.shrink(), "shrink"); else okr(a.reserve(30), "reserve"); }
  void dig(const BLArray<uint32_t>& a, Hash& h) override { h.u64(a.size()); for (size_t i = 0; i < a.size(); i++) h.u64(a[i]); } };
struct TArrayS : TypeOf<BLArray<BLString>> {
  void build(BLArray<BLString>& a) override { for (int i = 0; i < 2; i++) { BLString s; s.assign("a string that is too long to be stored inside"); s.append(char('0' + i)); a.append(s); } }
  void mod(BLArray<BLString>& a, int k) override { BLString s("another long string, which is not stored inside"); if (k == 0) okr(a.append(s), "append"); else if (k == 1) okr(a.insert(0, s), "insert"); else if (k == 2) { BLString* p; okr(a.make_mutable(&p), "make_mutable"); if (a.size()) okr(p[0].append('x'), "append"); } else if (k == 3) okr(a.clear(), "clear"); else if (k == 4) { if (a.size()) okr(a.remove(0), "remove"); } else if (k == 5) { if (a.size()) okr(a.replace(0, s), "replace"); } else okr(a.shrink(), "shrink"); }
  void dig(const BLArray<BLString>& a, Hash& h) override { h.u64(a.size()); for (size_t i = 0; i < a.size(); i++) h.bytes(a[i].data(), a[i].size()); } };
struct TString : TypeOf<BLString> {
  void build(BLString& s) override { s.assign("a string that is too long to be stored inside"); }
  void mod(BLString& s, int k) override { if (k == 0) okr(s.append('x'), "append"); else if (k == 1) okr(s.insert(1, "yz"), "insert"); else if (k == 2) { char* v = nullptr; okr(bl_string_make_mutable(&s, &v), "make_mutable"); if (s.size()) v[0] = 'Q'; } else if (k == 3) okr(s.clear(), "clear"); else if (k == 4) okr(s.truncate(s.size() / 2), "truncate"); else if (k == 5) okr(s.shrink(), "shrink"); else okr(s.reserve(200), "reserve"); }
  void dig(const BLString& s, Hash& h) override { h.u64(s.size()); h.bytes(s.data(), s.size()); h.u64(s.data()[s.size()]); } };
struct TBitSet : TypeOf<BLBitSet> {
  void build(BLBitSet& s) override { for (uint32_t i : {1u, 100u, 1000u, 5000u}) s.add_bit(i); }
  void mod(BLBitSet& s, int k) override { if (k == 0) okr(s.add_bit(77777), "add_bit"); else if (k == 1) okr(s.add_range(64, 9000), "add_range"); else if (k == 2) okr(s.clear_bit(1000), "clear_bit"); else if (k == 3) okr(s.clear(), "clear"); else if (k == 4) okr(s.clear_range(50, 2000), "clear_range"); else if (k == 5) okr(s.shrink(), "shrink"); else { uint32_t w[2] = {7, 9}; okr(s.add_words(3, w, 2), "add_words"); } }
  void dig(const BLBitSet& s, Hash& h) override { h.u64(s.cardinality()); for (uint32_t i : {0u, 1u, 64u, 96u, 97u, 100u, 1000u, 5000u, 8999u, 9000u, 77777u}) h.u64(s.has_bit(i)); }
  void laz(BLBitSet& s, int, Hash& h) override { h.u64(s.cardinality()); h.u64(s.cardinality_in_range(50, 2000)); uint32_t a = 0, b = 0; h.u64(s.get_range(&a, &b)); h.u64(a); h.u64(b); } };
struct TBitArray : TypeOf<BLBitArray> {
  void build(BLBitArray& s) override { s.resize(400); s.set_bit(3); s.fill_range(100, 150); }
  void mod(BLBitArray& s, int k) override { if (k == 0) okr(s.append_bit(true), "append_bit"); else if (k == 1) { if (s.size() > 20) okr(s.fill_range(0, 10), "fill_range"); } else if (k == 2) { if (s.size() > 20) okr(s.set_bit(5), "set_bit"); } else if (k == 3) okr(s.clear(), "clear"); else if (k == 4) okr(s.resize(500), "resize"); else if (k == 5) okr(s.shrink(), "shrink"); else okr(s.append_word(77), "append_word"); }
  void dig(const BLBitArray& s, Hash& h) override { h.u64(s.size()); h.u64(s.cardinality()); for (size_t i = 0; i < (s.size() + 31) / 32; i++) h.u64(s.data()[i]); } };
struct TPath : TypeOf<BLPath> { int kind; TPath(int k) : kind(k) {}
  void build(BLPath& p) override { p.move_to(1, 2); p.line_to(30, 4); p.quad_to(40, 50, 6, 7); if (kind == 1) p.line_to(NAN, 1); if (kind == 2) { p.reset(); p.move_to(1, 1); p.reserve(20); } else p.close(); }
  void mod(BLPath& p, int k) override { if (k == 0) okr(p.line_to(9, 9), "line_to"); else if (k == 1) okr(p.translate(BLPoint(1, 2)), "translate"); else if (k == 2) { if (p.size()) okr(p.set_vertex_at(0, BL_PATH_CMD_MOVE, BLPoint(8, 8)), "set_vertex_at"); } else if (k == 3) okr(p.clear(), "clear"); else if (k == 4) okr(p.add_rect(1, 2, 3, 4), "add_rect"); else if (k == 5) okr(p.shrink(), "shrink"); else okr(p.move_to(3, 3), "move_to"); }
  void dig(const BLPath& p, Hash& h) override { h.u64(p.size()); for (size_t i = 0; i < p.size(); i++) { h.u64(p.command_data()[i]); h.bytes(&p.vertex_data()[i], 16); } }
  void laz(BLPath& p, int k, Hash& h) override {
    BLBox b(0, 0, 0, 0); uint32_t f = 0;
    if (k == 0) { h.u64(p.get_info_flags(&f)); h.u64(f); } else if (k == 1) { h.u64(p.get_bounding_box(&b)); h.bytes(&b, 32); } else if (k == 2) { h.u64(p.get_control_box(&b)); h.bytes(&b, 32); }
    else if (k == 3) { h.u64(p.hit_test(BLPoint(10, 4), BL_FILL_RULE_NON_ZERO)); } else if (k == 4) { size_t i = 0; double d = 0; h.u64(p.get_closest_vertex(BLPoint(1000, 1000), 50, &i, &d)); h.u64(i); } else if (k == 5) { BLRange r{1, 3}; BLPath q; h.u64(q.add_path(p, r)); dig(q, h); }
    else { BLPath q; h.u64(q.add_stroked_path(p, BLStrokeOptions(), bl_default_approximation_options)); dig(q, h); } } };
struct TGradient : TypeOf<BLGradient> { int kind; TGradient(int k) : kind(k) {}
  void build(BLGradient& g) override { g.create(BLLinearGradientValues(0, 0, 8, 0)); g.add_stop(0, BLRgba32(0xFF102030)); if (kind != 1) { g.add_stop(0.5, BLRgba32(kind == 2 ? 0xFF405060 : 0x80FFFFFF)); g.add_stop(1, BLRgba32(0xFFFF0000)); } }
  void mod(BLGradient& g, int k) override { if (k == 0) okr(g.add_stop(0.25, BLRgba32(0xFF00FF00)), "add_stop"); else if (k == 1) okr(g.translate(1, 2), "translate"); else if (k == 2) okr(g.set_value(0, 3), "set_value"); else if (k == 3) okr(g.reset_stops(), "reset_stops"); else if (k == 4) okr(g.set_extend_mode(BL_EXTEND_MODE_REPEAT), "set_extend_mode"); else if (k == 5) okr(g.shrink(), "shrink"); else if (k == 6) okr(g.reserve(40), "reserve"); else okr(g.set_type(BL_GRADIENT_TYPE_CONIC), "set_type"); }
  void dig(const BLGradient& g, Hash& h) override { h.u64(g.type()); h.u64(g.extend_mode()); h.u64(g.transform_type()); for (int i = 0; i < 6; i++) { double v = g.value(i); h.bytes(&v, 8); } BLMatrix2D m = g.transform(); h.bytes(&m, sizeof m); h.u64(g.size()); for (size_t i = 0; i < g.size(); i++) { h.bytes(&g.stops()[i].offset, 8); h.u64(g.stops()[i].rgba.value); } }
  void laz(BLGradient& g, int k, Hash& h) override {
    auto* impl = bl::GradientInternal::get_impl(&g);
    if (!g.size()) return;
    if (k == 0) { auto i = bl::GradientInternal::ensure_info(impl); h.u64(i.packed); }
    else if (k == 1 || k == 2) { auto i = bl::GradientInternal::ensure_info(impl); uint32_t n = i.lut_size(k == 2);  auto* l = k == 1 ? bl::GradientInternal::ensure_lut32(impl, n) : bl::GradientInternal::ensure_lut64(impl, n); mc::check(l != nullptr, "lut", "no table"); if (l) { h.u64(l->size); h.bytes(l->data<void>(), n * (k == 1 ? 4 : 8)); } }
    else { BLImage im(8, 1, BL_FORMAT_PRGB32); { BLContext c(im); okr(c.fill_all(BLRgba32(0)), "fill"); okr(c.fill_all(g), "fill_all"); c.end(); } BLImageData d; okr(im.get_data(&d), "get_data"); h.bytes(d.pixel_data, 32); } } };
struct TPattern : TypeOf<BLPattern> { bool ext; TPattern(bool e) : ext(e) {}
  void build(BLPattern& p) override { BLImage im; if (ext) { uint32_t* q = (uint32_t*)calloc(16, 1); okr(im.create_from_data(2, 2, BL_FORMAT_PRGB32, q, 8, BL_DATA_ACCESS_RW, on_destroy, (void*)0x1234), "create_from_data"); } else { im.create(2, 2, BL_FORMAT_PRGB32); BLImageData d; im.make_mutable(&d); memset(d.pixel_data, 9, 8); memset((char*)d.pixel_data + d.stride, 11, 8); } p.create(im); }
  void mod(BLPattern& p, int k) override { if (k == 0) okr(p.translate(1, 2), "translate"); else if (k == 1) { p.set_extend_mode(BL_EXTEND_MODE_PAD); } else if (k == 2) okr(p.set_area(BLRectI(0, 0, 1, 1)), "set_area"); else if (k == 3) { BLImage im(1, 1, BL_FORMAT_A8); BLImageData d; im.make_mutable(&d); *(uint8_t*)d.pixel_data = 7; okr(p.set_image(im), "set_image"); } else if (k == 4) okr(p.reset_image(), "reset_image"); else okr(p.scale(2), "scale"); }
  void dig(const BLPattern& p, Hash& h) override { h.u64(p.extend_mode()); BLMatrix2D m = p.transform(); h.bytes(&m, sizeof m); BLRectI a = p.area(); h.bytes(&a, 16); BLImage im = p.get_image(); h.u64(im.width()); BLImageData d; im.get_data(&d); for (int y = 0; y < im.height(); y++) h.bytes((char*)d.pixel_data + d.stride * y, im.width() * (im.format() == BL_FORMAT_A8 ? 1 : 4)); } };
struct TImage : TypeOf<BLImage> { int kind; TImage(int k) : kind(k) {}
  void build(BLImage& im) override {
    if (kind == 0) { im.create(2, 2, BL_FORMAT_PRGB32); BLImageData d; im.make_mutable(&d); for (int y = 0; y < 2; y++) memset((char*)d.pixel_data + d.stride * y, 0x40 + y, 8); }
    else { uint8_t* q = (uint8_t*)malloc(16); memset(q, 0x42, 16); okr(im.create_from_data(2, 2, BL_FORMAT_PRGB32, q, 8, kind == 1 ? BL_DATA_ACCESS_RW : BL_DATA_ACCESS_READ, on_destroy, (void*)0x1234), "create_from_data"); } }
  void mod(BLImage& im, int k) override { if (k == 0) { if (im.is_empty()) return; BLImageData d; okr(im.make_mutable(&d), "make_mutable"); *(uint32_t*)d.pixel_data += 1; } else if (k == 1) okr(im.create(1, 2, BL_FORMAT_PRGB32), "create"), zero(im); else if (k == 2) { if (!im.is_empty() && im.format() == BL_FORMAT_PRGB32) okr(im.convert(BL_FORMAT_A8), "convert"); } else if (k == 3) { if (im.is_empty()) return; BLContext c; okr(c.begin(im), "begin"); okr(c.fill_all(BLRgba32(0xFF102030)), "fill_all"); okr(c.end(), "end"); } else { BLImage q(im); *this += 0; im.assign_deep(q); } }
  void operator+=(int) {}
  static void zero(BLImage& im) { BLImageData d; im.make_mutable(&d); for (int y = 0; y < im.height(); y++) memset((char*)d.pixel_data + d.stride * y, 0, 4); }
  void dig(const BLImage& im, Hash& h) override { BLImageData d; okr(im.get_data(&d), "get_data"); h.u64(im.width()); h.u64(im.height()); h.u64(im.format()); for (int y = 0; y < im.height(); y++) h.bytes((char*)d.pixel_data + d.stride * y, im.width() * (im.format() == BL_FORMAT_A8 ? 1 : 4)); }
  void laz(BLImage& im, int, Hash& h) override { if (im.is_empty()) return; BLImage t(2, 2, BL_FORMAT_PRGB32); { BLContext c(t); c.fill_all(BLRgba32(0)); c.blit_image(BLPointI(0, 0), im); c.end(); } dig(t, h); } };
struct TFontData : TypeOf<BLFontData> { bool ext; TFontData(bool e) : ext(e) {}
  void build(BLFontData& f) override { if (ext) { uint8_t* p = (uint8_t*)malloc(fontfile.size()); memcpy(p, fontfile.data(), fontfile.size()); okr(f.create_from_data(p, fontfile.size(), on_destroy, (void*)0x1234), "create_from_data"); } else { BLArray<uint8_t> a; a.assign_data(fontfile.data(), fontfile.size()); okr(f.create_from_data(a), "create_from_data"); } }
  void mod(BLFontData& f, int k) override { if (k < 2) { BLArray<uint8_t> a; a.assign_data(fontfile.data(), fontfile.size() - 4 * k); okr(f.create_from_data(a), "create_from_data"); } else okr(f.reset(), "reset"); }
  void dig(const BLFontData& f, Hash& h) override { h.u64(f.is_valid()); h.u64(f.face_count()); BLFontTable t; h.u64(f.get_table(0, &t, BL_MAKE_TAG('h', 'e', 'a', 'd'))); h.u64(t.size); }
  void laz(BLFontData& f, int, Hash& h) override { if (!f.is_valid()) return; BLFontFace x; okr(x.create_from_data(f, 0), "create_from_data"); h.u64(x.glyph_count()); BLArray<BLTag> tg; f.get_table_tags(0, tg); h.u64(tg.size()); } };
struct TFace : TypeOf<BLFontFace> {
  void build(BLFontFace& f) override { BLArray<uint8_t> a; a.assign_data(fontfile.data(), fontfile.size()); BLFontData d; d.create_from_data(a); okr(f.create_from_data(d, 0), "create_from_data"); }
  void mod(BLFontFace& f, int k) override { if (k == 0) build(f); else okr(f.reset(), "reset"); }
  void dig(const BLFontFace& f, Hash& h) override { h.u64(f.is_valid()); h.u64(f.glyph_count()); h.bytes(f.family_name().data(), f.family_name().size()); }
  void laz(BLFontFace& f, int k, Hash& h) override { if (!f.is_valid()) return; if (k == 0) { BLBitSet s; h.u64(f.get_character_coverage(&s)); h.u64(s.cardinality()); h.u64(s.has_bit('A')); h.u64(s.has_bit(0x4E00)); } else if (k == 1) { BLArray<BLTag> t; okr(f.get_feature_tags(&t), "get_feature_tags"); h.u64(t.size()); for (size_t i = 0; i < t.size(); i++) h.u64(t[i]); h.u64(f.has_script_tag(BL_MAKE_TAG('l', 'a', 't', 'n'))); }
    else { BLFont ft; okr(ft.create_from_face(f, 10), "create_from_face"); BLGlyphBuffer gb; gb.set_utf8_text("AV", 2); h.u64(ft.shape(gb)); for (size_t i = 0; i < gb.size(); i++) { h.u64(gb.content()[i]); h.u64(gb.placement_data()[i].advance.x); } } } };
struct TFont : TypeOf<BLFont> {
  void build(BLFont& f) override { okr(f.create_from_face(gface, 12), "create_from_face"); }
  void mod(BLFont& f, int k) override { if (k == 0) { if (f.is_valid()) okr(f.set_size(20), "set_size"); } else if (k == 1) { if (f.is_valid()) { BLFontFeatureSettings s; s.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0); okr(f.set_feature_settings(s), "set_feature_settings"); } } else if (k == 2) okr(f.reset(), "reset"); else { if (f.is_valid()) okr(f.reset_feature_settings(), "reset_feature_settings"); } }
  void dig(const BLFont& f, Hash& h) override { h.u64(f.is_valid()); h.u64(f.size() * 16); h.u64(f.feature_settings().size()); h.u64(f.face().glyph_count()); }
  void laz(BLFont& f, int k, Hash& h) override { if (!f.is_valid()) return; if (k == 0) { BLGlyphBuffer gb; gb.set_utf8_text("AVfi", 4); h.u64(f.shape(gb)); for (size_t i = 0; i < gb.size(); i++) { h.u64(gb.content()[i]); h.u64(gb.placement_data()[i].advance.x); } } else { BLPath p; h.u64(f.get_glyph_outlines(36, p)); h.u64(p.size()); } } };
struct TFeat : TypeOf<BLFontFeatureSettings> { static BLTag t(int i) { return BL_MAKE_TAG('a', 'a', '0' + i / 10, '0' + i % 10); }
  void build(BLFontFeatureSettings& f) override { for (int i = 0; i < 30; i++) f.set_value(t(i), 1 + i % 2); }
  void mod(BLFontFeatureSettings& f, int k) override { if (k == 0) okr(f.set_value(t(40), 3), "set_value"); else if (k == 1) okr(f.set_value(t(7), 0), "set_value"); else if (k == 2) okr(f.remove_value(t(3)), "remove_value"); else if (k == 3) okr(f.clear(), "clear"); else if (k == 4) { for (int i = 0; i < 30; i++) okr(f.remove_value(t(i)), "remove_value"); } else okr(bl_font_feature_settings_shrink(&f), "shrink"); }
  void dig(const BLFontFeatureSettings& f, Hash& h) override { h.u64(f.size()); for (int i = 0; i < 41; i++) h.u64(f.get_value(t(i))); } };
struct TVarS : TypeOf<BLFontVariationSettings> { static BLTag t(int i) { return BL_MAKE_TAG('a', 'a', '0' + i / 10, '0' + i % 10); }
  void build(BLFontVariationSettings& f) override { for (int i = 0; i < 8; i++) f.set_value(t(i), 0.125f * i); }
  void mod(BLFontVariationSettings& f, int k) override { if (k == 0) okr(f.set_value(t(40), 0.5f), "set_value"); else if (k == 1) okr(f.set_value(t(7), 0.25f), "set_value"); else if (k == 2) okr(f.remove_value(t(3)), "remove_value"); else if (k == 3) okr(f.clear(), "clear"); else okr(bl_font_variation_settings_shrink(&f), "shrink"); }
  void dig(const BLFontVariationSettings& f, Hash& h) override { h.u64(f.size()); for (int i = 0; i < 41; i++) { float v = f.get_value(t(i)); h.u64(std::isnan(v) ? 0x7FC00000u : uint64_t(v * 1024)); } } };
struct TVar : TypeOf<BLVar> { int kind; TVar(int k) : kind(k) {}
  void build(BLVar& v) override { if (kind == 0) v = BLString("a string that is too long to be stored inside"); else if (kind == 1) { BLGradient g; g.add_stop(0, BLRgba32(1)); v = g; } else { BLArray<BLVar> a; a.append(BLVar(BLString("a string that is too long to be stored inside"))); a.append(BLVar(5)); v = a; } }
  void mod(BLVar& v, int k) override { if (k == 0) v = 5; else if (k == 1) { BLString s("another long string that is not stored inside"); v = s; } else if (k == 2) { if (v.is_string()) okr(v.as<BLString>().append('x'), "append"); else if (v.is_gradient()) okr(v.as<BLGradient>().add_stop(0.5, BLRgba32(7)), "add_stop"); else if (v.is_array()) okr(v.as<BLArray<BLVar>>().append(BLVar(7)), "append"); } else v.reset(); }
  void dig(const BLVar& v, Hash& h) override { h.u64(v.type()); if (v.is_string()) h.bytes(v.as<BLString>().data(), v.as<BLString>().size()); else if (v.is_gradient()) { h.u64(v.as<BLGradient>().size()); for (size_t i = 0; i < v.as<BLGradient>().size(); i++) h.u64(v.as<BLGradient>().stops()[i].rgba.value); } else if (v.is_array()) { auto& a = v.as<BLArray<BLVar>>(); h.u64(a.size()); for (size_t i = 0; i < a.size(); i++) dig(a[i], h); } else { int64_t x = 0; v.to_int64(&x); h.u64(x); } }
  void laz(BLVar& v, int, Hash& h) override { BLVar w; build(w); h.u64(v.equals(w)); } };
struct TConv : TypeOf<BLPixelConverter> { bool multi; TConv(bool m) : multi(m) {}
  void build(BLPixelConverter& c) override { BLFormatInfo d = bl_format_info[BL_FORMAT_PRGB32], s{};
    if (multi) { s.depth = 32; s.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_PREMULTIPLIED); uint8_t sz[4] = {8, 8, 8, 8}, sh[4] = {0, 8, 16, 24}; memcpy(s.sizes, sz, 4); memcpy(s.shifts, sh, 4); d.depth = 32; d.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA); uint8_t dz[4] = {5, 6, 5, 4}, dh[4] = {0, 5, 11, 16}; memcpy(d.sizes, dz, 4); memcpy(d.shifts, dh, 4); }
    else { s.depth = 8; s.flags = BLFormatFlags(BL_FORMAT_FLAG_INDEXED | BL_FORMAT_FLAG_RGB); static uint32_t pal[256]; static bool once = false; if (!once) { once = true; for (int i = 0; i < 256; i++) pal[i] = 0xFF000000u | i * 0x10307; } s.palette = (BLRgba32*)pal; }
    okr(c.create(d, s), "create"); }
  void mod(BLPixelConverter& c, int k) override { if (k == 0) okr(c.create(bl_format_info[BL_FORMAT_A8], bl_format_info[BL_FORMAT_PRGB32]), "create"); else if (k == 1) okr(c.reset(), "reset"); else build(c); }
  void dig(const BLPixelConverter& c, Hash& h) override { if (!c.is_initialized()) return; uint8_t src[8] = {1, 2, 3, 4, 250, 251, 7, 255}; uint8_t dst[8] = {}; h.u64(c.convert_span(dst, src, 2)); h.bytes(dst, 8); } };
struct TStroke : TypeOf<BLStrokeOptions> {
  void build(BLStrokeOptions& o) override { o.width = 3; for (int i = 0; i < 6; i++) o.dash_array.append(i + 1.0); }
  void mod(BLStrokeOptions& o, int k) override { if (k == 0) okr(o.dash_array.append(9.0), "append"); else if (k == 1) o.width = 5; else okr(o.dash_array.clear(), "clear"); }
  void dig(const BLStrokeOptions& o, Hash& h) override { h.u64(o.width); for (size_t i = 0; i < o.dash_array.size(); i++) h.u64(o.dash_array[i]); } };
struct TCodec : TypeOf<BLImageCodec> {
  void build(BLImageCodec& c) override { okr(c.find_by_name("QOI"), "find_by_name"); }
  void mod(BLImageCodec& c, int k) override { if (k == 0) okr(c.find_by_name("PNG"), "find_by_name"); else okr(c.reset(), "reset"); }
  void dig(const BLImageCodec& c, Hash& h) override { h.u64(c.is_valid()); h.bytes(c.name().data(), c.name().size()); }
  void laz(BLImageCodec& c, int k, Hash& h) override { if (!c.is_valid()) return; if (k == 0) { BLImageDecoder d; h.u64(c.create_decoder(&d)); h.u64(d.is_valid()); } else { BLImage im(1, 1, BL_FORMAT_PRGB32); TImage::zero(im); BLImageEncoder e; okr(c.create_encoder(&e), "create_encoder"); BLArray<uint8_t> a; okr(e.write_frame(a, im), "write_frame"); h.u64(a.size()); } } };
struct TManager : TypeOf<BLFontManager> {
  void build(BLFontManager& m) override { okr(m.create(), "create"); okr(m.add_face(gface), "add_face"); }
  void mod(BLFontManager& m, int k) override { if (k == 0) okr(m.create(), "create"); else okr(m.reset(), "reset"); }
  void dig(const BLFontManager& m, Hash& h) override { h.u64(m.is_valid()); h.u64(m.face_count()); } };

// Scripts: r read, m<k> modify, c copy into the second object, s second = first, t first = second, S swap, x reset, d destroy both, q<k> lazy query.
struct Cfg { std::string name; Type* type; std::vector<std::string> scripts; int pre; std::vector<std::vector<uint64_t>> expect; int ext, made; };
static const Cfg* C; static void* A[4]; static void* B[4];
static void step(Type* t, void*& a, void*& b, const std::string& s, std::vector<uint64_t>* out, const std::vector<uint64_t>* exp, int who) {
  size_t n = 0;
  auto see = [&](uint64_t v, char op, size_t at) { if (out) { out->push_back(v); return; } mc::check(v == (*exp)[n], op == 'q' ? "query" : "content", "thread %d: operation %zu of '%s' on its own copy of the %s gives something else than on an object that is not shared", who, at, s.c_str(), t->name.c_str()); n++; };
  for (size_t i = 0; i < s.size(); i++) switch (s[i]) {
    case 'r': see(t->digest(a), 'r', i); break;
    case 'q': see(t->lazy(a, s[i + 1] - '0'), 'q', i); i++; break;
    case 'm': t->modify(a, s[i + 1] - '0'); i++; break;
    case 'c': if (b) { t->destroy(b); } else b = malloc(64); t->copy(b, a); break;
    case 's': if (!b) { b = malloc(64); t->make(b); } t->assign(b, a); break;
    case 't': if (b) t->assign(a, b); break;
    case 'S': std::swap(a, b); break;
    case 'x': t->reset(a); break;
  }
  if (a) { t->destroy(a); free(a); a = nullptr; } if (b) { t->destroy(b); free(b); b = nullptr; }
}
static void client(void* p) { int w = int(intptr_t(p)); step(C->type, A[w], B[w], C->scripts[w], nullptr, &C->expect[w], w); }
static void body(void* p) {
  C = (const Cfg*)p; size_t n = C->scripts.size(); destroyed = 0;
  mc::quiet(true);
  void* o = malloc(64); C->type->make(o);
  for (size_t i = 0; i < n; i++) { A[i] = malloc(64); C->type->copy(A[i], o); B[i] = nullptr; }
  C->type->destroy(o); free(o);
  mc::quiet(false);
  int t[4]; for (size_t i = 1; i < n; i++) t[i] = mc::spawn(client, (void*)intptr_t(i));
  client(nullptr);
  for (size_t i = 1; i < n; i++) mc::join(t[i]);
  mc::check(destroyed == C->ext, "destroy-count", "the release callback of the external data has been called %d times instead of %d when the last copy is gone", destroyed, C->ext);
}

int main(int argc, char** argv) {
  mc::init(); vh::init(argc, argv); bl_runtime_init();
  { FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), "rb"); if (!f) { perror("font"); return 3; } fontfile.resize(100000); fontfile.resize(fread(fontfile.data(), 1, fontfile.size(), f)); fclose(f); BLFontData d; d.create_from_data(fontfile.data(), fontfile.size()); if (gface.create_from_data(d, 0) != BL_SUCCESS) return 3; }
  static std::vector<Cfg> cs; bool th = g.thorough; int e = th ? 1 : 0;
  auto add = [&](const char* n, Type* t, int ext, std::initializer_list<std::vector<std::string>> ss, int pre = 2) { t->name = n; int i = 0; for (auto& s : ss) { cs.push_back(Cfg{std::string(n) + "-" + std::to_string(i++), t, s, pre + e, {}, ext, 0}); } };
  // Every pair of modifications, and the life-cycle scripts.
  auto common = [&](const char* n, Type* t, int ext, int mods, bool lazy = false) {
    t->name = n; auto put = [&](std::vector<std::string> s, int pre) { std::string nm = n; for (auto& x : s) nm += "-" + x; cs.push_back(Cfg{nm, t, s, pre + e, {}, ext, 0}); };
    for (int a = 0; a < mods; a++) for (int b = a; b < mods; b++) { std::string x = std::string("m") + char('0' + a), y = std::string("m") + char('0' + b); if (b - a < 2 || th) put({x + "r" + y + "r", "r" + y + "r"}, 2); }
    put({"rcr", "xr", "r"}, 2); put({"crSx", "csr"}, 3); put({"cm0rtr", "xcr", "m0r"}, 2); if (th) { put({"m0cr", "m0cr", "m0cr"}, 2); }
    if (lazy) put({"q0r", "q0r", "m0q0r"}, 2);
  };
  common("array", new TArrayU(false), 0, 7); common("external-array", new TArrayU(true), 1, 7); common("array-of-strings", new TArrayS, 0, 7); common("string", new TString, 0, 7); common("bitset", new TBitSet, 0, 7, true); common("bitarray", new TBitArray, 0, 7);
  common("path", new TPath(0), 0, 7); common("gradient", new TGradient(0), 0, 8); common("pattern", new TPattern(false), 0, 6); common("external-pattern", new TPattern(true), 1, 6); common("image", new TImage(0), 0, 5, true); common("external-image", new TImage(1), 1, 5, true); common("read-only-image", new TImage(2), 1, 5);
  common("font-data", new TFontData(false), 0, 3, true); common("external-font-data", new TFontData(true), 1, 3, true); common("font-face", new TFace, 0, 2); common("font", new TFont, 0, 4, true); common("features", new TFeat, 0, 6); common("variations", new TVarS, 0, 5);
  common("var-string", new TVar(0), 0, 4, true); common("var-gradient", new TVar(1), 0, 4); common("var-array", new TVar(2), 0, 4); common("palette-converter", new TConv(false), 0, 3); common("multi-converter", new TConv(true), 0, 3); common("stroke-options", new TStroke, 0, 3); common("codec", new TCodec, 0, 2, true); common("font-manager", new TManager, 0, 2);
  auto lazies = [&](const char* n, Type* t, int ext, int q, const char* mods) { t->name = n; auto put = [&](std::vector<std::string> s, int pre) { std::string nm = n; for (auto& x : s) nm += "-" + x; cs.push_back(Cfg{nm, t, s, pre + e, {}, ext, 0}); };
    for (int a = 0; a < q; a++) for (int b = a; b < q; b++) { std::string x = std::string("q") + char('0' + a), y = std::string("q") + char('0' + b); put({x + y, y + x}, 3); }
    for (int a = 0; a < q; a++) { std::string x = std::string("q") + char('0' + a); put({x, x, x + x}, 2); for (const char* m = mods; *m; m++) put({x + "r", std::string("m") + *m + x + "r", x}, 2); put({"c" + x + "S" + x, "c" + x + "t" + x}, 2); } };
  lazies("lazy-path", new TPath(0), 0, 7, "0125"); lazies("lazy-invalid-path", new TPath(1), 0, 7, ""); lazies("lazy-empty-path", new TPath(2), 0, 5, "0"); lazies("lazy-gradient", new TGradient(0), 0, 4, "012567"); lazies("lazy-solid-gradient", new TGradient(1), 0, 4, "0"); lazies("lazy-opaque-gradient", new TGradient(2), 0, 4, "56"); lazies("lazy-face", new TFace, 0, 3, "");
  for (size_t i = 0; i < cs.size(); i++) if (g.replaying || mine(i)) {
    Cfg& c = cs[i];
    for (auto& s : c.scripts) { std::vector<uint64_t> v; void* a = malloc(64); void* b = nullptr; c.type->make(a); step(c.type, a, b, s, &v, nullptr, 0); c.expect.push_back(v); }
    destroyed = 0;
    mc::Options o; o.preemptions = c.pre; o.stale = 1 + e; o.max_seconds = th ? 60 : 10;
    mc::explore(c.name.c_str(), body, &c, o);
  }
  return done();
}
