// C34: every handle type keeps its value (or shared instance) through any history of init, init_move, init_weak, assign_move,
// assign_weak, reset, destroy and edits over two slots; nothing leaks and no external data is released twice or never.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <sanitizer/allocator_interface.h>
using namespace vh;
static std::vector<uint8_t> fontfile, png, qoi; static int destroyed = 0, created = 0;
static void on_destroy(void* impl, void* ext, void* user) noexcept { (void)impl; if (user != (void*)0x1234) fail("external", "wrong user data"); free(ext); destroyed++; }
static bool opfail; static unsigned opres; static void ok(BLResult r) { if (r != BL_SUCCESS) opfail = true, opres = r; }
using Fn1 = BLResult (*)(void*); using Fn2 = BLResult (*)(void*, void*); using FnE = bool (*)(const void*, const void*);
struct Type {
  const char* name; size_t size; bool shared;   // shared: copies are the same instance
  Fn1 init, destroy, reset; Fn2 init_move, init_weak, assign_move, assign_weak; FnE equals;
  std::vector<std::function<void(void*)>> build; std::function<void(void*)> edit; std::function<void(const void*, Hash&)> dig; bool deep_equal = false, keeps = false;   // keeps: a moved-from object is valid, with unspecified content
  Fn2 swap = nullptr;
};
static std::vector<Type> types;
template<class T> static auto swapper(Type& t, int) -> decltype(((T*)0)->swap(*(T*)0), void()) { t.swap = [](void* a, void* b) -> BLResult { ((T*)a)->swap(*(T*)b); return BL_SUCCESS; }; }
template<class T> static void swapper(Type&, long) {}
template<class T> static Type base(const char* n, bool shared, std::vector<std::function<void(T&)>> b, std::function<void(T&)> e, std::function<void(const T&, Hash&)> d) {
  Type t{}; t.name = n; t.size = sizeof(T); t.shared = shared; for (auto& f : b) t.build.push_back([f](void* p) { f(*(T*)p); }); if (e) t.edit = [e](void* p) { e(*(T*)p); }; t.dig = [d](const void* p, Hash& h) { d(*(const T*)p, h); }; swapper<T>(t, 0); return t; }
#define API(t, p) t.init = (Fn1)p##_init, t.destroy = (Fn1)p##_destroy, t.reset = (Fn1)p##_reset, t.init_move = (Fn2)p##_init_move, t.init_weak = (Fn2)p##_init_weak, t.assign_move = (Fn2)p##_assign_move, t.assign_weak = (Fn2)p##_assign_weak
// The same operations by the C++ operators, for types whose C API has no function for them.
template<class T> static void cpp(Type& t) {
  t.init = [](void* a) -> BLResult { new (a) T(); return BL_SUCCESS; }; t.destroy = [](void* a) -> BLResult { ((T*)a)->~T(); return BL_SUCCESS; }; t.init_move = [](void* a, void* b) -> BLResult { new (a) T(std::move(*(T*)b)); return BL_SUCCESS; };
  if constexpr (std::is_move_assignable_v<T>) t.assign_move = [](void* a, void* b) -> BLResult { *(T*)a = std::move(*(T*)b); return BL_SUCCESS; };
  if constexpr (std::is_copy_constructible_v<T>) { t.init_weak = [](void* a, void* b) -> BLResult { new (a) T(*(const T*)b); return BL_SUCCESS; }; t.assign_weak = [](void* a, void* b) -> BLResult { *(T*)a = *(const T*)b; return BL_SUCCESS; }; } }
static void dimg(const BLImage& im, Hash& h) { BLImageData d; ok(im.get_data(&d)); h.u(im.width()); h.u(im.height()); h.u(im.format()); for (int y = 0; y < im.height(); y++) h.b((char*)d.pixel_data + d.stride * y, size_t(im.width()) * (im.format() == BL_FORMAT_A8 ? 1 : 4)); }
static BLImage mkimg(uint32_t c, int w = 3) { BLImage im(w, 2, BL_FORMAT_PRGB32); BLImageData d; ok(im.make_mutable(&d)); for (int y = 0; y < 2; y++) for (int x = 0; x < w; x++) ((uint32_t*)((char*)d.pixel_data + d.stride * y))[x] = c + x * 3 + y; return im; }
static BLFontData mkdata(bool ext) { BLFontData d; if (ext) { uint8_t* p = (uint8_t*)malloc(fontfile.size()); memcpy(p, fontfile.data(), fontfile.size()); created++; ok(d.create_from_data(p, fontfile.size(), on_destroy, (void*)0x1234)); } else { BLArray<uint8_t> a; ok(a.assign_data(fontfile.data(), fontfile.size())); ok(d.create_from_data(a)); } return d; }
static BLFontFace mkface() { BLFontFace f; ok(f.create_from_data(mkdata(true), 0)); return f; }
static void dd(double v, Hash& h) { h.b(&v, 8); }
static void make_types() {
  { auto t = base<BLString>("string", false, {[](BLString& s) { ok(s.assign("short")); }, [](BLString& s) { ok(s.assign("a string that is too long to be stored inside")); }}, [](BLString& s) { ok(s.append("+x")); }, [](const BLString& s, Hash& h) { h.b(s.data(), s.size()); }); API(t, bl_string); t.equals = (FnE)(bool (*)(const BLStringCore*, const BLStringCore*))bl_string_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLArray<double>>("array", false, {[](BLArray<double>& a) { ok(a.append(1.5)); }, [](BLArray<double>& a) { for (int i = 0; i < 9; i++) ok(a.append(i)); }}, [](BLArray<double>& a) { ok(a.append(7)); }, [](const BLArray<double>& a, Hash& h) { h.b(a.data(), a.size() * 8); }); API(t, bl_array); t.init = [](void* a) -> BLResult { new (a) BLArray<double>(); return BL_SUCCESS; }; t.equals = (FnE)bl_array_equals; t.deep_equal = true; types.push_back(t); }
  { using A = BLArray<BLString>; auto t = base<A>("array of objects", false, {[](A& a) { ok(a.append(BLString("x"))); }, [](A& a) { for (int i = 0; i < 3; i++) ok(a.append(BLString("another string that is stored outside"))); }}, [](A& a) { ok(a.append(BLString("one more string that is stored outside"))); }, [](const A& a, Hash& h) { for (auto& s : a) h.b(s.data(), s.size()); }); API(t, bl_array); t.init = [](void* a) -> BLResult { new (a) A(); return BL_SUCCESS; }; t.equals = (FnE)bl_array_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLBitArray>("bit array", false, {[](BLBitArray& a) { ok(a.append_word(0x5A5A1234u)); }, [](BLBitArray& a) { ok(a.resize(300)); ok(a.set_bit(17)); }}, [](BLBitArray& a) { ok(a.append_bit(false)); }, [](const BLBitArray& a, Hash& h) { h.u(a.size()); h.b(a.data(), (a.size() + 31) / 32 * 4); }); API(t, bl_bit_array); t.equals = (FnE)bl_bit_array_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLBitSet>("bit set", false, {[](BLBitSet& a) { ok(a.add_range(5, 900)); }, [](BLBitSet& a) { for (uint32_t i = 0; i < 40; i++) ok(a.add_bit(i * 677)); }}, [](BLBitSet& a) { ok(a.add_bit(3000)); }, [](const BLBitSet& a, Hash& h) { h.u(a.cardinality()); for (uint32_t i = 0; i < 4000; i++) if (a.has_bit(i)) h.u(i); }); API(t, bl_bit_set); t.equals = (FnE)bl_bit_set_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLPath>("path", false, {[](BLPath& p) { ok(p.move_to(1, 2)); ok(p.line_to(3, 4)); }, [](BLPath& p) { ok(p.add_circle(BLCircle(5, 5, 4))); }}, [](BLPath& p) { ok(p.line_to(7, 8)); }, [](const BLPath& p, Hash& h) { h.b(p.command_data(), p.size()); h.b(p.vertex_data(), p.size() * 16); }); API(t, bl_path); t.equals = (FnE)bl_path_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLStrokeOptions>("stroke options", false, {[](BLStrokeOptions& o) { o.width = 3; o.miter_limit = 2; o.dash_offset = 1.5; o.hints = 0x01020301; for (int i = 0; i < 6; i++) ok(o.dash_array.append(i + 1.0)); }, [](BLStrokeOptions& o) { o.dash_offset = 9; o.join = BL_STROKE_JOIN_ROUND; }}, [](BLStrokeOptions& o) { o.dash_offset += 1; ok(o.dash_array.append(2.0)); }, [](const BLStrokeOptions& o, Hash& h) { dd(o.width, h); dd(o.miter_limit, h); dd(o.dash_offset, h); h.u(o.hints); for (size_t i = 0; i < o.dash_array.size(); i++) dd(o.dash_array[i], h); }); API(t, bl_stroke_options); t.equals = (FnE)bl_stroke_options_equals; t.keeps = true; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLGradient>("gradient", false, {[](BLGradient& g) { ok(g.create(BLLinearGradientValues(1, 2, 8, 3))); ok(g.add_stop(0, BLRgba32(0xFF102030))); ok(g.add_stop(1, BLRgba32(0x80FFFFFF))); }, [](BLGradient& g) { ok(g.create(BLConicGradientValues(4, 4, 1, 2), BL_EXTEND_MODE_REPEAT)); ok(g.translate(3, 1)); for (int i = 0; i < 5; i++) ok(g.add_stop(i / 4.0, BLRgba32(0xFF000000u + i))); }}, [](BLGradient& g) { ok(g.set_value(0, 9)); ok(g.add_stop(0.3, BLRgba32(0xFF0000FFu))); }, [](const BLGradient& g, Hash& h) { h.u(g.type()); h.u(g.extend_mode()); h.u(g.transform_type()); for (int i = 0; i < 6; i++) dd(g.value(i), h); BLMatrix2D m = g.transform(); h.b(&m, sizeof m); for (size_t i = 0; i < g.size(); i++) { dd(g.stop_at(i).offset, h); h.u(g.stop_at(i).rgba.value); } }); API(t, bl_gradient); t.equals = (FnE)bl_gradient_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLImage>("image", false, {[](BLImage& i) { i = mkimg(0x80102030); }, [](BLImage& i) { uint32_t* q = (uint32_t*)malloc(16); memset(q, 0x42, 16); created++; ok(i.create_from_data(2, 2, BL_FORMAT_PRGB32, q, 8, BL_DATA_ACCESS_RW, on_destroy, (void*)0x1234)); }}, [](BLImage& i) { if (i.is_empty()) { i = mkimg(5); return; } BLImageData d; ok(i.make_mutable(&d)); *(uint32_t*)d.pixel_data += 1; }, dimg); API(t, bl_image); t.equals = (FnE)bl_image_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLPattern>("pattern", false, {[](BLPattern& p) { ok(p.create(mkimg(0x11223344), BL_EXTEND_MODE_PAD)); }, [](BLPattern& p) { ok(p.create(mkimg(0x10101010, 5), BLRectI(1, 0, 2, 1), BL_EXTEND_MODE_REFLECT, BLMatrix2D::make_scaling(2, 3))); }}, [](BLPattern& p) { ok(p.translate(1, 2)); p.set_extend_mode(BL_EXTEND_MODE_REPEAT); }, [](const BLPattern& p, Hash& h) { h.u(p.extend_mode()); BLMatrix2D m = p.transform(); h.b(&m, sizeof m); BLRectI a = p.area(); h.b(&a, 16); dimg(p.get_image(), h); }); API(t, bl_pattern); t.equals = (FnE)bl_pattern_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLFontFeatureSettings>("font features", false, {[](BLFontFeatureSettings& f) { ok(f.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0)); }, [](BLFontFeatureSettings& f) { for (int i = 0; i < 30; i++) ok(f.set_value(BL_MAKE_TAG('a', 'a', '0' + i / 10, '0' + i % 10), 1 + i % 2)); }}, [](BLFontFeatureSettings& f) { ok(f.set_value(BL_MAKE_TAG('l', 'i', 'g', 'a'), f.get_value(BL_MAKE_TAG('l', 'i', 'g', 'a')) != 1)); }, [](const BLFontFeatureSettings& f, Hash& h) { BLFontFeatureSettingsView v; ok(f.get_view(&v)); for (size_t i = 0; i < v.size; i++) { h.u(v.data[i].tag); h.u(v.data[i].value); } }); API(t, bl_font_feature_settings); t.equals = (FnE)bl_font_feature_settings_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLFontVariationSettings>("font variations", false, {[](BLFontVariationSettings& f) { ok(f.set_value(BL_MAKE_TAG('w', 'g', 'h', 't'), 0.5f)); }, [](BLFontVariationSettings& f) { for (int i = 0; i < 8; i++) ok(f.set_value(BL_MAKE_TAG('a', 'a', '0', '0' + i), 0.125f * i)); }}, [](BLFontVariationSettings& f) { ok(f.set_value(BL_MAKE_TAG('w', 'd', 't', 'h'), 0.25f)); }, [](const BLFontVariationSettings& f, Hash& h) { BLFontVariationSettingsView v; ok(f.get_view(&v)); for (size_t i = 0; i < v.size; i++) { h.u(v.data[i].tag); dd(v.data[i].value, h); } }); API(t, bl_font_variation_settings); t.equals = (FnE)bl_font_variation_settings_equals; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLVar>("variant", false, {[](BLVar& v) { v = BLString("a string that is too long to be stored inside"); }, [](BLVar& v) { v = mkimg(77); }, [](BLVar& v) { v = 5; }}, [](BLVar& v) { if (v.is_string()) ok(v.as<BLString>().append("+")); else { BLArray<BLVar> a; ok(a.append(v)); v = a; } }, [](const BLVar& v, Hash& h) { const BLVar* p = &v; for (int i = 0; i < 4; i++) { h.u(p->type()); if (p->is_string()) h.b(p->as<BLString>().data(), p->as<BLString>().size()); else if (p->is_image()) dimg(p->as<BLImage>(), h); else if (p->is_array() && p->as<BLArray<BLVar>>().size() == 1) { p = &p->as<BLArray<BLVar>>()[0]; continue; } else { int64_t x = 0; (void)p->to_int64(&x); h.u(x); } break; } });
    t.init = (Fn1)bl_var_init_null; t.destroy = (Fn1)bl_var_destroy, t.reset = (Fn1)bl_var_reset, t.init_move = (Fn2)bl_var_init_move, t.init_weak = (Fn2)bl_var_init_weak, t.assign_move = (Fn2)bl_var_assign_move, t.assign_weak = (Fn2)bl_var_assign_weak; t.equals = (FnE)bl_var_equals; t.keeps = true; t.deep_equal = true; types.push_back(t); }
  { auto t = base<BLFontData>("font data", true, {[](BLFontData& f) { f = mkdata(false); }, [](BLFontData& f) { f = mkdata(true); }}, nullptr, [](const BLFontData& f, Hash& h) { h.u(f.is_valid()); h.u(f.face_count()); BLFontTable t{}; if (f.is_valid()) h.u(f.get_table(0, &t, BL_MAKE_TAG('h', 'e', 'a', 'd'))); h.b(t.data, t.size); }); API(t, bl_font_data); t.equals = (FnE)bl_font_data_equals; types.push_back(t); }
  { auto t = base<BLFontFace>("font face", true, {[](BLFontFace& f) { f = mkface(); }}, nullptr, [](const BLFontFace& f, Hash& h) { h.u(f.is_valid()); h.u(f.glyph_count()); h.b(f.family_name().data(), f.family_name().size()); }); API(t, bl_font_face); t.equals = (FnE)bl_font_face_equals; types.push_back(t); }
  { auto t = base<BLFont>("font", false, {[](BLFont& f) { ok(f.create_from_face(mkface(), 12)); }}, [](BLFont& f) { if (f.is_valid()) { ok(f.set_size(f.size() + 4)); BLFontFeatureSettings s; ok(s.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0)); ok(f.set_feature_settings(s)); } }, [](const BLFont& f, Hash& h) { h.u(f.is_valid()); h.u(uint64_t(f.size() * 16)); h.u(f.feature_settings().size()); h.u(f.face().glyph_count()); dd(f.metrics().ascent, h); }); API(t, bl_font); t.equals = (FnE)bl_font_equals; types.push_back(t); }
  { auto t = base<BLFontManager>("font manager", true, {[](BLFontManager& m) { ok(m.create()); ok(m.add_face(mkface())); }, [](BLFontManager& m) { ok(m.create()); }}, nullptr, [](const BLFontManager& m, Hash& h) { h.u(m.is_valid()); h.u(m.face_count()); }); API(t, bl_font_manager); t.equals = (FnE)bl_font_manager_equals; types.push_back(t); }
  { auto t = base<BLImageCodec>("image codec", true, {[](BLImageCodec& c) { ok(c.find_by_name("QOI")); }, [](BLImageCodec& c) { ok(c.find_by_name("PNG")); }}, nullptr, [](const BLImageCodec& c, Hash& h) { h.u(c.is_valid()); h.b(c.name().data(), c.name().size()); h.u(c.features()); }); API(t, bl_image_codec); types.push_back(t); }
  { auto t = base<BLImageDecoder>("image decoder", true, {[](BLImageDecoder& d) { BLImageCodec c; ok(c.find_by_name("QOI")); ok(c.create_decoder(&d)); }, [](BLImageDecoder& d) { BLImageCodec c; ok(c.find_by_name("PNG")); ok(c.create_decoder(&d)); BLImageInfo i; ok(d.read_info(i, png.data(), png.size())); }}, [](BLImageDecoder& d) { if (!d.is_valid()) return; BLImage im; BLResult r = d.read_frame(im, d.last_result() == 0 && d.buffer_index() ? png.data() : qoi.data(), d.buffer_index() ? png.size() : qoi.size()); if (r && d.frame_index() == 0) ok(r); }, [](const BLImageDecoder& d, Hash& h) { h.u(d.is_valid()); if (!d.is_valid()) return; h.u(d.last_result()); h.u(d.frame_index()); h.u(d.buffer_index()); }); API(t, bl_image_decoder); types.push_back(t); }
  { auto t = base<BLImageEncoder>("image encoder", true, {[](BLImageEncoder& e) { BLImageCodec c; ok(c.find_by_name("QOI")); ok(c.create_encoder(&e)); }, [](BLImageEncoder& e) { BLImageCodec c; ok(c.find_by_name("PNG")); ok(c.create_encoder(&e)); BLVar lv(3u); ok(bl_object_set_property(&e, "compression", 11, &lv)); }}, nullptr, [](const BLImageEncoder& e, Hash& h) { h.u(e.is_valid()); if (!e.is_valid()) return; h.u(e.last_result()); h.u(e.frame_index()); BLVar v; if (bl_object_get_property(&e, "compression", 11, &v) == BL_SUCCESS) { uint32_t x = 0; (void)v.to_uint32(&x); h.u(x); } }); API(t, bl_image_encoder); types.push_back(t); }
  { auto t = base<BLContext>("context", true, {[](BLContext& c) { BLImage im = mkimg(9); ok(c.begin(im)); }, [](BLContext& c) { BLImage im = mkimg(3, 4); BLContextCreateInfo i{}; i.thread_count = 1; ok(c.begin(im, i)); ok(c.translate(3, 4)); ok(c.save()); ok(c.set_fill_style(BLRgba32(0xFF123456))); }}, [](BLContext& c) { if (c.is_valid()) { ok(c.scale(1.5)); ok(c.save()); ok(c.fill_rect(0, 0, 1, 1)); } }, [](const BLContext& c, Hash& h) { h.u(c.is_valid()); dd(c.target_width(), h); BLMatrix2D m = c.user_transform(); h.b(&m, sizeof m); h.u(c.saved_state_count()); BLVar v; if (c.is_valid()) ok(c.get_fill_style(v)); h.u(v.type()); }); API(t, bl_context); types.push_back(t); }
  { auto t = base<BLGlyphBuffer>("glyph buffer", false, {[](BLGlyphBuffer& b) { ok(b.set_utf8_text("abc", 3)); }, [](BLGlyphBuffer& b) { std::string s(300, 'q'); ok(b.set_utf8_text(s.data(), s.size())); }}, [](BLGlyphBuffer& b) { ok(b.set_latin1_text("xyz1", 4)); }, [](const BLGlyphBuffer& b, Hash& h) { h.u(b.size()); for (size_t i = 0; i < b.size(); i++) h.u(b.content()[i]); }); cpp<BLGlyphBuffer>(t); t.init = (Fn1)bl_glyph_buffer_init; t.init_move = (Fn2)bl_glyph_buffer_init_move; t.destroy = (Fn1)bl_glyph_buffer_destroy; t.reset = (Fn1)bl_glyph_buffer_reset; types.push_back(t); }
  { auto t = base<BLPixelConverter>("pixel converter", false, {
      [](BLPixelConverter& c) { BLFormatInfo d = bl_format_info[BL_FORMAT_PRGB32], s{}; s.depth = 32; s.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_PREMULTIPLIED); uint8_t sz[4] = {8, 8, 8, 8}, sh[4] = {0, 8, 16, 24}; memcpy(s.sizes, sz, 4); memcpy(s.shifts, sh, 4); d.depth = 16; d.flags = BL_FORMAT_FLAG_RGB; uint8_t dz[4] = {5, 6, 5, 0}, dh[4] = {11, 5, 0, 0}; memcpy(d.sizes, dz, 4); memcpy(d.shifts, dh, 4); ok(c.create(d, s)); },
      [](BLPixelConverter& c) { BLFormatInfo d = bl_format_info[BL_FORMAT_PRGB32], s{}; s.depth = 8; s.flags = BLFormatFlags(BL_FORMAT_FLAG_INDEXED | BL_FORMAT_FLAG_RGB); static BLRgba32 pal[256]; for (int i = 0; i < 256; i++) pal[i] = BLRgba32(0xFF000000u + i * 65793u); s.palette = pal; ok(c.create(d, s)); }},
      [](BLPixelConverter& c) { ok(c.create(bl_format_info[BL_FORMAT_A8], bl_format_info[BL_FORMAT_PRGB32])); },
      [](const BLPixelConverter& c, Hash& h) { h.u(c.is_initialized()); if (!c.is_initialized()) return; uint8_t src[16] = {1, 2, 3, 4, 250, 251, 7, 255, 9, 1, 1, 200}; uint8_t dst[16] = {}; ok(c.convert_span(dst, src, 2)); h.b(dst, 16); });
    cpp<BLPixelConverter>(t); t.keeps = true; t.destroy = (Fn1)bl_pixel_converter_destroy; t.reset = (Fn1)bl_pixel_converter_reset; types.push_back(t); }
}
struct H {
  Type& T; alignas(16) char mem[2][128]; struct M { int v = 0, e = 0; int id = 0; } m[2]; bool live = false; size_t base0 = 0; int c0 = 0, d0 = 0, nid = 0; struct Op { std::string n; std::function<bool(H&)> f; }; std::vector<Op> ops;
  void touch(int t) { m[t].id = ++nid; }
  void add(std::string n, std::function<bool(H&)> f) { ops.push_back({n, f}); }
  H(Type& t_) : T(t_) {
    for (int t = 0; t < 2; t++) { int o = 1 - t; std::string N = "s" + std::to_string(t) + ".";
      for (int k = 0; k < (int)T.build.size(); k++) { add(N + "build " + std::to_string(k), [=](H& h) { if (h.m[t].v || h.m[t].e) { ok(h.T.destroy(h.mem[t])); ok(h.T.init(h.mem[t])); } h.T.build[k](h.mem[t]); h.m[t] = {k + 1, 0, ++h.nid}; return true; });
        if (T.assign_move) add(N + "assign_move(new " + std::to_string(k) + ")", [=](H& h) { alignas(16) char x[128]; memset(x, 0xA5, sizeof x); ok(h.T.init(x)); h.T.build[k](x); ok(h.T.assign_move(h.mem[t], x)); h.m[t] = {k + 1, 0, ++h.nid}; h.dflt(x, "moved-from temporary"); ok(h.T.destroy(x)); return true; });
        if (T.assign_weak) add(N + "assign_weak(new " + std::to_string(k) + ")", [=](H& h) { alignas(16) char x[128]; memset(x, 0xA5, sizeof x); ok(h.T.init(x)); h.T.build[k](x); ok(h.T.assign_weak(h.mem[t], x)); h.m[t] = {k + 1, 0, ++h.nid}; ok(h.T.destroy(x)); return true; }); }
      add(N + "destroy,init", [=](H& h) { ok(h.T.destroy(h.mem[t])); memset(h.mem[t], 0xA5, 128); ok(h.T.init(h.mem[t])); h.m[t] = M(); return true; });
      if (T.init_weak) add(N + "destroy,init_weak(other)", [=](H& h) { ok(h.T.destroy(h.mem[t])); memset(h.mem[t], 0xA5, 128); ok(h.T.init_weak(h.mem[t], h.mem[o])); h.m[t] = h.m[o]; return true; });
      add(N + "destroy,init_move(other)", [=](H& h) { ok(h.T.destroy(h.mem[t])); memset(h.mem[t], 0xA5, 128); ok(h.T.init_move(h.mem[t], h.mem[o])); h.m[t] = h.m[o]; h.m[o] = M(); if (h.T.keeps) ok(h.T.reset(h.mem[o])); return true; });
      if (T.assign_weak) { add(N + "assign_weak(other)", [=](H& h) { ok(h.T.assign_weak(h.mem[t], h.mem[o])); h.m[t] = h.m[o]; return true; });
        add(N + "assign_weak(self)", [=](H& h) { ok(h.T.assign_weak(h.mem[t], h.mem[t])); return true; }); }
      if (T.assign_move) add(N + "assign_move(other)", [=](H& h) { ok(h.T.assign_move(h.mem[t], h.mem[o])); h.m[t] = h.m[o]; h.m[o] = M(); if (h.T.keeps) ok(h.T.reset(h.mem[o])); return true; });
      add(N + "reset", [=](H& h) { ok(h.T.reset(h.mem[t])); h.m[t] = M(); return true; });
      if (T.edit) add(N + "edit", [=](H& h) { if (h.m[t].e >= 2 || (h.T.shared && !h.m[t].v)) return false; int id = h.m[t].id; h.T.edit(h.mem[t]); h.m[t].e++; if (h.T.shared) { if (h.m[o].id == id) h.m[o].e = h.m[t].e; } else h.m[t].id = ++h.nid; return true; });
      if (!t && T.swap) add("swap", [=](H& h) { ok(h.T.swap(h.mem[0], h.mem[1])); std::swap(h.m[0], h.m[1]); return true; });
    } }
  void fresh(char* x, const M& q) { memset(x, 0xA5, 128); ok(T.init(x)); if (q.v) T.build[q.v - 1](x); for (int i = 0; i < q.e; i++) T.edit(x); }
  static uint64_t D(Type& T, void* p) { Hash h; T.dig(p, h); return h.h; }
  void dflt(void* x, const char* what) { if (T.keeps) { ok(T.reset(x)); } alignas(16) char y[128]; fresh(y, M()); if (D(T, x) != D(T, y)) fail("moved-from", "%s: the %s is not a default object", T.name, what); ok(T.destroy(y)); }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return std::string(T.name) + " " + ops[i].n; }
  void reset() { opfail = false; base0 = __sanitizer_get_current_allocated_bytes(); c0 = created; d0 = destroyed; nid = 0; live = true; for (int i = 0; i < 2; i++) { memset(mem[i], 0xA5, 128); ok(T.init(mem[i])); m[i] = M(); } }
  bool chk = false;
  void finish() { if (!live) return; live = false; int nv = g.nviol; for (int i = 0; i < 2; i++) ok(T.destroy(mem[i])); if (opfail) { fail("error-result", "%s: error %u", T.name, opres); return; } if (!chk || nv != g.nviol) return; size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base0) fail("leak", "%s: %ld bytes leaked", T.name, long(a - base0)); if (created - c0 != destroyed - d0) fail("external", "%s: %d external buffers made, %d released", T.name, created - c0, destroyed - d0); }
  bool apply(int op, bool check) { chk = check; if (!ops[op].f(*this)) return false; if (opfail) { fail("error-result", "%s %s: error %u", T.name, ops[op].n.c_str(), opres); opfail = false; return true; } if (!check) return true;
    uint64_t d[2], e[2]; alignas(16) char x[2][128];
    for (int i = 0; i < 2; i++) { fresh(x[i], m[i]); d[i] = D(T, mem[i]); e[i] = D(T, x[i]); if (d[i] != e[i]) fail("content", "%s %s: slot %d differs from an object made afresh (value %d, %d edits)", T.name, ops[op].n.c_str(), i, m[i].v, m[i].e); }
    if (T.equals) { bool q = T.equals(mem[0], mem[1]), r = T.equals(mem[1], mem[0]); if (q != r) fail("equality", "%s %s: equality is not symmetric", T.name, ops[op].n.c_str()); bool must = (m[0].id == m[1].id) || (T.deep_equal && e[0] == e[1]); if (must && !q) fail("equality", "%s %s: slots with the same content are not equal", T.name, ops[op].n.c_str()); if (e[0] != e[1] && q) fail("equality", "%s %s: slots with different content are equal", T.name, ops[op].n.c_str());
      for (int i = 0; i < 2; i++) if (!T.equals(mem[i], mem[i]) || (T.deep_equal && (!T.equals(mem[i], x[i]) || !T.equals(x[i], mem[i])))) fail("equality", "%s %s: slot %d is not equal to %s", T.name, ops[op].n.c_str(), i, T.equals(mem[i], mem[i]) ? "an object made afresh" : "itself"); }
    for (int i = 0; i < 2; i++) ok(T.destroy(x[i])); return true; }
  uint64_t state() { Hash h; for (int i = 0; i < 2; i++) { h.u(m[i].v); h.u(m[i].e); h.u(D(T, mem[i])); } h.u(m[0].id == m[1].id); if (T.size >= 16 && strcmp(T.name, "glyph buffer")) h.u(!memcmp(mem[0], mem[1], std::min<size_t>(T.size, 16))); return h.h; }
};
int main(int argc, char** argv) {
  init(argc, argv);
  { const char* r = getenv("VERIF_REPO"); std::string p = std::string(r ? r : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf"; FILE* f = fopen(p.c_str(), "rb"); if (!f) { fprintf(stderr, "cannot read %s\n", p.c_str()); return 2; } uint8_t b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) fontfile.insert(fontfile.end(), b, b + n); fclose(f); }
  { BLImage im = mkimg(0xFF102030, 5); BLArray<uint8_t> a; BLImageCodec c; (void)c.find_by_name("PNG"); (void)im.write_to_data(a, c); png.assign(a.begin(), a.end()); a.clear(); (void)c.find_by_name("QOI"); (void)im.write_to_data(a, c); qoi.assign(a.begin(), a.end()); }
  make_types();
  for (auto& T : types) { H h(T); for (int w = 0; w < 2; w++) { h.reset(); for (auto& b : T.build) { alignas(16) char x[128]; memset(x, 0xA5, 128); ok(T.init(x)); b(x); if (T.edit) T.edit(x); Hash q; T.dig(x, q); ok(T.destroy(x)); } h.chk = false; h.finish(); } }   // Whatever the library allocates once.
  for (auto& T : types) { H h(T); bfs(h, T.name, g.thorough ? 12 : 7); vh::stat("types"); }
  return done();
}
