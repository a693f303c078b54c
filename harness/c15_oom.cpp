// C15: allocation failures. Every operation of a corpus, on every state reached by short prefixes, is run once for every allocation it makes
// failing alone and once for all allocations from that one on failing; what it reports, the operands left behind, every follow-up operation
// and the memory accounts are compared with runs that had the memory (reference runs of the same code; no model needed).
#include <memory>
#include <algorithm>
#include <unordered_map>
#include <string>
#include <blend2d/blend2d.h>
#include "vh.h"
#include <unistd.h>
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static struct { bool on = false; long n = 0, at = -1; bool from = false; bool hit = false; long total = 0; } fi;
static bool failnow() { if (!fi.on) return false; long k = fi.n++; if (fi.at < 0) return false; if (k == fi.at || (fi.from && k > fi.at)) { fi.hit = true; fi.total++; return true; } return false; }
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); int __real_posix_memalign(void**, size_t, size_t); void* __real_aligned_alloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return failnow() ? nullptr : __real_malloc(n); }
void* __wrap_calloc(size_t a, size_t b) { return failnow() ? nullptr : __real_calloc(a, b); }
void* __wrap_realloc(void* p, size_t n) { return failnow() ? nullptr : __real_realloc(p, n); }
void* __wrap_aligned_alloc(size_t a, size_t n) { return failnow() ? nullptr : __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return failnow() ? 12 : __real_posix_memalign(p, a, n); }
}
static std::string gPath; static std::vector<uint8_t> gTtf; static std::vector<uint8_t> gPng, gJpg, gBmp, gQoi;
static void hv(Hash& h, const BLVar& v);
static void himg(Hash& h, const BLImage& im) { BLImageData d; if (im.get_data(&d) != BL_SUCCESS) { h.u(77); return; } h.u(d.size.w); h.u(d.size.h); h.u(d.format); size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; for (int y = 0; y < d.size.h; y++) { const uint8_t* p = (const uint8_t*)d.pixel_data + y * d.stride; if (d.format == BL_FORMAT_XRGB32) { for (int x = 0; x < d.size.w; x++) { uint32_t c; memcpy(&c, p + 4 * x, 4); h.u(c & 0xFFFFFF); } } else h.b(p, bpp * d.size.w); } }
static void hv(Hash& h, const BLVar& v) {
  BLObjectType t = v.type(); h.u(t);
  if (t >= BL_OBJECT_TYPE_ARRAY_OBJECT && t <= BL_OBJECT_TYPE_ARRAY_STRUCT_32) {
    const BLArrayCore* a = (const BLArrayCore*)&v; size_t n = bl_array_get_size(a); h.u(n); const uint8_t* p = (const uint8_t*)bl_array_get_data(a);
    if (t == BL_OBJECT_TYPE_ARRAY_OBJECT) for (size_t i = 0; i < n; i++) hv(h, ((const BLVar*)p)[i]); else h.b(p, n * bl_array_get_item_size((BLArrayCore*)a)); return;
  }
  switch (t) {
    case BL_OBJECT_TYPE_STRING: { auto& s = v.as<BLString>(); h.b(s.data(), s.size()); if (s.data()[s.size()]) h.u(99); break; }
    case BL_OBJECT_TYPE_BIT_ARRAY: { auto& s = v.as<BLBitArray>(); h.u(s.size()); for (size_t i = 0; i < s.size(); i++) h.u(s.has_bit(uint32_t(i))); break; }
    case BL_OBJECT_TYPE_BIT_SET: { BLBitSetBuilder b; auto& s = v.as<BLBitSet>(); h.u(s.cardinality()); for (uint32_t i = 0; i < 3000; i += 1) if (s.has_bit(i)) h.u(i); for (uint32_t i : {4096u, 50000u, 100000u, 100001u, 4000000000u, 4294967294u}) h.u(s.has_bit(i)); break; }
    case BL_OBJECT_TYPE_PATH: { auto& s = v.as<BLPath>(); h.u(s.size()); h.b(s.command_data(), s.size()); for (size_t i = 0; i < s.size(); i++) if (s.command_data()[i] != BL_PATH_CMD_CLOSE && s.command_data()[i] != BL_PATH_CMD_WEIGHT) h.b(&s.vertex_data()[i], 16); break; }
    case BL_OBJECT_TYPE_GRADIENT: { auto& s = v.as<BLGradient>(); h.u(s.type()); h.u(s.extend_mode()); for (size_t i = 0; i < BL_GRADIENT_VALUE_MAX_VALUE + 1; i++) { double x = s.value(i); h.b(&x, 8); } h.u(s.size()); h.b(s.stops(), s.size() * 16); BLMatrix2D m = s.transform(); h.b(&m, sizeof m); break; }
    case BL_OBJECT_TYPE_PATTERN: { auto& s = v.as<BLPattern>(); himg(h, s.get_image()); BLRectI a = s.area(); h.b(&a, sizeof a); h.u(s.extend_mode()); BLMatrix2D m = s.transform(); h.b(&m, sizeof m); break; }
    case BL_OBJECT_TYPE_IMAGE: himg(h, v.as<BLImage>()); break;
    case BL_OBJECT_TYPE_IMAGE_CODEC: h.b(v.as<BLImageCodec>().name().data(), v.as<BLImageCodec>().name().size()); break;
    case BL_OBJECT_TYPE_FONT_DATA: { auto& s = v.as<BLFontData>(); h.u(s.face_count()); h.u(s.is_valid()); BLFontTable tb; BLTag tg = BL_MAKE_TAG('h', 'e', 'a', 'd'); if (s.is_valid() && bl_font_data_get_tables(&s, 0, &tb, &tg, 1) == 1) h.b(tb.data, tb.size); break; }
    case BL_OBJECT_TYPE_FONT_FACE: { auto& s = v.as<BLFontFace>(); h.u(s.glyph_count()); h.b(s.family_name().data(), s.family_name().size()); h.b(s.full_name().data(), s.full_name().size()); break; }
    case BL_OBJECT_TYPE_FONT: { auto& s = v.as<BLFont>(); h.u(s.face().glyph_count()); float z = s.size(); h.b(&z, 4); h.u(s.feature_settings().size()); h.u(s.variation_settings().size()); break; }
    case BL_OBJECT_TYPE_FONT_FEATURE_SETTINGS: { BLFontFeatureSettingsView w; (void)v.as<BLFontFeatureSettings>().get_view(&w); h.u(w.size); for (size_t i = 0; i < w.size; i++) { h.u(w.data[i].tag); h.u(w.data[i].value); } break; }
    case BL_OBJECT_TYPE_FONT_VARIATION_SETTINGS: { BLFontVariationSettingsView w; (void)v.as<BLFontVariationSettings>().get_view(&w); h.u(w.size); for (size_t i = 0; i < w.size; i++) { h.u(w.data[i].tag); h.b(&w.data[i].value, 4); } break; }
    case BL_OBJECT_TYPE_FONT_MANAGER: { auto& s = v.as<BLFontManager>(); if (s.is_valid()) { h.u(s.face_count()); h.u(s.family_count()); } break; }
    case BL_OBJECT_TYPE_CONTEXT: { auto& s = v.as<BLContext>(); h.u(s.is_valid()); if (!s.is_valid()) break; h.u(s.context_type() != BL_CONTEXT_TYPE_NONE); h.u(s.saved_state_count()); h.u(s.comp_op()); double a = s.global_alpha(); h.b(&a, 8); BLMatrix2D m = s.meta_transform(), u = s.user_transform(); h.b(&m, sizeof m); h.b(&u, sizeof u); h.u(s.fill_rule()); h.u(s.fill_style_type()); h.u(s.stroke_style_type()); BLVarCore q; for (int i = 0; i < 2; i++) { bl_var_init_null(&q); if ((i ? bl_context_get_stroke_style(&s, &q) : bl_context_get_fill_style(&s, &q)) == BL_SUCCESS) hv(h, (BLVar&)q); bl_var_destroy(&q); } { double w = s.stroke_width(); h.b(&w, 8); h.u(s.stroke_dash_array().size()); h.b(s.stroke_dash_array().data(), 8 * s.stroke_dash_array().size()); } break; }
    default: { uint64_t u = 0; double d = 0; if (v.is_null()) break; if (bl_var_to_uint64(&v, &u) == BL_SUCCESS) h.u(u); if (bl_var_to_double(&v, &d) == BL_SUCCESS) h.b(&d, 8); break; }
  }
}
struct S { BLVar v[3]; BLGlyphBuffer gb; BLPixelConverter pc; uint32_t extra = 0; bool ctx = false;
  template<class T> T& x(int i = 0) { return v[i].as<T>(); } };
typedef std::function<BLResult(S&)> Fn;
struct Op { std::string name; Fn f; };
struct Subject { std::string name; Fn init; std::vector<Op> ops; int prefix_q, prefix_t; bool soft = false; /* result of an operation that reported an error is not judged (queued rendering) */ };
static std::vector<Subject> subjects;
#define OP(n, ...) s.ops.push_back({n, [=](S& a) -> BLResult { (void)a; __VA_ARGS__ }})
template<class T> static void common(Subject& s) {
  OP("y=x", a.v[1].as<T>() = a.v[0].as<T>(); return BL_SUCCESS;); OP("x=y", a.v[0].as<T>() = a.v[1].as<T>(); return BL_SUCCESS;); OP("x.reset", return a.v[0].as<T>().reset(););
  OP("x=move(y)", a.v[0].as<T>() = std::move(a.v[1].as<T>()); return BL_SUCCESS;); OP("swap", a.v[0].as<T>().swap(a.v[1].as<T>()); return BL_SUCCESS;);
  OP("array of x and y", BLArray<BLVar> q; BLResult r = q.append(a.v[0], a.v[1]); if (r == BL_SUCCESS) { for (int i = 0; i < 3; i++) if ((r = q.append(a.v[i & 1])) != BL_SUCCESS) return r; } return r;);
}
template<class T> static T item(int i);
template<> uint8_t item<uint8_t>(int i) { return uint8_t(i * 37 + 1); } template<> double item<double>(int i) { return i * 1.5; } template<> BLString item<BLString>(int i) { BLString s; char b[64]; snprintf(b, 64, i & 1 ? "item %d, longer than what the object itself can hold" : "i%d", i); (void)s.assign(b); return s; }
template<class T> static void arrays(const char* n, int pq, int pt) {
  Subject s; s.name = n; s.prefix_q = pq; s.prefix_t = pt; s.init = [](S& a) -> BLResult { a.v[0] = BLArray<T>(); a.v[1] = BLArray<T>(); return BL_SUCCESS; }; common<BLArray<T>>(s); typedef BLArray<T> A;
  static std::vector<T> it; if (it.empty()) for (int i = 0; i < 80; i++) it.push_back(item<T>(i));
  OP("append", return a.x<A>().append(it[1]);); OP("append 3", return a.x<A>().append(it[1], it[2], it[3]);); OP("append_data 20", return a.x<A>().append_data(it.data(), 20);); OP("append_data 70", return a.x<A>().append_data(it.data(), 70););
  OP("insert 0", return a.x<A>().insert(0, it[4]);); OP("insert_data mid 5", return a.x<A>().insert_data(a.x<A>().size() / 2, it.data() + 5, 5);); OP("replace", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().replace(0, it[3]);); OP("replace_data", return a.x<A>().size() < 3 ? BL_SUCCESS : a.x<A>().replace_data(BLRange{1, 3}, it.data() + 9, 30););
  OP("remove 0", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().remove(0);); OP("remove 1-3", return a.x<A>().size() < 3 ? BL_SUCCESS : a.x<A>().remove(BLRange{1, 3});); OP("truncate 2", return a.x<A>().truncate(2);); OP("resize 40", return a.x<A>().resize(40, it[2]);); OP("resize 1", return a.x<A>().resize(1, it[2]);); OP("reserve 100", return a.x<A>().reserve(100);); OP("shrink", return a.x<A>().shrink();); OP("clear", return a.x<A>().clear(););
  OP("assign_data 25", return a.x<A>().assign_data(it.data() + 3, 25);); OP("assign_data 2", return a.x<A>().assign_data(it.data() + 7, 2);); OP("assign_deep", return a.x<A>().assign_deep(a.x<A>(1));); OP("concat y", return a.x<A>().append_data(a.x<A>(1).data(), a.x<A>(1).size());); OP("append self", return a.x<A>().append_data(a.x<A>().data(), a.x<A>().size());); OP("insert self", return a.x<A>().insert_data(0, a.x<A>().data(), a.x<A>().size());); OP("assign tail of self", return a.x<A>().size() < 2 ? BL_SUCCESS : a.x<A>().assign_data(a.x<A>().data() + 1, a.x<A>().size() - 1););
  OP("make_mutable", T* p; return a.x<A>().make_mutable(&p);); OP("modify append 9", T* p; BLResult r = a.x<A>().modify_op(BL_MODIFY_OP_APPEND_GROW, 9, &p); if (r == BL_SUCCESS) for (int i = 0; i < 9; i++) new (&p[i]) T(it[i]); return r;); OP("modify assign 30", T* p; BLResult r = a.x<A>().modify_op(BL_MODIFY_OP_ASSIGN_FIT, 30, &p); if (r == BL_SUCCESS) for (int i = 0; i < 30; i++) new (&p[i]) T(it[i]); return r;);
  if (!std::is_same<T, BLString>::value) OP("external", return bl_array_assign_external_data(&a.x<A>(), it.data(), 20, 20, BL_DATA_ACCESS_READ, nullptr, nullptr););
  subjects.push_back(s);
}
static void containers() {
  arrays<uint8_t>("array-u8", 1, 2); arrays<double>("array-f64", 1, 2); arrays<BLString>("array-string", 1, 2);
  { Subject s; s.name = "string"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLString(); a.v[1] = BLString(); return BL_SUCCESS; }; typedef BLString A; common<A>(s); static const char* L = "a string that is a good deal longer than the object can hold by itself";
    for (int n : {1, 5, 30, 60}) { OP("append " + std::to_string(n), return a.x<A>().append(BLStringView{L, (size_t)n});); OP("assign " + std::to_string(n), return a.x<A>().assign(L, n);); } OP("prepend", return a.x<A>().prepend(BLStringView{L, 9});); OP("insert", return a.x<A>().insert(a.x<A>().size() / 2, BLStringView{L + 3, 12});); OP("append c4", return a.x<A>().append('x', 40);); OP("assign_format", return a.x<A>().assign_format("%s %d %s", L, 77, L + 20);); OP("append_format", return a.x<A>().append_format("%s %d", L + 30, 12345);); OP("truncate", return a.x<A>().truncate(4);); OP("remove", return a.x<A>().size() < 3 ? BL_SUCCESS : a.x<A>().remove(BLRange{1, 3});); OP("append self", return a.x<A>().append(a.x<A>().view());); OP("insert self", return a.x<A>().insert(0, a.x<A>().view());); OP("append y", return a.x<A>().append(a.x<A>(1));); OP("assign_deep", return a.x<A>().assign_deep(a.x<A>(1));); OP("reserve", return a.x<A>().reserve(200);); OP("shrink", return a.x<A>().shrink();); OP("clear", return a.x<A>().clear();); OP("resize 50", return a.x<A>().resize(50, 'q');); OP("make_mutable", char* p; return a.x<A>().make_mutable(&p);); subjects.push_back(s); }
  { Subject s; s.name = "bitarray"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLBitArray(); a.v[1] = BLBitArray(); return BL_SUCCESS; }; typedef BLBitArray A; common<A>(s); static uint32_t W[20]; for (int i = 0; i < 20; i++) W[i] = 0x9E3779B9u * (i + 1);
    for (int n : {1, 40, 200, 700}) { OP("resize " + std::to_string(n), return a.x<A>().resize(n);); OP("assign_words " + std::to_string(n), return bl_bit_array_assign_words(&a.x<A>(), W, (n + 31) / 32 > 20 ? 20 : (n + 31) / 32);); } OP("append bit", return a.x<A>().append_bit(true);); OP("append word", return a.x<A>().append_word(0xF00F1234u);); OP("append words", return a.x<A>().append_words(W, 9);); OP("fill", return a.x<A>().size() < 30 ? BL_SUCCESS : a.x<A>().fill_range(3, 20);); OP("clear range", return a.x<A>().size() < 30 ? BL_SUCCESS : a.x<A>().clear_range(2, 11);); OP("replace bit", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().replace_bit(0, true);); OP("set bit", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().set_bit(0);); OP("replace word", return a.x<A>().size() < 40 ? BL_SUCCESS : a.x<A>().replace_word(5, 0xFFFF);); OP("reserve", return a.x<A>().reserve(900);); OP("shrink", return a.x<A>().shrink();); OP("clear", return a.x<A>().clear();); OP("fill all", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().fill_range(0, uint32_t(a.x<A>().size()));); OP("fill words", return a.x<A>().size() < 200 ? BL_SUCCESS : a.x<A>().fill_words(11, W, 5);); subjects.push_back(s); }
  { Subject s; s.name = "bitset"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLBitSet(); a.v[1] = BLBitSet(); return BL_SUCCESS; }; typedef BLBitSet A; common<A>(s); static uint32_t W[20]; for (int i = 0; i < 20; i++) W[i] = 0x9E3779B9u * (i + 1);
    for (uint32_t b : {3u, 100u, 100000u, 4294967294u}) { OP("add " + std::to_string(b), return a.x<A>().add_bit(b);); OP("clear " + std::to_string(b), return a.x<A>().clear_bit(b);); } OP("range", return a.x<A>().add_range(10, 1500);); OP("range2", return a.x<A>().add_range(1400, 2900);); OP("range small", return a.x<A>().add_range(50, 60);); OP("many", for (uint32_t i = 0; i < 6; i++) { BLResult r = a.x<A>().add_bit(i * 431); if (r != BL_SUCCESS) return r; break; } return BL_SUCCESS;); OP("words", return a.x<A>().add_words(64, W, 12);); OP("assign words", return a.x<A>().assign_words(128, W, 20);); OP("assign range", return a.x<A>().assign_range(5, 2000);); OP("clear range", return a.x<A>().clear_range(20, 1450);); OP("slice", return a.x<A>().chop(30, 1800);); OP("union? y", return a.x<A>().assign_deep(a.x<A>(1));); OP("shrink", return a.x<A>().shrink();); OP("clear", return a.x<A>().clear();); OP("builder", BLBitSetBuilder b(&a.x<A>()); for (uint32_t i : {1600u, 1607u, 1631u}) { BLResult r = b.add_bit(i); if (r != BL_SUCCESS) return r; } return b.commit();); subjects.push_back(s); }
  { Subject s; s.name = "path"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLPath(); a.v[1] = BLPath(); return BL_SUCCESS; }; typedef BLPath A; common<A>(s);
    OP("move line", BLResult r = a.x<A>().move_to(1, 2); return r ? r : BL_SUCCESS;); OP("line", return a.x<A>().line_to(30, 4);); OP("cubic", return a.x<A>().cubic_to(3, 30, 40, 30, 50, 1);); OP("smooth", return a.x<A>().smooth_cubic_to(3, 30, 40, 30);); OP("arc quadrant", return a.x<A>().arc_quadrant_to(60, 60, 50, 80);); OP("elliptic", return a.x<A>().elliptic_arc_to(20, 10, 0.3, true, false, 70, 20);); OP("close", return a.x<A>().close();); OP("rect", return a.x<A>().add_rect(1, 2, 30, 40);); OP("circle", return a.x<A>().add_circle(BLCircle(20, 20, 11));); OP("round", return a.x<A>().add_round_rect(BLRoundRect(3, 4, 40, 30, 5));); OP("pie", return a.x<A>().add_pie(BLArc(20, 20, 9, 9, 0.4, 5.1));); static BLPoint P[60]; for (int i = 0; i < 60; i++) P[i] = BLPoint(i * 1.3, (i * 7) % 50); OP("polyline", return a.x<A>().add_polyline(BLArrayView<BLPoint>{P, 60});); OP("polygon", return a.x<A>().add_polygon(BLArrayView<BLPoint>{P, 5}););
    OP("add y", return a.x<A>().add_path(a.x<A>(1));); OP("add self", return a.x<A>().add_path(a.x<A>());); OP("add transformed", return a.x<A>().add_path(a.x<A>(1), BLMatrix2D::make_rotation(0.4));); OP("add reversed", return a.x<A>().add_reversed_path(a.x<A>(1), BL_PATH_REVERSE_MODE_COMPLETE);); OP("add reversed self", return a.x<A>().add_reversed_path(a.x<A>(), BL_PATH_REVERSE_MODE_SEPARATE););
    for (int j = 0; j < 3; j++) { OP("stroke y " + std::to_string(j), BLStrokeOptions o; o.width = 3; o.join = j == 0 ? BL_STROKE_JOIN_ROUND : BL_STROKE_JOIN_MITER_BEVEL; o.set_caps(j == 1 ? BL_STROKE_CAP_ROUND : BL_STROKE_CAP_SQUARE); if (j == 2) { BLArray<double> d; BLResult r = d.append(4.0, 1.0, 2.0); if (r != BL_SUCCESS) return r; o.dash_array = d; } return a.x<A>().add_stroked_path(a.x<A>(1), o, bl_default_approximation_options);); } OP("stroke self", BLStrokeOptions o; o.width = 2; return a.x<A>().add_stroked_path(a.x<A>(), o, bl_default_approximation_options););
    OP("transform", return a.x<A>().transform(BLMatrix2D::make_translation(1, 2));); OP("fit", return a.x<A>().fit_to(BLRect(0, 0, 90, 90), 0);); OP("remove range", return a.x<A>().size() < 3 ? BL_SUCCESS : a.x<A>().remove_range(BLRange{1, 2});); OP("set vertex", return a.x<A>().is_empty() ? BL_SUCCESS : a.x<A>().set_vertex_at(0, BL_PATH_CMD_MOVE, 9, 9);); OP("reserve", return a.x<A>().reserve(300);); OP("shrink", return a.x<A>().shrink();); OP("clear", return a.x<A>().clear();); OP("assign_deep", return a.x<A>().assign_deep(a.x<A>(1));); OP("modify", uint8_t* c; BLPoint* p; BLResult r = a.x<A>().modify_op(BL_MODIFY_OP_APPEND_GROW, 3, &c, &p); if (r == BL_SUCCESS) for (int i = 0; i < 3; i++) { c[i] = i ? BL_PATH_CMD_ON : BL_PATH_CMD_MOVE; p[i] = BLPoint(i, 3 - i); } return r;); OP("info", BLBox b; (void)a.x<A>().get_bounding_box(&b); uint32_t f = 0; (void)a.x<A>().get_info_flags(&f); a.extra = f; return BL_SUCCESS;); subjects.push_back(s); }
  { Subject s; s.name = "gradient"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLGradient(); a.v[1] = BLGradient(BLRadialGradientValues(1, 2, 3, 4, 5)); return BL_SUCCESS; }; typedef BLGradient A; common<A>(s); static BLGradientStop ST[20]; for (int i = 0; i < 20; i++) ST[i] = BLGradientStop(i / 19.0, BLRgba32(0xFF000000u + i * 0x0B0D11u));
    OP("create", return a.x<A>().create(BLLinearGradientValues(1, 2, 3, 4), BL_EXTEND_MODE_REPEAT, ST, 9);); OP("create 20", return a.x<A>().create(BLConicGradientValues(1, 2, 3), BL_EXTEND_MODE_PAD, ST, 20);); OP("create0", return a.x<A>().create(BLLinearGradientValues(5, 2, 3, 4), BL_EXTEND_MODE_REFLECT);); OP("add", return a.x<A>().add_stop(0.5, BLRgba32(0xFF102030u));); OP("add1", return a.x<A>().add_stop(1, BLRgba32(0xFF00FF00u));); OP("assign stops", return a.x<A>().assign_stops(ST, 12);); OP("replace", return a.x<A>().size() < 1 ? BL_SUCCESS : a.x<A>().replace_stop(0, 0.7, BLRgba32(0x80402010u));); OP("remove", return a.x<A>().size() < 1 ? BL_SUCCESS : a.x<A>().remove_stop(0);); OP("reset stops", return a.x<A>().reset_stops();); OP("reserve", return a.x<A>().reserve(40);); OP("shrink", return a.x<A>().shrink();); OP("extend", return a.x<A>().set_extend_mode(BL_EXTEND_MODE_REFLECT);); OP("values", return a.x<A>().set_values(BLLinearGradientValues(7, 8, 9, 10));); OP("value", return a.x<A>().set_value(1, 3.5);); OP("type", return a.x<A>().set_type(BL_GRADIENT_TYPE_CONIC);); OP("scale", return a.x<A>().scale(2, 3);); OP("transform", return a.x<A>().set_transform(BLMatrix2D::make_scaling(2, 2));); OP("reset transform", return a.x<A>().reset_transform();); subjects.push_back(s); }
}
static void fonts() {
  { Subject s; s.name = "settings"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLFontFeatureSettings(); a.v[1] = BLFontVariationSettings(); return BL_SUCCESS; };
    auto tg = [](int i) { return BL_MAKE_TAG('a' + i / 26 % 26, 'a' + i % 26, 'x', 'x'); };
    OP("f set kern", return a.x<BLFontFeatureSettings>().set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 1);); OP("f set 1", return a.x<BLFontFeatureSettings>().set_value(tg(3), 1);); OP("f fill", for (int i = 0; i < 40; i++) { BLResult r = a.x<BLFontFeatureSettings>().set_value(tg(i), 1); if (r != BL_SUCCESS) return BL_SUCCESS; } return BL_SUCCESS;); OP("f big value", return a.x<BLFontFeatureSettings>().set_value(tg(4), 60000);); OP("f remove", return a.x<BLFontFeatureSettings>().remove_value(tg(3));); OP("f copy", a.v[2] = a.v[0]; return BL_SUCCESS;);
    OP("v set 1", return a.x<BLFontVariationSettings>(1).set_value(tg(3), 0.5f);); OP("v set 2", return a.x<BLFontVariationSettings>(1).set_value(tg(5), 1.5f);); OP("v set 3", return a.x<BLFontVariationSettings>(1).set_value(tg(9), 2.5f);); OP("v set 4", return a.x<BLFontVariationSettings>(1).set_value(tg(11), 2.5f);); OP("v remove", return a.x<BLFontVariationSettings>(1).remove_value(tg(3));); OP("v copy", a.v[2] = a.v[1]; return BL_SUCCESS;); s.ops.erase(s.ops.begin() + 2); subjects.push_back(s); }
  { Subject s; s.name = "font"; s.prefix_q = 1; s.prefix_t = 1;
    s.init = [](S& a) -> BLResult { BLFontData d; BLResult r = d.create_from_data(gTtf.data(), gTtf.size()); if (r) return r; BLFontFace f; r = f.create_from_data(d, 0); if (r) return r; BLFont o; r = o.create_from_face(f, 20.0f); a.v[0] = o; a.v[1] = BLPath(); a.v[2] = BLVar(); return r; };
    auto face = [](S& a) { return a.v[0].as<BLFont>().face(); };
    OP("data", BLFontData d; BLResult r = d.create_from_data(gTtf.data(), gTtf.size()); if (r == BL_SUCCESS) a.v[2] = d; return r;); for (int fl : {0, 1, 9}) OP("data from file " + std::to_string(fl), BLFontData d; BLResult r = d.create_from_file(gPath.c_str(), BLFileReadFlags(fl)); if (r == BL_SUCCESS) a.v[2] = d; return r;); OP("face from file", BLFontFace f; BLResult r = f.create_from_file(gPath.c_str()); if (r == BL_SUCCESS) a.v[2] = f; return r;); OP("image from file", BLImage im; BLResult r = im.read_from_file((gPath.substr(0, gPath.rfind('/')) + "/Leaves.jpeg").c_str()); if (r == BL_SUCCESS) a.v[2] = im; return r;); OP("read file", BLArray<uint8_t> q; BLResult r = BLFileSystem::read_file(gPath.c_str(), q, 30000, BLFileReadFlags(1)); if (r == BL_SUCCESS) a.v[2] = q; return r;);
    OP("face", BLFontFace f; BLResult r = f.create_from_data(face(a).data(), 0); if (r == BL_SUCCESS) a.v[2] = f; return r;); OP("font", BLFont f; BLResult r = f.create_from_face(face(a), 33.0f); if (r == BL_SUCCESS) a.v[2] = f; return r;);
    OP("font settings", BLFontFeatureSettings q; BLResult r = q.set_value(BL_MAKE_TAG('k', 'e', 'r', 'n'), 0); if (r) return r; BLFontVariationSettings w; BLFont f; r = f.create_from_face(face(a), 12.0f, q, w); if (r == BL_SUCCESS) a.v[2] = f; return r;); OP("set size", return a.x<BLFont>().set_size(44.0f);); OP("copy", a.v[2] = a.v[0]; return BL_SUCCESS;); OP("set features", BLFontFeatureSettings q; BLResult r = q.set_value(BL_MAKE_TAG('l', 'i', 'g', 'a'), 0); return r ? r : a.x<BLFont>().set_feature_settings(q););
    OP("coverage", BLBitSet b; BLResult r = face(a).get_character_coverage(&b); if (r == BL_SUCCESS) a.v[2] = b; return r;); OP("text", return a.gb.set_utf8_text("Hello World AVAVA, a rather long text, so the buffer needs memory"););  OP("text latin", return a.gb.set_latin1_text("AV");); OP("glyphs", static const uint32_t G[] = {5, 6, 7, 8}; return a.gb.set_glyphs(G, 4););
    OP("shape", return a.gb.size() ? a.x<BLFont>().shape(a.gb) : BL_SUCCESS;); OP("map", return a.gb.size() ? a.x<BLFont>().map_text_to_glyphs(a.gb) : BL_SUCCESS;); OP("metrics", BLTextMetrics m; return a.gb.size() ? a.x<BLFont>().get_text_metrics(a.gb, m) : BL_SUCCESS;); OP("gb clear", return a.gb.clear();); OP("gb reset", return a.gb.reset(););
    OP("outlines", return a.x<BLFont>().get_glyph_outlines(40, a.x<BLPath>(1));); OP("run outlines", BLGlyphBuffer g; BLResult r = g.set_utf8_text("Bg"); if (r) return r; r = a.x<BLFont>().shape(g); return r ? r : a.x<BLFont>().get_glyph_run_outlines(g.glyph_run(), a.x<BLPath>(1));); OP("path reset", return a.x<BLPath>(1).reset(););
    OP("face info", BLFontFaceInfo i = face(a).face_info(); a.extra = i.glyph_count; return BL_SUCCESS;); OP("kerning", static const uint32_t G[] = {36, 57}; BLGlyphId id[2] = {36, 57}; (void)id; (void)G; return BL_SUCCESS;); s.ops.pop_back(); subjects.push_back(s); }
  { Subject s; s.name = "fontmanager"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { BLFontData d; BLResult r = d.create_from_data(gTtf.data(), gTtf.size()); if (r) return r; BLFontFace f; r = f.create_from_data(d, 0); a.v[0] = BLFontManager(); a.v[1] = f; return r; }; typedef BLFontManager A;
    OP("create", return a.x<A>().create();); OP("create_new", BLFontManagerCore m; BLResult r = bl_font_manager_init_new(&m); if (r == BL_SUCCESS) { a.v[0] = (BLFontManager&)m; } bl_font_manager_destroy(&m); return r;); OP("add", return a.x<A>().is_valid() ? a.x<A>().add_face(a.x<BLFontFace>(1)) : BL_SUCCESS;); OP("query", if (!a.x<A>().is_valid()) return BL_SUCCESS; BLFontFace f; BLResult r = a.x<A>().query_face("ABeeZee", f); if (r == BL_SUCCESS) a.v[2] = f; return r;); OP("query family", if (!a.x<A>().is_valid()) return BL_SUCCESS; BLArray<BLFontFace> l; BLResult r = a.x<A>().query_faces_by_family_name("ABeeZee", l); if (r == BL_SUCCESS) a.v[2] = l; return r;); OP("copy", a.v[2] = a.v[0]; return BL_SUCCESS;); OP("reset", return a.x<A>().reset();); subjects.push_back(s); }
}
static void images() {
  { Subject s; s.name = "image"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S& a) -> BLResult { a.v[0] = BLImage(); a.v[1] = BLImage(); return BL_SUCCESS; }; typedef BLImage A; common<A>(s); static uint8_t ext[400]; for (int i = 0; i < 400; i++) ext[i] = uint8_t(i * 13) | 0;
    auto paint = [](BLImage& im) -> BLResult { BLImageData d; BLResult r = im.make_mutable(&d); if (r) return r; size_t bpp = d.format == BL_FORMAT_A8 ? 1 : 4; for (int y = 0; y < d.size.h; y++) for (int x = 0; x < d.size.w * (int)bpp; x++) ((uint8_t*)d.pixel_data)[y * d.stride + x] = (bpp == 4 && (x & 3) == 3) ? 255 : uint8_t(x * 5 + y * 9); return r; };
    for (int f : {1, 2, 3}) OP("create " + std::to_string(f), BLResult r = a.x<A>().create(9 + f, 7, BLFormat(f)); return r ? r : paint(a.x<A>());); OP("create y", BLResult r = a.x<A>(1).create(20, 3, BL_FORMAT_PRGB32); return r ? r : paint(a.x<A>(1));); OP("paint", return paint(a.x<A>());); OP("external ro", return a.x<A>().create_from_data(10, 9, BL_FORMAT_PRGB32, ext, 40, BL_DATA_ACCESS_READ);); for (int f : {1, 2, 3}) OP("convert " + std::to_string(f), return a.x<A>().convert(BLFormat(f));); OP("assign_deep", return a.x<A>().assign_deep(a.x<A>(1)););
    for (int q : {1, 2, 3, 4}) OP("scale " + std::to_string(q), return BLImage::scale(a.x<A>(1), a.x<A>(), BLSizeI(5, 13), BLImageScaleFilter(q));); OP("scale self", return BLImage::scale(a.x<A>(), a.x<A>(), BLSizeI(6, 4), BL_IMAGE_SCALE_FILTER_LANCZOS););
    auto rd = [](S& a, const std::vector<uint8_t>* v) { return a.x<A>().read_from_data(v->data(), v->size()); }; OP("read png", return rd(a, &gPng);); OP("read jpeg", return rd(a, &gJpg);); OP("read bmp", return rd(a, &gBmp);); OP("read qoi", return rd(a, &gQoi););
    for (const char* n : {"BMP", "PNG", "QOI"}) OP(std::string("write ") + n, if (a.x<A>().is_empty()) return BL_SUCCESS; BLImageCodec c; BLResult r = c.find_by_name(n); if (r) return r; BLArray<uint8_t> o; r = a.x<A>().write_to_data(o, c); if (r == BL_SUCCESS) a.v[2] = o; return r;);
    OP("write appends", if (a.x<A>().is_empty()) return BL_SUCCESS; BLImageCodec c; BLResult r = c.find_by_name("PNG"); if (r) return r; if (a.v[2].type() != BL_OBJECT_TYPE_ARRAY_UINT8) a.v[2] = BLArray<uint8_t>(); return a.x<A>().write_to_data(a.v[2].as<BLArray<uint8_t>>(), c););
    OP("codecs", BLArray<BLImageCodec> c = BLImageCodec::built_in_codecs(); BLImageCodec n; BLResult r = n.find_by_data(gPng.data(), gPng.size(), c); if (r) return r; a.v[2] = n; return r;); OP("info", BLImageDecoder d; BLImageCodec c; BLResult r = c.find_by_name("PNG"); if (r) return r; r = c.create_decoder(&d); if (r) return r; BLImageInfo i; memset(&i, 0, sizeof i); r = d.read_info(i, gPng.data(), gPng.size()); a.extra = i.size.w; return r;);
    OP("read twice", BLImageDecoder d; BLImageCodec c; BLResult r = c.find_by_name("PNG"); if (r) return r; r = c.create_decoder(&d); if (r) return r; return d.read_frame(a.x<A>(), gPng.data(), gPng.size()););
    OP("pattern", BLPattern p; BLResult r = p.create(a.x<A>(), BLRectI(0, 0, a.x<A>().width(), a.x<A>().height()), BL_EXTEND_MODE_REFLECT); if (r == BL_SUCCESS) a.v[2] = p; return r;); OP("pattern area", if (a.v[2].type() != BL_OBJECT_TYPE_PATTERN || a.v[2].as<BLPattern>().area().w < 3) return BL_SUCCESS; return a.v[2].as<BLPattern>().set_area(BLRectI(1, 1, 2, 2));); OP("pattern transform", if (a.v[2].type() != BL_OBJECT_TYPE_PATTERN) return BL_SUCCESS; return a.v[2].as<BLPattern>().set_transform(BLMatrix2D::make_scaling(3, 3));); OP("pattern image", if (a.v[2].type() != BL_OBJECT_TYPE_PATTERN) return BL_SUCCESS; return a.v[2].as<BLPattern>().set_image(a.x<A>(1)););
    for (int k = 0; k < 3; k++) OP("converter " + std::to_string(k), BLFormatInfo from{}; BLFormatInfo to = bl_format_info[BL_FORMAT_PRGB32]; static BLRgba32 pal[256]; for (int i = 0; i < 256; i++) pal[i] = BLRgba32(0xFF000000u | i * 0x10203); if (k == 0) from = bl_format_info[BL_FORMAT_XRGB32]; else if (k == 1) { from.depth = 8; from.flags = BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_INDEXED); from.palette = pal; } else { from.depth = 24; from.flags = BL_FORMAT_FLAG_RGB; from.r_size = from.g_size = from.b_size = 8; from.r_shift = 16; from.g_shift = 8; from.b_shift = 0; to = bl_format_info[BL_FORMAT_A8]; } BLResult r = a.pc.create(to, from); if (r == BL_SUCCESS) { uint8_t in[64] = {1, 2, 3, 4, 5, 6}; uint8_t o[64] = {0}; r = a.pc.convert_rect(o, 64, in, 64, 4, 1); uint32_t z; memcpy(&z, o, 4); a.extra = z; } return r;);
    subjects.push_back(s); }
  { Subject s; s.name = "registry"; s.prefix_q = 1; s.prefix_t = 2; s.init = [](S&) -> BLResult { return BL_SUCCESS; };
    OP("add", BLImageCodec c; BLResult r = c.find_by_name("PNG"); if (r) return r; return BLImageCodec::add_to_built_in(c);); OP("remove", BLImageCodec c; BLResult r = c.find_by_name("PNG"); if (r) return BL_SUCCESS; return BLImageCodec::remove_from_built_in(c);); OP("look", a.v[0] = BLImageCodec::built_in_codecs(); return BL_SUCCESS;); OP("add after removal", BLArray<BLImageCodec> l = BLImageCodec::built_in_codecs(); BLResult r = BL_SUCCESS; if (l.size()) { BLImageCodec c = l[0]; r = BLImageCodec::remove_from_built_in(c); if (r == BL_SUCCESS) r = BLImageCodec::add_to_built_in(c); } return r;); s.ops.pop_back(); subjects.push_back(s); }
}
static void contexts() {
  for (int tc = 0; tc < 2; tc++) { Subject s; s.name = tc ? "context-queued" : "context"; s.prefix_q = 1; s.prefix_t = 2; s.soft = tc;
    s.init = [tc](S& a) -> BLResult { a.ctx = true; BLImage im(70, 50, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = tc; BLContext c; BLResult r = c.begin(im, ci); if (r) return r; r = c.clear_all(); a.v[0] = im; a.v[1] = c; return r; }; typedef BLContext C;
    static BLGradientStop gs[2] = {BLGradientStop(0, BLRgba32(0xFF0000FFu)), BLGradientStop(1, BLRgba32(0x80FF8040u))};
    auto grad = [](int k, BLGradient& q) -> BLResult { return k == 0 ? q.create(BLLinearGradientValues(0, 0, 60, 40), BL_EXTEND_MODE_PAD, gs, 2) : k == 1 ? q.create(BLRadialGradientValues(30, 20, 30, 20, 25), BL_EXTEND_MODE_PAD, gs, 2) : q.create(BLConicGradientValues(30, 20, 0), BL_EXTEND_MODE_PAD, gs, 2); };
    static BLImage* tex; if (!tex) { tex = new BLImage(8, 8, BL_FORMAT_PRGB32); BLImageData d; (void)tex->make_mutable(&d); for (int i = 0; i < 64; i++) ((uint32_t*)((char*)d.pixel_data + i / 8 * d.stride))[i % 8] = 0xFF000000u | i * 0x030507u; }
    static BLPath* star; if (!star) { star = new BLPath(); (void)star->move_to(5, 5); for (int i = 1; i < 40; i++) (void)star->line_to((i * 29) % 70, (i * 17) % 50); (void)star->close(); }
    
    OP("fill all", return a.x<C>(1).fill_all(BLRgba32(0xFF112233u));); OP("fill rect", return a.x<C>(1).fill_rect(BLRect(3.3, 4.4, 30, 20), BLRgba32(0x80FF0000u));); OP("fill rect i", return a.x<C>(1).fill_rect(BLRectI(3, 4, 30, 20)););  OP("fill path", return a.x<C>(1).fill_path(*star, BLRgba32(0xFF00FF00u));); OP("fill circle", return a.x<C>(1).fill_circle(BLCircle(30, 20, 15));); OP("fill polygon", static BLPoint P[4] = {{1, 2}, {50, 9}, {33, 44}, {8, 30}}; return a.x<C>(1).fill_polygon(BLArrayView<BLPoint>{P, 4}););
    OP("stroke path", return a.x<C>(1).stroke_path(*star, BLRgba32(0xFF0000FFu));); OP("stroke rect", return a.x<C>(1).stroke_rect(BLRect(5, 5, 40, 30));); OP("stroke round", return a.x<C>(1).stroke_round_rect(BLRoundRect(5, 5, 40, 30, 7));); for (int k = 0; k < 3; k++) OP("fill with gradient " + std::to_string(k), BLGradient q; BLResult r = grad(k, q); return r ? r : a.x<C>(1).fill_path(*star, q);); OP("fill with pattern", BLPattern p; BLResult r = p.create(*tex); return r ? r : a.x<C>(1).fill_path(*star, p);); for (int k = 0; k < 2; k++) { OP("fill style " + std::to_string(k), BLGradient q; BLResult r = grad(k, q); return r ? r : a.x<C>(1).set_fill_style(q);); OP("stroke style " + std::to_string(k), BLGradient q; BLResult r = grad(k + 1, q); return r ? r : a.x<C>(1).set_stroke_style(q);); } OP("fill style pattern", BLPattern p; BLResult r = p.create(*tex); return r ? r : a.x<C>(1).set_fill_style(p);); OP("fill style rgba", return a.x<C>(1).set_fill_style(BLRgba32(0xC0804020u)););
    OP("save", return a.x<C>(1).save();); OP("save cookie", BLContextCookie c; return a.x<C>(1).save(c);); OP("restore", return a.x<C>(1).saved_state_count() ? a.x<C>(1).restore() : BL_SUCCESS;); OP("dash", BLArray<double> d; BLResult r = d.append(4.0, 2.0, 1.0); return r ? r : a.x<C>(1).set_stroke_dash_array(d);); OP("width", return a.x<C>(1).set_stroke_width(3.5);); OP("caps", return a.x<C>(1).set_stroke_caps(BL_STROKE_CAP_ROUND);); OP("rotate", return a.x<C>(1).rotate(0.3);); OP("clip", return a.x<C>(1).clip_to_rect(BLRect(4, 4, 50, 30));); OP("alpha", return a.x<C>(1).set_global_alpha(0.5);); OP("op copy", return a.x<C>(1).set_comp_op(BL_COMP_OP_SRC_COPY););
    OP("blit", return a.x<C>(1).blit_image(BLPointI(10, 9), *tex);); OP("blit scaled", return a.x<C>(1).blit_image(BLRect(10, 9, 30.5, 20), *tex);); OP("text", static BLFont* f; if (!f) { bool o = fi.on; fi.on = false; BLFontData d; BLFontFace c; (void)d.create_from_data(gTtf.data(), gTtf.size()); (void)c.create_from_data(d, 0); f = new BLFont(); (void)f->create_from_face(c, 18); fi.on = o; } return a.x<C>(1).fill_utf8_text(BLPoint(5, 30), *f, "Aq g"););
    OP("flush", return a.x<C>(1).flush(BL_CONTEXT_FLUSH_SYNC);); OP("end", return a.x<C>(1).end();); if (tc) s.ops.pop_back(); OP("begin", return a.x<C>(1).is_valid() ? BL_SUCCESS : a.x<C>(1).begin(a.x<BLImage>(0));); if (tc) s.ops.pop_back(); OP("second context", BLImage im; BLResult r = im.create(20, 20, BL_FORMAT_PRGB32); if (r) return r; BLContextCreateInfo ci{}; ci.thread_count = tc; BLContext c; r = c.begin(im, ci); if (r) return r; r = c.clear_all(); if (r) return r; r = c.fill_circle(10, 10, 8, BLRgba32(0xFF123456u)); if (r) return r; r = c.flush(BL_CONTEXT_FLUSH_SYNC); if (r) return r; uint32_t e = c.accumulated_error_flags(); r = c.end(); if (r) return r; if (!e) a.v[2] = im; return e ? BL_ERROR_OUT_OF_MEMORY : BL_SUCCESS;); OP("query", BLVarCore q; bl_var_init_null(&q); BLResult r = bl_context_get_fill_style(&a.x<C>(1), &q); bl_var_destroy(&q); return r;);
    subjects.push_back(s); }
}
struct Res { std::vector<BLResult> rc; std::vector<uint64_t> h; bool hit = false; bool leak = false; long leaked = 0; };
static uint64_t value(S& a, const Subject& s, uint32_t* flags) {
  Hash h; if (a.ctx) { BLContext& c = a.v[1].as<BLContext>(); if (c.is_valid()) { (void)c.flush(BL_CONTEXT_FLUSH_SYNC); if (flags) *flags = c.accumulated_error_flags(); } }
  for (auto& v : a.v) hv(h, v); h.u(a.gb.size()); if (a.gb.size()) { h.b(a.gb.content(), a.gb.size() * 4); h.b(a.gb.info_data(), a.gb.size() * sizeof(BLGlyphInfo)); if (a.gb.placement_data()) h.b(a.gb.placement_data(), a.gb.size() * sizeof(BLGlyphPlacement)); } h.u(a.extra); (void)s; return h.h;
}
// Runs a history; operation `fop` is run with allocation k (and, if from, all later ones) failing.
static Res run(const Subject& s, const std::vector<int>& seq, int fop, long k, bool from) {
  Res r; BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); r.rc.reserve(8); r.h.reserve(8); size_t base = __sanitizer_get_current_allocated_bytes();
  { S a; BLResult i = s.init(a); if (i != BL_SUCCESS) { fail("init", "%s: %u", s.name.c_str(), i); return r; } uint32_t fl0 = 0; r.h.push_back(value(a, s, &fl0));
    for (size_t j = 0; j < seq.size(); j++) {
      fi.n = 0; fi.at = (int)j == fop ? k : -1; fi.from = from; fi.hit = false; fi.on = true; BLResult rc = s.ops[seq[j]].f(a); if (s.soft && rc == BL_SUCCESS) rc = a.v[1].as<BLContext>().flush(BL_CONTEXT_FLUSH_SYNC); fi.on = false; if ((int)j == fop) r.hit = fi.hit;
      uint32_t fl = 0; uint64_t v = value(a, s, &fl); if (s.soft && rc == BL_SUCCESS && fl) rc = BL_ERROR_OUT_OF_MEMORY; r.rc.push_back(rc); r.h.push_back(v);
      
    } }
  BLRuntime::cleanup(BL_RUNTIME_CLEANUP_EVERYTHING); size_t end = __sanitizer_get_current_allocated_bytes(); if (end != base) { r.leak = true; r.leaked = (long)end - (long)base; } return r;
}
static std::string jn(const std::vector<int>& v) { std::string s; for (int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s; }
static std::unordered_map<std::string, Res> memo;
static const Res& clean(const Subject& s, const std::vector<int>& seq) { std::string key = s.name + ":" + jn(seq); auto it = memo.find(key); if (it != memo.end()) return it->second; if (memo.size() > 400000) { decltype(memo) z; memo.swap(z); } Res r = run(s, seq, -1, -1, false); return memo.emplace(key, r).first->second; }
static uint64_t nfail, nfollow;
static std::string seqname(const Subject& s, const std::vector<int>& q) { std::string n; for (int o : q) n += (n.empty() ? "" : "; ") + s.ops[o].name; return n; }
// One failing execution: prefix, X failing, Y.
static bool one(const Subject& s, const std::vector<int>& pre, int X, int Y, long k, bool from, bool report) {
  std::vector<int> q = pre, px = pre, py, pxy; px.push_back(X); q.push_back(X); q.push_back(Y); Res r = run(s, q, (int)pre.size(), k, from); if (!r.hit) return false; if (!report) return true; size_t d = pre.size();
  std::string nm = seqname(s, px) + (from ? " [all allocations from #" : " [allocation #") + std::to_string(k) + " failing]";
  const Res cpx = clean(s, px); if (cpx.leak) { fail((std::string("leak ") + s.name + " " + s.ops[X].name).c_str(), "%s %s: %ld bytes leaked with memory available", s.name.c_str(), seqname(s, px).c_str(), cpx.leaked); return true; }
  bool failed = r.rc[d] != BL_SUCCESS;
  if (failed && cpx.rc[d] != BL_SUCCESS && cpx.rc[d] == r.rc[d]) failed = false;   // fails with memory as well: same state as then
  if (!failed && r.h[d + 1] != cpx.h[d + 1]) { fail((std::string("partial-success ") + s.name + " " + s.ops[X].name).c_str(), "%s %s: reported success, but the result differs from the one with memory", s.name.c_str(), nm.c_str()); return true; }
  if (failed && !s.soft && r.h[d + 1] != r.h[d]) { fail((std::string("changed ") + s.name + " " + s.ops[X].name).c_str(), "%s %s: reported error %u, but the operands changed", s.name.c_str(), nm.c_str(), r.rc[d]); return true; }
  if (failed && r.rc[d] != BL_ERROR_OUT_OF_MEMORY) { fail((std::string("error-code ") + s.name + " " + s.ops[X].name).c_str(), "%s %s: reported error %u", s.name.c_str(), nm.c_str(), r.rc[d]); return true; }
  if (!(failed && s.soft)) { std::vector<int> ref = failed ? pre : px; ref.push_back(Y); const Res cy = clean(s, ref); if (r.rc[d + 1] != cy.rc.back() || r.h[d + 2] != cy.h.back()) { fail((std::string("follow-up ") + s.name + " " + s.ops[X].name).c_str(), "%s %s then %s: result %u instead of %u%s", s.name.c_str(), nm.c_str(), s.ops[Y].name.c_str(), r.rc[d + 1], cy.rc.back(), r.h[d + 2] != cy.h.back() ? ", other value" : ""); return true; } }
  if (r.leak) { fail((std::string("leak ") + s.name + " " + s.ops[X].name).c_str(), "%s %s then %s: %ld bytes", s.name.c_str(), nm.c_str(), s.ops[Y].name.c_str(), r.leaked); return true; }
  return true;
}
int main(int argc, char** argv) {
  init(argc, argv); std::string res = std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/";
  auto rd = [&](const char* n, std::vector<uint8_t>& v) { FILE* f = fopen((res + n).c_str(), "rb"); if (!f) { perror(n); exit(3); } v.resize(300000); v.resize(fread(v.data(), 1, v.size(), f)); fclose(f); }; rd("ABeeZee-Regular.ttf", gTtf); gPath = res + "ABeeZee-Regular.ttf";
  { BLImage im(33, 21, BL_FORMAT_PRGB32); BLImageData d; (void)im.make_mutable(&d); for (int y = 0; y < 21; y++) for (int x = 0; x < 33; x++) ((uint32_t*)((char*)d.pixel_data + y * d.stride))[x] = 0xFF000000u | (x * 0x1A2B3Cu + y * 0x0F0F17u); for (auto c : {std::pair<const char*, std::vector<uint8_t>*>{"PNG", &gPng}, {"BMP", &gBmp}, {"QOI", &gQoi}}) { BLArray<uint8_t> o; BLImageCodec cd; (void)cd.find_by_name(c.first); (void)im.write_to_data(o, cd); c.second->assign(o.begin(), o.end()); } rd("Leaves.jpeg", gJpg); }
  containers(); fonts(); images(); contexts();
  // Everything once, so that what the C library and the statics of the harness allocate is there.
  for (auto& s : subjects) for (size_t i = 0; i < s.ops.size(); i++) (void)run(s, {(int)i}, -1, -1, false);
  uint64_t unit = 0; const long kCap = 400;
  for (int d = 0; d <= 2; d++) for (auto& s : subjects) {
    int n = (int)s.ops.size(), P = g.thorough ? s.prefix_t : s.prefix_q; if (d > P || (getenv("C15_ONLY") && s.name != getenv("C15_ONLY"))) continue;
    if (g.replaying) { if (d) continue; std::string p = s.name + ":"; if (g.replay.compare(0, p.size(), p)) continue; auto v = split(g.replay.substr(p.size())); if (v.size() < 4) continue; std::vector<int> pre(v.begin(), v.end() - 4); int X = v[v.size() - 4], Y = v[v.size() - 3]; set_case_s(g.replay); one(s, pre, X, Y, v[v.size() - 2], v[v.size() - 1], true); continue; }
    std::vector<int> pre(d, 0); bool more = true;
    while (more) {
      for (int X = 0; X < n && !over_budget(); X++) { if (!mine(unit++)) continue; for (int from = 0; from < 2; from++) for (long k = 0; k < kCap; k++) {
        bool any = false; int ylim = d == 0 || (g.thorough && d == 1) ? n : std::min(n, 4); for (int yi = 0; yi < ylim; yi++) { int Y = (X + yi * 7) % n; char c[128]; snprintf(c, sizeof c, "%s:%s%s%d,%d,%ld,%d", s.name.c_str(), jn(pre).c_str(), d ? "," : "", X, Y, k, from); set_case_s(c); int before = g.nviol; any = one(s, pre, X, Y, k, from, true); nfollow++; if (!any || g.nviol != before) break; } if (!any) break; nfail++; } }
      int i = d - 1; while (i >= 0 && ++pre[i] == n) pre[i--] = 0; if (i < 0) more = false; if (g.capped) break; }
  }
  vh::stat("failure_points", nfail); vh::stat("transitions", nfollow); vh::stat("states", memo.size()); done(); return 0;
}
