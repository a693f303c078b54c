// C20: rendering-context state as a stack. All histories of state changes, saves, restores and drawing (synchronous and threaded), compared
// with a model by every getter and by the pixels of a fresh context on which the model's state is set explicitly.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <cmath>
#include <atomic>
using namespace vh;
#include <malloc.h>
#ifndef __has_feature
#define __has_feature(x) 0
#endif
#if __has_feature(address_sanitizer)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#else
// Bytes allocated right now.
extern "C" { void* __libc_malloc(size_t); void* __libc_realloc(void*, size_t); void* __libc_calloc(size_t, size_t); void __libc_free(void*); }
static std::atomic<size_t> gBytes;
extern "C" { void* malloc(size_t n) { void* p = __libc_malloc(n); gBytes += malloc_usable_size(p); return p; } void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); gBytes += malloc_usable_size(p); return p; } void free(void* p) { gBytes -= malloc_usable_size(p); __libc_free(p); } void* realloc(void* p, size_t n) { gBytes -= malloc_usable_size(p); void* q = __libc_realloc(p, n); gBytes += malloc_usable_size(q ? q : p); return q; } }
static size_t __sanitizer_get_current_allocated_bytes() { return gBytes; }
#endif
static const int W = 28, H = 22;
static BLGradient* gGrad[3]; static BLPattern* gPat[2]; static BLImage* gImg; static BLPath *gStar, *gLine; static BLArray<double>* gDash[2];
struct Style { int kind = 1; /* 0 none, 1 rgba32, 2 rgba64, 3 rgba, 4 gradient, 5 pattern, 6 pattern from image */ int idx = 0; uint64_t val = 0xFF000000u; BLRgba f{}; BLMatrix2D adj; BLContextHints hints{}; };
struct Clip { BLMatrix2D m; BLRect r; bool isint; };
struct State { BLMatrix2D meta, user; std::vector<Clip> clip; double ga = 1, sa[2] = {1, 1}; int comp = BL_COMP_OP_SRC_OVER, rule = 0; double w = 1, ml = 4, off = 0; int cap[2] = {0, 0}, join = 0, order = 0, dash = 0; BLContextHints hints{}; BLApproximationOptions ap = bl_default_approximation_options; Style st[2];
  State() { meta.reset(); user.reset(); } BLMatrix2D fin() const { BLMatrix2D m = user; m.post_transform(meta); return m; } };
struct Saved { State s; int cookie; };
static const char* kSlot[2] = {"fill", "stroke"};
static void bg(BLImage& im) { BLImageData d; (void)im.make_mutable(&d); for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = ((x ^ y) & 1) ? 0xFF4080C0u : 0x80402010u; memcpy((uint8_t*)d.pixel_data + y * d.stride + x * 4, &v, 4); } }
// References to the objects that all the histories share (counted in the header in front of the object's data).
static size_t refs() { size_t n = 0; auto r = [&](const BLObjectCore& o) { size_t v; memcpy(&v, (const char*)o._d.impl - 2 * sizeof(size_t), sizeof v); n += v; }; for (auto g : gGrad) r(*g); for (auto p : gPat) r(*p); r(*gImg); for (auto d : gDash) r(*d); return n; }
static void probe(BLContext& c, int k) {
  if (k == 0) { c.fill_all(); c.stroke_path(*gLine); }
  if (k == 1) { c.fill_path(*gStar); c.stroke_rect(BLRect(2.5, 3, 11, 6)); c.fill_rect(BLRectI(1, 1, 4, 3)); }
  if (k == 2) { c.blit_image(BLPoint(3.5, 2.25), *gImg); c.fill_rect(BLRect(1, 9, 6, 5), *gGrad[2]); c.fill_rect(BLRect(9, 1.5, 3, 4), BLRgba32(0x90FF20E0u)); c.stroke_path(*gLine, BLRgba32(0xFF00FF00u)); }
}
struct CH {
  int threads, limit; std::string label;
  alignas(16) char cmem[sizeof(BLContext)]; BLContext* c; alignas(16) char imem[sizeof(BLImage)]; BLImage* im; BLContext* other = nullptr;
  State m; std::vector<Saved> stack; std::vector<std::pair<BLContextCookie, int>> cookies; int next_cookie = 1; 
  bool quiet = false, live = false, chk = false, bad = false; size_t base = 0, rbase = 0; const char* opn = "";
  struct Op { std::string name; std::function<void(CH&)> f; }; std::vector<Op> ops;
  void add(std::string n, std::function<void(CH&)> f) { ops.push_back({n, f}); }
  void err(const char* k, const std::string& d) { if (!bad && chk && !quiet) fail(k, "%s: %s", opn, d.c_str()); bad = true; }
  void ok(BLResult r) { if (r != BL_SUCCESS) err("error-result", "returned " + std::to_string(r)); }
  void rej(BLResult r) { if (r == BL_SUCCESS) err("invalid-accepted", "invalid argument accepted"); }
  void style(int s, int kind, int idx, uint64_t val, BLRgba f, int mode) {
    Style n; n.kind = kind; n.idx = idx; n.val = val; n.f = f; n.hints = m.hints; n.adj.reset();
    if (kind >= 4) { n.adj = kind == 4 ? gGrad[idx]->transform() : gPat[idx]->transform(); if (mode == 0) n.adj.post_transform(m.fin()); if (mode == 1) n.adj.post_transform(m.meta); }
    m.st[s] = n; ok(set_style(*c, s, n, mode));
  }
  static BLResult set_style(BLContext& c, int s, const Style& n, int mode) {
    BLContextStyleTransformMode tm = BLContextStyleTransformMode(mode); if (mode < 0) tm = BL_CONTEXT_STYLE_TRANSFORM_MODE_NONE;
    switch (n.kind) { case 0: return s ? c.disable_stroke_style() : c.disable_fill_style();
      case 1: return s ? c.set_stroke_style(BLRgba32(uint32_t(n.val))) : c.set_fill_style(BLRgba32(uint32_t(n.val)));
      case 2: return s ? c.set_stroke_style(BLRgba64(n.val)) : c.set_fill_style(BLRgba64(n.val));
      case 3: return s ? c.set_stroke_style(n.f) : c.set_fill_style(n.f);
      case 4: { BLGradient g(*gGrad[n.idx]); if (mode < 0) (void)g.set_transform(n.adj); const BLGradient& x = mode < 0 ? g : *gGrad[n.idx]; return s ? c.set_stroke_style(x, tm) : c.set_fill_style(x, tm); }
      default: { BLPattern g(*gPat[n.idx]); if (mode < 0) (void)g.set_transform(n.adj); const BLPattern& x = mode < 0 ? g : *gPat[n.idx]; return s ? c.set_stroke_style(x, tm) : c.set_fill_style(x, tm); } }
  }
  void groups(const char* which) {
    auto has = [&](const char* g) { return strchr(which, *g) != nullptr; };
    add("save", [](CH& h) { BLResult r = h.c->save(); if (h.limit && (int)h.stack.size() >= h.limit) { if (r != BL_ERROR_TOO_MANY_SAVED_STATES) h.err("save-limit", "accepted"); return; } h.ok(r); h.stack.push_back({h.m, 0}); });
    add("restore", [](CH& h) { BLResult r = h.c->restore(); if (h.stack.empty()) { if (r != BL_ERROR_NO_STATES_TO_RESTORE) h.err("restore", "without a saved state"); return; } if (h.stack.back().cookie) { if (r != BL_ERROR_NO_MATCHING_COOKIE) h.err("restore", "without the cookie"); return; } h.ok(r); h.m = h.stack.back().s; h.stack.pop_back(); });
    if (has("k") || has("K")) { 
      add("save(cookie)", [](CH& h) { BLContextCookie k; BLResult r = h.c->save(k); if (h.limit && (int)h.stack.size() >= h.limit) { if (r != BL_ERROR_TOO_MANY_SAVED_STATES) h.err("save-limit", "accepted"); return; } h.ok(r); h.stack.push_back({h.m, h.next_cookie}); h.cookies.push_back({k, h.next_cookie++}); });
      for (int i = 0; i < (has("K") ? 3 : 1); i++) add("restore(cookie" + std::to_string(i) + ")", [i](CH& h) { if (i >= (int)h.cookies.size()) return; auto ck = h.cookies[i]; BLResult r = h.c->restore(ck.first); int at = -1; for (int j = (int)h.stack.size() - 1; j >= 0; j--) if (h.stack[j].cookie == ck.second) { at = j; break; }
        if (at < 0) { if (r == BL_SUCCESS) h.err("restore", "with a cookie that is not on the stack"); return; } h.ok(r); h.m = h.stack[at].s; h.stack.resize(at); });
      if (has("K")) { add("restore(foreign cookie)", [](CH& h) { BLContextCookie k; (void)h.other->save(k); BLResult r = h.c->restore(k); (void)h.other->restore(k); if (r == BL_SUCCESS) h.err("restore", "cookie of another context accepted"); });
        add("restore(zero cookie)", [](CH& h) { BLContextCookie k; k.reset(); if (h.c->restore(k) == BL_SUCCESS) h.err("restore", "empty cookie accepted"); }); }
    }
    if (has("d")) for (int k = 0; k < 3; k++) add("draw" + std::to_string(k), [k](CH& h) { h.draw(k); });
    if (has("D")) add("draw", [](CH& h) { h.draw(1); });
    if (has("t")) {
      auto tr = [&](std::string n, BLTransformOp op, std::vector<double> v) { add(n, [=](CH& h) { BLMatrix2D u = h.m.user; (void)bl_matrix2d_apply_op(&u, op, v.data()); h.ok(bl_context_apply_transform_op(h.c, op, v.data())); h.m.user = u; }); };
      tr("translate(3,2)", BL_TRANSFORM_OP_TRANSLATE, {3, 2}); tr("translate(0.5,-1.25)", BL_TRANSFORM_OP_TRANSLATE, {0.5, -1.25}); tr("scale(2,0.5)", BL_TRANSFORM_OP_SCALE, {2, 0.5}); tr("transform(swap)", BL_TRANSFORM_OP_TRANSFORM, {0, 1, 1, 0, 1, 0}); tr("reset_transform", BL_TRANSFORM_OP_RESET, {}); tr("post_translate(-2,1)", BL_TRANSFORM_OP_POST_TRANSLATE, {-2, 1}); tr("assign(skew)", BL_TRANSFORM_OP_ASSIGN, {1, 0.25, 0.5, 1, 2, 0}); tr("scale(0)", BL_TRANSFORM_OP_SCALE, {0, 0});
      add("user_to_meta", [](CH& h) { h.ok(h.c->user_to_meta()); h.m.meta = h.m.fin(); h.m.user.reset(); });
      add("transform(invalid)", [](CH& h) { double v[6] = {}; h.rej(bl_context_apply_transform_op(h.c, BLTransformOp(77), v)); });
    }
    if (has("u")) {   // a smaller set of transformations
      add("translate(3,2)", [](CH& h) { h.m.user.translate(3, 2); h.ok(h.c->translate(3, 2)); }); add("translate(0.5,0)", [](CH& h) { h.m.user.translate(0.5, 0); h.ok(h.c->translate(0.5, 0)); }); add("scale(2)", [](CH& h) { h.m.user.scale(2); h.ok(h.c->scale(2)); });
      add("user_to_meta", [](CH& h) { h.ok(h.c->user_to_meta()); h.m.meta = h.m.fin(); h.m.user.reset(); });
    }
    if (has("c")) {
      auto cl = [&](BLRect r, bool in) { add(std::string(in ? "clip_to_rect_i(" : "clip_to_rect(") + std::to_string(r.x) + "," + std::to_string(r.y) + "," + std::to_string(r.w) + "," + std::to_string(r.h) + ")", [=](CH& h) { h.m.clip.push_back({h.m.fin(), r, in}); if (in) h.ok(h.c->clip_to_rect(BLRectI(int(r.x), int(r.y), int(r.w), int(r.h)))); else h.ok(h.c->clip_to_rect(r)); }); };
      cl(BLRect(2, 1, 12, 9), true); cl(BLRect(4, 3, 20, 20), true); cl(BLRect(1.5, 2, 9.25, 7), false); cl(BLRect(20, 2, 3, 3), true); cl(BLRect(5, 5, 0, 4), false); cl(BLRect(3, 0, 10, 14), false);
      add("restore_clipping", [](CH& h) { h.ok(h.c->restore_clipping()); if (h.stack.empty()) h.m.clip.clear(); else h.m.clip = h.stack.back().s.clip; });
    }
    if (has("s")) {
      add("stroke_width=3", [](CH& h) { h.m.w = 3; h.ok(h.c->set_stroke_width(3)); }); add("stroke_width=0.5", [](CH& h) { h.m.w = 0.5; h.ok(h.c->set_stroke_width(0.5)); }); add("miter_limit=1", [](CH& h) { h.m.ml = 1; h.ok(h.c->set_stroke_miter_limit(1)); });
      add("start_cap=round", [](CH& h) { h.m.cap[0] = 2; h.ok(h.c->set_stroke_start_cap(BL_STROKE_CAP_ROUND)); }); add("caps=square", [](CH& h) { h.m.cap[0] = h.m.cap[1] = 1; h.ok(h.c->set_stroke_caps(BL_STROKE_CAP_SQUARE)); }); add("join=round", [](CH& h) { h.m.join = BL_STROKE_JOIN_ROUND; h.ok(h.c->set_stroke_join(BL_STROKE_JOIN_ROUND)); });
      add("dash_offset=2", [](CH& h) { h.m.off = 2; h.ok(h.c->set_stroke_dash_offset(2)); }); for (int k = 0; k < 2; k++) add("dash_array=" + std::to_string(k), [=](CH& h) { h.m.dash = k + 1; h.ok(h.c->set_stroke_dash_array(*gDash[k])); });
      add("order=before", [](CH& h) { h.m.order = 1; h.ok(h.c->set_stroke_transform_order(BL_STROKE_TRANSFORM_ORDER_BEFORE)); });
      add("options", [](CH& h) { BLStrokeOptions o; o.width = 2; o.join = BL_STROKE_JOIN_BEVEL; o.start_cap = BL_STROKE_CAP_ROUND_REV; o.dash_array = *gDash[0]; h.ok(h.c->set_stroke_options(o)); h.m.w = 2; h.m.ml = o.miter_limit; h.m.join = BL_STROKE_JOIN_BEVEL; h.m.cap[0] = BL_STROKE_CAP_ROUND_REV; h.m.cap[1] = 0; h.m.dash = 1; h.m.off = 0; h.m.order = 0; });
      add("options(own)", [](CH& h) { h.ok(h.c->set_stroke_options(h.c->stroke_options())); });
      add("options(invalid)", [](CH& h) { BLStrokeOptions o; o.width = 77; o.join = 99; h.rej(h.c->set_stroke_options(o)); h.rej(h.c->set_stroke_caps(BLStrokeCap(99))); h.rej(h.c->set_stroke_cap(BL_STROKE_CAP_POSITION_END, BLStrokeCap(8))); h.rej(h.c->set_stroke_cap(BLStrokeCapPosition(2), BL_STROKE_CAP_ROUND)); h.rej(h.c->set_stroke_join(BLStrokeJoin(99))); h.rej(h.c->set_stroke_transform_order(BLStrokeTransformOrder(2))); BLArray<float> fa; h.rej(bl_context_set_stroke_dash_array(h.c, &fa)); });
    }
    if (has("a")) for (int s = 0; s < 2; s++) { std::string n = kSlot[s]; auto set = [&](const char* d, int kind, int idx, uint64_t v, BLRgba f, int mode) { add(n + "=" + d, [=](CH& h) { h.style(s, kind, idx, v, f, mode); }); };
      set("rgba32", 1, 0, 0xC0FF8040u, BLRgba(), 0); if (!s) { set("rgba32(0)", 1, 0, 0, BLRgba(), 0); set("rgba64", 2, 0, 0x80001234FFFF4321u, BLRgba(), 0); } set("rgba", 3, 0, 0, BLRgba(1.0f, 0.25f, 0.5f, 0.75f), 0); set("gradient0", 4, 0, 0, BLRgba(), 0); if (!s) { set("gradient1 meta", 4, 1, 0, BLRgba(), 1); set("gradient0 none", 4, 0, 0, BLRgba(), 2); } set("pattern0", 5, 0, 0, BLRgba(), 0); if (!s) set("pattern1 meta", 5, 1, 0, BLRgba(), 1); set("none", 0, 0, 0, BLRgba(), 0); }
    if (has("b")) for (int s = 0; s < 2; s++) { std::string n = kSlot[s]; auto set = [&](const char* d, int kind, int idx, uint64_t v, BLRgba f, int mode) { add(n + "=" + d, [=](CH& h) { h.style(s, kind, idx, v, f, mode); }); };
      set("rgba32", 1, 0, 0xC0FF8040u, BLRgba(), 0); set("gradient0", 4, 0, 0, BLRgba(), 0); if (!s) set("none", 0, 0, 0, BLRgba(), 0); }
    if (has("a") || has("b")) {
      add("swap_styles", [](CH& h) { h.ok(h.c->swap_styles(BL_CONTEXT_STYLE_SWAP_MODE_STYLES)); std::swap(h.m.st[0], h.m.st[1]); });
      add("swap_styles_alpha", [](CH& h) { h.ok(h.c->swap_styles(BL_CONTEXT_STYLE_SWAP_MODE_STYLES_WITH_ALPHA)); std::swap(h.m.st[0], h.m.st[1]); std::swap(h.m.sa[0], h.m.sa[1]); });
      add("fill_alpha=0.5", [](CH& h) { h.m.sa[0] = 0.5; h.ok(h.c->set_fill_alpha(0.5)); }); add("stroke_alpha=0", [](CH& h) { h.m.sa[1] = 0; h.ok(h.c->set_stroke_alpha(0)); }); 
    }
    if (has("a")) { add("global_alpha=0.25", [](CH& h) { h.m.ga = 0.25; h.ok(h.c->set_global_alpha(0.25)); }); add("global_alpha=0", [](CH& h) { h.m.ga = 0; h.ok(h.c->set_global_alpha(-1)); }); add("fill_alpha=1", [](CH& h) { h.m.sa[0] = 1; h.ok(h.c->set_fill_alpha(3)); });
      add("style(own)", [](CH& h) { BLVar v; h.ok(h.c->get_fill_style(v)); Style s = h.m.st[0]; int k = s.kind; if (k == 0 ? v.type() != BL_OBJECT_TYPE_NULL : 0) h.err("get", "style"); h.style(0, s.kind, s.idx, s.val, s.f, 0); if (k) return; });
      add("style(invalid)", [](CH& h) { BLString s("abc"); h.rej(bl_context_set_fill_style(h.c, &s)); BLPath p; h.rej(bl_context_set_stroke_style(h.c, &p)); h.rej(h.c->set_global_alpha(NAN)); h.rej(h.c->set_fill_alpha(NAN)); h.rej(h.c->set_stroke_alpha(NAN)); h.rej(h.c->swap_styles(BLContextStyleSwapMode(2))); });
    }
    if (has("h")) {
      add("gradient_quality=dither", [](CH& h) { h.m.hints.gradient_quality = BL_GRADIENT_QUALITY_DITHER; h.ok(h.c->set_gradient_quality(BL_GRADIENT_QUALITY_DITHER)); }); add("pattern_quality=nearest", [](CH& h) { h.m.hints.pattern_quality = 0; h.ok(h.c->set_pattern_quality(BL_PATTERN_QUALITY_NEAREST)); }); add("set_hints", [](CH& h) { BLContextHints x = h.m.hints; x.rendering_quality = 0; x.gradient_quality = 0; x.pattern_quality = 1; h.m.hints = x; h.ok(h.c->set_hints(x)); });
      add("hints(invalid)", [](CH& h) { h.rej(h.c->set_hint(BL_CONTEXT_HINT_GRADIENT_QUALITY, 9)); h.rej(h.c->set_hint(BL_CONTEXT_HINT_PATTERN_QUALITY, 9)); h.rej(h.c->set_hint(BL_CONTEXT_HINT_RENDERING_QUALITY, 9)); h.rej(h.c->set_hint(BLContextHint(55), 0)); BLContextHints x{}; x.gradient_quality = 1; x.pattern_quality = 77; h.rej(h.c->set_hints(x)); });
      for (int s = 0; s < 2; s++) { add(std::string(kSlot[s]) + "=gradient0", [=](CH& h) { h.style(s, 4, 0, 0, BLRgba(), 0); }); add(std::string(kSlot[s]) + "=pattern1", [=](CH& h) { h.style(s, 5, 1, 0, BLRgba(), 0); }); }
    }
    if (has("o")) {
      add("comp_op=src_copy", [](CH& h) { h.m.comp = BL_COMP_OP_SRC_COPY; h.ok(h.c->set_comp_op(BL_COMP_OP_SRC_COPY)); }); add("comp_op=multiply", [](CH& h) { h.m.comp = BL_COMP_OP_MULTIPLY; h.ok(h.c->set_comp_op(BL_COMP_OP_MULTIPLY)); }); add("comp_op=dst_copy", [](CH& h) { h.m.comp = BL_COMP_OP_DST_COPY; h.ok(h.c->set_comp_op(BL_COMP_OP_DST_COPY)); }); add("comp_op=clear", [](CH& h) { h.m.comp = BL_COMP_OP_CLEAR; h.ok(h.c->set_comp_op(BL_COMP_OP_CLEAR)); });
      add("fill_rule=even_odd", [](CH& h) { h.m.rule = 1; h.ok(h.c->set_fill_rule(BL_FILL_RULE_EVEN_ODD)); }); add("comp,rule(invalid)", [](CH& h) { h.rej(h.c->set_comp_op(BLCompOp(999))); h.rej(h.c->set_fill_rule(BLFillRule(2))); });
      add("flatten_tolerance=0.5", [](CH& h) { h.m.ap.flatten_tolerance = 0.5; h.ok(h.c->set_flatten_tolerance(5.0)); }); add("flatten_tolerance=0.01", [](CH& h) { h.m.ap.flatten_tolerance = 0.01; h.ok(h.c->set_flatten_tolerance(-1.0)); }); add("flatten_mode=recursive", [](CH& h) { h.m.ap.flatten_mode = BL_FLATTEN_MODE_RECURSIVE; h.ok(h.c->set_flatten_mode(BL_FLATTEN_MODE_RECURSIVE)); });
      add("approximation", [](CH& h) { BLApproximationOptions o = bl_default_approximation_options; o.flatten_tolerance = 0.125; o.offset_parameter = 0.75; o.simplify_tolerance = 0.0625; o.offset_mode = BL_OFFSET_MODE_ITERATIVE; h.m.ap.flatten_mode = o.flatten_mode; h.m.ap.offset_mode = o.offset_mode; h.m.ap.flatten_tolerance = 0.125; h.m.ap.simplify_tolerance = 0.0625; h.m.ap.offset_parameter = 0.75; h.ok(h.c->set_approximation_options(o)); });
      add("approximation(invalid)", [](CH& h) { BLApproximationOptions o = bl_default_approximation_options; o.flatten_tolerance = NAN; o.offset_parameter = 0.9; h.rej(h.c->set_approximation_options(o)); o = bl_default_approximation_options; o.flatten_mode = 77; h.rej(h.c->set_approximation_options(o)); h.rej(h.c->set_flatten_tolerance(NAN)); h.rej(h.c->set_flatten_mode(BLFlattenMode(66))); });
    }
  }
  CH(std::string l, int th, const char* which, int lim = 0) : threads(th), limit(lim), label(l) { groups(which); }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void begin(BLContext& x, BLImage& i, int th, int lim) { BLContextCreateInfo ci{}; ci.thread_count = th; ci.saved_state_limit = lim; if (x.begin(i, ci) != BL_SUCCESS) err("begin", "failed"); }
  void reset() { rbase = refs(); base = __sanitizer_get_current_allocated_bytes(); m = State(); stack.clear(); touched.assign(1, 0); since = 0; drawn.clear(); cookies.clear(); next_cookie = 1; bad = chk = false; im = new (imem) BLImage(W, H, BL_FORMAT_PRGB32); bg(*im); c = new (cmem) BLContext(); begin(*c, *im, threads, limit); m.hints = c->hints(); m.st[0].hints = m.st[1].hints = m.hints; live = true; }
  void finish() { if (!live) return; live = false; c->~BLContext(); im->~BLImage(); { decltype(stack) z_; stack.swap(z_); } { decltype(cookies) z_; cookies.swap(z_); } { decltype(m.clip) z_; m.clip.swap(z_); } { decltype(drawn) z_; drawn.swap(z_); } { decltype(touched) z_; touched.swap(z_); } if (chk && !bad && !quiet) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a > base) fail("leak", "%ld bytes leaked", (long)(a - base)); if (refs() != rbase) fail("leak-reference", "%ld references to styles or options kept after the context ended", (long)(refs() - rbase)); } }
  bool stylevar(BLVar& v, const Style& s, bool tr) {
    switch (s.kind) { case 0: return v.is_null(); case 1: { BLRgba32 r; return v.type() == BL_OBJECT_TYPE_RGBA32 && v.to_rgba32(&r) == BL_SUCCESS && r.value == uint32_t(s.val); } case 2: { BLRgba64 r; return v.type() == BL_OBJECT_TYPE_RGBA64 && v.to_rgba64(&r) == BL_SUCCESS && r.value == s.val; } case 3: { BLRgba r; return v.type() == BL_OBJECT_TYPE_RGBA && v.to_rgba(&r) == BL_SUCCESS && r == s.f; }
      case 4: { if (!v.is_gradient()) return false; BLGradient g(*gGrad[s.idx]); if (tr) (void)g.set_transform(s.adj); return v.as<BLGradient>().equals(g); }
      default: { if (!v.is_pattern()) return false; BLPattern g(*gPat[s.idx]); if (tr) (void)g.set_transform(s.adj); return v.as<BLPattern>().equals(g); } }
  }
  void getters() {
    auto eq = [&](bool o, const char* n) { if (!o && !bad) err("getter", std::string(n) + " differs from the model"); };
    BLMatrix2D x; eq(c->meta_transform() == m.meta && bl_context_get_meta_transform(c, &x) == BL_SUCCESS && x == m.meta, "meta transform"); eq(c->user_transform() == m.user && bl_context_get_user_transform(c, &x) == BL_SUCCESS && x == m.user, "user transform"); eq(c->final_transform() == m.fin() && bl_context_get_final_transform(c, &x) == BL_SUCCESS && x == m.fin(), "final transform");
    eq(c->saved_state_count() == stack.size(), "saved state count"); eq(c->global_alpha() == m.ga && bl_context_get_global_alpha(c) == m.ga, "global alpha"); eq(c->fill_alpha() == m.sa[0] && bl_context_get_fill_alpha(c) == m.sa[0], "fill alpha"); eq(c->stroke_alpha() == m.sa[1] && bl_context_get_stroke_alpha(c) == m.sa[1], "stroke alpha"); eq((int)c->comp_op() == m.comp && (int)bl_context_get_comp_op(c) == m.comp, "comp op"); eq((int)c->fill_rule() == m.rule && (int)bl_context_get_fill_rule(c) == m.rule, "fill rule");
    eq(c->stroke_width() == m.w && bl_context_get_stroke_width(c) == m.w, "stroke width"); eq(c->stroke_miter_limit() == m.ml && bl_context_get_stroke_miter_limit(c) == m.ml, "miter limit"); eq((int)c->stroke_start_cap() == m.cap[0] && (int)bl_context_get_stroke_cap(c, BL_STROKE_CAP_POSITION_START) == m.cap[0], "start cap"); eq((int)c->stroke_end_cap() == m.cap[1] && (int)bl_context_get_stroke_cap(c, BL_STROKE_CAP_POSITION_END) == m.cap[1], "end cap"); eq((int)c->stroke_join() == m.join && (int)bl_context_get_stroke_join(c) == m.join, "join"); eq((int)c->stroke_transform_order() == m.order && (int)bl_context_get_stroke_transform_order(c) == m.order, "transform order"); eq(c->stroke_dash_offset() == m.off && bl_context_get_stroke_dash_offset(c) == m.off, "dash offset");
    BLArray<double> e; const BLArray<double>& d = m.dash ? *gDash[m.dash - 1] : e; BLArray<double> g; eq(bl_context_get_stroke_dash_array(c, &g) == BL_SUCCESS && g.equals(d), "dash array"); { BLStrokeOptions o; eq(bl_context_get_stroke_options(c, &o) == BL_SUCCESS && o.width == m.w && o.miter_limit == m.ml && o.start_cap == m.cap[0] && o.end_cap == m.cap[1] && o.join == m.join && o.transform_order == m.order && o.dash_offset == m.off && o.dash_array.equals(d) && o == c->stroke_options(), "stroke options"); }
    BLContextHints hh; eq(!memcmp(&c->hints(), &m.hints, 3) && bl_context_get_hints(c, &hh) == BL_SUCCESS && !memcmp(&hh, &m.hints, 3) && bl_context_get_hint(c, BL_CONTEXT_HINT_GRADIENT_QUALITY) == m.hints.gradient_quality && bl_context_get_hint(c, BL_CONTEXT_HINT_PATTERN_QUALITY) == m.hints.pattern_quality, "hints");
    const BLApproximationOptions& ap = c->approximation_options(); eq(ap.flatten_mode == m.ap.flatten_mode && ap.offset_mode == m.ap.offset_mode && ap.flatten_tolerance == m.ap.flatten_tolerance && ap.simplify_tolerance == m.ap.simplify_tolerance && ap.offset_parameter == m.ap.offset_parameter, "approximation options");
    for (int s = 0; s < 2; s++) for (int t = 0; t < 2; t++) { BLVar v; BLResult r = s ? (t ? c->get_transformed_stroke_style(v) : c->get_stroke_style(v)) : (t ? c->get_transformed_fill_style(v) : c->get_fill_style(v)); eq(r == BL_SUCCESS && stylevar(v, m.st[s], t), s ? (t ? "transformed stroke style" : "stroke style") : t ? "transformed fill style" : "fill style"); static const int T[] = {BL_OBJECT_TYPE_NULL, BL_OBJECT_TYPE_RGBA32, BL_OBJECT_TYPE_RGBA64, BL_OBJECT_TYPE_RGBA, BL_OBJECT_TYPE_GRADIENT, BL_OBJECT_TYPE_PATTERN}; eq((int)(s ? c->stroke_style_type() : c->fill_style_type()) == T[m.st[s].kind], "style type"); }
  }
  void explicit_state(BLContext& f) {
    for (auto& k : m.clip) { (void)f.set_transform(k.m); if (k.isint) (void)f.clip_to_rect(BLRectI(int(k.r.x), int(k.r.y), int(k.r.w), int(k.r.h))); else (void)f.clip_to_rect(k.r); }
    (void)f.set_transform(m.meta); (void)f.user_to_meta(); (void)f.set_transform(m.user);
    for (int s = 0; s < 2; s++) { (void)f.set_hints(m.st[s].hints); if (set_style(f, s, m.st[s], -1) != BL_SUCCESS) err("explicit", "style"); } (void)f.set_hints(m.hints);
    (void)f.set_global_alpha(m.ga); (void)f.set_fill_alpha(m.sa[0]); (void)f.set_stroke_alpha(m.sa[1]); (void)f.set_comp_op(BLCompOp(m.comp)); (void)f.set_fill_rule(BLFillRule(m.rule));
    (void)f.set_stroke_width(m.w); (void)f.set_stroke_miter_limit(m.ml); (void)f.set_stroke_start_cap(BLStrokeCap(m.cap[0])); (void)f.set_stroke_end_cap(BLStrokeCap(m.cap[1])); (void)f.set_stroke_join(BLStrokeJoin(m.join)); (void)f.set_stroke_transform_order(BLStrokeTransformOrder(m.order)); (void)f.set_stroke_dash_offset(m.off); if (m.dash) (void)f.set_stroke_dash_array(*gDash[m.dash - 1]); (void)f.set_approximation_options(m.ap);
  }
  struct Drawn { State s; int k; }; std::vector<Drawn> drawn;
  void draw(int k) { probe(*c, k); drawn.push_back({m, k}); }
  void compare(const BLImage& a, const char* what) {
    BLImageData d, cd; (void)a.get_data(&d); (void)im->get_data(&cd);
    for (int y = 0; y < H && !bad; y++) for (int x = 0; x < W; x++) { uint32_t p, q; memcpy(&p, (uint8_t*)cd.pixel_data + y * cd.stride + x * 4, 4); memcpy(&q, (uint8_t*)d.pixel_data + y * d.stride + x * 4, 4); if (p != q) { char b[160]; snprintf(b, sizeof b, "%s: pixel (%d,%d) is %08x; with the state set explicitly %08x", what, x, y, p, q); err("pixels", b); break; } }
  }
  void pixels() {
    static BLImage* a = nullptr; if (!a) a = new BLImage(W, H, BL_FORMAT_PRGB32); bg(*a);
    State cur = m;
    if (!drawn.empty() || threads) {   // everything in one batch, without a flush in between
      bool first = drawn.empty(); draw(1); draw(2); if (first) draw(0); (void)c->flush(BL_CONTEXT_FLUSH_SYNC);
      for (auto& e : drawn) { m = e.s; BLContext f(*a); explicit_state(f); probe(f, e.k); (void)f.end(); } m = cur; drawn.clear(); compare(*a, "drawing"); return;
    }
    for (int k = 0; k < 3 && !bad; k++) {
      bg(*a); BLImageData cd; (void)im->get_data(&cd);
      for (int y = 0; y < H; y++) for (int x = 0; x < W; x++) { uint32_t v = ((x ^ y) & 1) ? 0xFF4080C0u : 0x80402010u; memcpy((uint8_t*)cd.pixel_data + y * cd.stride + x * 4, &v, 4); }
      { BLContext f(*a); explicit_state(f); probe(f, k); (void)f.end(); } probe(*c, k); compare(*a, k == 0 ? "fill_all" : k == 1 ? "fill_path" : "blit");
    }
  }
  bool apply(int op, bool check) { chk = check; opn = ops[op].name.c_str(); bad = false; size_t n0 = stack.size(), d0 = drawn.size(); ops[op].f(*this); touched.resize(stack.size() + 1); if (stack.size() > n0) touched.back() = 0; else touched.back() |= uint64_t(1) << (op & 63); if (drawn.size() > d0) since = 0; else if (!drawn.empty()) since |= uint64_t(1) << (op & 63); if (check && !bad) { getters(); if (!bad) pixels(); } return !bad; }
  uint64_t hs(const State& s) { Hash h; h.b(&s.meta, 48); h.b(&s.user, 48); for (auto& k : s.clip) { h.b(&k.m, 48); h.b(&k.r, 32); h.u(k.isint); } h.u(s.clip.size()); h.b(&s.ga, 8); h.b(s.sa, 16); h.u(s.comp * 10 + s.rule); h.b(&s.w, 8); h.b(&s.ml, 8); h.b(&s.off, 8); h.u(s.cap[0] + 16 * s.cap[1] + 256 * s.join + 4096 * s.order + 65536 * s.dash); h.b(&s.hints, 3); h.u(s.ap.flatten_mode + 16 * s.ap.offset_mode); h.b(&s.ap.flatten_tolerance, 24); for (int i = 0; i < 2; i++) { h.u(s.st[i].kind * 100 + s.st[i].idx); h.u(s.st[i].val); h.b(&s.st[i].f, 16); h.b(&s.st[i].adj, 48); h.b(&s.st[i].hints, 3); } return h.h; }
  // Histories that reach the same model state may differ inside (parts are saved lazily, derived data is kept between drawing calls), so a
  // state also contains the set of operations applied since each save and since the last drawing.
  std::vector<uint64_t> touched; uint64_t since = 0;
  uint64_t state() { Hash h; h.u(hs(m)); for (auto& s : stack) { h.u(hs(s.s)); h.u(s.cookie); } h.u(stack.size()); h.u(cookies.size()); for (uint64_t t : touched) h.u(t); h.u(drawn.size()); h.u(since); return h.h; }
};
int main(int argc, char** argv) {
  init(argc, argv);
  gImg = new BLImage(5, 4, BL_FORMAT_PRGB32); { BLImageData d; (void)gImg->make_mutable(&d); for (int i = 0; i < 20; i++) ((uint32_t*)((uint8_t*)d.pixel_data + (i / 5) * d.stride))[i % 5] = i % 3 ? 0xFF000000u | i * 0x0B1705u : 0x80402000u; }
  for (int i = 0; i < 3; i++) { gGrad[i] = i == 1 ? new BLGradient(BLRadialGradientValues(10, 8, 7, 9, 12, 1)) : new BLGradient(BLLinearGradientValues(2, 1, 20 - i, 14)); gGrad[i]->add_stop(0, BLRgba32(0xFFFF0000u + i)); gGrad[i]->add_stop(0.5, BLRgba32(0x8000FF00u)); gGrad[i]->add_stop(1, BLRgba32(0xFF0000FFu)); gGrad[i]->set_extend_mode(i ? BL_EXTEND_MODE_REFLECT : BL_EXTEND_MODE_REPEAT); if (i == 1) (void)gGrad[i]->translate(1, 0.5); }
  for (int i = 0; i < 2; i++) { gPat[i] = new BLPattern(*gImg, i ? BL_EXTEND_MODE_REFLECT : BL_EXTEND_MODE_REPEAT); if (i) (void)gPat[i]->rotate(0.5); }
  gStar = new BLPath(); gStar->move_to(10, 1); gStar->line_to(15, 16); gStar->cubic_to(2, 20, 18, -4, 2, 5); gStar->line_to(19, 6); gStar->line_to(4, 15); gStar->close(); gLine = new BLPath(); gLine->move_to(3, 4); gLine->line_to(9, 12); gLine->line_to(14, 5); gLine->quad_to(18, 9, 21, 17);
  for (int i = 0; i < 2; i++) { gDash[i] = new BLArray<double>(); for (int k = 0; k < 4 + i * 3; k++) (void)gDash[i]->append(1.5 + k); }
  BLImage oi(4, 4, BL_FORMAT_PRGB32); BLContext other(oi);
  { BLImage x(W, H, BL_FORMAT_PRGB32); for (int t = 0; t < 4; t += 2) for (int q = 0; q < 3; q++) { BLContextCreateInfo ci{}; ci.thread_count = t; BLContext c(x, ci); (void)c.set_gradient_quality(BLGradientQuality(q)); for (auto g : gGrad) c.fill_all(*g); for (auto p : gPat) c.fill_all(*p); for (int k = 0; k < 3; k++) probe(c, k); } }
  { CH h("warm", 0, "Ktcsaho"); h.other = &other; h.quiet = true; for (int op = 0; op < h.num_ops(); op++) { h.reset(); h.apply(op, true); (void)h.state(); h.finish(); } }
  static const struct { const char* l; int th; const char* g; int lim; int d, dt; } T[] = {
    {"cookie", 0, "Ku", 0, 6, 7}, {"cookie-limit", 0, "ko", 2, 4, 5}, {"transform", 0, "t", 0, 5, 6}, {"clip", 0, "cu", 0, 5, 6}, {"stroke", 0, "s", 0, 5, 6}, {"styles", 0, "b", 0, 6, 7}, {"styles2", 0, "a", 0, 4, 5}, {"styles3", 0, "au", 0, 4, 5}, {"hints", 0, "h", 0, 5, 6}, {"options", 0, "o", 0, 5, 6},
    {"all", 0, "Ktcsahod", 0, 3, 4},
    {"threads-transform", 2, "Dt", 0, 4, 5}, {"threads-clip", 2, "Dcu", 0, 4, 5}, {"threads-stroke", 2, "Dsu", 0, 4, 5}, {"threads-styles", 2, "Db", 0, 5, 6}, {"threads-options", 2, "Do", 0, 4, 5}, {"threads-all", 2, "Dktcsaho", 0, 3, 3} };
  for (auto& t : T) { if (!g.mode.empty() && g.mode != t.l) continue; CH h(t.l, t.th, t.g, t.lim); h.other = &other; uint64_t before = g.stats["transitions"]; double t0 = now(); bfs(h, t.l, g.thorough ? t.dt : t.d); if (getenv("C20_DEV") && g.shard == 0) fprintf(stderr, "%s ops %d trans %llu %.1fs\n", t.l, h.num_ops(), (unsigned long long)(g.stats["transitions"] - before), now() - t0); }
  return done();
}
