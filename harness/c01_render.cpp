// C01: rendering with worker threads, under every schedule (bounded), gives the pixels of the synchronous context.
#include <climits>
#include <cmath>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "vh.h"
#include "mc_rt.h"
#include <blend2d/blend2d.h>
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
using namespace vh;
static BLFontFace face; static int W = 13, H = 40, B = 0;   // B: the height of the bands that a sweep aims at.

// Every operation creates what it needs and gives it away again, so that the context alone keeps it alive.
static const char OPS[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQR";   // 'S' after an operation: synchronous flush.
static void path1(BLPath& p) { p.move_to(2, 3); p.cubic_to(14, 2, -3, 20, 11, 38); p.quad_to(3, 36, 2, 20); p.close(); }
static BLImage picture(int w, int h, BLFormat f) { BLImage im(w, h, f); BLImageData d; im.make_mutable(&d); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint8_t* p = (uint8_t*)d.pixel_data + d.stride * y; if (f == BL_FORMAT_A8) p[x] = uint8_t(x * 40 + y * 9); else ((uint32_t*)p)[x] = 0xFF000000u | (x * 30 << 16) | (y * 6 << 8) | 77; } return im; }
static BLGradient grad(int k) { BLGradient g(BLLinearGradientValues(0, 0, 3, H)); if (k == 1) g.create(BLRadialGradientValues(6, 20, 6, 20, 25)); if (k == 2) g.create(BLConicGradientValues(6, 20, 0.3)); g.add_stop(0, BLRgba32(0xFFFF0000)); g.add_stop(0.5, BLRgba32(0x8000FF00)); g.add_stop(1, BLRgba32(0xFF0000FF)); return g; }
static BLGradient shared_gradient; static BLImage shared_picture;
static int depth;
static void op(BLContext& c, char o) {
  switch (o) {
    case 'a': c.fill_rect(BLRectI(1, 5, 8, 30), BLRgba32(0xFF204060)); break;
    case 'b': c.fill_rect(BLRect(1.3, 5.6, 8.5, 27.2), BLRgba32(0x80FF4060)); break;
    case 'c': { BLPath p; path1(p); c.fill_path(p, BLRgba32(0xC0A0B0C0)); break; }
    case 'd': { BLPath p; path1(p); c.set_stroke_width(1.7); c.stroke_path(p, BLRgba32(0xFF10FF90)); break; }
    case 'e': { BLStrokeOptions so; so.width = 2.5; so.dash_array.append(3.0, 2.0); so.start_cap = BL_STROKE_CAP_ROUND; c.set_stroke_options(so); so.dash_array.clear(); c.stroke_line(1, 1, 12, 39, BLRgba32(0xFFEEDD11)); break; }
    case 'f': c.fill_rect(BLRectI(0, 2, 13, 36), shared_gradient); break;
    case 'g': c.set_hint(BL_CONTEXT_HINT_GRADIENT_QUALITY, BL_GRADIENT_QUALITY_DITHER); c.fill_rect(BLRectI(0, 2, 13, 36), grad(0)); c.set_hint(BL_CONTEXT_HINT_GRADIENT_QUALITY, BL_GRADIENT_QUALITY_NEAREST); break;
    case 'h': { BLPattern p(picture(4, 4, BL_FORMAT_PRGB32)); p.rotate(0.3); BLPath q; path1(q); c.fill_path(q, p); break; }
    case 'i': { BLImage im = picture(8, 30, BL_FORMAT_PRGB32); c.blit_image(BLPointI(2, 3), im); BLImageData d; im.make_mutable(&d); memset(d.pixel_data, 0xEE, 8); break; }
    case 'j': { BLImage im = picture(10, 30, BL_FORMAT_A8); c.fill_mask(BLPointI(1, 4), im, BLRgba32(0xFFAA5511)); break; }
    case 'k': { BLFont f; f.create_from_face(face, 17); c.fill_utf8_text(BLPoint(0, 22), f, "ga", 2, BLRgba32(0xFFFFFFFF)); break; }
    case 'l': c.clip_to_rect(BLRect(2, 6, 9, 30)); break;
    case 'm': c.save(); depth++; break;
    case 'n': if (depth) { c.restore(); depth--; } break;
    case 'o': c.set_comp_op(BL_COMP_OP_SRC_COPY); break;
    case 'p': c.set_global_alpha(0.6); break;
    case 'q': c.translate(3, 2); c.rotate(0.2, 5, 5); break;
    case 'r': c.set_fill_style(grad(1)); break;
    case 's': c.fill_all(); break;
    case 't': { BLPath p; for (int i = 0; i < 20; i++) p.line_to(0, 0), p.reset(); p.move_to(0, 0); for (int i = 0; i < 40; i++) p.line_to((i * 7) % 13, (i * 17) % 41); c.set_fill_rule(BL_FILL_RULE_EVEN_ODD); c.fill_path(p, BLRgba32(0xB0332211)); c.set_fill_rule(BL_FILL_RULE_NON_ZERO); break; }
    case 'u': { BLPath p; path1(p); p.line_to(NAN, 3); c.fill_path(p, BLRgba32(0xFFFFFFFF)); break; }
    case 'v': { BLPath p; path1(p); c.fill_path(p, BLRgba32(0x60FF0000)); p.translate(BLPoint(3, 3)); c.fill_path(p, BLRgba32(0x600000FF)); break; }
    case 'w': { BLPath p; path1(p); c.fill_path(p, grad(2)); break; }
    case 'x': c.clear_all(); break;
    case 'y': c.blit_image(BLPoint(1.5, 2.5), shared_picture); break;
    case 'z': c.fill_circle(6, 20, 30, grad(1)); break;
    case 'A': { BLFont f; f.create_from_face(face, 12); BLPath p; f.get_glyph_outlines(40, p); BLGlyphBuffer gb; gb.set_utf8_text("ax", 2); f.shape(gb); c.stroke_glyph_run(BLPoint(1, 30), f, gb.glyph_run(), BLRgba32(0xFF00FFFF)); break; }
    case 'B': { BLPattern p(picture(4, 4, BL_FORMAT_PRGB32), BL_EXTEND_MODE_REFLECT); c.set_stroke_style(p); c.stroke_rect(BLRect(2, 3, 8, 33)); break; }
    case 'C': c.set_comp_op(BL_COMP_OP_MULTIPLY); break;
    case 'D': c.fill_polygon(std::initializer_list<BLPoint>{BLPoint(0, 0), BLPoint(13, 20), BLPoint(0, 40)}.begin(), 3, BLRgba32(0xFFABCDEF)); break;
    case 'E': c.set_fill_alpha(0.3); break;
    case 'F': c.fill_rect(BLRectI(0, 17, 13, 1), BLRgba32(0xFF00FF00)); break;                  // In one band only.
    case 'G': { BLImage im = picture(10, 30, BL_FORMAT_A8); c.fill_mask(BLPoint(1, 4), im, grad(0)); c.fill_mask(BLPointI(2, 1), im, BLRectI(2, 2, 5, 28), grad(2)); break; }
    case 'H': c.set_stroke_width(4); break;
    case 'I': c.set_stroke_transform_order(BL_STROKE_TRANSFORM_ORDER_BEFORE); break;
    case 'J': c.set_flatten_tolerance(0.5); break;
    case 'K': c.scale(1.5, 0.7); break;
    case 'L': c.user_to_meta(); break;
    case 'M': c.set_stroke_join(BL_STROKE_JOIN_ROUND); break;
    case 'N': { BLApproximationOptions ao = c.approximation_options(); ao.offset_parameter = 0.9; ao.simplify_tolerance = 0.3; c.set_approximation_options(ao); break; }
    case 'O': c.reset_transform(); break;
    case 'P': c.set_fill_rule(BL_FILL_RULE_EVEN_ODD); break;
    case 'Q': c.restore_clipping(); break;
    case 'R': c.set_stroke_alpha(0.4); break;
    case 'S': c.flush(BL_CONTEXT_FLUSH_SYNC); break;
    // Sweeps: 64 shapes side by side, each with edges at another place around the edges of the bands.
    case '0': for (int i = 0; i < 64; i++) c.fill_rect(BLRect(4 * i + 0.25, 3.5, 3.5, B - 3.5 + (i - 32) / 8.0), BLRgba32(0xC0FF8040)); break;
    case '1': for (int i = 0; i < 64; i++) c.fill_rect(BLRect(4 * i + 0.25, B + (i - 32) / 8.0, 3.5, B + (i % 7) / 4.0), BLRgba32(0xC0FF8040)); break;
    case '2': for (int i = 0; i < 64; i++) c.fill_rect(BLRectI(4 * i, B - 4 + i % 8, 3, 1 + i / 8 * (B / 8)), BLRgba32(0xC0FF8040)); break;
    case '3': for (int i = 0; i < 64; i++) { double y = B + (i - 32) / 8.0; BLPoint t[3] = {BLPoint(4 * i, y), BLPoint(4 * i + 3.5, y + 0.3 + i % 5 * (B / 9.0)), BLPoint(4 * i + 0.7, y + 0.1 + i % 70)}; c.fill_polygon(t, 3, BLRgba32(0xC0FF8040)); } break;
    case '4': { BLImage im = picture(3, B, BL_FORMAT_A8); for (int i = 0; i < 64; i++) c.fill_mask(BLPointI(4 * i, i - 32 + B), im, BLRectI(0, i % 3, 3, B - 2 - i % 5), BLRgba32(0xC0FF8040)); break; }
    case '5': { BLImage im = picture(3, B, BL_FORMAT_PRGB32); for (int i = 0; i < 64; i++) c.blit_image(BLPoint(4 * i + (i & 1) * 0.5, B + (i - 32) / 8.0), im); break; }
    case '6': c.set_stroke_width(1.5); for (int i = 0; i < 64; i++) c.stroke_line(4 * i + 1, B - 3 + (i - 32) / 8.0, 4 * i + 2, 2 * B + i % 9 / 4.0, BLRgba32(0xC0FF8040)); break;
    case '7': for (int i = 0; i < 64; i++) c.fill_rect(BLRect(4 * i, B - 1.5, 3.25, B + 1.5 + (i - 32) / 16.0), grad(i % 3)); break;
    case '8': for (int i = 0; i < 64; i++) c.fill_rect(BLRect(4 * i, B + (i % 8 - 4) / 16.0, 3, 1 / 16.0 + i / 8 / 16.0), BLRgba32(0xC0FF8040)); break;
    case '9': for (int i = 0; i < 64; i++) { c.fill_rect(BLRect(4 * i, 1, 2, B - 1 + (i - 32) / 256.0), BLRgba32(0xC0FF8040)); BLPath p; p.add_box(4 * i + 2, B + (i - 32) / 256.0, 4 * i + 3.5, 2 * B + (i - 32) / 256.0); p.add_box(4 * i + 2, 0, 4 * i + 3, 2.5); c.fill_path(p, BLRgba32(0xFF30C040)); } break;
    default: abort();
  }
}
struct Cfg { std::string name, script; int threads, repeat; uint32_t flags, limit; bool futex; int pre, stale, faults; BLFormat fmt; int w = 13, h = 40, b = 0; };
static uint32_t scene(const Cfg& k, BLImage& im, int threads, std::vector<std::vector<uint32_t>>* shots) {
  W = k.w; H = k.h; B = k.b; BLContextCreateInfo ci{}; ci.thread_count = threads; ci.flags = k.flags; ci.command_queue_limit = k.limit;
  BLContext c; BLResult r = c.begin(im, ci); if (r != BL_SUCCESS) return r; depth = 0;
  c.fill_all(BLRgba32(0xFF000000)); c.set_fill_style(BLRgba32(0x80FFFFFF)); c.set_stroke_style(BLRgba32(0xFF888888));
  auto pix = [&]() { BLImageData d; im.get_data(&d); std::vector<uint32_t> v; for (int y = 0; y < H; y++) v.insert(v.end(), (uint32_t*)((char*)d.pixel_data + y * d.stride), (uint32_t*)((char*)d.pixel_data + y * d.stride) + (k.fmt == BL_FORMAT_A8 ? W / 4 : W)); return v; };
  for (int n = 0; n < k.repeat; n++) for (char o : k.script) { op(c, o); if (o == 'S') shots->push_back(pix()); }
  uint32_t e = c.accumulated_error_flags(); r = c.end(); shots->push_back(pix()); return r ? r : e & ~uint32_t(BL_CONTEXT_ERROR_FLAG_THREAD_POOL_EXHAUSTED | (k.faults && threads ? BL_CONTEXT_ERROR_FLAG_UNKNOWN_ERROR : 0));
}
static const Cfg* C; static const uint32_t* want;   // result, number of images, words of an image, images.
static void body(void* p) {
  C = (const Cfg*)p; auto* shots = new std::vector<std::vector<uint32_t>>;
  { mc::quiet(true); shared_gradient = grad(0); mc::quiet(false); BLImage im(C->w, C->h, C->fmt); uint32_t r = scene(*C, im, C->threads, shots);
  bool same = r == want[0] && shots->size() == want[1]; mc::check(same, "error", "threads=%d: the result / error flags are %u instead of %u", C->threads, r, want[0]);
  for (size_t i = 0; i < shots->size(); i++) for (size_t j = 0; j < (*shots)[i].size(); j++) if ((*shots)[i][j] != want[3 + want[2] * i + j]) { int w = int(want[2]) / H; mc::check(false, "pixels", "threads=%d: the pixel at %d,%d is %08X instead of %08X after %s %zu", C->threads, int(j) % w, int(j) / w, (*shots)[i][j], want[3 + want[2] * i + j], i + 1 < shots->size() ? "flush" : "the end, flush", i); } }
  mc::observe(shots->size()); shared_gradient.reset(); delete shots;
}
int main(int argc, char** argv) {
  mc::init(); vh::init(argc, argv); bl_runtime_init(); bool th = g.thorough; int e = th ? 1 : 0;
  { static std::vector<uint8_t> d; FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), "rb"); if (!f) { perror("font"); return 3; } d.resize(100000); d.resize(fread(d.data(), 1, d.size(), f)); fclose(f); BLFontData fd; fd.create_from_data(d.data(), d.size()); if (face.create_from_data(fd, 0) != BL_SUCCESS) return 3; }
  shared_picture = picture(9, 33, BL_FORMAT_PRGB32);
  static std::vector<Cfg> cs;
  auto put = [&](std::string s, int threads, bool futex, int pre, uint32_t flags = 0, uint32_t limit = 0, int rep = 1, int faults = 0, BLFormat f = BL_FORMAT_PRGB32) { char n[300]; snprintf(n, sizeof n, "%s%s-t%d-%s%s%s%s%s", s.substr(0, 60).c_str(), rep > 1 ? "-many" : "", threads, futex ? "futex" : "portable", flags & BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL ? "-own" : "", flags & BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC ? "-fallback" : "", faults ? "-faults" : "", f == BL_FORMAT_A8 ? "-a8" : f == BL_FORMAT_XRGB32 ? "-xrgb" : ""); cs.push_back(Cfg{n, s, threads, rep, flags, limit, futex, pre, 1 + e, faults, f}); };
  std::string ops = OPS;
  std::string draws = "abcdefghijkstuvwxyzABDFG";
  for (char o : ops) for (int fx = 0; fx < 2; fx++) if (th || (o + fx) % 2) { put(std::string(1, o) + "s", 2, fx, 2 + e); put(std::string(1, o) + "Sc", 3, !fx, 1 + e); }
  for (char a : ops) { std::string x(1, a); for (char b : draws) { x += b; x += 'S'; } put(x, 2, a % 2, 0); if (th) put(x + std::string(1, a), 3, (a + 1) % 2, 0); }
  for (char a : ops) for (char b : th ? ops : draws) if (th || (a * 7 + b) % 3 == 0) { put(std::string() + a + b + "s", 2, (a + b) % 2, 1 + e); if (th) put(std::string() + a + b + "c", 3, (a + b + 1) % 2, 1); }
  for (char a : std::string("cdekDAtB")) for (char b : std::string("lmnopqrCEHIJKLMNOPQR")) put(std::string() + (b == 'Q' ? "l" : b == 'O' ? "q" : b == 'n' ? "mq" : "") + a + b + a + (b == 'm' ? "qdnd" : "s"), 2, (a + b) % 2, 1);
  for (char b : std::string("lmnopqrCEHIJKLMNOPQR")) put(std::string("ed") + b + "de", 2, b % 2, 1, BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL);
  // Drawing calls that fail (an operator that is not provided) must leave the commands before and after them alone.
  for (char a : std::string("cdDkAwze")) for (char b : std::string("cdDkAwzt")) { put(std::string() + a + b + "C" + a + b, 2, (a + b) % 2, 0); put(std::string("m") + a + b + "C" + b + "n" + a + b, 3, (a + b + 1) % 2, 0); }
  const char* scenes[] = {"abcdSefghSijklS", "cdmlcnScqd", "fwfSfz", "ckAkSc", "mopbcnrsScG", "vvSvv", "tutSt", "lmlcnd", "EpcCdwy", "xSxc"};
  for (const char* s : scenes) for (int fx = 0; fx < 2; fx++) { put(s, 2, fx, 2); put(s, 3, fx, 1 + e); put(s, 1, fx, 1); put(s, 2, fx, 1 + e, BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL); put(s, 3, fx, 1, BL_CONTEXT_CREATE_FLAG_FALLBACK_TO_SYNC, 0, 1, 1); put(s, 3, fx, 1, BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL, 0, 1, 1 + e); put(s, 2, fx, 1, 0, 0, 1, 0, BL_FORMAT_A8); put(s, 2, fx, 1, 0, 0, 1, 0, BL_FORMAT_XRGB32); }
  for (int fx = 0; fx < 2; fx++) { put("abFci", 2, fx, 1 + e, 0, 1, 60); put("cfdwk", 3, fx, 1, 0, 1, 60); put("aFl", 2, fx, 1 + e, 0, 1, 150); put("c", 2, fx, 1 + e, 0, 1, 300); }
  struct { int h, t, b; } sweeps[] = {{200, 1, 64}, {200, 2, 64}, {136, 3, 64}, {64, 2, 32}, {100, 3, 32}, {48, 3, 16}, {24, 2, 8}};
  for (auto& w : sweeps) for (char o = '0'; o <= '9'; o++) for (int fx = 0; fx < (w.t > 1 && th ? 2 : 1); fx++) { put(std::string(1, o), w.t, (fx + o) % 2, w.t > 1, 0, 0, 1, 0, BL_FORMAT_PRGB32); Cfg& k = cs.back(); k.w = 256; k.h = w.h; k.b = w.b; k.name += "-h" + std::to_string(w.h); }
  for (size_t i = 0; i < cs.size(); i++) if (g.replaying || mine(i)) {
    Cfg& c = cs[i];
    // What the synchronous context draws (in a process of its own so that the heap is the same for every client).
    static uint32_t* shm = (uint32_t*)mmap(nullptr, 64 << 20, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork(); if (pid < 0) return 3;
    if (!pid) { shared_gradient = grad(0); std::vector<std::vector<uint32_t>> w; BLImage im(c.w, c.h, c.fmt); shm[0] = scene(c, im, 0, &w); shm[1] = w.size(); shm[2] = w[0].size(); uint32_t* o = shm + 3; for (auto& v : w) { memcpy(o, v.data(), v.size() * 4); o += v.size(); } _exit(0); }
    int st; waitpid(pid, &st, 0); if (st) { fprintf(stderr, "%s: the synchronous rendering failed (status %x)\n", c.name.c_str(), st); return 3; }
    want = shm;
    bl_runtime_context.features_info.futex_enabled = c.futex;
    mc::Options o; o.preemptions = c.pre; o.stale = c.stale; o.faults = c.faults; o.create_fails = c.faults > 0; o.max_seconds = th ? 60 : c.script.size() > 40 ? 0.5 : 1.5; o.threads_at_exit = o.memory_at_exit = (c.flags & BL_CONTEXT_CREATE_FLAG_ISOLATED_THREAD_POOL) != 0;
    mc::explore(c.name.c_str(), body, &c, o);
  }
  return done();
}
