// C14: images as values. All histories of copies, writes, conversions, external memory and rendering over two image variables and one
// rendering context, against pixel arrays with an explicit sharing model. Plus: all creation parameters of a table.
#include <blend2d/blend2d.h>
#include "vh.h"
#include <climits>
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef std::vector<uint8_t> Bytes;
static size_t bpp(int f) { return f == BL_FORMAT_A8 ? 1 : f ? 4 : 0; }
static const uint32_t kCol[4] = {0xFF102030u, 0xFFFFFFFFu, 0x00000000u, 0xFF80FF01u};

// Content of an image (rows without gaps).
struct Pix { int w = 0, h = 0, fmt = 0; Bytes d; bool operator==(const Pix& o) const { return w == o.w && h == o.h && fmt == o.fmt && d == o.d; } };
// One piece of external memory handed to the library.
struct Ext { Bytes buf; uint8_t* px; intptr_t stride; int w, h, fmt; bool ro; int calls = 0, id; bool cb; };
struct Block { Pix p; int ext = -1; };           // storage shared by image variables
struct IH {
  static const int N = 2;
  alignas(16) char mem[N][sizeof(BLImage)]; BLImage* v[N]; int b[N]; std::vector<Block> bl; std::vector<Ext*> ex;
  alignas(16) char cmem[sizeof(BLContext)]; BLContext* c; int ctx_b = -1;    // block the context writes to
  bool live = false, chk = false, bad = false; size_t base = 0; const char* opn = "";
  struct Op { std::string name; std::function<bool(IH&)> f; }; std::vector<Op> ops;
  void add(std::string n, std::function<bool(IH&)> f) { ops.push_back({n, f}); }
  void err(const char* k, const std::string& d) { if (!bad && chk) fail(k, "%s: %s", opn, d.c_str()); bad = true; }
  void ok(BLResult r) { if (r != BL_SUCCESS) err("error-result", "returned " + std::to_string(r)); }
  int users(int k) { int n = 0; for (int i = 0; i < N; i++) n += b[i] == k; return n; }
  int nb(const Pix& p, int ext = -1) { Block x; x.p = p; x.ext = ext; bl.push_back(x); return (int)bl.size() - 1; }
  static Pix read(const BLImage& im) { BLImageData d; Pix p; if (im.get_data(&d) != BL_SUCCESS) return p; p.w = d.size.w; p.h = d.size.h; p.fmt = d.format; size_t n = p.w * bpp(p.fmt);
    for (int y = 0; y < p.h; y++) { const uint8_t* r = (const uint8_t*)d.pixel_data + y * d.stride; p.d.insert(p.d.end(), r, r + n); } if (p.fmt == BL_FORMAT_XRGB32) for (size_t i = 3; i < p.d.size(); i += 4) p.d[i] = 0xFF; return p; }
  static void fill(Pix& p, int k) { p.d.resize(size_t(p.w) * p.h * bpp(p.fmt)); size_t n = bpp(p.fmt); for (size_t i = 0; i < size_t(p.w) * p.h; i++) { uint32_t c = kCol[(i * 7 + i / 3 + k) & 3]; if (n == 1) p.d[i] = uint8_t(c >> 24); else { if (p.fmt == BL_FORMAT_XRGB32) c |= 0xFF000000u; memcpy(&p.d[i * 4], &c, 4); } } }
  static void store(const BLImageData& d, const Pix& p) { size_t n = p.w * bpp(p.fmt); for (int y = 0; y < p.h; y++) memcpy((uint8_t*)d.pixel_data + y * d.stride, p.d.data() + y * n, n); }
  // Write access through make_mutable: the model says whether this variable may keep its storage.
  void own(int t) { if (users(b[t]) > 1 || (bl[b[t]].ext >= 0 && ex[bl[b[t]].ext]->ro)) { Pix p = bl[b[t]].p; b[t] = nb(p); } }
  void create(int t, int w, int h, int f, int k) {
    if (ctx_b >= 0 && ctx_b == b[t]) { return; }
    ok(v[t]->create(w, h, BLFormat(f))); Pix p; p.w = w; p.h = h; p.fmt = f; fill(p, k); b[t] = nb(p);
    BLImageData d; ok(v[t]->make_mutable(&d)); if (bad) return;
    if (d.size.w != w || d.size.h != h || (int)d.format != f) return err("create", "wrong size or format");
    store(d, p);
  }
  void wr(int t, int k) {
    BLImageData d; ok(v[t]->make_mutable(&d)); if (bad) return; own(t); Pix& p = bl[b[t]].p;
    if (d.size.w != p.w || d.size.h != p.h || (int)d.format != p.fmt) return err("make_mutable", "wrong size or format");
    if (!p.fmt) return;
    size_t n = bpp(p.fmt); uint32_t c = kCol[k]; if (n == 1) c >>= 24; size_t x = p.w - 1, y = p.h - 1;
    memcpy((uint8_t*)d.pixel_data + y * d.stride + x * n, &c, n); memcpy(p.d.data() + (y * p.w + x) * n, &c, n);
  }
  static void destroy(void* impl, void* data, void* ud) noexcept { (void)impl; Ext* e = (Ext*)ud; e->calls++; if (data != e->px) e->calls += 100; }
  void from_data(int t, int w, int h, int f, bool ro, bool neg, bool cb, int gap) {
    Ext* e = new Ext; e->id = (int)ex.size(); e->w = w; e->h = h; e->fmt = f; e->ro = ro; e->cb = cb; size_t n = w * bpp(f), st = n + gap; e->buf.assign(st * h + 16, 0xA5); e->stride = neg ? -intptr_t(st) : intptr_t(st); e->px = e->buf.data() + 8 + (neg ? st * (h - 1) : 0);
    Pix p; p.w = w; p.h = h; p.fmt = f; fill(p, 1 + e->id); BLImageData d; d.pixel_data = e->px; d.stride = e->stride; store(d, p); ex.push_back(e);
    ok(v[t]->create_from_data(w, h, BLFormat(f), e->px, e->stride, ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, cb ? destroy : nullptr, cb ? e : nullptr)); b[t] = nb(p, e->id); if (bad) return;
    BLImageData g; (void)v[t]->get_data(&g); if (g.pixel_data != e->px || g.stride != e->stride) err("external", "external memory not used in place");
  }
  void convert(int t, int f) {
    if (ctx_b >= 0 && ctx_b == b[t]) return;
    Pix& p = bl[b[t]].p; BLResult r = v[t]->convert(BLFormat(f));
    if (!p.fmt) { if (f == 0 ? r != BL_SUCCESS : r == BL_SUCCESS) err("convert", "empty image converted"); return; }
    if (f < 1 || f > 3) { if (r == BL_SUCCESS) err("convert", "converted to a format that does not exist"); return; }
    if (p.fmt == BL_FORMAT_XRGB32 && f == BL_FORMAT_A8 && r == BL_ERROR_INVALID_STATE) return;   // conversion not provided
    ok(r); if (f == p.fmt || bad) return;
    Pix q; q.w = p.w; q.h = p.h; q.fmt = f; q.d.resize(size_t(q.w) * q.h * bpp(f));
    for (size_t i = 0; i < size_t(q.w) * q.h; i++) {   // colors are opaque, or fully transparent black
      uint32_t s = 0; if (p.fmt == BL_FORMAT_A8) s = p.d[i]; else memcpy(&s, &p.d[i * 4], 4); uint32_t o;
      if (p.fmt == BL_FORMAT_A8) o = f == BL_FORMAT_PRGB32 ? s * 0x01010101u : (s * 0x010101u | 0xFF000000u);
      else if (p.fmt == BL_FORMAT_XRGB32) o = f == BL_FORMAT_A8 ? 255 : s | 0xFF000000u;
      else o = f == BL_FORMAT_A8 ? s >> 24 : s | 0xFF000000u;
      if (f == BL_FORMAT_A8) q.d[i] = uint8_t(o); else memcpy(&q.d[i * 4], &o, 4);
    }
    // In-place conversion of a writable external image keeps using the memory; anything else makes new storage.
    bool keep = bpp(f) == bpp(p.fmt) && users(b[t]) == 1 && !(bl[b[t]].ext >= 0 && ex[bl[b[t]].ext]->ro);
    if (keep && bl[b[t]].ext >= 0) { BLImageData g; (void)v[t]->get_data(&g); keep = g.pixel_data == ex[bl[b[t]].ext]->px; if (keep) bl[b[t]].p = q; else b[t] = nb(q); }
    else b[t] = nb(q);
  }
  IH(bool full) {
    for (int t = 0; t < N; t++) { int o = 1 - t; std::string n = std::string("img") + char('a' + t) + ".";
      add(n + "create(3x2 PRGB32)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.create(t, 3, 2, BL_FORMAT_PRGB32, 0); return true; });
      add(n + "create(5x3 A8)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.create(t, 5, 3, BL_FORMAT_A8, 1); return true; });
      if (!t || full) add(n + "create(70x5 XRGB32)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.create(t, 70, 5, BL_FORMAT_XRGB32, 2); return true; });
      add(n + "from_data(rw)", [=](IH& h) { h.from_data(t, 3, 2, BL_FORMAT_PRGB32, false, false, true, 4); return true; });
      add(n + "from_data(ro)", [=](IH& h) { h.from_data(t, 3, 2, BL_FORMAT_PRGB32, true, false, true, 8); return true; });
      if (!t || full) { add(n + "from_data(rw A8 neg)", [=](IH& h) { h.from_data(t, 3, 3, BL_FORMAT_A8, false, true, true, 1); return true; });
        add(n + "from_data(ro XRGB32 neg no callback)", [=](IH& h) { h.from_data(t, 2, 2, BL_FORMAT_XRGB32, true, true, false, 0); return true; }); }
      add(n + "write", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.wr(t, 3); return true; });
      if (!t || full) add(n + "write2", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.wr(t, 1); return true; });
      add(n + "assign(other)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[o]) return false; h.ok(h.v[t]->assign(*h.v[o])); h.b[t] = h.b[o]; return true; });
      add(n + "assign_deep(other)", [=](IH& h) { if (h.ctx_b >= 0 && (h.ctx_b == h.b[o] || h.ctx_b == h.b[t])) return false; h.ok(h.v[t]->assign_deep(*h.v[o])); Pix p = h.bl[h.b[o]].p; h.b[t] = h.nb(p); return true; });
      if (!t || full) add(n + "assign_deep(self)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.ok(h.v[t]->assign_deep(*h.v[t])); h.own(t); return true; });
      if (!t || full) add(n + "assign(self)", [=](IH& h) { h.ok(h.v[t]->assign(*h.v[t])); return true; });
      add(n + "move(other)", [=](IH& h) { h.ok(h.v[t]->assign(std::move(*h.v[o]))); h.b[t] = h.b[o]; h.b[o] = 0; return true; });
      add(n + "reset", [=](IH& h) { h.ok(h.v[t]->reset()); h.b[t] = 0; return true; });
      add(n + "create(0,0,NONE)", [=](IH& h) { if (t && !h.chk && 0) return false; h.ok(h.v[t]->create(0, 0, BL_FORMAT_NONE)); h.b[t] = 0; return true; });
      for (int f = 0; f <= 4; f++) { if (t && (f == 0 || f == 4) && !full) continue; add(n + "convert(" + std::to_string(f) + ")", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.convert(t, f); return true; }); }
      if (!t || full) add(n + "convert(200)", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[t]) return false; h.convert(t, 200); return true; });
      for (int e = 0; e < 5; e++) { if (t && !full) continue; add(n + "invalid" + std::to_string(e), [=](IH& h) { static uint8_t z[64]; BLResult r = e == 0 ? h.v[t]->create(0, 5, BL_FORMAT_PRGB32) : e == 1 ? h.v[t]->create(70000, 5, BL_FORMAT_PRGB32) : e == 2 ? h.v[t]->create(4, 4, BLFormat(9)) : e == 3 ? h.v[t]->create_from_data(4, 4, BL_FORMAT_PRGB32, z, 15, BL_DATA_ACCESS_RW) : h.v[t]->create_from_data(65535, 65535, BL_FORMAT_PRGB32, z, 262140, BL_DATA_ACCESS_RW); if (r == BL_SUCCESS) h.err("invalid", "accepted"); return true; }); }
      // Scaling to the same size keeps the colors; into itself or from the other image.
      for (int s = 0; s < 2; s++) { if (t && s && !full) continue; int src = s ? t : o; add(n + (s ? "scale(self)" : "scale(other)"), [=](IH& h) { if (h.ctx_b >= 0 && (h.ctx_b == h.b[t] || h.ctx_b == h.b[src])) return false; Pix p = h.bl[h.b[src]].p;
        h.ok(BLImage::scale(*h.v[t], *h.v[src], BLSizeI(p.w ? p.w : 4, p.h ? p.h : 4), BL_IMAGE_SCALE_FILTER_NEAREST)); h.b[t] = p.fmt ? h.nb(p) : 0; return true; });
        add(n + (s ? "scale2(self)" : "scale2(other)"), [=](IH& h) { if (h.ctx_b >= 0 && (h.ctx_b == h.b[t] || h.ctx_b == h.b[src])) return false; Pix p = h.bl[h.b[src]].p; if (p.w > 10) return false; Pix q = p; q.w *= 2; q.h *= 2; q.d.resize(p.d.size() * 4); size_t m = bpp(p.fmt); for (int y = 0; y < q.h; y++) for (int x = 0; x < q.w; x++) memcpy(&q.d[(size_t(y) * q.w + x) * m], &p.d[(size_t(y / 2) * p.w + x / 2) * m], m); if (p.fmt == BL_FORMAT_XRGB32) for (size_t i = 3; i < q.d.size(); i += 4) q.d[i] = 0xFF;
        h.ok(BLImage::scale(*h.v[t], *h.v[src], BLSizeI(p.w ? q.w : 4, p.w ? q.h : 4), BL_IMAGE_SCALE_FILTER_NEAREST)); h.b[t] = p.fmt ? h.nb(q) : 0; return true; }); }
      add(n + "begin", [=](IH& h) { if (h.ctx_b >= 0) return false; BLResult r = h.c->begin(*h.v[t]); if (!h.bl[h.b[t]].p.fmt) { if (r == BL_SUCCESS) h.err("begin", "context on an empty image"); return true; } h.ok(r); h.own(t); h.ctx_b = h.b[t]; return true; });
      if (!t || full) add(n + "begin(2 threads)", [=](IH& h) { if (h.ctx_b >= 0) return false; BLContextCreateInfo ci{}; ci.thread_count = 2; BLResult r = h.c->begin(*h.v[t], ci); if (!h.bl[h.b[t]].p.fmt) { if (r == BL_SUCCESS) h.err("begin", "context on an empty image"); return true; } h.ok(r); h.own(t); h.ctx_b = h.b[t]; return true; });
      // Drawing one image on the other: reads it only.
      add(n + "draw other", [=](IH& h) { if (h.ctx_b >= 0 || t == 1) return false; Pix s = h.bl[h.b[o]].p, &d0 = h.bl[h.b[t]].p; if (!s.fmt || !d0.fmt || s.fmt != d0.fmt) return false; BLContext c(*h.v[t]); h.own(t); Pix& d = h.bl[h.b[t]].p; c.set_comp_op(BL_COMP_OP_SRC_COPY); h.ok(c.blit_image(BLPointI(0, 0), *h.v[o])); h.ok(c.end()); size_t m = bpp(s.fmt); for (int y = 0; y < std::min(s.h, d.h); y++) for (int x = 0; x < std::min(s.w, d.w); x++) { memcpy(&d.d[(size_t(y) * d.w + x) * m], &s.d[(size_t(y) * s.w + x) * m], m); if (d.fmt == BL_FORMAT_XRGB32) d.d[(size_t(y) * d.w + x) * m + 3] = 0xFF; } return true; });
    }
    add("swap", [=](IH& h) { h.v[0]->swap(*h.v[1]); std::swap(h.b[0], h.b[1]); return true; });
    for (int k : {0, 3}) add("ctx.fill" + std::to_string(k), [=](IH& h) { if (h.ctx_b < 0) return false; Pix& p = h.bl[h.ctx_b].p; BLRgba32 col(kCol[k]); h.c->set_comp_op(BL_COMP_OP_SRC_COPY); h.ok(h.c->fill_rect(BLRect(1, 0, 1, 1), col)); h.ok(h.c->flush(BL_CONTEXT_FLUSH_SYNC)); uint32_t cc = kCol[k]; if (p.fmt == BL_FORMAT_XRGB32) cc |= 0xFF000000u; if (bpp(p.fmt) == 1) p.d[1] = uint8_t(cc >> 24); else memcpy(&p.d[4], &cc, 4); return true; });
    add("ctx.end", [=](IH& h) { if (h.ctx_b < 0) return false; h.ok(h.c->end()); h.ctx_b = -1; return true; });
    add("copy,write copy", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[0]) return false; if (!h.bl[h.b[0]].p.fmt) return false; BLImage x(*h.v[0]); BLImageData d; h.ok(x.make_mutable(&d)); memset(d.pixel_data, 0x77, bpp(d.format)); Pix p = h.bl[h.b[0]].p; memset(p.d.data(), 0x77, bpp(p.fmt)); if (p.fmt == BL_FORMAT_XRGB32) p.d[3] = 0xFF; if (h.chk && !(read(x) == p)) h.err("copy", "copy has wrong pixels"); return true; });
    add("copy,fill_all copy", [=](IH& h) { if (h.ctx_b >= 0 && h.ctx_b == h.b[0]) return false; if (!h.bl[h.b[0]].p.fmt) return false; BLImage x(*h.v[0]); BLContext c(x); h.ok(c.fill_all(BLRgba32(0xFFFFFFFFu))); h.ok(c.end()); Pix p = read(x); for (uint8_t q : p.d) if (q != 255) { h.err("copy", "rendering to a copy"); break; } return true; });
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { base = __sanitizer_get_current_allocated_bytes(); bl.clear(); ex.clear(); nb(Pix()); for (int i = 0; i < N; i++) { v[i] = new (mem[i]) BLImage(); b[i] = 0; } c = new (cmem) BLContext(); ctx_b = -1; live = true; bad = chk = false; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < N; i++) { v[i]->~BLImage(); b[i] = -1; } if (chk && !bad) check_ext("destroying the images"); c->~BLContext(); ctx_b = -1; if (chk && !bad) check_ext("destroying the context");
    for (Ext* e : ex) delete e; ex.clear(); ex.shrink_to_fit(); bl.clear(); bl.shrink_to_fit(); }
  void check_ext(const char* when) {
    for (size_t i = 0; i < ex.size(); i++) { Ext* e = ex[i]; bool used = false; Pix* cur = nullptr; for (size_t k = 0; k < bl.size(); k++) if (bl[k].ext == (int)i) { for (int t = 0; t < N; t++) if (b[t] == (int)k) used = true; if (ctx_b == (int)k) used = true; cur = &bl[k].p; }
      int want = e->cb && !used ? 1 : 0; if (e->calls != want) return err("release-callback", std::string(when) + ": called " + std::to_string(e->calls) + " times instead of " + std::to_string(want));
      size_t n = e->w * bpp(e->fmt); Bytes want_buf(e->buf.size(), 0xA5); if (!cur) continue;
      for (int y = 0; y < e->h; y++) memcpy(want_buf.data() + (e->px - e->buf.data()) + y * e->stride, cur->d.data() + y * n, n);
      if (memcmp(want_buf.data(), e->buf.data(), want_buf.size())) { size_t q = 0; while (want_buf[q] == e->buf[q]) q++; return err(e->ro ? "read-only-written" : "external-content", std::string(when) + ": byte " + std::to_string(q) + " of external memory is " + std::to_string(e->buf[q]) + " instead of " + std::to_string(want_buf[q])); } }
  }
  bool apply(int op, bool check) {
    chk = check; opn = ops[op].name.c_str(); bad = false; if (!ops[op].f(*this)) return false;
    if (check && !bad) {
      for (int i = 0; i < N && !bad; i++) {
        const Pix& p = bl[b[i]].p; BLImageData d; if (v[i]->get_data(&d) != BL_SUCCESS) { err("get_data", "failed"); break; }
        if (v[i]->width() != p.w || v[i]->height() != p.h || (int)v[i]->format() != p.fmt || d.size.w != p.w || d.size.h != p.h || (int)d.format != p.fmt || v[i]->is_empty() != !p.fmt || v[i]->depth() != bpp(p.fmt) * 8) { err("properties", std::string("image ") + char('a' + i) + ": wrong size or format"); break; }
        if (p.fmt && size_t(d.stride < 0 ? -d.stride : d.stride) < p.w * bpp(p.fmt)) { err("stride", "stride too small"); break; }
        Pix q = read(*v[i]); if (!(q == p)) { size_t k = 0; while (k < p.d.size() && p.d[k] == q.d[k]) k++; err("pixels", std::string("image ") + char('a' + i) + ": byte " + std::to_string(k) + " is " + std::to_string(q.d[k]) + " instead of " + std::to_string(p.d[k])); break; }
        BLImageData g; if (bl[b[i]].ext >= 0 && v[i]->get_data(&g) == BL_SUCCESS && g.pixel_data != ex[bl[b[i]].ext]->px) { err("external", "external memory no longer used in place"); break; }
      }
      if (!bad && v[0]->equals(*v[1]) != (bl[b[0]].p == bl[b[1]].p)) err("equals", "wrong result");
      if (!bad) check_ext("after the operation");
    }
    return !bad;
  }
  uint64_t state() { Hash h; for (int i = 0; i < N; i++) { const Block& k = bl[b[i]]; h.u(k.p.w * 1000 + k.p.h * 10 + k.p.fmt); h.b(k.p.d.data(), k.p.d.size()); h.u(k.ext >= 0 ? 1 + ex[k.ext]->ro : 0); h.u(k.ext >= 0 ? ex[k.ext]->cb : 0); } h.u(b[0] == b[1]); h.u(v[0]->_d.impl == v[1]->_d.impl);
    h.u(ctx_b < 0 ? 0 : ctx_b == b[0] ? 1 : ctx_b == b[1] ? 2 : 3 + (bl[ctx_b].ext >= 0)); return h.h; }
};

// Creation parameters: what is accepted, and that every accepted size gives writable rows.
static void sizes() {
  static const int W[] = {INT_MIN, -1, 0, 1, 2, 3, 15, 16, 17, 63, 64, 65, 66, 255, 256, 257, 263, 1024, 4097, 65534, 65535, 65536, INT_MAX};
  for (int w : W) for (int hh : {INT_MIN, -1, 0, 1, 2, 3, 17, 65535, 65536, INT_MAX}) for (int f = 0; f <= 5; f++) {
    char cs[96]; snprintf(cs, sizeof cs, "size:%d,%d,%d", w, hh, f); if (g.replaying ? g.replay != cs : !mine(w * 131u + hh * 7u)) continue; set_case("%s", cs); vh::stat("transitions");
    bool valid = w > 0 && hh > 0 && f >= 1 && f <= 3 && w <= 65535 && hh <= 65535; uint64_t bytes = valid ? uint64_t(w) * bpp(f) * hh : 0; bool big = bytes > 0x7FFFFFFFu;
    if (valid && !big && bytes > 16000000) continue;
    BLImage im; (void)im.create(2, 2, BL_FORMAT_A8); BLResult r = im.create(w, hh, BLFormat(f));
    if (w == 0 && hh == 0 && f == 0) { if (r != BL_SUCCESS || !im.is_empty()) fail("create", "create(0, 0, NONE) does not reset"); continue; }
    if ((r == BL_SUCCESS) != (valid && !big)) { fail("create", "result %u", r); continue; }
    if (r != BL_SUCCESS) { if (im.width() != 2 || im.height() != 2 || im.format() != BL_FORMAT_A8) fail("create-error", "image changed by a failed create"); if ((r == BL_ERROR_IMAGE_TOO_LARGE) != (w > 0 && hh > 0 && f >= 1 && f <= 3)) fail("create-error", "error %u", r); continue; }
    BLImageData d; if (im.make_mutable(&d) != BL_SUCCESS || d.size.w != w || d.size.h != hh || (int)d.format != f || d.stride < intptr_t(w * bpp(f))) { fail("create", "wrong data"); continue; }
    for (int y = 0; y < hh; y++) memset((uint8_t*)d.pixel_data + y * d.stride, y, w * bpp(f));
    BLImage c(im), e; if (e.assign_deep(c) != BL_SUCCESS || !e.equals(im)) fail("deep", "deep copy differs"); BLImageData ed; (void)e.get_data(&ed); if (ed.pixel_data == d.pixel_data) fail("deep", "deep copy shares pixels");
    if (c.make_mutable(&ed) != BL_SUCCESS || ed.pixel_data == d.pixel_data || !c.equals(im)) fail("mutable", "copy not detached");
    for (int y = 0; y < hh; y++) for (uint8_t* q = (uint8_t*)ed.pixel_data + y * ed.stride, *z = q + w * bpp(f); q < z; q += 997) *q ^= 1; if (c.equals(im)) fail("equals", "different images are equal");
  }
}
// Parameters of images over external memory: what is accepted; a refused call changes nothing and does not release the memory.
static int gReleased; static void release_cb(void*, void*, void*) noexcept { gReleased++; }
static void from_data() {
  static const int W[] = {INT_MIN, -1, 0, 1, 3, 64, 65535, 65536, INT_MAX}, F[] = {INT_MIN, -1, 0, 1, 2, 3, 4, 5, 15, 16, 1000, INT_MAX}; static uint8_t px[64];
  for (int w : W) for (int hh : {INT_MIN, -1, 0, 1, 2, 17, 65535, 65536, INT_MAX}) for (int f : F) {
    char cs[96]; snprintf(cs, sizeof cs, "size:data,%d,%d,%d", w, hh, f); if (g.replaying ? g.replay != cs : !mine(w * 131u + hh * 7u + f)) continue; set_case("%s", cs);
    bool valid = w > 0 && hh > 0 && f >= 1 && f <= 3 && w <= 65535 && hh <= 65535; int64_t mn = valid ? int64_t(w) * bpp(f) : 4, mx = valid ? 0x7FFFFFFF / hh : 0x7FFFFFFF;
    for (int64_t st : {int64_t(0), int64_t(1), mn - 1, mn, mn + 3, mx, mx + 1, int64_t(0x7FFFFFFF), int64_t(0x80000000), int64_t(1) << 32, (int64_t(1) << 32) + mn, int64_t(1) << 48, int64_t(1) << 62, INT64_MAX, INT64_MIN}) for (int sg = 0; sg < 2; sg++) {
      if (sg && (st == 0 || st == INT64_MIN)) continue; int64_t t = sg ? -st : st; uint64_t ab = st == INT64_MIN ? uint64_t(1) << 63 : uint64_t(st < 0 ? -st : st); vh::stat("transitions");
      BLResult want = !valid || ab < uint64_t(mn) ? BL_ERROR_INVALID_VALUE : ab > uint64_t(mx) ? BL_ERROR_IMAGE_TOO_LARGE : BL_SUCCESS;
      for (int prev = 0; prev < 2; prev++) { gReleased = 0; { BLImage im; (void)im.create(2, 2, BL_FORMAT_A8); if (prev) (void)im.create_from_data(2, 2, BL_FORMAT_A8, px + 8, 2, BL_DATA_ACCESS_RW, nullptr, nullptr);
          BLResult r = im.create_from_data(w, hh, BLFormat(f), px, intptr_t(t), BL_DATA_ACCESS_RW, release_cb, nullptr); BLImageData d; (void)im.get_data(&d);
          if (r != want) { fail("create-from-data", "stride %lld: result %u instead of %u", (long long)t, r, want); break; }
          if (r == BL_SUCCESS ? (d.size.w != w || d.size.h != hh || (int)d.format != f || d.stride != t || d.pixel_data != px || gReleased) : (im.width() != 2 || im.height() != 2 || im.format() != BL_FORMAT_A8 || gReleased)) { fail("create-from-data", "stride %lld: wrong image after result %u", (long long)t, r); break; } }
        if (gReleased != (want == BL_SUCCESS)) fail("create-from-data", "stride %lld: released %d times", (long long)t, gReleased); } } } }
int main(int argc, char** argv) {
  init(argc, argv); { BLImage i(4, 4, BL_FORMAT_PRGB32); BLContextCreateInfo ci{}; ci.thread_count = 2; BLContext c(i, ci); c.fill_all(BLRgba32(1)); }
  if (!g.replaying || g.replay.substr(0, 5) == "size:") { sizes(); from_data(); }
  { IH h(true); bfs(h, "image", g.thorough ? 7 : 5); }
  return done();
}
