// C25: encode -> decode. Every image of a systematic family x format x codec x encoder setting x memory layout is written, checked for well-formedness by an
// independent parser, read back and compared pixel by pixel.
#include <blend2d/blend2d.h>
#include "vh.h"
#include "codec_gen.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace vh;
using gen::Bytes;
static const char* CN[] = {"PNG", "BMP", "QOI"};
static BLImageCodec gCodec[3];
typedef std::function<uint32_t(int, int)> PixFn;
// Valid premultiplied pixel made of any 32 bits.
static uint32_t prem(uint32_t v) { uint32_t a = v >> 24, o = a << 24; for (int s = 0; s < 24; s += 8) { uint32_t c = (v >> s) & 255; o |= (c * a / 255) << s; } return o; }
static uint32_t want(int codec, BLFormat f, uint32_t v) { if (f == BL_FORMAT_PRGB32) return v; if (f == BL_FORMAT_XRGB32) return v | 0xFF000000u; v &= 255; return codec == 2 ? v * 0x01010101u : 0xFF000000u | v * 0x010101u; }
// Memory layouts: 0 created, 1 external with a wide stride and guard bytes, 2 external with a negative stride (bottom up), 3 pixels of a clone that shares.
struct Src { std::vector<uint8_t> buf, copy; BLImage img; };
static void make(Src& s, int w, int h, BLFormat f, int layout, const PixFn& px, uint8_t junk) {
  int bpp = f == BL_FORMAT_A8 ? 1 : 4; uint8_t* base; intptr_t stride;
  if (layout == 1 || layout == 2) { intptr_t st = intptr_t(w) * bpp + (bpp == 4 ? 12 : 5); s.buf.assign(size_t(st) * h + 64, junk); base = s.buf.data() + 16; stride = st; if (layout == 2) { base += st * (h - 1); stride = -st; } s.img.create_from_data(w, h, f, base, stride); }
  else { s.img.create(w, h, f); BLImageData d; s.img.make_mutable(&d); base = (uint8_t*)d.pixel_data; stride = d.stride; }
  for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = px(x, y); if (f == BL_FORMAT_A8) base[y * stride + x] = uint8_t(v); else { if (f == BL_FORMAT_XRGB32) v = (v & 0xFFFFFFu) | uint32_t(junk) << 24; memcpy(base + y * stride + x * 4, &v, 4); } }
  s.copy = s.buf;
}
static uint32_t crc_(const uint8_t* p, size_t n) { return uint32_t(crc32(0, p, uInt(n))); }
static uint32_t be(const uint8_t* p) { return uint32_t(p[0]) << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static uint32_t le(const uint8_t* p) { return uint32_t(p[3]) << 24 | p[2] << 16 | p[1] << 8 | p[0]; }
static const char* wellformed(int codec, const uint8_t* p, size_t n, int w, int h) {
  if (codec == 0) { static const uint8_t sig[8] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; if (n < 8 || memcmp(p, sig, 8)) return "signature"; size_t i = 8; Bytes z; int k = 0; bool end = false; int ct = 0;
    while (i < n) { if (end) return "data after IEND"; if (i + 12 > n) return "partial chunk"; uint32_t m = be(p + i); if (m > n - i - 12) return "chunk length"; if (crc_(p + i + 4, m + 4) != be(p + i + 8 + m)) return "chunk checksum";
      if (k == 0) { if (memcmp(p + i + 4, "IHDR", 4) || m != 13 || be(p + i + 8) != uint32_t(w) || be(p + i + 12) != uint32_t(h) || p[i + 16] != 8) return "IHDR"; ct = p[i + 17]; } else if (!memcmp(p + i + 4, "IDAT", 4)) z.insert(z.end(), p + i + 8, p + i + 8 + m); else if (!memcmp(p + i + 4, "IEND", 4)) end = true; k++; i += 12 + m; }
    if (!end) return "no IEND"; uLongf want = uLongf(w * (ct == 0 ? 1 : ct == 2 ? 3 : 4) + 1) * h, got = want + 1; Bytes o(got); if (uncompress(o.data(), &got, z.data(), uLong(z.size())) != Z_OK || got != want) return "compressed data"; return nullptr; }
  if (codec == 1) { if (n < 54 || memcmp(p, "BM", 2)) return "signature"; if (le(p + 2) != n) return "file size"; uint32_t hs = le(p + 14), off = le(p + 10); if (le(p + 18) != uint32_t(w) || le(p + 22) != uint32_t(h)) return "size"; int d = p[28]; size_t bpl = (size_t(w) * d + 31) / 32 * 4; if (off < 14 + hs || off + bpl * h != n) return "pixel data offset or size";
    for (int y = 0; y < h; y++) for (size_t k = (size_t(w) * d + 7) / 8; k < bpl; k++) if (p[off + bpl * y + k]) return "row padding is not zero"; return nullptr; }
  if (n < 22 || memcmp(p, "qoif", 4) || be(p + 4) != uint32_t(w) || be(p + 8) != uint32_t(h) || p[12] < 3 || p[12] > 4 || p[13] > 1) return "header"; static const uint8_t e[8] = {0, 0, 0, 0, 0, 0, 0, 1}; if (memcmp(p + n - 8, e, 8)) return "end marker";
  size_t i = 14, px = 0; while (i < n - 8) { int b = p[i]; if (b == 0xFE) { i += 4; px++; } else if (b == 0xFF) { i += 5; px++; } else if (b >> 6 == 2) { i += 2; px++; } else if (b >> 6 == 3) { i++; px += (b & 63) + 1; } else { i++; px++; } } return i != n - 8 || px != size_t(w) * h ? "tokens" : nullptr;
}
static void round_trip(const char* what, int w, int h, BLFormat f, int codec, int level, int layout, const PixFn& px0) {
  PixFn px = f == BL_FORMAT_PRGB32 ? PixFn([&](int x, int y) { return prem(px0(x, y)); }) : px0; char d[160]; snprintf(d, sizeof d, "%s: %dx%d format %d as %s level %d layout %d", what, w, h, int(f), CN[codec], level, layout);
  vh::stat("transitions"); Bytes first;
  for (int turn = 0; turn < 2; turn++) {
    Src s; make(s, w, h, f, layout, px, turn ? 0xA5 : 0x3C); BLImage keep(s.img); BLArray<uint8_t> out; if (turn) out.append(uint8_t(7), uint8_t(8));
    BLImageEncoder enc; gCodec[codec].create_encoder(&enc); if (level >= 0 && enc.set_property("compression", BLVar(level)) != BL_SUCCESS) { fail("set-level", "%s: the compression level is refused", d); return; }
    BLResult r = level < 0 ? s.img.write_to_data(out, gCodec[codec]) : enc.write_frame(out, s.img);
    if (r != BL_SUCCESS) { fail("encode", "%s: writing failed with %u", d, r); return; }
    if (s.buf != s.copy) { fail("source-changed", "%s: writing changed the source's memory", d); return; }
    BLImageData k; s.img.get_data(&k); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v = 0; memcpy(&v, (uint8_t*)k.pixel_data + y * k.stride + x * (f == BL_FORMAT_A8 ? 1 : 4), f == BL_FORMAT_A8 ? 1 : 4); uint32_t q = px(x, y); if (f == BL_FORMAT_A8) q &= 255; if (f == BL_FORMAT_XRGB32) { v &= 0xFFFFFF; q &= 0xFFFFFF; } if (v != q) { fail("source-changed", "%s: writing changed the source image", d); return; } }
    Bytes b(out.data(), out.data() + out.size()); if (!turn) first = b; else if (b != first) { fail("nondeterministic", "%s: the file depends on the contents of the buffer or of unused bytes (%zu and %zu bytes)", d, first.size(), b.size()); return; }
    if (turn) return;
    const char* bad = wellformed(codec, b.data(), b.size(), w, h); if (bad) { fail("malformed", "%s: malformed file: %s", d, bad); return; }
    uint8_t* p = (uint8_t*)malloc(b.size()); memcpy(p, b.data(), b.size()); BLImage im; BLImageCodec any; BLResult rr = any.find_by_data(p, b.size());
    if (rr != BL_SUCCESS || !(any == gCodec[codec])) fail("not-recognised", "%s: the codec is not recognised from the data", d);
    BLImageDecoder dec; BLImageInfo info{}; gCodec[codec].create_decoder(&dec); rr = dec.read_info(info, p, b.size()); if (rr != BL_SUCCESS || info.size.w != w || info.size.h != h) fail("info", "%s: read_info %u announces %dx%d", d, rr, info.size.w, info.size.h);
    rr = im.read_from_data(p, b.size()); free(p);
    if (rr != BL_SUCCESS) { fail("decode", "%s: reading back failed with %u", d, rr); return; }
    BLImageData q; im.get_data(&q); if (q.size.w != w || q.size.h != h) { fail("size", "%s: read back as %dx%d", d, q.size.w, q.size.h); return; }
    if (q.format == BL_FORMAT_A8) { fail("format", "%s: read back as A8", d); return; }
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) { uint32_t v, e = want(codec, f, px(x, y)); memcpy(&v, (uint8_t*)q.pixel_data + y * q.stride + x * 4, 4); if (q.format == BL_FORMAT_XRGB32) { v |= 0xFF000000u; } if (v != e) { fail("pixel", "%s: pixel (%d,%d) is %08X instead of %08X (written from %08X)", d, x, y, v, e, px(x, y)); return; } }
    vh::stat("bytes", b.size());
  }
}
static const BLFormat FM[] = {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32, BL_FORMAT_A8};
static uint64_t nIt; static size_t nGrp;
static void item(const std::function<void()>& f) { uint64_t n = nIt++; char cs[64]; snprintf(cs, sizeof cs, "%zu:%llu", nGrp, (unsigned long long)n); if (g.replaying) { if (g.replay != cs) return; } else if (!mine(int64_t(n)) || over_budget()) return; set_case("%s", cs); f(); }
static void all(const char* what, int w, int h, const PixFn& px, bool levels = false, bool layouts = false) { std::string nm = what; item([=] { for (BLFormat f : FM) for (int c = 0; c < 3; c++) for (int l = (levels && c == 0) ? 0 : -1; l <= ((levels && c == 0) ? 12 : -1); l++) for (int lay = 0; lay < (layouts ? 3 : 1); lay++) round_trip(nm.c_str(), w, h, f, c, l, lay, px); }); }
static void group(size_t k) {
  nGrp = k; nIt = 0;
  if (k == 0) { // Every short sequence of colors, each related in a different way to the ones before it.
    static const uint32_t A[] = {0xFF000000u, 0x00000000u, 0xFF010101u, 0xFFFEFF01u, 0xFF0A1408u, 0xFF203060u, 0x80102030u, 0xFF15060Fu /* same hash as black */, 0xFFFFFFFFu}; int n = 9, len = g.thorough ? 6 : 5;
    for (int L = 1; L <= len; L++) { int t = 1; for (int i = 0; i < L; i++) t *= n; for (int c = 0; c < t; c += 16) item([=] { for (int q = c; q < std::min(c + 16, t); q++) { int v[8], x = q; for (int i = 0; i < L; i++) { v[i] = x % n; x /= n; } for (BLFormat f : FM) for (int cd = 0; cd < 3; cd++) { if (cd != 2 && q % 5) continue; round_trip("sequence", L, 1, f, cd, -1, 0, [&](int i, int) { return A[v[i]]; }); if (cd == 2 && L == 4) round_trip("sequence", 2, 2, f, cd, -1, 0, [&](int i, int j) { return A[v[i + j * 2]]; }); } } }); }
  }
  if (k == 1) { // QOI: every difference of two successive pixels of all channels around the limits of the short forms, from several bases.
    static const int D[] = {-128, -48, -41, -40, -33, -32, -31, -11, -10, -9, -8, -7, -6, -4, -3, -2, -1, 0, 1, 2, 3, 5, 6, 7, 8, 9, 30, 31, 32, 33, 38, 39, 40, 127}; for (uint32_t base : {0xFF808080u, 0xFF000000u, 0xFFFFFFFFu, 0x80404040u}) for (int dg : D) item([=] { for (BLFormat f : {BL_FORMAT_PRGB32, BL_FORMAT_XRGB32}) for (int dr : D) { int m = int(sizeof D / sizeof *D); round_trip("differences", 2 * m, 1, f, 2, -1, 0, [&](int x, int) { if (x & 1) return base; int db = D[x / 2]; uint32_t r = ((base >> 16) + dr) & 255, gg = ((base >> 8) + dg) & 255, b = (base + db) & 255; return (base & 0xFF000000u) | r << 16 | gg << 8 | b; }); } });
    for (int a = 0; a < 256; a++) item([=] { for (int codec = 0; codec < 3; codec++) round_trip("premultiplied", 256, 2, BL_FORMAT_PRGB32, codec, -1, 0, [&](int x, int y) { return uint32_t(a) << 24 | x << 16 | (255 - x) << 8 | (y ? x : a); }); });
    for (int a = 0; a < 256; a++) item([=] { for (int v = 0; v < 256; v++) for (BLFormat f : FM) round_trip("masks", 3, 1, f, 2, -1, 0, [&](int x, int) { uint32_t q = x == 1 ? v : a; return f == BL_FORMAT_A8 ? q : 0xFF000000u | q * 0x010101u; }); });
  }
  if (k == 2) { // Runs: every length before, between and after other pixels, in one row and across rows.
    for (int n = 1; n <= (g.thorough ? 400 : 260); n++) for (int pre = 0; pre < 3; pre++) for (int post = 0; post < 2; post++) item([=] { for (uint32_t c : {0xFF000000u, 0u, 0xFF112233u, 0xFFFFFFFFu}) for (BLFormat f : FM) for (int cd = 0; cd < 3; cd++) { if (cd != 2 && n % 7) continue; int t = pre + n + post; PixFn px = [&](int x, int y) { int i = x + y; return i < pre ? 0xFF405060u + i * 0x010203u : i < pre + n ? c : 0xFF908070u; }; round_trip("run", t, 1, f, cd, -1, 0, px); for (int w : {1, 2, 7, 62, 63}) if (t % w == 0) round_trip("run over rows", w, t / w, f, cd, -1, 0, [&](int x, int y) { return px(x + y * w, 0); }); } });
  }
  if (k == 3) { // Every size with structured contents, layout and level.
    int W = g.thorough ? 140 : 67; for (int w = 1; w <= W; w++) for (int h = 1; h <= 6; h++) { bool lv = h == 3 && w % 4 == 1;
      all("gradient", w, h, [](int x, int y) { return uint32_t(0xFF000000u | (x * 3) << 16 | (y * 40) << 8 | ((x + y) & 255)); }, lv, true);
      all("noise", w, h, [](int x, int y) { return gen::rnd(x * 977 + y * 13); }, lv, true); all("checkers", w, h, [](int x, int y) { return (x + y) & 1 ? 0xFF204060u : 0x40FFFFFFu; }, false, true);
      all("transparent", w, h, [](int, int) { return 0u; }); all("white", w, h, [](int, int) { return 0xFFFFFFFFu; }); all("one pixel", w, h, [=](int x, int y) { return x == w - 1 && y == h - 1 ? 0x01010101u : 0u; }); }
  }
  if (k == 4) { // Large images, all levels: matches beyond the window, stored blocks, long rows.
    struct S { int w, h; }; for (S s : {S{256, 256}, S{300, 170}, S{1000, 70}, S{1, 3000}, S{4000, 1}, S{65535, 1}, S{1, 65535}, S{129, 513}}) for (int kind = 0; kind < 6; kind++) for (BLFormat f : FM) for (int c = 0; c < 3; c++) for (int l = c == 0 ? 0 : -1; l <= (c == 0 ? 12 : -1); l++) { if (!g.thorough && c == 0 && l > 9 && kind % 2) continue; item([=] { PixFn px = [=](int x, int y) -> uint32_t { uint32_t i = uint32_t(y) * s.w + x; switch (kind) { case 0: return gen::rnd(i); case 1: return 0xFF000000u | (gen::rnd(i % 37) & 0xFFFFFF); case 2: return gen::rnd(i % 33000); case 3: return (gen::rnd(i / 300) & 1) ? 0xFFFFFFFFu : 0xFF336699u; case 4: return 0xFF000000u | (i * 257 & 0xFFFFFF); default: return 0x20202020u; } }; round_trip("large", s.w, s.h, f, c, l, 0, px); }); }
  }
  if (k == 5) { // Files, extensions, encoder reuse, refused images.
    item([] { vh::stat("transitions"); for (int c = 0; c < 3; c++) { BLImageEncoder e; gCodec[c].create_encoder(&e); BLArray<uint8_t> out; out.append(uint8_t(1), uint8_t(2)); BLImage none; if (e.write_frame(out, none) == BL_SUCCESS || none.write_to_data(out, gCodec[c]) == BL_SUCCESS) fail("empty", "an empty image can be written as %s", CN[c]); if (out.size() != 2 || out[0] != 1 || out[1] != 2) fail("refused", "refusing an image changes the buffer (%s)", CN[c]); } });
    item([] { BLImageCodec j; if (j.find_by_name("JPEG") == BL_SUCCESS && !(j.features() & BL_IMAGE_CODEC_FEATURE_WRITE)) { Src s; make(s, 3, 3, BL_FORMAT_PRGB32, 0, [](int, int) { return 0xFF00FF00u; }, 0); BLArray<uint8_t> out; out.append(uint8_t(5)); BLResult r = s.img.write_to_data(out, j); if (r == BL_SUCCESS || out.size() != 1) fail("refused", "writing with a codec that cannot write gives %u", r); } });
    for (int c = 0; c < 3; c++) for (BLFormat f : FM) item([=] { vh::stat("transitions"); BLImageEncoder e; gCodec[c].create_encoder(&e); Src a, b; make(a, 5, 4, f, 0, [](int x, int y) { return prem(gen::rnd(x * 31 + y)); }, 0); make(b, 3, 6, f, 1, [](int x, int y) { return prem(gen::rnd(x * 7 + y * 91)); }, 0);
      BLArray<uint8_t> fresh[2], one; a.img.write_to_data(fresh[0], gCodec[c]); b.img.write_to_data(fresh[1], gCodec[c]); for (int round = 0; round < 4; round++) { if (round == 3) e.restart(); BLArray<uint8_t> keep(one); Bytes kb(keep.data(), keep.data() + keep.size()); BLResult r = e.write_frame(one, round & 1 ? b.img : a.img); if (r != BL_SUCCESS || !one.equals(fresh[round & 1])) fail("reuse", "writing image %d with a used %s encoder into a used buffer differs (result %u, %zu bytes)", round, CN[c], r, one.size()); if (Bytes(keep.data(), keep.data() + keep.size()) != kb) fail("shared-buffer", "writing a %s changed another array that shared the buffer", CN[c]); } });
    char dir[64]; snprintf(dir, sizeof dir, "/tmp/c25.%d", int(getpid())); std::string ds = dir; mkdir(dir, 0700);
    static const char* EXT[][3] = {{"png", "PNG", "pNg"}, {"bmp", "BMP", "Bmp"}, {"qoi", "QOI", "qOi"}};
    for (int c = 0; c < 3; c++) for (BLFormat f : FM) for (int k = 0; k < 3; k++) for (int old = 0; old < 2; old++) item([=] { vh::stat("transitions"); std::string fn = ds + "/a.b." + EXT[c][k]; Src s, big; make(s, 6, 5, f, 0, [](int x, int y) { return prem(gen::rnd(x * 31 + y)); }, 0); make(big, 40, 40, f, 0, [](int x, int y) { return prem(gen::rnd(x * 3 + y * 50)); }, 0); unlink(fn.c_str()); if (old) big.img.write_to_file(fn.c_str()); BLArray<uint8_t> mem, file; s.img.write_to_data(mem, gCodec[c]); BLResult r = k == 0 ? s.img.write_to_file(fn.c_str(), gCodec[c]) : s.img.write_to_file(fn.c_str()); if (r != BL_SUCCESS) fail("file", "writing %s failed with %u", EXT[c][k], r); else { BLFileSystem::read_file(fn.c_str(), file); if (!file.equals(mem)) fail("file", "the .%s file holds %zu bytes instead of %zu", EXT[c][k], file.size(), mem.size()); BLImage x, y; BLResult a = x.read_from_file(fn.c_str()), b = y.read_from_data(mem.data(), mem.size()); if (a != BL_SUCCESS || b != BL_SUCCESS || !x.equals(y)) fail("file", "reading the .%s file and its data differ (%u, %u)", EXT[c][k], a, b); } unlink(fn.c_str()); });
    item([=] { Src s; make(s, 2, 2, BL_FORMAT_PRGB32, 0, [](int, int) { return 0u; }, 0); for (const char* n : {"/x.unknown", "/png", "/x", "/x.pngg", "/x.png.txt"}) { std::string fn = ds + n; if (s.img.write_to_file(fn.c_str()) == BL_SUCCESS || access(fn.c_str(), F_OK) == 0) { fail("extension", "%s is written although no codec has that extension", n); unlink(fn.c_str()); } } });
    rmdir(dir);
  }
}
int main(int argc, char** argv) {
  init(argc, argv); (void)bl_runtime_init(); for (int c = 0; c < 3; c++) gCodec[c].find_by_name(CN[c]);
  for (size_t k = 0; k < 6; k++) { double t0 = now(); group(k); if (getenv("C25_DEV") && g.shard == 0) fprintf(stderr, "group %zu: %llu items %.1fs\n", k, (unsigned long long)nIt, now() - t0); }
  return done();
}
