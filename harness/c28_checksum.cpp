// C28: CRC-32 and Adler-32 of every implementation for every length/alignment/split in a bounded space, against bitwise definitions.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/api.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/compression/checksum_p.h>
#include "vh.h"
using namespace vh;
namespace CS = bl::Compression::Checksum;
typedef uint32_t (*Fn)(uint32_t, const uint8_t*, size_t);
static uint32_t crc_def(uint32_t c, const uint8_t* p, size_t n) {
  static uint32_t t[256]; static bool init = false;
  if (!init) { for (uint32_t i = 0; i < 256; i++) { uint32_t v = i; for (int k = 0; k < 8; k++) v = (v & 1) ? (v >> 1) ^ 0xEDB88320u : v >> 1; t[i] = v; } init = true; }
  for (size_t i = 0; i < n; i++) c = (c >> 8) ^ t[(c ^ p[i]) & 255]; return c;
}
static uint32_t adler_def(uint32_t c, const uint8_t* p, size_t n) {
  uint32_t a = c & 0xFFFF, b = c >> 16;
  for (size_t i = 0; i < n; i++) { a += p[i]; if (a >= 65521) a -= 65521; b += a; if (b >= 65521) b -= 65521; }
  return a | b << 16;
}
struct Impl { const char* name; bool crc; Fn fn; };
static std::vector<Impl> impls;
// Buffer whose end is the end of the allocation so that any overread is seen by AddressSanitizer.
struct Buf {
  uint8_t* base; uint8_t* p; size_t n;
  Buf(size_t align, size_t n_) : n(n_) { base = (uint8_t*)aligned_alloc_(n + align); p = base + align; }
  static void* aligned_alloc_(size_t n) { void* p = nullptr; if (posix_memalign(&p, 64, n ? n : 1)) abort(); return p; }
  ~Buf() { free(base); }
};
// Test data is a function of (pattern, i, len) so that a case can be replayed from its numbers.
static uint8_t gen(int pat, uint32_t arg, size_t i, size_t n) {
  switch (pat) {
    case 0: return 0; case 1: return 255; case 2: return uint8_t(i * 7 + 3); case 3: { uint32_t x = uint32_t(i) * 2654435761u + 12345u; x ^= x >> 15; x *= 2246822519u; return uint8_t(x >> 24); }
    case 4: return i == arg / 8 ? uint8_t(1u << (arg & 7)) : 0;       // One bit.
    case 5: return i == arg ? 0 : 255;                                // One zero byte.
    case 6: return uint8_t(arg >> (8 * i));                           // Every short string.
    case 7: return 254; case 8: return i & 1 ? 255 : 0; case 9: return i < n / 2 ? 255 : 0; case 10: return i == arg ? 255 : 0;
  }
  return 0;
}
static uint32_t inits[] = {0xFFFFFFFFu, 0u, 1u, 0xFFF0FFF0u /* Adler worst case: both sums 65520 */, 0x12345678u};
static void one(int im, int pat, uint32_t arg, size_t len, size_t align, int ini, size_t s1, size_t s2, const uint8_t* data, uint32_t want) {
  const Impl& I = impls[im];
  uint32_t c = inits[ini];
  c = I.fn(c, data, s1); c = I.fn(c, data + s1, s2 - s1); if (s2 < len) c = I.fn(c, data + s2, len - s2);
  vh::stat("transitions");
  if (c != want) {
    set_case("%d,%d,%u,%zu,%zu,%d,%zu,%zu", im, pat, arg, len, align, ini, s1, s2);
    fail(I.name, "%s of %zu bytes (pattern %d/%u, alignment %zu, initial %08x, pieces %zu+%zu+%zu) is %08x, the definition gives %08x", I.name, len, pat, arg, align, inits[ini], s1, s2 - s1, len - s2, c, want);
  }
}
static void fill(Buf& b, int pat, uint32_t arg) { for (size_t i = 0; i < b.n; i++) b.p[i] = gen(pat, arg, i, b.n); }
static void all_impls(int pat, uint32_t arg, size_t len, size_t align, int splits) {
  Buf b(align, len); fill(b, pat, arg);
  set_case("*,%d,%u,%zu,%zu,*,%d", pat, arg, len, align, splits);
  for (int ini = 0; ini < 5; ini++) {
    uint32_t wc = crc_def(inits[ini], b.p, len), wa = adler_def(inits[ini], b.p, len);
    for (size_t im = 0; im < impls.size(); im++) {
      if (!impls[im].crc && ini == 0) continue;   // Not a value of two sums modulo 65521.
      uint32_t w = impls[im].crc ? wc : wa;
      if (splits == 0) one(int(im), pat, arg, len, align, ini, len, len, b.p, w);
      if (splits == 2) for (size_t i = 0; i <= len; i++) one(int(im), pat, arg, len, align, ini, i, len, b.p, w);
      if (splits == 3) for (size_t i = 0; i <= len; i++) for (size_t j = i; j <= len; j++) one(int(im), pat, arg, len, align, ini, i, j, b.p, w);
    }
  }
}
int main(int argc, char** argv) {
  init(argc, argv);
  bl_runtime_init();
  impls.push_back({"crc32_update_ref", true, CS::crc32_update_ref});
  impls.push_back({"adler32_update_ref", false, CS::adler32_update_ref});
#if defined(BL_BUILD_OPT_SSE4_2)
  impls.push_back({"crc32_update_sse4_2", true, CS::crc32_update_sse4_2});
#endif
#if defined(BL_BUILD_OPT_SSE2)
  impls.push_back({"adler32_update_sse2", false, CS::adler32_update_sse2});
#endif
  impls.push_back({"crc32 (dispatched)", true, CS::function_table.crc32});
  impls.push_back({"adler32 (dispatched)", false, CS::function_table.adler32});
  if (g.replaying) {
    int im, pat, ini; unsigned arg; size_t len, align, a, b;
    if (sscanf(g.replay.c_str(), "%d,%d,%u,%zu,%zu,%d,%zu,%zu", &im, &pat, &arg, &len, &align, &ini, &a, &b) == 8) {
      Buf bf(align, len); fill(bf, pat, arg);
      one(im, pat, arg, len, align, ini, a, b, bf.p, impls[im].crc ? crc_def(inits[ini], bf.p, len) : adler_def(inits[ini], bf.p, len));
    }
    else if (sscanf(g.replay.c_str(), "*,%d,%u,%zu,%zu,*,%d", &pat, &arg, &len, &align, &ini) == 5) all_impls(pat, arg, len, align, ini);
    if (g.replay.rfind("whole", 0) != 0) return done();
  }
  uint64_t u = 0; bool T = g.thorough;
  const int pats[] = {0, 1, 2, 3, 7, 8, 9};
  if (!g.replaying) {
  // Every length and alignment, several data patterns, one piece.
  for (size_t len = 0; len <= (T ? 1200u : 420u); len++) if (mine(u++)) for (size_t al = 0; al < 16; al++) for (int p : pats) all_impls(p, 0, len, al, 0);
  // Every single set bit / single deviating byte.
  for (size_t len = 1; len <= (T ? 300u : 150u); len++) if (mine(u++)) for (size_t al = 0; al < 16; al += (T || len <= 80 ? 1 : 5)) {
    for (uint32_t bit = 0; bit < len * 8; bit++) all_impls(4, bit, len, al, 0);
    for (uint32_t i = 0; i < len; i++) { all_impls(5, i, len, al, 0); all_impls(10, i, len, al, 0); }
  }
  // Every string of up to 2 bytes (3 in the thorough tier).
  for (size_t len = 1; len <= (T ? 3u : 2u); len++) for (uint32_t v = 0; v < (1u << (8 * len)); v++) if (mine(v >> 6)) all_impls(6, v, len, v & 15, 0);
  // Every split into two and three pieces.
  for (size_t len = 0; len <= (T ? 400u : 200u); len++) if (mine(u++)) for (size_t al = 0; al < 16; al += (T ? 1 : 3)) for (int p : {1, 3}) all_impls(p, 0, len, al, 2);
  for (size_t len = 0; len <= (T ? 140u : 72u); len++) if (mine(u++)) for (size_t al = 0; al < 16; al += (T ? 3 : 5)) all_impls(3, 0, len, al, 3);
  // Around every length at which a delayed modulo or an unrolled loop starts over, with the largest sums possible.
  for (size_t base : {size_t(4096), size_t(5552), size_t(8192), size_t(11104), size_t(12288), size_t(16656), size_t(16384), size_t(22208), size_t(65536), size_t(65521), size_t(131072)})
    for (int d = -70; d <= 70; d += (base > 20000 && !T ? 7 : 1)) if (mine(u++)) for (size_t al = 0; al < 16; al += (T ? 1 : 3)) for (int p : {1, 7, 3, 9}) all_impls(p, 0, size_t(int64_t(base) + d), al, 0);
  for (size_t len : {size_t(1000003), size_t(1u << 20)}) if (mine(u++)) for (size_t al = 0; al < 16; al += 3) for (int p : {1, 3}) all_impls(p, 0, len, al, 0);
  }
  // The entry points for a whole buffer; the dispatch for every CPU feature level.
  if (g.replaying || mine(u++)) {
    auto whole = [&](const char* lvl) {
      for (size_t len = 0; len < 400; len++) for (int p : pats) {
        Buf b(len & 15, len); fill(b, p, 0); set_case("whole,%s,%zu,%d", lvl, len, p); vh::stat("transitions", 2);
        if (CS::crc32(b.p, len) != ~crc_def(~0u, b.p, len)) fail("crc32", "crc32() of %zu bytes (pattern %d), CPU level %s, differs from the definition", len, p, lvl);
        if (CS::adler32(b.p, len) != adler_def(1, b.p, len)) fail("adler32", "adler32() of %zu bytes (pattern %d), CPU level %s, differs from the definition", len, p, lvl);
      }
    };
    BLRuntimeContext rt = bl_runtime_context;
    uint32_t full = rt.system_info.cpu_features, f = 0;
    whole("detected");
    for (int bit = -1; bit < 32; bit++) { if (bit >= 0) { if (!(full >> bit & 1)) continue; f |= 1u << bit; } memcpy((void*)&rt.system_info.cpu_features, &f, 4); bl_compression_rt_init(&rt); whole(std::to_string(f).c_str()); }
    bl_compression_rt_init(&bl_runtime_context);
  }
  sample("crc32_update_sse4_2: pattern 3, 200 bytes, alignment 5, every split point"); sample("adler32_update_sse2: 5552+3 bytes of 255 from sums (65520, 65520)"); sample("every string of two bytes");
  return done();
}
