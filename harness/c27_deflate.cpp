// C27: DEFLATE decoder and encoder over exhaustively enumerated stream grammars, cuts, buffer sizes and inputs;
// oracles: a small reference inflater written from RFC 1950/1951 (below) and zlib.
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/api.h>
#include <blend2d/core/array.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/compression/deflatedecoder_p.h>
#include <blend2d/compression/deflateencoder_p.h>
#include <zlib.h>
#include "vh.h"
using namespace vh;
namespace DF = bl::Compression::Deflate;
typedef std::vector<uint8_t> Bytes;

// ---- Reference inflater ----------------------------------------------------------------------------------------------
enum V { GOOD, BAD, SHORT };
static const uint16_t LB[] = {3,4,5,6,7,8,9,10,11,13,15,17,19,23,27,31,35,43,51,59,67,83,99,115,131,163,195,227,258};
static const uint8_t LX[] = {0,0,0,0,0,0,0,0,1,1,1,1,2,2,2,2,3,3,3,3,4,4,4,4,5,5,5,5,0};
static const uint16_t DB[] = {1,2,3,4,5,7,9,13,17,25,33,49,65,97,129,193,257,385,513,769,1025,1537,2049,3073,4097,6145,8193,12289,16385,24577};
static const uint8_t DX[] = {0,0,0,0,1,1,2,2,3,3,4,4,5,5,6,6,7,7,8,8,9,9,10,10,11,11,12,12,13,13};
static const uint8_t ORD[] = {16,17,18,0,8,7,9,6,10,5,11,4,12,3,13,2,14,1,15};
struct Ref {
  const Bytes& in; size_t pos = 0; Bytes out; V v = GOOD;
  Ref(const Bytes& i, bool zl) : in(i) { run(zl); }
  struct Stop {};
  bool amb = false;   // Counts of symbols which the RFC's text allows or not depending on the reading.

  uint32_t bits(int n) { uint32_t r = 0; for (int i = 0; i < n; i++) { if (pos >= in.size() * 8) { v = SHORT; return 0; } r |= uint32_t(in[pos >> 3] >> (pos & 7) & 1) << i; pos++; } return r; }
  struct Code { uint16_t cnt[16], sym[320]; int left; int used; };
  static void make(Code& c, const uint8_t* l, int n) {
    memset(c.cnt, 0, sizeof c.cnt); for (int i = 0; i < n; i++) c.cnt[l[i]]++; c.used = n - c.cnt[0];
    c.left = 1; for (int i = 1; i < 16; i++) { c.left = c.left * 2 - c.cnt[i]; if (c.left < 0) break; }
    uint16_t o[16]; o[1] = 0; for (int i = 1; i < 15; i++) o[i + 1] = o[i] + c.cnt[i];
    for (int i = 0; i < n; i++) if (l[i]) c.sym[o[l[i]]++] = i;
  }
  int dec(const Code& c) { int code = 0, first = 0, idx = 0; for (int l = 1; l < 16; l++) { code |= bits(1); if (v) return -1; int n = c.cnt[l]; if (code - n < first) return c.sym[idx + code - first]; idx += n; first += n; first <<= 1; code <<= 1; } v = BAD; return -1; }
  void codes(const Code& L, const Code& D) {
    for (;;) {
      int s = dec(L); if (v) return;
      if (s < 256) { out.push_back(uint8_t(s)); continue; }
      if (s == 256) return;
      s -= 257; if (s >= 29) { v = BAD; return; }
      uint32_t len = LB[s] + bits(LX[s]); if (v) return;
      int d = dec(D); if (v) return; if (d >= 30) { v = BAD; return; }
      uint32_t dist = DB[d] + bits(DX[d]); if (v) return;
      if (dist > out.size()) { v = BAD; return; }
      while (len--) out.push_back(out[out.size() - dist]);
    }
  }
  void run(bool zl) {
    if (zl) { uint32_t a = bits(8), b = bits(8); if (v) return; if ((a * 256 + b) % 31 || (a & 15) != 8 || (a >> 4) > 7 || (b & 32)) { v = BAD; return; } }
    for (bool last = false; !last;) {
      last = bits(1); uint32_t t = bits(2); if (v) return;
      if (t == 3) { v = BAD; return; }
      if (t == 0) {
        pos = (pos + 7) & ~size_t(7); uint32_t n = bits(16), m = bits(16); if (v) return;
        if (n != (m ^ 0xFFFF)) { v = BAD; return; }
        size_t p = pos >> 3, k = std::min<size_t>(n, in.size() - p); out.insert(out.end(), in.begin() + p, in.begin() + p + k); pos += k * 8; if (k < n) { v = SHORT; return; }
        continue;
      }
      Code L, D; uint8_t l[320 + 160];
      if (t == 1) { int i = 0; for (; i < 144; i++) l[i] = 8; for (; i < 256; i++) l[i] = 9; for (; i < 280; i++) l[i] = 7; for (; i < 288; i++) l[i] = 8; make(L, l, 288); for (i = 0; i < 32; i++) l[i] = 5; make(D, l, 32); }
      else {
        uint32_t nl = bits(5) + 257, nd = bits(5) + 1, nc = bits(4) + 4; if (v) return;
        if (nl > 286 || nd > 30) amb = true;
        uint8_t pl[19] = {}; for (uint32_t i = 0; i < nc; i++) pl[ORD[i]] = bits(3); if (v) return;
        Code P; make(P, pl, 19); if (P.left != 0) { v = BAD; return; }
        uint32_t i = 0; while (i < nl + nd) {
          int s = dec(P); if (v) return;
          if (s < 16) { l[i++] = s; continue; }
          uint8_t val = 0; uint32_t n;
          if (s == 16) { if (!i) { v = BAD; return; } val = l[i - 1]; n = 3 + bits(2); } else if (s == 17) n = 3 + bits(3); else n = 11 + bits(7);
          if (v) return; if (i + n > nl + nd) { v = BAD; return; }
          while (n--) l[i++] = val;
        }
        // A code may be incomplete only if it has a single one-bit codeword; there may be no distance code at all.
        make(L, l, nl); if (L.left < 0 || (L.left > 0 && !(L.used == 1 && L.cnt[1] == 1)) || l[256] == 0) { v = BAD; return; }
        make(D, l + nl, nd); if (D.left < 0 || (D.left > 0 && !(D.used == 0 || (D.used == 1 && D.cnt[1] == 1)))) { v = BAD; return; }
      }
      codes(L, D); if (v) return;
    }
  }
};

// ---- Bit writer ------------------------------------------------------------------------------------------------------
struct BW {
  Bytes b; int n = 0;
  void put(uint32_t v, int k) { for (int i = 0; i < k; i++) { if (!(n & 7)) b.push_back(0); b.back() |= ((v >> i) & 1) << (n & 7); n++; } }
  void code(uint32_t c, int k) { for (int i = k - 1; i >= 0; i--) put(c >> i & 1, 1); }
  void align() { while (n & 7) put(0, 1); }
};
struct Huff {
  std::vector<uint8_t> len; std::vector<uint16_t> c;
  Huff(std::vector<uint8_t> l) : len(l), c(l.size()) { uint32_t cnt[16] = {}, nx[17] = {}; for (auto x : l) cnt[x]++; cnt[0] = 0; uint32_t code = 0; for (int i = 1; i < 16; i++) { code = (code + cnt[i - 1]) << 1; nx[i] = code; } for (size_t i = 0; i < l.size(); i++) if (l[i]) c[i] = nx[l[i]]++; }
  void put(BW& w, int s) const { w.code(c[s], len[s]); }
};
static const Huff& fixedL() { static Huff h([] { std::vector<uint8_t> l(288); for (int i = 0; i < 288; i++) l[i] = i < 144 ? 8 : i < 256 ? 9 : i < 280 ? 7 : 8; return l; }()); return h; }
static const Huff& fixedD() { static Huff h(std::vector<uint8_t>(32, 5)); return h; }
static void match(BW& w, const Huff& L, const Huff& D, uint32_t len, uint32_t dist, bool alt258 = false) {
  int s = 28; if (len != 258 || alt258) { s = 27; while (LB[s] > len) s--; } L.put(w, 257 + s); w.put(len - LB[s], LX[s]);
  int d = 29; while (DB[d] > dist) d--; D.put(w, d); w.put(dist - DB[d], DX[d]);
}
static void dyn_header(BW& w, const std::vector<uint8_t>& ll, const std::vector<uint8_t>& dl, bool last) {
  w.put(last, 1); w.put(2, 2); w.put(uint32_t(ll.size() - 257), 5); w.put(uint32_t(dl.size() - 1), 5); w.put(15, 4);
  std::vector<uint8_t> pl(19); for (int i = 0; i < 19; i++) pl[i] = i < 13 ? 4 : 5; Huff P(pl);
  for (int i = 0; i < 19; i++) w.put(pl[ORD[i]], 3);
  std::vector<uint8_t> all = ll; all.insert(all.end(), dl.begin(), dl.end());
  for (size_t i = 0; i < all.size();) {   // Zero runs are coded with 18/17, everything else plainly.
    size_t z = i; while (z < all.size() && !all[z] && z - i < 138) z++;
    if (z - i >= 11) { P.put(w, 18); w.put(uint32_t(z - i - 11), 7); i = z; } else if (z - i >= 3) { P.put(w, 17); w.put(uint32_t(z - i - 3), 3); i = z; } else P.put(w, all[i++]);
  }
}
static std::string hex(const Bytes& b) { std::string s; static const char* H = "0123456789abcdef"; for (auto c : b) { s += H[c >> 4]; s += H[c & 15]; } return s; }

// ---- Decoder under test ----------------------------------------------------------------------------------------------
static DF::Decoder* dec_obj;
static uint32_t full_features;
static void set_avx2(bool on) { uint32_t f = on ? full_features : full_features & ~BL_RUNTIME_CPU_FEATURE_X86_AVX2; memcpy((void*)&bl_runtime_context.system_info.cpu_features, &f, 4); }
struct Res { BLResult r; Bytes out; };
// Decodes `in` delivered as the given pieces (each in its own exactly sized heap block).
static Res decode(const Bytes& in, bool zl, const std::vector<size_t>& cuts, size_t reserve, bool never, size_t trail, uint8_t trailv) {
  BLArray<uint8_t> dst; if (reserve) dst.reserve(reserve);
  dec_obj->init(zl ? DF::FormatType::kZlib : DF::FormatType::kRaw, never ? DF::DecoderOptions::kNeverReallocOutputBuffer : DF::DecoderOptions::kNone);
  Res R; R.r = BL_ERROR_DATA_TRUNCATED; size_t p = 0;
  for (size_t i = 0; i <= cuts.size(); i++) {
    size_t e = i < cuts.size() ? cuts[i] : in.size(), n = e - p, extra = i == cuts.size() ? trail : 0;
    uint8_t* b = (uint8_t*)malloc(n + extra ? n + extra : 1); if (n) memcpy(b, in.data() + p, n); if (extra) memset(b + n, trailv, extra);
    vh::stat("transitions");
    R.r = dec_obj->decode(dst, BLDataView{b, n + extra});
    free(b); p = e;
    if (R.r != BL_ERROR_DATA_TRUNCATED) break;
  }
  R.out.assign(dst.data(), dst.data() + dst.size());
  return R;
}
static const char* VN[] = {"well-formed", "malformed", "truncated"};
static const size_t NOSPACE_CAP = 1;
enum { M_CUT2 = 1, M_BYTES = 2, M_FAST = 4, M_SPACE = 8, M_BASIC = 16, M_CUTFEW = 32 };
static std::string famcase;
static void judge(const Bytes& in, bool zl, const Ref& ref, const Res& r, const char* how) {
  if (ref.amb && r.r != BL_SUCCESS) return;
  if (ref.v == GOOD) {
    if (r.r != BL_SUCCESS) fail("decode-reject", "decoding a well-formed stream of %zu bytes (%s) %s gives error %u", in.size(), hex(in).substr(0, 200).c_str(), how, r.r);
    else if (r.out != ref.out) { size_t i = 0; while (i < r.out.size() && i < ref.out.size() && r.out[i] == ref.out[i]) i++; fail("decode-bytes", "decoding a well-formed stream of %zu bytes (%s) %s gives %zu bytes, expected %zu; first difference at %zu", in.size(), hex(in).substr(0, 200).c_str(), how, r.out.size(), ref.out.size(), i); }
  }
  // A match into an empty output can be refused before its offset is complete, as no completion is valid.
  else if (ref.v == SHORT) { if (r.r != BL_ERROR_DATA_TRUNCATED && !(ref.out.empty() && r.r == BL_ERROR_DECOMPRESSION_FAILED)) fail("decode-truncated", "decoding an incomplete stream (%s) %s gives result %u", hex(in).substr(0, 200).c_str(), how, r.r); }
  else if (r.r == BL_SUCCESS) fail("decode-malformed", "decoding a malformed stream (%s) %s succeeds", hex(in).substr(0, 200).c_str(), how);
}
static void test_stream(const Bytes& in, bool zl, int modes, const char* fam) {
  { std::string c = std::string("S:") + (zl ? "1" : "0") + ":" + std::to_string(modes) + ":"; if (in.size() < 25000) set_case_s(c + hex(in)); else set_case_s(famcase); }
  Ref ref(in, zl); vh::stat("states"); vh::stat(fam);
  auto many = [&](const std::vector<size_t>& cuts, size_t reserve, bool never, size_t trail, const char* how, uint8_t tv = 0) {
    Res r = decode(in, zl, cuts, reserve, never, trail, tv);
    if (trail && ref.v == SHORT) return;     // The trailing bytes may complete it.
    if (trail && ref.v == BAD && r.r == BL_ERROR_DATA_TRUNCATED) return;
    judge(in, zl, ref, r, how);
  };
  many({}, 0, false, 0, "in one piece");
  if (modes & M_FAST) for (int a = 0; a < 2; a++) { set_avx2(a); many({}, ref.out.size() + 4096, false, 700, a ? "in one piece with ample space (AVX2)" : "in one piece with ample space", 0); many({}, 0, false, 700, "followed by other bytes", 0xFF); }
  if (modes & M_BYTES) { std::vector<size_t> c; for (size_t i = 1; i < in.size(); i++) c.push_back(i); many(c, 0, false, 0, "byte by byte"); }
  if (modes & M_CUT2) for (size_t i = 0; i <= in.size(); i++) { char h[64]; snprintf(h, 64, "cut at %zu", i); many({i}, 0, false, 0, h); if (modes & M_FAST) { snprintf(h, 64, "cut at %zu with ample space", i); many({i}, ref.out.size() + 4096, false, 700, h); } }
  if (modes & M_CUTFEW) for (size_t i : {size_t(1), in.size() / 3, in.size() / 2, in.size() - std::min<size_t>(in.size(), 5)}) if (i <= in.size()) { char h[64]; snprintf(h, 64, "cut at %zu", i); many({i}, 0, false, 0, h); many({i}, ref.out.size() + 4096, false, 700, h); }
  if (modes & M_SPACE) {
    std::vector<size_t> caps; size_t o = ref.out.size();
    for (size_t k = 0; k <= std::min<size_t>(o + 2, 40); k++) caps.push_back(k);
    for (int d : {-300, -258, -40, -33, -32, -17, -16, -9, -8, -3, -2, -1, 0, 1, 2, 3, 8, 16, 32, 64, 128, 258, 300, 320, 400}) if (int64_t(o) + d > 40) caps.push_back(size_t(int64_t(o) + d));
    for (size_t k : caps) {
      char h[80]; snprintf(h, 80, "with %zu bytes of space offered", k);
      many({}, k, false, 0, h); many({}, k, false, 700, h);
      // An output buffer that must not grow: never written beyond, success only with the right bytes.
      for (size_t tr : {size_t(0), size_t(700)}) { Res r = decode(in, zl, {}, k, true, tr, 0); if (r.r == BL_SUCCESS && (ref.v == BAD || (ref.v == GOOD && r.out != ref.out))) fail("decode-never", "decoding (%s) into a fixed buffer of %zu bytes succeeds with the wrong result", hex(in).substr(0, 200).c_str(), k); if (ref.v == GOOD && r.r != BL_SUCCESS && k >= o + 1024) fail("decode-never", "decoding (%s) into a fixed buffer of %zu bytes, more than the %zu needed, fails with %u", hex(in).substr(0, 200).c_str(), k, o, r.r); }
    }
  }
}

// ---- Encoder under test ----------------------------------------------------------------------------------------------
static DF::Encoder* encs[2][13];
static DF::Encoder& encoder(int fmt, int lvl) { auto*& e = encs[fmt][lvl]; if (!e) { e = new DF::Encoder(); if (e->init(fmt ? DF::FormatType::kZlib : DF::FormatType::kRaw, lvl)) abort(); } return *e; }
static bool zinflate(const Bytes& c, int fmt, Bytes& out, size_t expect) {
  z_stream z{}; if (inflateInit2(&z, fmt ? 15 : -15)) abort(); out.resize(expect + 64);
  z.next_in = (Bytef*)c.data(); z.avail_in = (uInt)c.size(); z.next_out = out.data(); z.avail_out = (uInt)out.size();
  int r = inflate(&z, Z_FINISH); out.resize(z.total_out); bool ok = r == Z_STREAM_END && z.avail_in == 0; inflateEnd(&z); return ok;
}
static void test_encode(const Bytes& in, int fmt, int lvl, bool deep, const std::string& name) {
  set_case("E:%d:%d:%d:%s", fmt, lvl, int(deep), name.c_str()); vh::stat("encodings");
  DF::Encoder& e = encoder(fmt, lvl);
  size_t cap = e.minimum_output_buffer_size(in.size());
  uint8_t* src = (uint8_t*)malloc(in.size() ? in.size() : 1); if (in.size()) memcpy(src, in.data(), in.size());
  auto go = [&](size_t c, bool must) {
    uint8_t* o = (uint8_t*)malloc(c ? c : 1); vh::stat("transitions");
    size_t n = e.compress_to(o, c, src, in.size());
    if (n > c) { fail("encode-overflow", "compressing %s (%zu bytes, level %d) reports %zu bytes in %zu", name.c_str(), in.size(), lvl, n, c); free(o); return size_t(0); }
    if (!n) { if (must) fail("encode-fails", "compressing %s (%zu bytes, level %d, %s) into the advertised worst case fails", name.c_str(), in.size(), lvl, fmt ? "zlib" : "raw"); free(o); return size_t(0); }
    Bytes z(o, o + n), back; free(o);
    if (!zinflate(z, fmt, back, in.size()) || back != in) { fail("encode-zlib", "compressing %s (%zu bytes, level %d, %s, %zu bytes of space) gives a stream which zlib %s", name.c_str(), in.size(), lvl, fmt ? "zlib" : "raw", c, back == in ? "does not accept to its end" : "does not decode to the input"); return n; }
    if (must) {
      auto check = [&](const Res& r, const char* h) { if (r.r != BL_SUCCESS || r.out != in) fail("encode-decode", "decoding what was compressed from %s (%zu bytes, level %d, %s) %s gives result %u, %zu bytes", name.c_str(), in.size(), lvl, fmt ? "zlib" : "raw", h, r.r, r.out.size()); };
      check(decode(z, fmt, {}, 0, false, 0, 0), "in one piece"); set_avx2(n & 1); check(decode(z, fmt, {}, in.size() + 1024, true, 0, 0), "into a fixed buffer"); set_avx2(true);
      if (deep && n > 3) { check(decode(z, fmt, {n / 2}, 0, false, 0, 0), "in two pieces"); check(decode(z, fmt, {1, 2, n / 3}, 64, false, 0, 0), "in four pieces"); }
    }
    return n;
  };
  size_t n = go(cap, true);
  // Output sizes below the advertised worst case are outside of the encoder's contract, except that ones too small to hold anything are refused.
  if (deep && n) for (size_t c : {size_t(0), size_t(1), size_t(5), size_t(7), cap + 1, cap + 7, cap + 64}) go(c, c >= cap);
  if (deep && in.size()) {
    BLArray<uint8_t> d; d.append(uint8_t(0xAA), uint8_t(0xBB)); vh::stat("transitions", 2);
    BLResult r = e.compress(d, BL_MODIFY_OP_APPEND_GROW, BLDataView{src, in.size()}); Bytes back;
    if (r || d.size() < 2 || d[0] != 0xAA || d[1] != 0xBB || !zinflate(Bytes(d.data() + 2, d.data() + d.size()), fmt, back, in.size()) || back != in) fail("encode-append", "compress() appending to an array (%s, level %d) gives result %u and %zu bytes that do not end with the stream", name.c_str(), lvl, r, d.size());
    r = e.compress(d, BL_MODIFY_OP_ASSIGN_FIT, BLDataView{src, in.size()});
    if (r || !zinflate(Bytes(d.data(), d.data() + d.size()), fmt, back, in.size()) || back != in) fail("encode-assign", "compress() replacing an array (%s, level %d) gives result %u and %zu bytes", name.c_str(), lvl, r, d.size());
  }
  free(src);
}
// Inputs are named so that a case can be rebuilt.
static Bytes make_input(const std::string& name) {
  Bytes b; int kind; unsigned long long a = 0; size_t n = 0, p = 0; if (sscanf(name.c_str(), "k%d,n%zu,p%zu,a%llu", &kind, &n, &p, &a) < 2) return b;
  b.resize(n); uint32_t x = 12345;
  auto rnd = [&]() { x ^= x << 13; x ^= x >> 17; x ^= x << 5; return x; };
  switch (kind) {
    case 0: break;
    case 1: for (size_t i = 0; i < n; i++) b[i] = uint8_t(i); break;
    case 2: for (size_t i = 0; i < n; i++) b[i] = uint8_t((i % p) * 37 + 11); break;                                 // Period p.
    case 3: for (auto& c : b) c = uint8_t(rnd() >> 11); break;                                                       // Incompressible.
    case 4: for (auto& c : b) c = uint8_t("etaoin shrdlu.\n"[(rnd() >> 7) % 15]); break;                              // Text-like.
    case 5: for (size_t i = 0; i < n; i++) b[i] = uint8_t(i < 64 ? i * 7 : (a >> ((i - 64) & 63)) & 1 ? 'a' : 'b'); break;  // Every bit string after a fixed prefix.
    case 6: for (size_t i = 0; i < n; i++) b[i] = i < p ? uint8_t(rnd() >> 9) : b[i - p]; break;                      // Random chunk repeated at distance p.
    case 7: for (size_t i = 0; i < n; i++) { uint32_t r = rnd(); int k = 0; while (k < 24 && (r >> k & 1)) k++; b[i] = uint8_t(k * 11); } break;  // Geometric: very long codewords.
    case 8: for (size_t i = 0; i < n; i++) b[i] = (i / 10000) & 1 ? uint8_t(rnd() >> 9) : uint8_t(i % 7); break;      // Alternating statistics: block splits.
    case 9: for (size_t i = 0; i < n; i++) b[i] = uint8_t(rnd() % 3 ? 0 : rnd()); break;
    case 10: { size_t i = 0; uint64_t f0 = 1, f1 = 1; for (int s = 0; s < 40 && i < n; s++) { for (uint64_t k = 0; k < f0 && i < n; k++) b[i++] = uint8_t(s * 5 + 1); uint64_t t = f0 + f1; f0 = f1; f1 = t; } for (size_t j = n; j > 1; j--) std::swap(b[j - 1], b[rnd() % j]); } break;   // Fibonacci frequencies: length-limited codes.
  }
  return b;
}

static void run_all();
int main(int argc, char** argv) {
  init(argc, argv); bl_runtime_init(); dec_obj = new DF::Decoder(); full_features = bl_runtime_context.system_info.cpu_features;
  if (g.replaying) {
    const char* s = g.replay.c_str();
    if (s[0] == 'S') { int zl, m; int off; sscanf(s, "S:%d:%d:%n", &zl, &m, &off); Bytes b; for (const char* h = s + off; h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); b.push_back(uint8_t(v)); } test_stream(b, zl, m, "replay"); return done(); }
    if (s[0] == 'E') { int f, l, d, off; sscanf(s, "E:%d:%d:%d:%n", &f, &l, &d, &off); test_encode(make_input(s + off), f, l, d, s + off); return done(); }
  }
  run_all();
  sample("static block: 'a' match(258,1) match(3,2) end; every cut, every output space"); sample("dynamic block: every assignment of lengths 0..4 to 5 literal/length and 0..3 to 3 distance symbols"); sample("k6,n33000,p32768 at level 9");
  return done();
}
static uint64_t u = 0;
static bool take(const std::string& id) { famcase = "F:" + id; if (g.replaying) return g.replay == famcase; return mine(u++); }
static void run_all() {
  bool T = g.thorough; const int ALL = M_CUT2 | M_BYTES | M_FAST | M_SPACE;
  const Huff &L = fixedL(), &D = fixedD();
  // F1: every sequence of symbols in a static block, complete or not.
  struct Op { int lit; int len, dist; int raw_l, raw_d; };
  std::vector<Op> ops; for (int c : {0, 97, 143, 144, 255}) ops.push_back({c});
  for (int len : {3, 10, 11, 131, 257, 258}) for (int d : {1, 2, 3, 4, 7}) if (d < 4 || len < 12) ops.push_back({-1, len, d});
  ops.push_back({-2, 258, 1}); ops.push_back({-1, 3, 24577}); ops.push_back({-3, 0, 0, 286, 0}); ops.push_back({-3, 0, 0, 287, 0}); ops.push_back({-3, 0, 0, 257, 30}); ops.push_back({-3, 0, 0, 257, 31}); ops.push_back({-4});
  size_t maxd = T ? 4 : 3;
  for (size_t d = 0; d <= maxd; d++) { uint64_t tot = 1; for (size_t i = 0; i < d; i++) tot *= ops.size();
    for (uint64_t v = 0; v < tot && !g.replaying; v++) { if (!mine(u++)) continue;
      BW w; w.put(1, 1); w.put(1, 2); uint64_t x = v; bool skip = false;
      for (size_t i = 0; i < d; i++) { Op o = ops[x % ops.size()]; x /= ops.size(); if (o.lit >= 0) L.put(w, o.lit); else if (o.lit == -1) match(w, L, D, o.len, o.dist); else if (o.lit == -2) match(w, L, D, 258, o.dist, true); else if (o.lit == -3) { L.put(w, o.raw_l); D.put(w, o.raw_d); } else { L.put(w, 256); w.put(0, 1); w.put(1, 2); if (i + 1 == d) skip = true; } }
      if (skip) continue;
      L.put(w, 256); test_stream(w.b, false, d < 3 ? ALL : M_BYTES | M_FAST | ((v & 7) == 0 ? M_CUT2 : 0), "static_sequences"); } }
  // F2: every match length at every distance up to 70 and around every distance code boundary; near the buffer's end and far from it.
  std::vector<uint32_t> dists; for (uint32_t i = 1; i <= 70; i++) dists.push_back(i); for (int i = 12; i < 30; i++) for (int k : {-1, 0, 1}) dists.push_back(DB[i] + k); dists.push_back(32767); dists.push_back(32768);
  for (uint32_t di : dists) for (uint32_t len = 3; len <= 258; len += (di > 70 && !T ? 15 : 1)) { if (!take("m" + std::to_string(di) + "," + std::to_string(len))) continue;
    BW w; size_t pre = di > 70 ? di + (len & 1) : 75, at = 0; bool first = true;
    Bytes fill(pre); uint32_t x = 77; for (auto& c : fill) { x = x * 1664525 + 1013904223; c = uint8_t(x >> 24); }
    while (at < pre) { size_t n = std::min<size_t>(pre - at, 65535); w.put(0, 1); w.put(0, 2); w.align(); w.put(uint32_t(n), 16); w.put(uint32_t(~n & 0xFFFF), 16); for (size_t i = 0; i < n; i++) w.put(fill[at + i], 8); at += n; first = false; }
    w.put(1, 1); w.put(1, 2); L.put(w, 'x'); match(w, L, D, len, di); L.put(w, 'y'); match(w, L, D, 261 - len, std::min<uint32_t>(di + 1, 32768)); match(w, L, D, len, 1 + (di & 7)); L.put(w, 'z'); L.put(w, 256);
    test_stream(w.b, false, M_FAST | (di <= 70 && (len % 5 == 0) ? M_SPACE : 0) | M_CUTFEW, "match_grid"); }
  if (g.replaying) goto large;
  // F3a: every assignment of code lengths to a few symbols of a dynamic block (complete, incomplete and over-subscribed codes).
  { int ls[] = {97, 98, 256, 257, 285}; int ds[] = {0, 1, 29}; int LM = T ? 6 : 5;
    uint64_t nl = 1; for (int i = 0; i < 5; i++) nl *= LM; for (uint64_t v = 0; v < nl; v++) for (int dv = 0; dv < 64; dv++) { if (!mine(u++ >> 2)) continue;
      std::vector<uint8_t> ll(286), dl(30); uint64_t x = v; for (int s : ls) { ll[s] = x % LM; x /= LM; } int y = dv; for (int s : ds) { dl[s] = y & 3; y >>= 2; }
      // Over-subscribed and incomplete codes are many; keep every near-complete one and a part of the rest.
      BW w; dyn_header(w, ll, dl, true); Huff HL(ll), HD(dl);
      for (int rep = 0; rep < 2; rep++) { for (int s : {97, 98}) if (ll[s]) HL.put(w, s); if (ll[257]) for (int s : {0, 1}) if (dl[s] && w.n) { HL.put(w, 257); HD.put(w, s); } if (ll[285] && dl[0]) { HL.put(w, 285); HD.put(w, 0); } }
      if (ll[256]) HL.put(w, 256); w.put(0x5A, 8);
      test_stream(w.b, false, M_BYTES | ((v + dv) % 4 == 0 ? M_FAST : 0), "dynamic_lengths"); } }
  // F3b: code lengths given through every short sequence of repeat codes, crossing every boundary.
  { struct R { int s; uint32_t x; int xb; }; std::vector<R> rs = {{0,0,0},{1,0,0},{2,0,0},{8,0,0},{15,0,0},{16,0,2},{16,3,2},{17,0,3},{17,7,3},{18,0,7},{18,127,7}};
    std::vector<uint8_t> pl(19); for (int i = 0; i < 19; i++) pl[i] = i < 13 ? 4 : 5; Huff P(pl);
    auto rlen = [](const R& r) { return r.s < 16 ? 1u : r.s == 16 ? 3 + r.x : r.s == 17 ? 3 + r.x : 11 + r.x; };
    for (uint32_t hl : {257u, 258u, 286u, 287u, 288u}) for (uint32_t hd : {1u, 2u, 30u, 31u, 32u}) for (size_t v = 0; v < rs.size() * rs.size() * rs.size(); v++) for (int tail = 0; tail < 3; tail++) { if (!mine(u++)) continue; if (!T && hl > 258 && hd > 2 && (v % 3)) continue;
      BW w; w.put(1, 1); w.put(2, 2); w.put(hl - 257, 5); w.put(hd - 1, 5); w.put(15, 4); for (int i = 0; i < 19; i++) w.put(pl[ORD[i]], 3);
      R seq[3] = {rs[v % rs.size()], rs[v / rs.size() % rs.size()], rs[v / rs.size() / rs.size()]}; uint32_t i = 0;
      auto zeros = [&](uint32_t to) { while (i < to) { uint32_t k = std::min(138u, to - i); if (k >= 11) { P.put(w, 18); w.put(k - 11, 7); } else if (k >= 3) { P.put(w, 17); w.put(k - 3, 3); } else { k = 1; P.put(w, 0); } i += k; } };
      auto puts = [&](const R& r) { P.put(w, r.s); w.put(r.x, r.xb); i += rlen(r); };
      if (tail == 0) { for (auto& r : seq) puts(r); zeros(256); P.put(w, 1); i++; zeros(hl); for (uint32_t k = 0; k < hd && k < 2; k++) { P.put(w, 1); i++; } zeros(hl + hd); }
      else if (tail == 1) { P.put(w, 1); i++; zeros(256); P.put(w, 1); i++; for (auto& r : seq) puts(r); zeros(hl + hd); }      // From 257 on, across the border between the codes and past the end.
      else { P.put(w, 1); i++; zeros(256); P.put(w, 1); i++; uint32_t tot = 0; for (auto& r : seq) tot += rlen(r); if (hl + hd > i + tot) zeros(hl + hd - tot); for (auto& r : seq) puts(r); }   // Ending at the end.
      w.put(0x2, 2); w.put(0, 6); w.put(0xA5, 8);
      test_stream(w.b, false, M_BYTES | (v % 16 == 0 ? M_CUT2 | M_FAST : 0), "dynamic_repeats"); } }
  // F3c: every assignment of lengths 0..7 to four symbols of the code-length code, every count of transmitted lengths.
  for (int hc = 0; hc < 16; hc++) for (int v = 0; v < 4096; v++) { if (!mine(u++ >> 4)) continue; if (!T && hc > 1 && hc < 15 && (v + hc) % 8) continue;
    BW w; w.put(1, 1); w.put(2, 2); w.put(0, 5); w.put(0, 5); w.put(hc, 4);
    for (int i = 0; i < hc + 4; i++) { int k = i == 0 ? v & 7 : i == 2 ? v >> 3 & 7 : i == 3 ? v >> 6 & 7 : i == (hc + 3) ? v >> 9 : 0; w.put(k, 3); }
    for (int i = 0; i < 12; i++) w.put(0x6B3A5 * (i + 1) + v, 16);
    test_stream(w.b, false, M_BYTES, "code_length_codes"); }
  // F3d: the longest codewords and extra bits in every order (bit buffer refills).
  { std::vector<uint8_t> ll(286), dl(30); // Lengths 1..15 (Kraft sum 1): literal 'a' 1 bit ... ; the longest for matches.
    int seq[] = {'a','b','c','d','e','f','g','h','i','j','k','l',256,284,'m',285}; for (int i = 0; i < 16; i++) ll[seq[i]] = std::min(i + 1, 15);
    int dq[] = {0,1,2,3,4,5,6,7,8,9,10,11,12,28,13,29}; for (int i = 0; i < 16; i++) dl[dq[i]] = std::min(i + 1, 15);
    Huff HL(ll), HD(dl); size_t N = T ? 6 : 5; const int K = 6; uint64_t tot = 1; for (size_t i = 0; i < N; i++) tot *= K;
    for (int big = 0; big < 2; big++) for (uint64_t v = 0; v < tot; v++) { if (!mine(u++)) continue; if (big && v % 16) continue;
      famcase = "F:unrepeatable";
      BW w; if (big) { for (int k = 0; k < 33000; k++) { if (k % 16500 == 0) { w.put(0, 1); w.put(0, 2); w.align(); w.put(16500, 16); w.put(~16500 & 0xFFFF, 16); } w.put((k * 31) ^ (k >> 5), 8); } }
      dyn_header(w, ll, dl, true);
      for (int k = 0; k < 3; k++) HL.put(w, 'l');
      uint64_t x = v; for (size_t i = 0; i < N; i++) { switch (x % K) { case 0: HL.put(w, 'a'); break; case 1: HL.put(w, 'm'); break; case 2: HL.put(w, 284); w.put(30, 5); HD.put(w, 0); break; case 3: HL.put(w, 284); w.put(i, 5); if (big) { HD.put(w, 29); w.put(8191 - uint32_t(i), 13); } else { HD.put(w, 1); } break; case 4: HL.put(w, 'h'); break; case 5: HL.put(w, 285); HD.put(w, 2); break; } x /= K; }
      HL.put(w, 256);
      if (w.b.size() < 25000) test_stream(w.b, false, M_BYTES | M_FAST | (v % 8 == 0 ? M_CUT2 : 0), "long_codewords"); else test_stream(w.b, false, M_FAST | M_CUTFEW, "long_codewords"); } }
  // F4: sequences of blocks of all types.
  { const size_t K = 9, N = T ? 5 : 4; uint64_t tot = 1; for (size_t i = 0; i < N; i++) tot *= K;
    for (uint64_t v = 0; v < tot; v++) { if (!mine(u++)) continue; BW w; uint64_t x = v;
      for (size_t i = 0; i < N; i++) { bool last = i + 1 == N; int k = int(x % K); x /= K; int sl = k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 5 : k == 3 ? 8 : 23;
        if (k < 5) { w.put(last, 1); w.put(0, 2); w.put(k == 3 ? 0x1F : 0, (8 - (w.n & 7)) & 7); w.put(sl, 16); w.put(~sl & 0xFFFF, 16); for (int j = 0; j < sl; j++) w.put(0xC0 + j * 3 + int(i), 8); }
        else if (k == 5) { w.put(last, 1); w.put(1, 2); L.put(w, 256); }
        else if (k == 6) { w.put(last, 1); w.put(1, 2); L.put(w, 'q'); L.put(w, 200); match(w, L, D, 5, 1); L.put(w, 256); }
        else if (k == 7) { std::vector<uint8_t> ll(257), dl(1); ll['r'] = 1; ll[256] = 1; dyn_header(w, ll, dl, last); Huff H(ll); H.put(w, 'r'); H.put(w, 'r'); H.put(w, 256); }
        else { std::vector<uint8_t> ll(258), dl(2); ll['s'] = 2; ll['t'] = 2; ll[256] = 2; ll[257] = 2; dl[0] = 1; dyn_header(w, ll, dl, last); Huff H(ll), HD(dl); H.put(w, 's'); H.put(w, 257); HD.put(w, 0); H.put(w, 't'); H.put(w, 256); } }
      test_stream(w.b, false, M_BYTES | M_FAST | (v % 8 == 0 ? M_CUT2 : 0) | (v % 32 == 0 ? M_SPACE : 0), "block_sequences"); } }
  // F5: every zlib header; F7: every string of two bytes (three in thorough), with several continuations.
  for (uint32_t h = 0; h < 65536; h++) { if (!mine(h >> 8)) continue; Bytes b = {uint8_t(h), uint8_t(h >> 8), 0x4B, 0x04, 0x00, 0, 0x62, 0, 0x62}; test_stream(b, true, 0, "zlib_headers"); }
  for (uint32_t len = 0; len <= (T ? 3u : 2u); len++) for (uint32_t v = 0; v < (1u << (8 * len)); v++) { if (!mine(v >> 4)) continue; Bytes b; for (uint32_t i = 0; i < len; i++) b.push_back(uint8_t(v >> (8 * i)));
    test_stream(b, false, len < 3 ? M_BYTES : 0, "short_strings"); if (len == 2) for (uint8_t f : {0x00, 0xFF, 0x55, 0xB6}) { Bytes c = b; c.insert(c.end(), 40, f); test_stream(c, false, M_BYTES | (v % 16 == 0 ? M_FAST : 0), "short_strings"); } }
  // F6: streams of an independent compressor: every cut, every truncation, every single-bit change.
  { int idx = 0; for (const char* nm : {"k2,n300,p13", "k4,n400,p1", "k3,n150,p1", "k9,n500,p1", "k7,n600,p1", "k10,n900,p1", "k0,n1000,p1"}) for (int strat = 0; strat <= 4; strat++) for (int fmt = 0; fmt < 2; fmt++, idx++) {
      Bytes in = make_input(nm); z_stream z{}; deflateInit2(&z, 1 + idx % 9, Z_DEFLATED, (fmt ? 1 : -1) * (9 + idx % 7), 1 + idx % 9, strat);
      Bytes c(deflateBound(&z, in.size()) + 64); z.next_in = in.data(); z.avail_in = uInt(in.size() / 2); z.next_out = c.data(); z.avail_out = uInt(c.size()); deflate(&z, idx % 3 == 0 ? Z_FULL_FLUSH : idx % 3 == 1 ? Z_NO_FLUSH : Z_BLOCK); z.avail_in += uInt(in.size() - in.size() / 2); deflate(&z, Z_FINISH); c.resize(z.total_out); deflateEnd(&z);
      if (mine(u++)) { Ref r(c, fmt); if (r.v != GOOD || r.out != in) { fprintf(stderr, "reference inflater disagrees with zlib\n"); abort(); } test_stream(c, fmt, ALL, "independent"); }
      for (size_t i = 0; i < c.size(); i++) if (mine(u++)) { Bytes t(c.begin(), c.begin() + i); test_stream(t, fmt, i % 8 == 0 ? M_BYTES : 0, "truncations"); }
      for (size_t i = 0; i < c.size() * 8; i++) { if (!mine(u++ >> 3)) continue; if (!T && idx % 3) continue; Bytes t = c; t[i >> 3] ^= uint8_t(1 << (i & 7)); test_stream(t, fmt, i % 8 == 0 ? M_BYTES | M_FAST : M_FAST, "bit_changes"); }
    } }
  // E1: every bit string after a fixed prefix, at every level.
  for (int lvl = 0; lvl <= 12; lvl++) { int n = T ? (lvl < 8 ? 12 : 9) : (lvl < 8 ? 8 : 5); for (uint64_t a = 0; a < (1ull << n); a++) if (mine(u++)) { std::string nm = "k5,n" + std::to_string(64 + n) + ",p1,a" + std::to_string(a); test_encode(make_input(nm), int(a & 1), lvl, false, nm); } }
  // E2: every length up to 300 with contents of all kinds.
  for (int lvl = 0; lvl <= 12; lvl++) for (size_t n = 0; n <= 300; n += (n < 70 ? 1 : lvl < 8 ? 3 : 17)) for (int k : {0, 1, 2, 3, 4, 7}) { if (!T && k && n % 2 && n > 70) continue; if (mine(u++)) { std::string nm = "k" + std::to_string(k) + ",n" + std::to_string(n) + ",p" + std::to_string(1 + n % 17); test_encode(make_input(nm), int((n + k) & 1), lvl, n % 8 == 3, nm); } }
large:
  // E3: lengths around the limits of blocks and of the window; chunks repeated at the greatest distances.
  if (!g.replaying) for (int lvl = 0; lvl <= 12; lvl++) {
    std::vector<std::string> names;
    for (size_t n : {9999, 10000, 10001, 20000, 20001, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 131071}) for (int k : {0, 3, 4, 8, 10}) if (T || n < 20001 || (n + k + lvl) % 3 == 0) names.push_back("k" + std::to_string(k) + ",n" + std::to_string(n) + ",p1");
    for (size_t p : {257, 258, 259, 4095, 4096, 8191, 32505, 32506, 32507, 32510, 32766, 32767, 32768, 32769, 32770, 33026}) if (T || (p + lvl) % 2) names.push_back("k6,n" + std::to_string(p + 700) + ",p" + std::to_string(p));
    for (size_t n : {299999, 300000, 300001, 300300, 600100}) for (int k : {0, 3, 4, 7, 8, 9, 10}) if (T || (n / 100 + n + k * 5 + lvl) % 10 == 0) names.push_back("k" + std::to_string(k) + ",n" + std::to_string(n) + ",p1");
    for (auto& nm : names) if (mine(u++)) test_encode(make_input(nm), int(nm.size() & 1), lvl, nm.size() % 3 == 0, nm);
  }
  // F8: large streams of an independent compressor.
  for (const char* nm : {"k4,n200000,p1", "k8,n150000,p1", "k6,n100000,p32768", "k10,n120000,p1", "k3,n70000,p1", "k9,n100000,p1"}) for (int strat = 0; strat <= 4; strat++) for (int lvl : {1, 6, 9}) { char id[100]; snprintf(id, 100, "zl,%s,%d,%d", nm, strat, lvl); if (!take(id)) continue;
    Bytes in = make_input(nm); z_stream z{}; deflateInit2(&z, lvl, Z_DEFLATED, -15, 8, strat); Bytes c(deflateBound(&z, in.size()) + 64); z.next_in = in.data(); z.avail_in = uInt(in.size()); z.next_out = c.data(); z.avail_out = uInt(c.size()); deflate(&z, Z_FINISH); c.resize(z.total_out); deflateEnd(&z);
    test_stream(c, false, M_FAST | M_CUTFEW | M_BYTES, "independent_large"); }
  // The trailer of a zlib stream.
  if (!g.replaying ? mine(u++) : g.replay == "F:adler") { famcase = "F:adler"; Bytes b = {0x78, 0x9C, 0x4B, 0x04, 0x00, 0, 0x62, 0, 0x63}; set_case_s(famcase); Res r = decode(b, true, {}, 0, false, 0, 0); if (r.r == BL_SUCCESS) fail("adler-ignored", "a zlib stream with a wrong Adler-32 trailer is decoded without an error"); }
}
