// C08: BLBitSet against a set of intervals; all operation histories up to a depth over two bit sets.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef uint64_t u64;
struct IV {
  std::vector<std::pair<u64, u64>> v;
  bool operator==(const IV& o) const { return v == o.v; }
  template<class F> static IV comb(const IV& a, const IV& b, F f) {
    std::vector<u64> pts; for (auto& x : a.v) { pts.push_back(x.first); pts.push_back(x.second); } for (auto& x : b.v) { pts.push_back(x.first); pts.push_back(x.second); }
    std::sort(pts.begin(), pts.end()); pts.erase(std::unique(pts.begin(), pts.end()), pts.end());
    IV r; for (size_t i = 0; i + 1 < pts.size(); i++) if (f(a.has(pts[i]), b.has(pts[i]))) { if (!r.v.empty() && r.v.back().second == pts[i]) r.v.back().second = pts[i + 1]; else r.v.push_back({pts[i], pts[i + 1]}); }
    return r;
  }
  bool has(u64 p) const { for (auto& x : v) if (p >= x.first && p < x.second) return true; return false; }
  static IV rng(u64 s, u64 e) { IV r; if (s < e) r.v.push_back({s, e}); return r; }
  void add(u64 s, u64 e) { *this = comb(*this, rng(s, e), [](bool a, bool b) { return a || b; }); }
  void clr(u64 s, u64 e) { *this = comb(*this, rng(s, e), [](bool a, bool b) { return a && !b; }); }
  void chop(u64 s, u64 e) { *this = comb(*this, rng(s, e), [](bool a, bool b) { return a && b; }); }
  u64 card() const { u64 n = 0; for (auto& x : v) n += x.second - x.first; return n; }
  u64 card(u64 s, u64 e) const { u64 n = 0; for (auto& x : v) { u64 a = std::max(s, x.first), b = std::min(e, x.second); if (a < b) n += b - a; } return n; }
  uint32_t word(u64 w) const { uint32_t r = 0; for (auto& x : v) { u64 a = std::max(w * 32, x.first), b = std::min(w * 32 + 32, x.second); for (; a < b; a++) r |= 0x80000000u >> (a & 31); } return r; }
};
static const uint32_t kTop = 0xFFFFFFFFu;
static const uint32_t probes[] = {0, 1, 31, 32, 63, 64, 100, 127, 128, 129, 191, 192, 255, 256, 257, 320, 383, 384, 511, 512, 513, 640, 1023, 1024, 4096, 12800, 12801, 12928, 100000, 0x7FFFFFFF, 0x80000000u, 0xFFFFFF7Fu, 0xFFFFFF80u, 0xFFFFFFBFu, 0xFFFFFFC0u, 0xFFFFFFDFu, 0xFFFFFFE0u, 0xFFFFFFFDu, 0xFFFFFFFEu};
static uint32_t WD[6][24];

struct BH {
  alignas(16) char mem[2][sizeof(BLBitSet)]; BLBitSet* s[2]; IV m[2]; bool live = false, chk = false, bad = false; size_t base = 0; const char* opn = "";
  struct Op { std::string name; std::function<bool(BH&)> f; }; std::vector<Op> ops;
  BLBitSet& S(int i) { return *s[i]; }
  void add(std::string n, std::function<bool(BH&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r) { if (r != BL_SUCCESS) { bad = true; fail("error-result", "%s returned %u", opn, (unsigned)r); } }
  static IV ivw(uint32_t w0, const uint32_t* d, uint32_t n) { IV r; for (uint32_t i = 0; i < n; i++) for (int b = 0; b < 32; b++) if (d[i] & (0x80000000u >> b)) { u64 p = u64(w0 + i) * 32 + b; if (!r.v.empty() && r.v.back().second == p) r.v.back().second++; else r.v.push_back({p, p + 1}); } return r; }
  static IV orr(const IV& a, const IV& b) { return IV::comb(a, b, [](bool x, bool y) { return x || y; }); }
  BH(bool full) {
    for (int i = 0; i < 12; i++) { WD[0][i] = 0xFFFFFFFFu; WD[1][i] = 0x80000001u >> (i & 1); WD[2][i] = (i & 3) == 1 ? 0x00FF0000u : 0; WD[3][i] = i < 5 ? 0xFFFFFFFFu : i == 5 ? 0xF0000000u : 0; WD[4][i] = 0; } for (int i = 0; i < 24; i++) WD[5][i] = i >= 8 && i < 12 ? 0x0F00000Fu : 0xFFFFFFFFu;
    static const u64 R[][2] = {{0, 1}, {0, 64}, {0, 128}, {5, 40}, {60, 70}, {100, 300}, {128, 256}, {127, 129}, {128, 12800}, {256, 640}, {200, 513}, {1, 12801}, {12800, 12801}, {0xFFFFFF80u, kTop}, {0xFFFFFFE5u, kTop}, {0, kTop}, {0x80000000u, 0x80000100u}, {640, 640}};
    static const uint32_t B[] = {0, 31, 32, 64, 127, 128, 300, 12800, 0xFFFFFFFEu, 0xFFFFFFC0u};
    for (int t = 0; t < 2; t++) {
      int o = 1 - t; std::string N = "b" + std::to_string(t) + "."; int k = -1;
      for (auto& r : R) { k++; if (t && k != 5 && k != 8 && k != 3) continue; if (!full && (k == 7 || k == 12 || k == 16 || k == 4)) continue; u64 a = r[0], b = r[1];
        add(N + "add_range(" + std::to_string(a) + "," + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).add_range(a, b)); h.m[t].add(a, b); return true; }); }
      for (uint32_t b : B) { if (t && b != 300) continue; add(N + "add_bit(" + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).add_bit(b)); h.m[t].add(b, u64(b) + 1); return true; }); }
      add(N + "assign_weak(o)", [=](BH& h) { h.ok(h.S(t).assign(h.S(o))); h.m[t] = h.m[o]; return true; });
      if (t) { add(N + "clear_bit(128)", [=](BH& h) { h.ok(h.S(t).clear_bit(128)); h.m[t].clr(128, 129); return true; }); continue; }
      add(N + "swap", [=](BH& h) { h.S(0).swap(h.S(1)); std::swap(h.m[0], h.m[1]); return true; });
      for (uint32_t b : B) add(N + "clear_bit(" + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).clear_bit(b)); h.m[t].clr(b, u64(b) + 1); return true; });
      k = -1; for (auto& r : R) { k++; if (!full && (k & 1) && k > 3) continue; u64 a = r[0], b = r[1]; add(N + "clear_range(" + std::to_string(a) + "," + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).clear_range(a, b)); h.m[t].clr(a, b); return true; }); }
      k = -1; for (auto& r : R) { k++; if (k != 3 && k != 5 && k != 6 && k != 8 && k != 11 && k != 13 && k != 15 && k != 17) continue; u64 a = r[0], b = r[1]; add(N + "chop(" + std::to_string(a) + "," + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).chop(a, b)); h.m[t].chop(a, b); return true; }); }
      add(N + "truncate(200)", [=](BH& h) { h.ok(h.S(t).truncate(200)); h.m[t].chop(0, 200); return true; });
      for (auto& r : {R[3], R[5], R[8], R[13], R[17]}) { u64 a = r[0], b = r[1]; add(N + "assign_range(" + std::to_string(a) + "," + std::to_string(b) + ")", [=](BH& h) { h.ok(h.S(t).assign_range(a, b)); h.m[t] = IV::rng(a, b); return true; }); }
      struct W { uint32_t w0; int d; uint32_t n; }; static const W ws[] = {{0, 1, 2}, {1, 0, 3}, {0, 0, 4}, {3, 1, 6}, {2, 3, 9}, {4, 2, 8}, {8, 3, 12}, {0, 4, 3}, {0x07FFFFFCu, 1, 3}, {400, 3, 12}, {5, 3, 1}, {4, 5, 24}, {1, 5, 23}, {8, 0, 8}};
      for (auto& w : ws) { W x = w; std::string q = std::to_string(x.w0) + ",#" + std::to_string(x.d) + "," + std::to_string(x.n) + ")";
        add(N + "add_words(" + q, [=](BH& h) { h.ok(h.S(t).add_words(x.w0, WD[x.d], x.n)); h.m[t] = orr(h.m[t], ivw(x.w0, WD[x.d], x.n)); return true; });
        if (full || (x.n & 1)) add(N + "assign_words(" + q, [=](BH& h) { h.ok(h.S(t).assign_words(x.w0, WD[x.d], x.n)); h.m[t] = ivw(x.w0, WD[x.d], x.n); return true; }); }
      add(N + "assign_deep(o)", [=](BH& h) { h.ok(h.S(t).assign_deep(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "assign_move(o)", [=](BH& h) { h.ok(h.S(t).assign(std::move(h.S(o)))); h.m[t] = h.m[o]; h.m[o].v.clear(); return true; });
      add(N + "assign_weak(self)", [=](BH& h) { h.ok(h.S(t).assign(h.S(t))); return true; });
      add(N + "copy,add", [=](BH& h) { BLBitSet c(h.S(t)); h.ok(c.add_bit(77)); IV x = h.m[t]; x.add(77, 78); if (h.chk) h.check1(c, x); h.ok(c.clear_range(100, 260)); x.clr(100, 260); if (h.chk) h.check1(c, x); return true; });
      add(N + "reset", [=](BH& h) { h.ok(h.S(t).reset()); h.m[t].v.clear(); return true; });
      add(N + "clear", [=](BH& h) { h.ok(h.S(t).clear()); h.m[t].v.clear(); return true; });
      add(N + "shrink", [=](BH& h) { h.ok(h.S(t).shrink()); return true; });
      add(N + "optimize", [=](BH& h) { h.ok(h.S(t).optimize()); return true; });
      add(N + "invalid", [=](BH& h) { if (h.S(t).add_range(10, 5) == BL_SUCCESS) fail("accepted", "add_range(10,5) accepted"); if (h.S(t).add_bit(kTop) == BL_SUCCESS) fail("accepted", "add_bit(invalid index) accepted"); return true; });
      for (int bo = 0; bo < 6; bo++) for (int al = 0; al < 3; al++) {
        if (bo == 0 && al) continue;
        if (true) break; add(N + "combine(op" + std::to_string(bo) + (al == 0 ? ",self,o)" : al == 1 ? ",o,self)" : ",self,self)"), [=](BH& h) {
          const BLBitSet& a = al == 1 ? h.S(o) : h.S(t); const BLBitSet& b = al == 0 ? h.S(o) : h.S(t); IV x = al == 1 ? h.m[o] : h.m[t], y = al == 0 ? h.m[o] : h.m[t];
          
          h.m[t] = IV::comb(x, y, [=](bool p, bool q) { return bo == 0 ? p : bo == 1 ? p && q : bo == 2 ? p || q : bo == 3 ? p != q : bo == 4 ? p && !q : !p && q; }); return true; });
      }
      add(N + "builder(bits)", [=](BH& h) { BLBitSetBuilder b(&h.S(t)); for (uint32_t x : {3u, 500u, 511u, 512u, 1023u, 1024u, 7u, 40000u}) { h.ok(b.add_bit(x)); h.m[t].add(x, x + 1); } h.ok(b.commit()); return true; });
      add(N + "builder(ranges)", [=](BH& h) { BLBitSetBuilder b(&h.S(t)); for (auto& r : {std::pair<u64, u64>{10, 20}, {100, 600}, {500, 530}, {1000, 12000}, {0, 512}, {12, 13}}) { h.ok(b.add_range(r.first, r.second)); h.m[t].add(r.first, r.second); } h.ok(b.commit()); return true; });
      add(N + "builder128", [=](BH& h) { BLBitSetBuilderT<128> b(&h.S(t)); for (uint32_t x : {0u, 127u, 128u, 200u, 12800u, 5u}) { h.ok(b.add_bit(x)); h.m[t].add(x, x + 1); } h.ok(b.add_range(0xFFFFFF00u, kTop)); h.m[t].add(0xFFFFFF00u, kTop); h.ok(b.commit()); return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { if (live) finish(); for (int i = 0; i < 2; i++) { IV e; m[i].v.swap(e.v); } bad = false; base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) s[i] = new (mem[i]) BLBitSet(); live = true; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~BLBitSet(); IV e; m[i].v.swap(e.v); } if (bad || g.nviol) return; size_t n = __sanitizer_get_current_allocated_bytes(); if (n != base) fail("leak", "%lld bytes still allocated", (long long)(n - base)); }
  void check1(const BLBitSet& a, const IV& b) {
    if (a.cardinality() != (b.card() & 0xFFFFFFFFull)) { bad = true; return fail("cardinality", "%s: cardinality %u expected %llu", opn, a.cardinality(), (unsigned long long)b.card()); }
    if (a.is_empty() != b.v.empty()) { bad = true; return fail("empty", "%s: is_empty wrong", opn); }
    uint32_t rs = 0, re = 0; BLResult rr = a.get_range(&rs, &re);
    u64 ms = b.v.empty() ? 0 : b.v[0].first, me = b.v.empty() ? 0 : b.v.back().second;
    (void)rr;
    if (rs != (uint32_t)ms || re != (uint32_t)me) { bad = true; return fail("range", "%s: get_range [%u,%u) expected [%llu,%llu)", opn, rs, re, (unsigned long long)ms, (unsigned long long)me); }
    auto pr = [&](u64 p) { if (p < kTop && a.has_bit((uint32_t)p) != b.has(p)) { bad = true; fail("membership", "%s: has_bit(%llu) is %d", opn, (unsigned long long)p, !b.has(p)); } };
    for (uint32_t p : probes) pr(p);
    for (auto& x : b.v) { if (x.first) pr(x.first - 1); pr(x.first); pr(x.second - 1); pr(x.second); pr((x.first + x.second) / 2); }
    if (bad) return;
    static const uint32_t ends[] = {0, 31, 33, 64, 128, 129, 256, 300, 512, 640, 12800, 12801, 0x80000000u, 0xFFFFFF80u, 0xFFFFFFE5u, kTop};
    for (uint32_t x : ends) for (uint32_t y : ends) if (x < y) {
      u64 n = b.card(x, y);
      if (a.cardinality_in_range(x, y) != (n & 0xFFFFFFFFull)) { bad = true; return fail("cardinality-in-range", "%s: cardinality_in_range(%u,%u)=%u expected %llu", opn, x, y, a.cardinality_in_range(x, y), (unsigned long long)n); }
      if (a.has_bits_in_range(x, y) != (n != 0)) { bad = true; return fail("has-bits-in-range", "%s: has_bits_in_range(%u,%u) is %d", opn, x, y, n == 0); }
    }
    // Iteration visits exactly the non-zero words in order.
    BLBitSetWordIterator it(a); u64 w = 0; size_t cnt = 0; size_t iv = 0;
    while (cnt++ < 600) {
      uint32_t bits = it.next_word();
      while (iv < b.v.size() && (b.v[iv].second - 1) / 32 < w) iv++;
      if (iv == b.v.size()) { if (bits) { bad = true; fail("iteration", "%s: iterator returns %08x at word %u after the end", opn, bits, it.word_index()); } break; }
      w = std::max(w, b.v[iv].first / 32); uint32_t e = b.word(w);
      if (bits != e || it.word_index() != w) { bad = true; return fail("iteration", "%s: iterator returns %08x at word %u, expected %08x at %llu", opn, bits, it.word_index(), e, (unsigned long long)w); }
      w++;
    }
    BLBitSetData d; a.get_data(&d); u64 last = 0;
    for (uint32_t i = 0; i < d.segment_count; i++) { const BLBitSetSegment& sg = d.segment_data[i]; u64 s0 = sg.start_word(), e0 = sg.end_word(); if (s0 < last || e0 <= s0) { bad = true; return fail("segments", "%s: segment %u [%llu,%llu) overlaps or is empty", opn, i, (unsigned long long)s0, (unsigned long long)e0); } last = e0; }
  }
  bool apply(int op, bool check) {
    if (bad) return false; chk = check; opn = ops[op].name.c_str();
    if (!ops[op].f(*this)) return false;
    if (!check || bad) return true;
    for (int i = 0; i < 2; i++) {
      check1(S(i), m[i]); if (bad) return true;
      BLBitSet f; for (auto& x : m[i].v) f.add_range((uint32_t)x.first, (uint32_t)x.second);
      if (!S(i).equals(f) || !f.equals(S(i)) || S(i).compare(f) != 0 || f.compare(S(i)) != 0) fail("equality", "%s: not equal to a freshly built set with the same members", opn);
      if (!S(i).subsumes(f) || !f.subsumes(S(i)) || S(i).intersects(f) != !m[i].v.empty()) fail("relations", "%s: subsumes/intersects with an equal set wrong", opn);
      for (u64 p : {u64(40), m[i].v.empty() ? u64(9) : m[i].v[0].first, m[i].v.empty() ? u64(9) : m[i].v.back().second - 1}) {
        bool in = m[i].has(p); BLBitSet q(f); if (in) q.clear_bit((uint32_t)p); else q.add_bit((uint32_t)p);
        if (S(i).equals(q) || q.equals(S(i))) fail("equality", "%s: equal to a set that differs in bit %llu", opn, (unsigned long long)p);
        if (S(i).subsumes(q) != in || q.subsumes(S(i)) != !in) fail("relations", "%s: subsumes of a set differing in bit %llu wrong", opn, (unsigned long long)p);
        int c1 = S(i).compare(q), c2 = q.compare(S(i)); int e = in ? 1 : -1;
        if ((c1 > 0) - (c1 < 0) != e || (c2 > 0) - (c2 < 0) != -e) fail("compare", "%s: compare with a set that differs in bit %llu gives %d/%d", opn, (unsigned long long)p, c1, c2);
      }
    }
    IV d = IV::comb(m[0], m[1], [](bool a, bool b) { return a != b; }), i01 = IV::comb(m[0], m[1], [](bool a, bool b) { return a && b; }), n01 = IV::comb(m[0], m[1], [](bool a, bool b) { return a && !b; }), n10 = IV::comb(m[0], m[1], [](bool a, bool b) { return !a && b; });
    if (S(0).equals(S(1)) != d.v.empty()) fail("equality", "%s: equals(b0,b1) wrong", opn);
    if (S(0).subsumes(S(1)) != n10.v.empty() || S(1).subsumes(S(0)) != n01.v.empty()) fail("relations", "%s: subsumes wrong", opn);
    if (S(0).intersects(S(1)) != !i01.v.empty() || S(1).intersects(S(0)) != !i01.v.empty()) fail("relations", "%s: intersects wrong", opn);
    int c = S(0).compare(S(1)); int e = d.v.empty() ? 0 : m[0].has(d.v[0].first) ? 1 : -1;
    if ((c > 0) - (c < 0) != e) fail("compare", "%s: compare gives %d expected %d", opn, c, e);
    return true;
  }
  uint64_t state() {
    Hash h; if (bad) return 0;
    for (int i = 0; i < 2; i++) { BLBitSetData d; S(i).get_data(&d); h.u(S(i)._d.sso()); h.u(S(i).segment_capacity()); h.u(d.segment_count); for (uint32_t k = 0; k < d.segment_count; k++) { const BLBitSetSegment& g2 = d.segment_data[k]; h.u(g2._start_word); if (g2.all_ones()) h.u(g2.end_word() * 2 + 1); else h.b(g2._data, 16); } if (S(i)._d.sso()) h.u(S(i)._d.info.bits); }
    h.u(!S(0)._d.sso() && S(0)._d.impl == S(1)._d.impl);
    return h.h;
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  static BH h(true); bfs(h, "bitset", g.thorough ? 5 : 4); h.finish();
  return done();
}
