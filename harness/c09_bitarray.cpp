// C09: BLBitArray against std::vector<bool>; all operation histories up to a depth over two bit arrays.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
typedef std::vector<bool> VB;
static uint32_t WD[3][8];
struct BH {
  alignas(16) char mem[2][sizeof(BLBitArray)]; BLBitArray* s[2]; VB m[2]; bool live = false, chk = false, bad = false; size_t base = 0; const char* opn = "";
  struct Op { std::string name; std::function<bool(BH&)> f; }; std::vector<Op> ops;
  BLBitArray& S(int i) { return *s[i]; }
  void add(std::string n, std::function<bool(BH&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r) { if (r != BL_SUCCESS) { bad = true; fail("error-result", "%s returned %u", opn, (unsigned)r); } }
  static bool wb(const uint32_t* w, size_t i) { return (w[i / 32] >> (31 - i % 32)) & 1; }
  // mode: 0 or, 1 andnot, 2 assign
  void words(int t, uint32_t i, const uint32_t* w, uint32_t n, int mode, BLResult r) {
    VB& v = m[t];
    if (i >= v.size()) { if (r == BL_SUCCESS) { bad = true; fail("accepted", "%s: index %u beyond size %zu accepted", opn, i, v.size()); } return; }
    ok(r);
    for (size_t k = 0; k < size_t(n) * 32 && i + k < v.size(); k++) { bool b = wb(w, k); if (mode == 0) v[i + k] = v[i + k] || b; else if (mode == 1) v[i + k] = v[i + k] && !b; else v[i + k] = b; }
  }
  void bit(int t, uint32_t i, bool val, BLResult r) { if (i >= m[t].size()) { if (r == BL_SUCCESS) { bad = true; fail("accepted", "%s: index %u beyond size accepted", opn, i); } return; } ok(r); m[t][i] = val; }
  void range(int t, uint32_t a, uint32_t b, bool val, BLResult r) { if (a >= m[t].size() || a >= b) { if (r == BL_SUCCESS) { bad = true; fail("accepted", "%s accepted", opn); } return; } ok(r); for (size_t k = a; k < b && k < m[t].size(); k++) m[t][k] = val; }
  BH(bool full) {
    for (int i = 0; i < 8; i++) { WD[0][i] = 0xFFFFFFFFu; WD[1][i] = 0x80000001u ^ (i * 0x00F00F00u); WD[2][i] = 0; }
    for (int t = 0; t < 2; t++) {
      int o = 1 - t; std::string N = "a" + std::to_string(t) + ".";
      auto S1 = [](int v) { return std::to_string(v) + ")"; };
      for (uint32_t n : {0, 1, 31, 32, 40, 63, 64, 65, 96, 130, 300}) { if (t && n != 40 && n != 130) continue; if (!full && (n == 31 || n == 63)) continue; add(N + "resize(" + S1(n), [=](BH& h) { h.ok(h.S(t).resize(n)); h.m[t].resize(n, false); return true; }); }
      for (uint32_t i : {0, 31, 32, 64, 95, 129}) { if (t && i != 32) continue; add(N + "set_bit(" + S1(i), [=](BH& h) { h.bit(t, i, true, h.S(t).set_bit(i)); return true; }); }
      add(N + "assign_weak(o)", [=](BH& h) { h.ok(h.S(t).assign(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "append_bit(1)", [=](BH& h) { h.ok(h.S(t).append_bit(true)); h.m[t].push_back(true); return true; });
      if (t) { add(N + "fill_range(5,120)", [=](BH& h) { h.range(t, 5, 120, true, h.S(t).fill_range(5, 120)); return true; }); continue; }
      add(N + "swap", [=](BH& h) { h.S(0).swap(h.S(1)); std::swap(h.m[0], h.m[1]); return true; });
      for (uint32_t i : {0, 31, 33, 64, 95}) { add(N + "clear_bit(" + S1(i), [=](BH& h) { h.bit(t, i, false, h.S(t).clear_bit(i)); return true; }); }
      for (auto& r : {std::pair<uint32_t, uint32_t>{0, 1}, {0, 32}, {5, 40}, {31, 33}, {32, 64}, {64, 96}, {40, 300}, {100, 130}, {3, 3}, {9, 2}, {0, 0xFFFFFFFFu}}) { uint32_t a = r.first, b = r.second; std::string q = std::to_string(a) + "," + std::to_string(b) + ")";
        add(N + "fill_range(" + q, [=](BH& h) { h.range(t, a, b, true, h.S(t).fill_range(a, b)); return true; });
        add(N + "clear_range(" + q, [=](BH& h) { h.range(t, a, b, false, h.S(t).clear_range(a, b)); return true; }); }
      struct W { uint32_t i; int d; uint32_t n; };
      for (W x : {W{0, 1, 1}, W{3, 1, 1}, W{0, 0, 2}, W{20, 1, 3}, W{32, 1, 2}, W{33, 0, 1}, W{70, 1, 4}, W{64, 0, 1}, W{31, 0, 8}, W{7, 1, 0}}) { std::string q = std::to_string(x.i) + ",#" + std::to_string(x.d) + "," + S1(x.n); const uint32_t* w = WD[x.d];
        add(N + "fill_words(" + q, [=](BH& h) { h.words(t, x.i, w, x.n, 0, h.S(t).fill_words(x.i, w, x.n)); return true; });
        add(N + "clear_words(" + q, [=](BH& h) { h.words(t, x.i, w, x.n, 1, h.S(t).clear_words(x.i, w, x.n)); return true; });
        add(N + "replace_words(" + q, [=](BH& h) { h.words(t, x.i, w, x.n, 2, h.S(t).replace_words(x.i, w, x.n)); return true; }); }
      add(N + "clear_word", [=](BH& h) { uint32_t w = 0x0F0F0F0F; h.words(t, 9, &w, 1, 1, h.S(t).clear_word(9, w)); return true; });
      add(N + "replace_word", [=](BH& h) { uint32_t w = 0xF0FF00F1; h.words(t, 29, &w, 1, 2, h.S(t).replace_word(29, w)); return true; });
      add(N + "replace_bit(35,0)", [=](BH& h) { h.bit(t, 35, false, h.S(t).replace_bit(35, false)); return true; });
      add(N + "replace_bit(62,1)", [=](BH& h) { h.bit(t, 62, true, h.S(t).replace_bit(62, true)); return true; });
      add(N + "append_bit(0)", [=](BH& h) { h.ok(h.S(t).append_bit(false)); h.m[t].push_back(false); return true; });
      add(N + "append_word", [=](BH& h) { uint32_t w = 0xA0000005u; h.ok(h.S(t).append_word(w)); for (int k = 0; k < 32; k++) h.m[t].push_back(wb(&w, k)); return true; });
      for (uint32_t n : {0, 1, 2, 5}) { add(N + "append_words(" + S1(n), [=](BH& h) { h.ok(h.S(t).append_words(WD[1], n)); for (uint32_t k = 0; k < 32 * n; k++) h.m[t].push_back(wb(WD[1], k)); return true; });
        add(N + "assign_words(" + S1(n), [=](BH& h) { h.ok(h.S(t).assign_words(WD[1], n)); h.m[t].clear(); for (uint32_t k = 0; k < 32 * n; k++) h.m[t].push_back(wb(WD[1], k)); return true; }); }
      for (uint32_t n : {0, 20, 64, 70, 250}) add(N + "replace_op(" + S1(n), [=](BH& h) { uint32_t* p = nullptr; h.ok(h.S(t).replace_op(n, &p)); h.m[t].assign(n, false); if (n >= 8 && !h.bad) { p[0] |= 0x05000000u; h.m[t][5] = h.m[t][7] = true; } return true; });
      add(N + "assign_move(o)", [=](BH& h) { h.ok(h.S(t).assign(std::move(h.S(o)))); h.m[t] = h.m[o]; h.m[o].clear(); return true; });
      add(N + "assign_weak(self)", [=](BH& h) { h.ok(h.S(t).assign(h.S(t))); return true; });
      add(N + "copy,set", [=](BH& h) { BLBitArray c(h.S(t)); VB x = h.m[t]; if (x.size() > 3) { h.ok(c.set_bit(3)); x[3] = true; } h.ok(c.append_bit(true)); x.push_back(true); if (h.chk) h.check1(c, x); return true; });
      add(N + "reset", [=](BH& h) { h.ok(h.S(t).reset()); h.m[t].clear(); return true; });
      add(N + "clear", [=](BH& h) { h.ok(h.S(t).clear()); h.m[t].clear(); return true; });
      add(N + "shrink", [=](BH& h) { h.ok(h.S(t).shrink()); return true; });
      for (uint32_t n : {10, 100, 400}) add(N + "reserve(" + S1(n), [=](BH& h) { h.ok(h.S(t).reserve(n)); if (h.S(t).capacity() < n) { h.bad = true; fail("capacity", "reserve(%u) left capacity %u", n, h.S(t).capacity()); } return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { if (live) finish(); for (int i = 0; i < 2; i++) { VB e; m[i].swap(e); } bad = false; base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) s[i] = new (mem[i]) BLBitArray(); live = true; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~BLBitArray(); VB e; m[i].swap(e); } if (bad || g.nviol) return; size_t n = __sanitizer_get_current_allocated_bytes(); if (n != base) fail("leak", "%lld bytes still allocated", (long long)(n - base)); }
  void B() { bad = true; }
  void check1(const BLBitArray& a, const VB& b) {
    if (a.size() != b.size() || a.is_empty() != b.empty() || a.word_count() != (b.size() + 31) / 32) { B(); return fail("size", "%s: size %u expected %zu", opn, a.size(), b.size()); }
    if (a.capacity() < a.size()) { B(); return fail("capacity", "%s: capacity %u below size %u", opn, a.capacity(), a.size()); }
    uint32_t n = 0, first = 0, end = 0; for (size_t i = 0; i < b.size(); i++) if (b[i]) { if (!n) first = i; end = i + 1; n++; }
    for (size_t i = 0; i < b.size(); i++) if (a.has_bit(i) != b[i]) { B(); return fail("bit", "%s: bit %zu is %d", opn, i, !b[i]); }
    if (a.has_bit(b.size()) || a.has_bit(0xFFFFFFFFu)) { B(); return fail("bit", "%s: bit beyond size visible", opn); }
    if (a.cardinality() != n) { B(); return fail("cardinality", "%s: cardinality %u expected %u", opn, a.cardinality(), n); }
    uint32_t rs = 9, re = 9; bool rr = bl_bit_array_get_range(&a, &rs, &re); if (rr != (n != 0) || rs != first || re != end) { B(); return fail("range", "%s: get_range [%u,%u) expected [%u,%u)", opn, rs, re, first, end); }
    const uint32_t* d = a.data(); for (size_t w = 0; w < (b.size() + 31) / 32; w++) { uint32_t e = 0; for (size_t k = 0; k < 32 && w * 32 + k < b.size(); k++) if (b[w * 32 + k]) e |= 0x80000000u >> k; if (d[w] != e) { B(); return fail("data", "%s: word %zu is %08x expected %08x", opn, w, d[w], e); } }
    static const uint32_t e0[] = {0, 1, 31, 32, 33, 40, 63, 64, 65, 96, 97, 128, 130, 300, 0xFFFFFFFFu};
    std::vector<uint32_t> pre(b.size() + 1); for (size_t i = 0; i < b.size(); i++) pre[i + 1] = pre[i] + b[i];
    for (uint32_t x : e0) for (uint32_t y : e0) { uint32_t c = 0; size_t X = std::min<size_t>(x, b.size()), Y = std::min<size_t>(y, b.size()); if (X < Y) c = pre[Y] - pre[X];
      if (a.cardinality_in_range(x, y) != c) { B(); return fail("cardinality-in-range", "%s: cardinality_in_range(%u,%u)=%u expected %u", opn, x, y, a.cardinality_in_range(x, y), c); }
      if (a.has_bits_in_range(x, y) != (c != 0)) { B(); return fail("has-bits-in-range", "%s: has_bits_in_range(%u,%u) is %d", opn, x, y, c == 0); } }
  }
  bool apply(int op, bool check) {
    if (bad) return false; chk = check; opn = ops[op].name.c_str();
    if (!ops[op].f(*this)) return false;
    for (int i = 0; i < 2; i++) if (m[i].size() > 600) return false;
    if (!check || bad) return true;
    for (int i = 0; i < 2; i++) {
      check1(S(i), m[i]); if (bad) return true;
      BLBitArray f; for (bool b : m[i]) f.append_bit(b);
      if (!S(i).equals(f) || !f.equals(S(i)) || S(i).compare(f) != 0 || f.compare(S(i)) != 0) fail("equality", "%s: not equal to a freshly built array with the same bits", opn);
      for (size_t p : {size_t(0), m[i].size() / 2, m[i].size() - 1}) if (p < m[i].size()) {
        BLBitArray q(f); q.replace_bit((uint32_t)p, !m[i][p]);
        if (S(i).equals(q) || q.equals(S(i))) fail("equality", "%s: equal to an array that differs in bit %zu", opn, p);
      }
    }
    const VB &a = m[0], &b = m[1]; bool ab = true, ba = true, in = false; int cmp = 0;
    for (size_t i = 0; i < std::max(a.size(), b.size()); i++) { bool x = i < a.size() && a[i], y = i < b.size() && b[i]; if (y && !x) ab = false; if (x && !y) ba = false; if (x && y) in = true; if (!cmp && x != y) cmp = x ? 1 : -1; }
    if (!cmp || cmp) { cmp = 0; size_t k = std::min(a.size(), b.size()); for (size_t i = 0; i < k && !cmp; i++) if (a[i] != b[i]) cmp = a[i] ? 1 : -1; if (!cmp) cmp = a.size() < b.size() ? -1 : a.size() > b.size(); }
    if (S(0).equals(S(1)) != (a == b)) fail("equality", "%s: equals(a0,a1) wrong", opn);
    if (S(0).subsumes(S(1)) != ab || S(1).subsumes(S(0)) != ba) fail("relations", "%s: subsumes wrong", opn);
    if (S(0).intersects(S(1)) != in || S(1).intersects(S(0)) != in) fail("relations", "%s: intersects wrong", opn);
    int c = S(0).compare(S(1)), c2 = S(1).compare(S(0));
    if ((c > 0) - (c < 0) != cmp || (c2 > 0) - (c2 < 0) != -cmp) fail("compare", "%s: compare gives %d expected %d", opn, c, cmp);
    return true;
  }
  uint64_t state() {
    Hash h; if (bad) return 0;
    for (int i = 0; i < 2; i++) { h.u(S(i)._d.sso()); h.u(S(i).capacity()); h.u(S(i).size()); h.b(S(i).data(), S(i).word_count() * 4); }
    h.u(!S(0)._d.sso() && S(0)._d.impl == S(1)._d.impl);
    return h.h;
  }
};
int main(int argc, char** argv) {
  init(argc, argv);
  static BH h(true); bfs(h, "bitarray", g.thorough ? 5 : 4); h.finish();
  return done();
}
