// C06: BLString against std::string; all operation histories up to a depth over two strings that share storage.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;

static const char* L = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-+abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static const size_t kMax = 420;

struct SH {
  alignas(16) char mem[2][sizeof(BLString)];
  BLString* s[2];
  std::string m[2];
  bool live = false, chk = false;
  struct Op { std::string name; std::function<bool(SH&)> f; };
  std::vector<Op> ops;

  BLString& S(int i) { return *s[i]; }
  void add(std::string n, std::function<bool(SH&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r, const char* what) { if (r != BL_SUCCESS) fail("error-result", "%s returned %u", what, (unsigned)r); }

  SH() {
    for (int t = 0; t < 2; t++) {
      int o = 1 - t; std::string T = "s" + std::to_string(t) + ".";
      // Two strings are symmetric; the second one gets the reduced alphabet that creates sharing and refills it.
      for (size_t n : {0, 1, 14, 15, 61}) {
        if (t == 1 && n != 14 && n != 61) continue;
        add(T + "assign(data," + std::to_string(n) + ")", [=](SH& h) { h.ok(h.S(t).assign(L, n), "assign"); h.m[t].assign(L, n); return true; });
      }
      add(T + "assign_weak(o)", [=](SH& h) { h.ok(h.S(t).assign(h.S(o)), "assign_weak"); h.m[t] = h.m[o]; return true; });
      add(T + "assign_deep(o)", [=](SH& h) { h.ok(h.S(t).assign_deep(h.S(o)), "assign_deep"); h.m[t] = h.m[o]; return true; });
      add(T + "assign_move(o)", [=](SH& h) { h.ok(h.S(t).assign(std::move(h.S(o))), "assign_move"); h.m[t] = h.m[o]; h.m[o].clear(); return true; });
      if (t == 0) {
        add(T + "swap(o)", [=](SH& h) { h.S(t).swap(h.S(o)); std::swap(h.m[t], h.m[o]); return true; });
        add(T + "assign_weak(self)", [=](SH& h) { h.ok(h.S(t).assign(h.S(t)), "assign_weak"); return true; });
        add(T + "assign_deep(self)", [=](SH& h) { h.ok(h.S(t).assign_deep(h.S(t)), "assign_deep"); return true; });
        add(T + "copy-ctor", [=](SH& h) { BLString c(h.S(t)); if (h.chk) h.check1(c, h.m[t], "copy-ctor"); ok2(c.append('z')); if (h.chk) h.check1(c, h.m[t] + "z", "copy-ctor+append"); return h.m[t].size() < kMax; });
        add(T + "move-ctor", [=](SH& h) { BLString c(std::move(h.S(t))); if (h.chk) { h.check1(c, h.m[t], "move-ctor"); h.check1(h.S(t), "", "moved-from"); } h.ok(h.S(t).assign(std::move(c)), "assign_move"); return true; });
      }
      add(T + "reset", [=](SH& h) { h.ok(h.S(t).reset(), "reset"); h.m[t].clear(); return true; });
      add(T + "clear", [=](SH& h) { h.ok(h.S(t).clear(), "clear"); h.m[t].clear(); return true; });
      add(T + "shrink", [=](SH& h) { h.ok(h.S(t).shrink(), "shrink"); return true; });
      for (size_t n : {15, 100}) {
        if (t == 1 && n == 15) continue;
        add(T + "reserve(" + std::to_string(n) + ")", [=](SH& h) { h.ok(h.S(t).reserve(n), "reserve"); if (h.chk && h.S(t).capacity() < n) fail("capacity", "reserve(%zu) gives capacity %zu", n, h.S(t).capacity()); return true; });
      }
      for (size_t n : {0, 1, 13, 14, 15, 40}) {
        if (t == 1 && n != 1 && n != 15) continue;
        add(T + "resize(" + std::to_string(n) + ",'#')", [=](SH& h) { h.ok(h.S(t).resize(n, '#'), "resize"); h.m[t].resize(n, '#'); return true; });
      }
      if (t == 1) { add(T + "append(o)", [=](SH& h) { if (h.m[t].size() + h.m[o].size() > kMax) return false; h.ok(h.S(t).append(h.S(o)), "append"); h.m[t] += h.m[o]; return true; });
        add(T + "append('y')", [=](SH& h) { if (h.m[t].size() > kMax) return false; h.ok(h.S(t).append('y'), "append"); h.m[t] += 'y'; return true; });
        add(T + "remove(1..3)", [=](SH& h) { if (h.m[t].size() < 3) return false; h.ok(h.S(t).remove(BLRange{1, 3}), "remove"); h.m[t].erase(1, 2); return true; });
        add(T + "make_mutable,write", [=](SH& h) { char* p; if (h.m[t].empty()) return false; h.ok(h.S(t).make_mutable(&p), "make_mutable"); p[0] = '!'; h.m[t][0] = '!'; return true; });
        continue; }
      add(T + "truncate(size-1)", [=](SH& h) { if (h.m[t].empty()) return false; size_t n = h.m[t].size() - 1; h.ok(h.S(t).truncate(n), "truncate"); h.m[t].resize(n); return true; });
      add(T + "resize(size+1)", [=](SH& h) { size_t n = h.m[t].size() + 1; if (n > kMax) return false; h.ok(h.S(t).resize(n, '%'), "resize"); h.m[t].resize(n, '%'); return true; });
      for (size_t n : {0, 1, 2, 13, 40, 100}) add(T + "append(data," + std::to_string(n) + ")", [=](SH& h) { if (h.m[t].size() + n > kMax) return false; h.ok(h.S(t).append(L + 3, n), "append"); h.m[t].append(L + 3, n); return true; });
      for (size_t n : {1, 13}) add(T + "append('x'*" + std::to_string(n) + ")", [=](SH& h) { if (h.m[t].size() + n > kMax) return false; h.ok(h.S(t).append('x', n), "append"); h.m[t].append(n, 'x'); return true; });
      add(T + "assign('q',3)", [=](SH& h) { h.ok(h.S(t).assign('q', 3), "assign"); h.m[t].assign(3, 'q'); return true; });
      add(T + "assign('q',16)", [=](SH& h) { h.ok(h.S(t).assign('q', 16), "assign"); h.m[t].assign(16, 'q'); return true; });
      add(T + "assign(cstr)", [=](SH& h) { h.ok(h.S(t).assign("hello\xF0\x80"), "assign"); h.m[t].assign("hello\xF0\x80"); return true; });
      add(T + "append(o)", [=](SH& h) { if (h.m[t].size() + h.m[o].size() > kMax) return false; h.ok(h.S(t).append(h.S(o)), "append"); h.m[t] += h.m[o]; return true; });
      add(T + "append(self)", [=](SH& h) { if (h.m[t].size() * 2 > kMax) return false; h.ok(h.S(t).append(h.S(t)), "append"); h.m[t] += std::string(h.m[t]); return true; });
      add(T + "append(self[1..])", [=](SH& h) { size_t n = h.m[t].size(); if (n < 2 || n * 2 > kMax) return false; h.ok(h.S(t).append(h.S(t).data() + 1, n - 1), "append"); h.m[t] += h.m[t].substr(1); return true; });
      add(T + "assign(self[1..])", [=](SH& h) { size_t n = h.m[t].size(); if (n < 2) return false; h.ok(h.S(t).assign(h.S(t).data() + 1, n - 1), "assign"); h.m[t] = h.m[t].substr(1); return true; });
      add(T + "assign(o[1..4])", [=](SH& h) { if (h.m[o].size() < 4) return false; h.ok(h.S(t).assign(BLStringView{h.S(o).data() + 1, 3}), "assign"); h.m[t] = h.m[o].substr(1, 3); return true; });
      for (int w = 0; w < 3; w++) {
        auto idx = [=](SH& h) { size_t n = h.m[t].size(); return w == 0 ? size_t(0) : w == 1 ? n / 2 : n; };
        std::string W = w == 0 ? "0" : w == 1 ? "mid" : "end";
        add(T + "insert(" + W + ",3)", [=](SH& h) { if (h.m[t].size() + 3 > kMax) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, "XYZ", 3), "insert"); h.m[t].insert(i, "XYZ"); return true; });
        add(T + "insert(" + W + ",char*20)", [=](SH& h) { if (h.m[t].size() + 20 > kMax) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, '*', 20), "insert"); h.m[t].insert(i, 20, '*'); return true; });
        add(T + "insert(" + W + ",char)", [=](SH& h) { if (h.m[t].size() + 1 > kMax) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, '^'), "insert"); h.m[t].insert(i, 1, '^'); return true; });
        add(T + "insert(" + W + ",o)", [=](SH& h) { if (h.m[t].size() + h.m[o].size() > kMax) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, h.S(o)), "insert"); h.m[t].insert(i, h.m[o]); return true; });
        add(T + "insert(" + W + ",self)", [=](SH& h) { if (h.m[t].size() * 2 > kMax) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, h.S(t)), "insert"); h.m[t].insert(i, std::string(h.m[t])); return true; });
        add(T + "insert(" + W + ",self[1..n-1])", [=](SH& h) { size_t n = h.m[t].size(); if (n < 3 || n * 2 > kMax) return false; size_t i = idx(h); std::string sub = h.m[t].substr(1, n - 2); h.ok(h.S(t).insert(i, h.S(t).data() + 1, n - 2), "insert"); h.m[t].insert(i, sub); return true; });
        add(T + "remove(" + W + ")", [=](SH& h) { size_t i = idx(h); h.ok(h.S(t).remove(i), "remove"); if (i < h.m[t].size()) h.m[t].erase(i, 1); return true; });
      }
      add(T + "prepend(o)", [=](SH& h) { if (h.m[t].size() + h.m[o].size() > kMax) return false; h.ok(h.S(t).prepend(h.S(o)), "prepend"); h.m[t].insert(0, h.m[o]); return true; });
      add(T + "remove(0,2)", [=](SH& h) { h.ok(h.S(t).remove(BLRange{0, 2}), "remove"); h.m[t].erase(0, 2); return true; });
      add(T + "remove(mid,inf)", [=](SH& h) { size_t i = h.m[t].size() / 2; h.ok(h.S(t).remove(BLRange{i, SIZE_MAX}), "remove"); h.m[t].erase(i); return true; });
      add(T + "remove(1,n-1)", [=](SH& h) { size_t n = h.m[t].size(); if (n < 3) return false; h.ok(h.S(t).remove(BLRange{1, n - 1}), "remove"); h.m[t].erase(1, n - 2); return true; });
      add(T + "remove(all)", [=](SH& h) { h.ok(h.S(t).remove(BLRange{0, SIZE_MAX}), "remove"); h.m[t].clear(); return true; });
      add(T + "remove(n,n+5)", [=](SH& h) { size_t n = h.m[t].size(); h.ok(h.S(t).remove(BLRange{n, n + 5}), "remove"); return true; });
      add(T + "remove(5,2)", [=](SH& h) { h.ok(h.S(t).remove(BLRange{5, 2}), "remove"); return true; });
      static const BLModifyOp mops[4] = {BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW};
      for (int k = 0; k < 4; k++) for (size_t n : {0, 5, 33}) add(T + "modify_op(" + std::to_string(k) + "," + std::to_string(n) + ")", [=](SH& h) {
        size_t at = k >= 2 ? h.m[t].size() : 0; if (at + n > kMax) return false; char* p = nullptr; h.ok(h.S(t).modify_op(mops[k], n, &p), "modify_op");
        if (p != h.S(t).data() + at) fail("data-out", "modify_op data_out is not at index %zu", at); memcpy(p, L + 7, n);
        if (k < 2) h.m[t].clear(); h.m[t].append(L + 7, n); return true; });
      for (int k = 0; k < 4; k++) for (size_t n : {0, 5, 33}) { if (n == 33 && (k == 1 || k == 2)) continue; add(T + "apply_op_string/data(" + std::to_string(k) + "," + std::to_string(n) + ")", [=](SH& h) {
        size_t at = k >= 2 ? h.m[t].size() : 0; if (at + n > kMax) return false; h.ok(bl_string_apply_op_data(&h.S(t), mops[k], L + 9, n), "apply_op_data");
        if (k < 2) h.m[t].clear(); h.m[t].append(L + 9, n); return true; }); }
      for (size_t n : {2, 30}) add(T + "insert_op(mid," + std::to_string(n) + ")", [=](SH& h) { size_t i = h.m[t].size() / 2; if (h.m[t].size() + n > kMax) return false; char* p = nullptr; h.ok(h.S(t).insert_op(i, n, &p), "insert_op"); if (p != h.S(t).data() + i) fail("data-out", "insert_op data_out wrong"); memcpy(p, L + 20, n); h.m[t].insert(i, std::string(L + 20, n)); return true; });
      add(T + "make_mutable,write", [=](SH& h) { char* p; if (h.m[t].empty()) return false; h.ok(h.S(t).make_mutable(&p), "make_mutable"); p[h.m[t].size() - 1] = '?'; h.m[t].back() = '?'; return true; });
      add(T + "assign_format(short)", [=](SH& h) { h.ok(h.S(t).assign_format("%d-%s", 42, "fmt"), "format"); h.m[t] = "42-fmt"; return true; });
      add(T + "append_format(short)", [=](SH& h) { if (h.m[t].size() + 5 > kMax) return false; h.ok(h.S(t).append_format("%c%d", 'n', 7), "format"); h.m[t] += "n7"; return true; });
      add(T + "append_format(70)", [=](SH& h) { if (h.m[t].size() + 70 > kMax) return false; h.ok(h.S(t).append_format("%070d", 5), "format"); h.m[t] += std::string(69, '0') + "5"; return true; });
      add(T + "append_format(empty)", [=](SH& h) { h.ok(h.S(t).append_format("%s", ""), "format"); return true; });
      add(T + "assign_format(14)", [=](SH& h) { h.ok(h.S(t).assign_format("%014d", 3), "format"); h.m[t] = "00000000000003"; return true; });
      add(T + "append(nul bytes)", [=](SH& h) { if (h.m[t].size() + 5 > kMax) return false; h.ok(h.S(t).append("a\0b\xFF\0", 5), "append"); h.m[t].append("a\0b\xFF\0", 5); return true; });
    }
  }
  static void ok2(BLResult r) { if (r != BL_SUCCESS) fail("error-result", "append on copy returned %u", (unsigned)r); }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { if (live) finish(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) BLString(); m[i].clear(); } live = true; }
  void finish() { if (live) for (int i = 0; i < 2; i++) s[i]->~BLString(); live = false; }
  void check1(const BLString& a, const std::string& b, const char* what) {
    if (a.size() != b.size() || bl_string_get_size(&a) != b.size()) return fail("size", "%s: size %zu expected %zu", what, a.size(), b.size());
    if (memcmp(a.data(), b.data(), b.size()) || a.data() != bl_string_get_data(&a)) return fail("content", "%s: content '%.*s' expected '%s'", what, (int)a.size(), a.data(), b.c_str());
    if (a.data()[b.size()] != 0) return fail("nul", "%s: not NUL terminated", what);
    if (a.capacity() < a.size() || bl_string_get_capacity(&a) != a.capacity()) return fail("capacity", "%s: capacity %zu < size %zu", what, a.capacity(), a.size());
    if (a.is_empty() != b.empty()) fail("empty", "%s: is_empty wrong", what);
  }
  static int sg(int x) { return x < 0 ? -1 : x > 0; }
  bool apply(int op, bool check) {
    chk = check;
    std::string before[2] = {m[0], m[1]};
    if (!ops[op].f(*this)) return false;
    if (!check) return true;
    for (int i = 0; i < 2; i++) {
      check1(S(i), m[i], ops[op].name.c_str());
      const std::string& x = m[i];
      BLString fresh(x.data(), x.size());
      if (!(S(i) == fresh) || S(i) != fresh || !fresh.equals(S(i)) || S(i).compare(fresh) != 0 || !S(i).equals(BLStringView{x.data(), x.size()}) || S(i).compare(BLStringView{x.data(), x.size()}) != 0)
        fail("equality", "%s: not equal to a freshly built string of the same content", ops[op].name.c_str());
      if (!memchr(x.data(), 0, x.size()) && (!S(i).equals(x.c_str()) || S(i).compare(x.c_str()) != 0)) fail("equality", "%s: not equal to NUL-terminated content", ops[op].name.c_str());
      if (!x.empty()) {
        std::string y = x; y.back()++;
        BLString fy(y.data(), y.size());
        if (S(i) == fy || sg(S(i).compare(fy)) != sg(x.compare(y)) || S(i).equals(BLStringView{y.data(), y.size()}) || sg(S(i).compare(BLStringView{y.data(), y.size()})) != sg(x.compare(y))) fail("compare", "%s: comparison with changed last byte wrong", ops[op].name.c_str());
        if (S(i).equals(y.c_str())) fail("compare", "%s: equals(cstr) with changed last byte", ops[op].name.c_str());
        y = x.substr(0, x.size() - 1); BLString fz(y.data(), y.size());
        if (S(i) == fz || S(i).compare(fz) <= 0 || fz.compare(S(i)) >= 0 || S(i).compare(BLStringView{y.data(), y.size()}) <= 0 || S(i).equals(BLStringView{y.data(), y.size()})) fail("compare", "%s: comparison with its prefix wrong", ops[op].name.c_str());
        if (!memchr(x.data(), 0, x.size()) && (S(i).equals(y.c_str()) || S(i).compare(y.c_str()) <= 0 || fz.compare(x.c_str()) >= 0 || fz.equals(x.c_str()))) fail("compare", "%s: comparison with its prefix (cstr) wrong", ops[op].name.c_str());
        for (char c : {x[0], x[x.size() / 2], x.back(), '~'}) {
          size_t f = x.find(c), l = x.rfind(c);
          if (S(i).index_of(c) != f) fail("index_of", "%s: index_of('%c')=%zu expected %zu", ops[op].name.c_str(), c, S(i).index_of(c), f);
          if (S(i).last_index_of(c) != l) fail("last_index_of", "%s: last_index_of('%c')=%zu expected %zu", ops[op].name.c_str(), c, S(i).last_index_of(c), l);
          for (size_t from : {size_t(0), size_t(1), x.size() / 2, x.size() - 1}) {
            if (S(i).index_of(c, from) != x.find(c, from)) fail("index_of", "%s: index_of('%c',%zu)", ops[op].name.c_str(), c, from);
            if (S(i).last_index_of(c, from) != x.rfind(c, from)) fail("last_index_of", "%s: last_index_of('%c',%zu)=%zu expected %zu", ops[op].name.c_str(), c, from, S(i).last_index_of(c, from), x.rfind(c, from));
          }
        }
      }
    }
    // std::string compares as unsigned bytes (char_traits), as memcmp does.
    if (sg(S(0).compare(S(1))) != sg(m[0].compare(m[1])) || sg(S(1).compare(S(0))) != sg(m[1].compare(m[0])) || (S(0) == S(1)) != (m[0] == m[1])) fail("compare", "%s: s0 vs s1 comparison wrong", ops[op].name.c_str());
    return true;
  }
  uint64_t state() {
    Hash h; for (int i = 0; i < 2; i++) { h.b(m[i].data(), m[i].size()); h.u(S(i).capacity()); h.u(S(i)._d.sso()); if (S(i)._d.sso()) h.b(S(i)._d.char_data, 16); }
    h.u(!S(0)._d.sso() && !S(1)._d.sso() && S(0)._d.impl == S(1)._d.impl);
    return h.h;
  }
};

int main(int argc, char** argv) {
  init(argc, argv);
  SH h;
  if (!g.replaying) { // construction from data of every size around the storage limits
    for (size_t n = 0; n < 120; n++) { set_case("ctor:%zu", n); BLString a(L, n); h.check1(a, std::string(L, n), "ctor"); BLString b(a); h.check1(b, std::string(L, n), "copy"); }
  } else if (g.replay.rfind("ctor:", 0) == 0) { size_t n = atoi(g.replay.c_str() + 5); set_case_s(g.replay); BLString a(L, n); h.check1(a, std::string(L, n), "ctor"); BLString b(a); h.check1(b, std::string(L, n), "copy"); }
  bfs(h, "str", g.thorough ? 5 : 4);
  h.finish();
  return done();
}
