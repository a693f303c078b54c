#pragma once
// C07: BLArray<T> against a plain sequence of item ids; all operation histories up to a depth over two arrays.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();

static const size_t kMax = 160;
template<int N> struct SN { uint8_t b[N]; bool operator==(const SN& o) const { return !memcmp(b, o.b, N); } };
template<class T> struct Tr { static const bool obj = false; static bool unique(T&) { return true; } static T make(int id) { T v{}; uint8_t* p = (uint8_t*)&v; for (size_t i = 0; i < sizeof(T); i++) p[i] = id ? uint8_t(id * 7 + i * 31) : 0; return v; } };
template<> struct Tr<float> { static const bool obj = false; static bool unique(float&) { return true; } static float make(int id) { return id * 1.5f; } };
template<> struct Tr<double> { static const bool obj = false; static bool unique(double&) { return true; } static double make(int id) { return id * 1.5; } };
template<> struct Tr<BLString> { static const bool obj = true; static bool unique(BLString& x) { char* p; const char* d = x.data(); x.make_mutable(&p); return p == d; } static BLString make(int id) { std::string s = "i" + std::to_string(id); if (id & 1) s += "-long-string-stored-dynamically-" + s; return BLString(s.data(), s.size()); } };
template<> struct Tr<BLArray<int>> { static const bool obj = true; static bool unique(BLArray<int>& x) { int* p; const int* d = x.data(); x.make_mutable(&p); return p == d; } static BLArray<int> make(int id) { BLArray<int> a; for (int i = 0; i < (id & 1 ? 9 : 2); i++) a.append(id * 10 + i); return a; } };

inline int g_destroyed; inline void* g_du; inline void* g_de;
inline void destroy_cb(void* impl, void* ext, void* ud) noexcept { g_destroyed++; g_de = ext; g_du = ud; }

template<class T> struct AH {
  typedef BLArray<T> A;
  alignas(16) char mem[2][sizeof(A)];
  A* s[2];
  std::vector<int> m[2];
  bool live = false, chk = false, bad = false;
  size_t base = 0;
  std::string opname;
  T* P;            // item values by id
  T* ext; int nexp;  // external buffer
  bool ext_ro, ext_used;
  struct Op { std::string name; std::function<bool(AH&)> f; };
  std::vector<Op> ops;
  A& S(int i) { return *s[i]; }
  void add(std::string n, std::function<bool(AH&)> f) { ops.push_back({n, f}); }
  void ok(BLResult r) { if (r != BL_SUCCESS) { bad = true; fail("error-result", "%s returned %u", opname.c_str(), (unsigned)r); } }
  static void ap(std::vector<int>& v, int from, size_t n) { for (size_t i = 0; i < n; i++) v.push_back((from + (int)i) & 127); }
  void ins(int t, size_t at, const std::vector<int>& x) { m[t].insert(m[t].begin() + at, x.begin(), x.end()); }
  std::vector<int> seq(int from, size_t n) { std::vector<int> v; ap(v, from, n); return v; }

  AH() {
    P = (T*)malloc(sizeof(T) * 300); for (int i = 0; i < 300; i++) new (P + i) T(Tr<T>::make(i & 127));
    ext = (T*)malloc(sizeof(T) * 8); for (int i = 0; i < 8; i++) new (ext + i) T(Tr<T>::make(100 + i));
    for (int t = 0; t < 2; t++) {
      int o = 1 - t; std::string N = "a" + std::to_string(t) + ".";
      auto room = [=](AH& h, size_t n) { return h.m[t].size() + n <= kMax; };
      for (size_t n : {1, 2, 3, 5, 17}) { if (t && n != 3) continue; add(N + "assign_data(" + std::to_string(n) + ")", [=](AH& h) { h.ok(h.S(t).assign_data(h.P + 10, n)); h.m[t] = h.seq(10, n); return true; }); }
      add(N + "append(x)", [=](AH& h) { if (!room(h, 1)) return false; h.ok(h.S(t).append(h.P[20])); h.m[t].push_back(20); return true; });
      add(N + "append(y)", [=](AH& h) { if (!room(h, 1)) return false; h.ok(h.S(t).append(h.P[21])); h.m[t].push_back(21); return true; });
      add(N + "assign_weak(o)", [=](AH& h) { h.ok(h.S(t).assign(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "assign_deep(o)", [=](AH& h) { h.ok(h.S(t).assign_deep(h.S(o))); h.m[t] = h.m[o]; return true; });
      add(N + "assign_move(o)", [=](AH& h) { h.ok(h.S(t).assign(std::move(h.S(o)))); h.m[t] = h.m[o]; h.m[o].clear(); return true; });
      add(N + "remove(0)", [=](AH& h) { if (h.m[t].empty()) return false; h.ok(h.S(t).remove(0)); h.m[t].erase(h.m[t].begin()); return true; });
      add(N + "replace(last)", [=](AH& h) { if (h.m[t].empty()) return false; size_t i = h.m[t].size() - 1; h.ok(h.S(t).replace(i, h.P[31])); h.m[t][i] = 31; return true; });
      add(N + "make_mutable,write", [=](AH& h) { if (h.m[t].empty()) return false; T* p; h.ok(h.S(t).make_mutable(&p)); p[0] = h.P[33]; h.m[t][0] = 33; return true; });
      add(N + "append_data(o)", [=](AH& h) { if (!room(h, h.m[o].size())) return false; h.ok(h.S(t).append_data(h.S(o).view())); auto c = h.m[o]; h.ins(t, h.m[t].size(), c); return true; });
      if (t) continue;
      add(N + "swap", [=](AH& h) { h.S(0).swap(h.S(1)); std::swap(h.m[0], h.m[1]); return true; });
      add(N + "assign_weak(self)", [=](AH& h) { h.ok(h.S(t).assign(h.S(t))); return true; });
      add(N + "assign_deep(self)", [=](AH& h) { h.ok(h.S(t).assign_deep(h.S(t))); return true; });
      add(N + "copy,append", [=](AH& h) { A c(h.S(t)); if (h.chk) h.check1(c, h.m[t]); h.ok(c.append(h.P[5])); auto x = h.m[t]; x.push_back(5); if (h.chk) h.check1(c, x); return true; });
      add(N + "move-ctor", [=](AH& h) { A c(std::move(h.S(t))); if (h.chk) { h.check1(c, h.m[t]); h.check1(h.S(t), {}); } h.ok(h.S(t).assign(std::move(c))); return true; });
      add(N + "reset", [=](AH& h) { h.ok(h.S(t).reset()); h.m[t].clear(); return true; });
      add(N + "clear", [=](AH& h) { h.ok(h.S(t).clear()); h.m[t].clear(); return true; });
      add(N + "shrink", [=](AH& h) { h.ok(h.S(t).shrink()); return true; });
      for (size_t n : {1, 4, 40}) add(N + "reserve(" + std::to_string(n) + ")", [=](AH& h) { h.ok(h.S(t).reserve(n)); if (h.chk && h.S(t).capacity() < n) fail("capacity", "reserve(%zu) -> capacity %zu", n, h.S(t).capacity()); return true; });
      for (size_t n : {0, 1, 2, 4, 20}) add(N + "resize(" + std::to_string(n) + ",fill)", [=](AH& h) { h.ok(h.S(t).resize(n, h.P[37])); h.m[t].resize(n, 37); return true; });
      add(N + "resize(size+2,fill=self[0])", [=](AH& h) { if (h.m[t].empty() || !room(h, 2)) return false; int id = h.m[t][0]; T f = h.S(t)[0]; h.ok(h.S(t).resize(h.m[t].size() + 2, f)); h.m[t].resize(h.m[t].size() + 2, id); return true; });
      add(N + "truncate(size-1)", [=](AH& h) { if (h.m[t].empty()) return false; h.ok(h.S(t).truncate(h.m[t].size() - 1)); h.m[t].pop_back(); return true; });
      if (!Tr<T>::obj) add(N + "resize(size+3,null)", [=](AH& h) { if (!room(h, 3)) return false; h.ok(bl_array_resize(&h.S(t), h.m[t].size() + 3, nullptr)); h.m[t].resize(h.m[t].size() + 3, 0); return true; });
      for (size_t n : {0, 1, 2, 12}) add(N + "append_data(" + std::to_string(n) + ")", [=](AH& h) { if (!room(h, n)) return false; h.ok(h.S(t).append_data(h.P + 40, n)); ap(h.m[t], 40, n); return true; });
      add(N + "append(self[0])", [=](AH& h) { if (h.m[t].empty() || !room(h, 1)) return false; h.ok(bl_array_append_item(&h.S(t), h.S(t).data())); int v = h.m[t][0]; h.m[t].push_back(v); return true; });
      add(N + "append(3 items)", [=](AH& h) { if (!room(h, 3)) return false; h.ok(h.S(t).append(h.P[1], h.P[2], h.P[3])); ap(h.m[t], 1, 3); return true; });
      add(N + "append_item", [=](AH& h) { if (!room(h, 1)) return false; h.ok(bl_array_append_item(&h.S(t), h.P + 22)); h.m[t].push_back(22); return true; });
      add(N + "append_data(self)", [=](AH& h) { if (!room(h, h.m[t].size())) return false; h.ok(h.S(t).append_data(h.S(t).view())); auto c = h.m[t]; h.ins(t, c.size(), c); return true; });
      add(N + "prepend(2 items)", [=](AH& h) { if (!room(h, 2)) return false; h.ok(h.S(t).prepend(h.P[50], h.P[51])); h.ins(t, 0, {50, 51}); return true; });
      add(N + "assign_v(2)", [=](AH& h) { h.ok(h.S(t).assign_v(h.P[52], h.P[53])); h.m[t] = {52, 53}; return true; });
      for (int w = 0; w < 3; w++) {
        auto idx = [=](AH& h) { size_t n = h.m[t].size(); return w == 0 ? size_t(0) : w == 1 ? n / 2 : n; };
        std::string W = w == 0 ? "0" : w == 1 ? "mid" : "end";
        add(N + "insert(" + W + ",x)", [=](AH& h) { if (!room(h, 1)) return false; size_t i = idx(h); h.ok(h.S(t).insert(i, h.P[60])); h.ins(t, i, {60}); return true; });
        add(N + "insert_item(" + W + ",x)", [=](AH& h) { if (!room(h, 1)) return false; size_t i = idx(h); h.ok(bl_array_insert_item(&h.S(t), i, h.P + 61)); h.ins(t, i, {61}); return true; });
        add(N + "insert_data(" + W + ",3)", [=](AH& h) { if (!room(h, 3)) return false; size_t i = idx(h); h.ok(h.S(t).insert_data(i, h.P + 62, 3)); h.ins(t, i, h.seq(62, 3)); return true; });
        if (w < 2) add(N + "insert_data(" + W + ",9)", [=](AH& h) { if (!room(h, 9)) return false; size_t i = idx(h); h.ok(h.S(t).insert_data(i, h.P + 65, 9)); h.ins(t, i, h.seq(65, 9)); return true; });
        add(N + "insert_data(" + W + ",self)", [=](AH& h) { if (!room(h, h.m[t].size())) return false; size_t i = idx(h); auto c = h.m[t]; h.ok(h.S(t).insert_data(i, h.S(t).view())); h.ins(t, i, c); return true; });
        add(N + "insert_data(" + W + ",self[1..n-1])", [=](AH& h) { size_t n = h.m[t].size(); if (n < 3 || !room(h, n)) return false; size_t i = idx(h); std::vector<int> c(h.m[t].begin() + 1, h.m[t].end() - 1); h.ok(h.S(t).insert_data(i, h.S(t).data() + 1, n - 2)); h.ins(t, i, c); return true; });
        add(N + "insert_op(" + W + ",2)", [=](AH& h) { if (!room(h, 2)) return false; size_t i = idx(h); T* p = nullptr; h.ok(h.S(t).insert_op(i, 2, &p)); if (h.bad) return true; if (p != h.S(t).data() + i) fail("data-out", "insert_op data_out wrong"); new (p) T(h.P[70]); new (p + 1) T(h.P[71]); h.ins(t, i, {70, 71}); return true; });
        if (w < 2) add(N + "replace(" + W + ",x)", [=](AH& h) { if (h.m[t].empty()) return false; size_t i = idx(h); h.ok(h.S(t).replace(i, h.P[72])); h.m[t][i] = 72; return true; });
        if (w < 2) add(N + "replace_item(" + W + ",self.last)", [=](AH& h) { if (h.m[t].empty()) return false; size_t i = idx(h); h.ok(bl_array_replace_item(&h.S(t), i, &h.S(t).last())); h.m[t][i] = h.m[t].back(); return true; });
        if (w < 2) add(N + "remove(" + W + ")", [=](AH& h) { if (h.m[t].empty()) return false; size_t i = idx(h); h.ok(h.S(t).remove(i)); h.m[t].erase(h.m[t].begin() + i); return true; });
      }
      add(N + "remove(0,2)", [=](AH& h) { if (h.m[t].size() < 2) return false; h.ok(h.S(t).remove(BLRange{0, 2})); h.m[t].erase(h.m[t].begin(), h.m[t].begin() + 2); return true; });
      add(N + "remove(mid,inf)", [=](AH& h) { size_t i = h.m[t].size() / 2; h.ok(h.S(t).remove(BLRange{i, SIZE_MAX})); h.m[t].resize(i); return true; });
      add(N + "remove(1,n-1)", [=](AH& h) { size_t n = h.m[t].size(); if (n < 3) return false; h.ok(h.S(t).remove(BLRange{1, n - 1})); h.m[t].erase(h.m[t].begin() + 1, h.m[t].end() - 1); return true; });
      add(N + "replace out of range", [=](AH& h) { size_t n = h.m[t].size(); if (h.S(t).replace(n, h.P[1]) == BL_SUCCESS) fail("accepted", "replace(size) accepted"); if (bl_array_replace_item(&h.S(t), n, h.P) == BL_SUCCESS) fail("accepted", "replace_item(size) accepted"); return true; });
      for (int k = 0; k < 6; k++) {
        // replace [a, b) by n items
        static const size_t rn[6] = {0, 1, 2, 5, 2, 3};
        add(N + "replace_data(kind" + std::to_string(k) + ")", [=](AH& h) {
          size_t sz = h.m[t].size(); if (sz < 2 || !room(h, 6)) return false;
          size_t a = (k == 0 || k == 3) ? 0 : 1, b = k == 4 ? sz : k == 5 ? 1 : std::min(sz, a + 2); if (k == 4) a = 0;
          h.ok(h.S(t).replace_data(BLRange{a, b}, h.P + 80, rn[k])); h.m[t].erase(h.m[t].begin() + a, h.m[t].begin() + b); h.ins(t, a, h.seq(80, rn[k])); return true; });
      }
      add(N + "replace_data(0..1,self)", [=](AH& h) { size_t sz = h.m[t].size(); if (sz < 2 || !room(h, sz)) return false; auto c = h.m[t]; h.ok(h.S(t).replace_data(BLRange{0, 1}, h.S(t).data(), sz)); h.m[t].erase(h.m[t].begin()); h.ins(t, 0, c); return true; });
      add(N + "replace_data(1..2,self[0..1])", [=](AH& h) { size_t sz = h.m[t].size(); if (sz < 3) return false; int v = h.m[t][2]; h.ok(h.S(t).replace_data(BLRange{0, 1}, h.S(t).data() + 2, 1)); h.m[t][0] = v; return true; });
      add(N + "assign_data(self[1..])", [=](AH& h) { size_t sz = h.m[t].size(); if (sz < 2) return false; h.ok(h.S(t).assign_data(h.S(t).data() + 1, sz - 1)); h.m[t].erase(h.m[t].begin()); return true; });
      add(N + "assign_data(o[1..])", [=](AH& h) { size_t sz = h.m[o].size(); if (sz < 2) return false; h.ok(h.S(t).assign_data(h.S(o).data() + 1, sz - 1)); h.m[t].assign(h.m[o].begin() + 1, h.m[o].end()); return true; });
      static const BLModifyOp mops[4] = {BL_MODIFY_OP_ASSIGN_FIT, BL_MODIFY_OP_ASSIGN_GROW, BL_MODIFY_OP_APPEND_FIT, BL_MODIFY_OP_APPEND_GROW};
      for (int k = 0; k < 4; k++) for (size_t n : {0, 1, 6}) { if (n == 0 && k > 1) continue; add(N + "modify_op(" + std::to_string(k) + "," + std::to_string(n) + ")", [=](AH& h) {
        if (!room(h, n)) return false; size_t at = k >= 2 ? h.m[t].size() : 0; T* p = nullptr; h.ok(h.S(t).modify_op(mops[k], n, &p)); if (h.bad) return true;
        if (n && p != h.S(t).data() + at) fail("data-out", "modify_op data_out is not at index %zu", at);
        for (size_t i = 0; i < n; i++) new ((T*)h.S(t).data() + at + i) T(h.P[90 + i]); if (k < 2) h.m[t].clear(); ap(h.m[t], 90, n); return true; }); }
      if (!Tr<T>::obj) {
        for (int ro = 0; ro < 2; ro++) add(N + (ro ? "assign_external(ro)" : "assign_external(rw)"), [=](AH& h) {
          if (h.ext_used) return false; h.ext_used = true; h.ext_ro = ro;
          h.ok(h.S(t).assign_external_data(h.ext, 4, 6, ro ? BL_DATA_ACCESS_READ : BL_DATA_ACCESS_RW, destroy_cb, &h)); h.nexp = 1;
          if (h.S(t).data() != h.ext) fail("external", "external data not used in place"); h.m[t] = h.seq(100, 4); return true; });
        add(N + "assign_external(invalid)", [=](AH& h) { int d = g_destroyed; if (h.S(t).assign_external_data(h.ext, 4, 3, BL_DATA_ACCESS_RW, destroy_cb, &h) == BL_SUCCESS || h.S(t).assign_external_data(h.ext, 0, 0, BL_DATA_ACCESS_RW, destroy_cb, &h) == BL_SUCCESS) fail("accepted", "invalid external data accepted"); if (g_destroyed != d) fail("external", "destroy called for rejected external data"); return true; });
      }
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() {
    if (live) finish();
    for (int i = 0; i < 2; i++) { std::vector<int>().swap(m[i]); }
    opname = std::string(); opname.shrink_to_fit();
    if (!Tr<T>::obj) for (int i = 0; i < 8; i++) ext[i] = P[100 + i];
    ext_used = ext_ro = false; nexp = 0; g_destroyed = 0; bad = false;
    base = __sanitizer_get_current_allocated_bytes();
    for (int i = 0; i < 2; i++) s[i] = new (mem[i]) A();
    live = true;
  }
  void finish() {
    if (!live) return; live = false;
    for (int i = 0; i < 2; i++) { s[i]->~A(); std::vector<int>().swap(m[i]); }
    { std::string e; opname.swap(e); }
    if (bad || g.nviol) return;
    if (g_destroyed != nexp) fail("external", "destroy callback ran %d times, expected %d", g_destroyed, nexp);
    if (nexp && (g_de != ext || g_du != this)) fail("external", "destroy callback got wrong arguments");
    if (ext_ro) for (int i = 0; i < 8; i++) if (!(ext[i] == P[100 + i])) fail("external", "read-only external data was written");
    if (Tr<T>::obj) for (int i = 1; i < 128; i += 2) if (!Tr<T>::unique(P[i])) { fail("leak", "item object %d is still referenced after all arrays were destroyed", i); break; }
    size_t now = __sanitizer_get_current_allocated_bytes();
    if (now != base) fail("leak", "%lld bytes still allocated after all arrays were destroyed", (long long)(now - base));
  }
  void check1(const A& a, const std::vector<int>& b) {
    const char* what = opname.c_str();
    if (a.size() != b.size() || bl_array_get_size(&a) != b.size()) { bad = true; return fail("size", "%s: size %zu expected %zu", what, a.size(), b.size()); }
    if (a.capacity() < a.size() || bl_array_get_capacity(&a) != a.capacity()) fail("capacity", "%s: capacity %zu < size %zu", what, a.capacity(), a.size());
    if ((const void*)a.data() != bl_array_get_data(&a)) fail("data", "%s: data() != get_data()", what);
    if (bl_array_get_item_size((BLArrayCore*)&a) != sizeof(T)) fail("item-size", "%s: item size", what);
    for (size_t i = 0; i < b.size(); i++) if (!(a[i] == P[b[i]])) { bad = true; return fail("content", "%s: item %zu is not item id %d", what, i, b[i]); }
    if (a.is_empty() != b.empty()) fail("size", "is_empty wrong");
  }
  bool apply(int op, bool check) {
    if (bad) return false;
    chk = check; if (check) opname = ops[op].name;
    if (!ops[op].f(*this)) return false;
    if (!check) return true;
    for (int i = 0; i < 2; i++) {
      check1(S(i), m[i]); if (bad) return true;
      A f; for (int id : m[i]) f.append(P[id]);
      if (!(S(i) == f) || S(i) != f || !f.equals(S(i))) fail("equality", "%s: not equal to a freshly built array", opname.c_str());
      if (!m[i].empty()) {
        f.replace(f.size() - 1, P[126]); if (m[i].back() != 126 && S(i) == f) fail("equality", "%s: equal to an array with another last item", opname.c_str());
        f.remove(f.size() - 1); if (S(i) == f) fail("equality", "%s: equal to its prefix", opname.c_str());
        for (int id : {m[i][0], m[i][m[i].size() / 2], 125}) {
          size_t e = SIZE_MAX, l = SIZE_MAX, e1 = SIZE_MAX; for (size_t k = 0; k < m[i].size(); k++) if (m[i][k] == id) { if (e == SIZE_MAX) e = k; if (k >= 1 && e1 == SIZE_MAX) e1 = k; l = k; }
          if (S(i).index_of(P[id]) != e || S(i).last_index_of(P[id]) != l || S(i).index_of(P[id], 1) != e1) fail("index_of", "%s: index_of/last_index_of wrong (item %d)", opname.c_str(), id);
          size_t l0 = SIZE_MAX; size_t from = m[i].size() / 2; for (size_t k = 0; k <= from && k < m[i].size(); k++) if (m[i][k] == id) l0 = k;
          if (S(i).last_index_of(P[id], from) != l0) fail("index_of", "%s: last_index_of(from) wrong", opname.c_str());
        }
      }
    }
    if ((S(0) == S(1)) != (m[0] == m[1])) fail("equality", "%s: a0 == a1 wrong", opname.c_str());
    return true;
  }
  uint64_t state() {
    Hash h; if (bad) return 0;
    for (int i = 0; i < 2; i++) { h.b(m[i].data(), m[i].size() * 4); h.u(S(i).capacity()); h.u(S(i)._d.sso()); h.u(ext_used && S(i).data() == ext); h.u(!S(i)._d.sso() && S(i)._d.impl == bl_object_defaults_probe()); }
    h.u(S(0).data() == S(1).data() && !S(0)._d.sso()); h.u(ext_used * 2 + ext_ro);
    return h.h;
  }
  static void* bl_object_defaults_probe() { return nullptr; }
};

template<class T> static void run(const char* name, int depth) { static AH<T>* h = new AH<T>(); bfs(*h, name, depth); h->finish(); }

