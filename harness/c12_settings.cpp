// C12: BLFontFeatureSettings and BLFontVariationSettings against std::map; all operation histories up to a depth over two objects.
#include <blend2d/blend2d.h>
#include "vh.h"
using namespace vh;
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#define TAG(s) BL_MAKE_TAG(s[0], s[1], s[2], s[3])
struct Feat { typedef BLFontFeatureSettings S; typedef BLFontFeatureSettingsView View; typedef uint32_t Val; static BLResult shrink(S* s) { return bl_font_feature_settings_shrink(s); }
  static bool none(Val v) { return v == BL_FONT_FEATURE_INVALID_VALUE; }
  static bool boolean(BLTag t) { for (const char* b : {"case", "clig", "cpct", "cpsp", "dlig", "dnom", "expt", "falt", "frac", "fwid", "halt", "hist", "hwid", "jalt", "kern", "liga", "lnum", "onum", "ordn", "palt", "pcap", "ruby", "smcp", "subs", "sups", "titl", "tnam", "tnum", "unic", "valt", "vkrn", "zero"}) if (t == TAG(b)) return true; return false; }
  static bool valid(BLTag t, Val v) { return v <= 65535 && !(boolean(t) && v > 1); }
  static std::vector<const char*> tags() { return {"kern", "zero", "case", "vkrn", "aalt", "salt", "cv01", "swsh", "ss20", "abcd", "zzzz", "AAAA"}; }
  static std::vector<Val> vals() { return {0, 1, 2, 15, 16, 255, 256, 65535, 65536}; } };
struct Vari { typedef BLFontVariationSettings S; typedef BLFontVariationSettingsView View; typedef float Val; static BLResult shrink(S* s) { return bl_font_variation_settings_shrink(s); }
  static bool none(Val v) { return v != v; } static bool boolean(BLTag) { return false; } static bool valid(BLTag, Val v) { return v <= 65535; }
  static std::vector<const char*> tags() { return {"ital", "opsz", "slnt", "wdth", "wght", "abcd", "zzzz", "AAAA"}; }
  static std::vector<Val> vals() { return {0.0f, 0.25f, 1.0f, 1.5f, 400.0f, 65535.0f, 70000.0f}; } };
template<class T> struct SH {
  typedef typename T::S S; typedef typename T::Val Val; typedef std::map<BLTag, Val> Mp;
  alignas(16) char mem[2][sizeof(S)]; S* s[2]; Mp m[2]; bool live = false, chk = false, bad = false; size_t base = 0; const char* opn = "";
  struct Op { std::string name; std::function<bool(SH&)> f; }; std::vector<Op> ops; std::vector<BLTag> univ;
  void add(std::string n, std::function<bool(SH&)> f) { ops.push_back({n, f}); }
  void err(const char* k, const char* d) { bad = true; if (chk) fail(k, "%s: %s", opn, d); }
  static bool vtag(BLTag t) { for (int i = 0; i < 4; i++) { int c = (t >> (8 * i)) & 255; if (c < 32 || c > 126) return false; } return true; }
  void set(S& o, Mp& x, BLTag t, Val v) { BLResult r = o.set_value(t, v); bool ok = vtag(t) && T::valid(t, v); if (ok && r != BL_SUCCESS) err("rejected", "valid tag and value rejected"); if (!ok && r == BL_SUCCESS) err("accepted", "invalid tag or value accepted"); if (ok) x[t] = v; }
  SH(bool full) {
    auto tg = T::tags(); auto vl = T::vals();
    for (auto t : tg) univ.push_back(TAG(t)); univ.push_back(0); univ.push_back(0x61620064u); univ.push_back(0x7F616161u); univ.push_back(TAG("bbbb"));
    for (int t = 0; t < 2; t++) { int o = 1 - t; std::string N = "s" + std::to_string(t) + ".";
      int ti = 0;
      for (auto g : tg) { BLTag tag = TAG(g); int vi = 0; ti++;
        for (Val v : vl) { vi++; if (t && (vi != 2 || ti > 5)) continue; if (!full && ti > 2 && vi > 1 && (vi + ti) % 3) continue; add(N + "set(" + g + "," + std::to_string(v) + ")", [=](SH& h) { h.set(*h.s[t], h.m[t], tag, v); return true; }); }
        if (t && ti > 2) continue; add(N + "remove(" + g + ")", [=](SH& h) { if (h.s[t]->remove_value(tag) != BL_SUCCESS) h.err("error-result", "remove failed"); h.m[t].erase(tag); return true; }); }
      add(N + "assign_weak(o)", [=](SH& h) { if (h.s[t]->assign(*h.s[o]) != BL_SUCCESS) h.err("error-result", "assign"); h.m[t] = h.m[o]; return true; });
      if (t) continue;
      for (BLTag b : {0u, 0x61620064u, 0x7F616161u, 0x80616161u, 0x1F616161u}) add(N + "set(#" + std::to_string(b) + ")", [=](SH& h) { h.set(*h.s[t], h.m[t], b, Val(1)); return true; });
      add(N + "setmany", [=](SH& h) { for (size_t i = 0; i < h.univ.size(); i++) if (vtag(h.univ[i])) h.set(*h.s[t], h.m[t], h.univ[i], Val(i & 1)); return true; });
      add(N + "removemany", [=](SH& h) { for (size_t i = 0; i < h.univ.size(); i += 2) { (void)h.s[t]->remove_value(h.univ[i]); h.m[t].erase(h.univ[i]); } return true; });
      add(N + "assign_move(o)", [=](SH& h) { if (h.s[t]->assign(std::move(*h.s[o])) != BL_SUCCESS) h.err("error-result", "move"); h.m[t] = h.m[o]; h.m[o].clear(); return true; });
      add(N + "assign_weak(self)", [=](SH& h) { if (h.s[t]->assign(*h.s[t]) != BL_SUCCESS) h.err("error-result", "assign"); return true; });
      add(N + "copy,set", [=](SH& h) { S c(*h.s[t]); Mp x = h.m[t]; h.set(c, x, TAG("kern"), Val(1)); h.set(c, x, TAG("qqqq"), Val(7)); if (h.chk) h.check1(c, x); return true; });
      add("swap", [=](SH& h) { h.s[0]->swap(*h.s[1]); std::swap(h.m[0], h.m[1]); return true; });
      add(N + "clear", [=](SH& h) { if (h.s[t]->clear() != BL_SUCCESS) h.err("error-result", "clear"); h.m[t].clear(); return true; });
      add(N + "reset", [=](SH& h) { if (h.s[t]->reset() != BL_SUCCESS) h.err("error-result", "reset"); h.m[t].clear(); return true; });
      add(N + "shrink", [=](SH& h) { if (T::shrink(h.s[t]) != BL_SUCCESS) h.err("error-result", "shrink"); return true; });
    }
  }
  int num_ops() { return (int)ops.size(); }
  std::string op_name(int i) { return ops[i].name; }
  void reset() { base = __sanitizer_get_current_allocated_bytes(); for (int i = 0; i < 2; i++) { s[i] = new (mem[i]) S(); m[i].clear(); } live = true; bad = chk = false; }
  void finish() { if (!live) return; live = false; for (int i = 0; i < 2; i++) { s[i]->~S(); m[i].clear(); } if (chk && !bad) { size_t a = __sanitizer_get_current_allocated_bytes(); if (a != base) fail("leak", "%ld bytes leaked", (long)(a - base)); } }
  void check1(S& o, const Mp& x) {
    if (o.size() != x.size() || o.is_empty() != x.empty()) return err("size", ("size " + std::to_string(o.size()) + " instead of " + std::to_string(x.size())).c_str());
    if (o.capacity() < x.size()) return err("size", "capacity below size");
    typename T::View v; if (o.get_view(&v) != BL_SUCCESS || v.size != x.size()) return err("view", "size");
    size_t i = 0; for (auto& kv : x) { if (v.data[i].tag != kv.first || v.data[i].value != kv.second) return err("view", ("item " + std::to_string(i) + " is " + std::to_string(v.data[i].tag) + "=" + std::to_string(v.data[i].value) + " instead of " + std::to_string(kv.first) + "=" + std::to_string(kv.second)).c_str()); i++; }
    for (BLTag t : univ) { auto it = x.find(t); if (o.has_value(t) != (it != x.end())) return err("has_value", "wrong"); Val g = o.get_value(t); if (it == x.end() ? !T::none(g) : g != it->second) return err("get_value", "wrong"); }
    // Equality does not depend on the representation: compare with objects built afresh in both orders.
    S a, b; for (auto& kv : x) (void)a.set_value(kv.first, kv.second); (void)b.set_value(TAG("~~~~"), Val(2)); for (auto it = x.rbegin(); it != x.rend(); ++it) (void)b.set_value(it->first, it->second); (void)b.remove_value(TAG("~~~~"));
    if (!o.equals(a) || !a.equals(o) || !o.equals(b) || !b.equals(o)) return err("equals", "not equal to settings with the same content");
    (void)T::shrink(&b); if (!b.equals(o) || !o.equals(b)) return err("equals", "not equal to settings with the same content after shrink");
    if (!x.empty()) { (void)b.remove_value(x.begin()->first); if (b.equals(o) || o.equals(b)) return err("equals", "equal although a tag is missing"); }
  }
  bool apply(int op, bool check) { chk = check; opn = ops[op].name.c_str(); bad = false; if (!ops[op].f(*this)) return false; if (check && !bad) { for (int i = 0; i < 2 && !bad; i++) check1(*s[i], m[i]); if (!bad && s[0]->equals(*s[1]) != (m[0] == m[1])) err("equals", "wrong result"); } return !bad; }
  uint64_t state() { Hash h; for (int i = 0; i < 2; i++) { h.u(m[i].size()); for (auto& kv : m[i]) { h.u(kv.first); h.b(&kv.second, sizeof(Val)); } h.u(s[i]->_d.sso()); if (s[i]->_d.sso()) h.b(&s[i]->_d, sizeof s[i]->_d); else h.u(s[i]->capacity()); } h.u(!s[0]->_d.sso() && s[0]->_d.impl == s[1]->_d.impl); return h.h; }
};
int main(int argc, char** argv) {
  init(argc, argv);
  { SH<Feat> h(g.thorough); bfs(h, "feature", g.thorough ? 5 : 4); }
  { SH<Vari> h(g.thorough); bfs(h, "variation", g.thorough ? 6 : 5); }
  return done();
}
