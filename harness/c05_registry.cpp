// C05: the built-in codec list, font managers and unique ids under every schedule (bounded): every history must be linearizable.
#include <climits>
#include "vh.h"
#include "mc_rt.h"
#include <blend2d/blend2d.h>
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/threading/uniqueidgenerator_p.h>
using namespace vh;

// ---- Linearizability --------------------------------------------------------------------------------------------------
struct Op { char code; int arg; };
struct Rec { int thread; Op op; int start, end; std::string res; };
struct Model { virtual ~Model() {} virtual std::string apply(Op o) = 0; virtual Model* clone() const = 0; };
static std::vector<Rec>* hist; static int stamp;
static bool lin(const Model& m, std::vector<char>& used, size_t left) {
  if (!left) return true;
  int minend = INT_MAX; for (size_t i = 0; i < hist->size(); i++) if (!used[i]) minend = std::min(minend, (*hist)[i].end);
  for (size_t i = 0; i < hist->size(); i++) if (!used[i] && (*hist)[i].start < minend) {
    Model* c = m.clone(); bool ok = c->apply((*hist)[i].op) == (*hist)[i].res; if (ok) { used[i] = 1; ok = lin(*c, used, left - 1); used[i] = 0; } delete c; if (ok) return true;
  }
  return false;
}
static std::string show() { std::string s; char b[400]; for (auto& r : *hist) { snprintf(b, sizeof b, " thread %d %c%d [%d..%d] gave '%s';", r.thread, r.op.code, r.op.arg, r.start, r.end, r.res.c_str()); s += b; } return s; }

struct Cfg { std::string name; int kind; std::vector<std::string> scripts; int pre, stale, depth; bool seq; };
static const Cfg* C;
static std::vector<Op> parse(const std::string& s) { std::vector<Op> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(Op{s[i], s[i + 1] - '0'}); return v; }
static std::string (*perform)(int thread, Op o);
static void run_ops(int who, const std::string& s) { for (Op o : parse(s)) { Rec r{who, o, ++stamp, 0, ""}; r.res = perform(who, o); r.end = ++stamp; hist->push_back(r); } }

// ---- Codec list -------------------------------------------------------------------------------------------------------
static BLImageCodec codec[4]; static std::vector<int> base; static const char* NAMES[4] = {"PNG", "JPEG", "BMP", "QOI"}; static const char* EXT[4] = {"png", "jpeg", "bmp", "qoi"};
static std::vector<uint8_t> magic[4];
static int codec_id(const BLImageCodec& c) { for (int i = 0; i < 4; i++) if (c._d.impl == codec[i]._d.impl) return i; return c.is_valid() ? 9 : 8; }
static std::string list_str(const BLArray<BLImageCodec>& a) { std::string s; for (size_t i = 0; i < a.size(); i++) s += char('0' + codec_id(a[i])); return s; }
struct CodecModel : Model {
  std::vector<int> v; int at(int k) { for (size_t i = 0; i < v.size(); i++) if (v[i] == k) return int(i); return -1; }
  std::string list() { std::string s; for (int k : v) s += char('0' + k); return s; }
  std::string apply(Op o) override {
    int i = at(o.arg);
    switch (o.code) {
      case 'a': if (i >= 0) return "exists"; v.push_back(o.arg); return "ok";
      case 'r': if (i < 0) return "none"; v.erase(v.begin() + i); return "ok";
      case 'n': case 'x': case 'd': return i < 0 ? "none" : std::string(1, char('0' + o.arg));
      case 'l': case 'L': return list();
    }
    abort();
  }
  Model* clone() const override { return new CodecModel(*this); }
};
struct KeptList { BLArray<BLImageCodec> a; std::string s; };
static std::vector<KeptList*>* kept;
static std::string perform_codec(int, Op o) {
  auto code = [](BLResult r) -> std::string { return r == BL_SUCCESS ? "ok" : r == BL_ERROR_ALREADY_EXISTS ? "exists" : r == BL_ERROR_NO_ENTRY || r == BL_ERROR_IMAGE_NO_MATCHING_CODEC ? "none" : "error " + std::to_string(r); };
  switch (o.code) {
    case 'a': return code(BLImageCodec::add_to_built_in(codec[o.arg]));
    case 'r': return code(BLImageCodec::remove_from_built_in(codec[o.arg]));
    case 'n': case 'x': case 'd': {
      BLImageCodec c; std::string fn = std::string("dir.x/file.") + EXT[o.arg];
      BLResult r = o.code == 'n' ? c.find_by_name(NAMES[o.arg]) : o.code == 'x' ? c.find_by_extension(fn.c_str()) : c.find_by_data(magic[o.arg].data(), magic[o.arg].size());
      if (r != BL_SUCCESS) { mc::check(!c.is_valid(), "codec-left", "a failed search for a codec sets the codec"); return code(r); }
      return std::string(1, char('0' + codec_id(c)));
    }
    case 'l': { BLArray<BLImageCodec> a = BLImageCodec::built_in_codecs(); std::string s = list_str(a); kept->push_back(new KeptList{a, s}); return s; }
    case 'L': { BLArray<BLImageCodec> a; bl_image_codec_array_assign_built_in_codecs(&a); return list_str(a); }
  }
  abort();
}

// ---- Font managers ----------------------------------------------------------------------------------------------------
static const int NF = 6; static std::vector<uint8_t> fontfile[NF]; static BLFontFace face[NF]; static const int FAM[NF] = {0, 0, 0, 1, 1, 2}, WEIGHT[NF] = {400, 700, 400, 400, 100, 900}, STYLE[NF] = {0, 0, 2, 0, 0, 0};   // Face 0 has a twin: 0 with another identity is face[0] again (twin).
static BLFontFace twin; static std::string famname[3]; static BLFontManager* mgr[4];
static int face_id(const BLFontFace& f) { for (int i = 0; i < NF; i++) if (f._d.impl == face[i]._d.impl) return i; if (f._d.impl == twin._d.impl) return 7; return f.is_valid() ? 9 : 8; }
struct FontModel : Model {
  std::vector<int> v[3]; bool created = true;
  static int key(int f) { if (f == 7) f = 0; return STYLE[f] * 1000 + WEIGHT[f]; }
  std::string apply(Op o) override {
    int f = o.arg, fam = f == 7 ? 0 : f < NF ? FAM[f] : 0;
    switch (o.code) {
      case 'a': { auto& x = v[fam]; size_t i = 0; for (; i < x.size(); i++) { if (key(x[i]) == key(f)) return "ok"; if (key(x[i]) > key(f)) break; } x.insert(x.begin() + i, f); return "ok"; }
      case 'h': for (int k : v[fam]) if (k == f) return "yes"; return "no";
      case 'c': return std::to_string(v[0].size() + v[1].size() + v[2].size());
      case 'f': return std::to_string((v[0].size() > 0) + (v[1].size() > 0) + (v[2].size() > 0));
      case 'q': { std::string s; for (int k : v[o.arg]) s += char('0' + k); return s; }
      case 'b': { if (v[fam].empty()) return "none"; for (int k : v[fam]) if (key(k) == key(f)) return std::string(1, char('0' + k)); return "some"; }   // A face with exactly these properties wins.
    }
    abort();
  }
  Model* clone() const override { return new FontModel(*this); }
};
static std::string perform_font(int who, Op o) {
  BLFontManager& m = *mgr[who]; int f = o.arg; const BLFontFace& ff = f == 7 ? twin : face[f < NF ? f : 0]; int fi = f == 7 ? 0 : f;
  switch (o.code) {
    case 'a': { BLResult r = m.add_face(ff); return r == BL_SUCCESS ? "ok" : "error"; }
    case 'h': return m.has_face(ff) ? "yes" : "no";
    case 'c': return std::to_string(m.face_count());
    case 'f': return std::to_string(m.family_count());
    case 'q': { BLArray<BLFontFace> a; BLResult r = m.query_faces_by_family_name(famname[o.arg].c_str(), a); std::string s; for (size_t i = 0; i < a.size(); i++) s += char('0' + face_id(a[i])); mc::check((r == BL_SUCCESS) == (a.size() > 0), "query-result", "querying the faces of a family gives %u with %zu faces", r, a.size()); return s; }
    case 'b': { BLFontQueryProperties p{}; p.weight = WEIGHT[fi]; p.style = STYLE[fi]; BLFontFace x; BLResult r = m.query_face(famname[FAM[fi]].c_str(), p, x); if (r != BL_SUCCESS) { mc::check(!x.is_valid(), "query-left", "a failed query sets the face"); return "none"; }
      int id = face_id(x); if (id < NF + 2 && id != 8) { if (FontModel::key(id) == FontModel::key(f) && (id == 7 ? 0 : FAM[id]) == FAM[fi]) return std::string(1, char('0' + id)); if ((id == 7 ? 0 : FAM[id]) == FAM[fi]) return "some"; } return "wrong"; }
  }
  abort();
}
static void patch(std::vector<uint8_t>& d, int fam, int weight, int style) {
  auto u16 = [&](size_t o) { return d[o] << 8 | d[o + 1]; }; auto u32 = [&](size_t o) { return size_t(u16(o)) << 16 | u16(o + 2); };
  int n = u16(4); for (int i = 0; i < n; i++) { size_t e = 12 + 16 * i, o = u32(e + 8); std::string tag((char*)&d[e], 4);
    if (tag == "OS/2") { d[o + 4] = weight >> 8; d[o + 5] = weight & 255; d[o + 63] = (d[o + 63] & ~0x21) | (style == 2 ? 1 : 0); if (style == 2) d[o + 62] &= ~2; }
    if (tag == "name") { int c = u16(o + 2), so = u16(o + 4); for (int k = 0; k < c; k++) { size_t r = o + 6 + 12 * k; int id = u16(r + 6), len = u16(r + 8), of = u16(r + 10); if (id == 1 || id == 16) d[o + so + of + len - 1] = uint8_t('a' + fam); } } }
}
static void load_fonts() {
  FILE* f = fopen((std::string(getenv("VERIF_REPO") ? getenv("VERIF_REPO") : "/repo") + "/blend2d-testing/resources/ABeeZee-Regular.ttf").c_str(), "rb"); if (!f) { perror("font"); exit(3); }
  std::vector<uint8_t> d(100000); d.resize(fread(d.data(), 1, d.size(), f)); fclose(f);
  for (int i = 0; i <= NF; i++) { int k = i == NF ? 0 : i; auto& ff = i == NF ? twin : face[i]; std::vector<uint8_t>* v = new std::vector<uint8_t>(d); patch(*v, FAM[k], WEIGHT[k], STYLE[k]); BLFontData fd; if (fd.create_from_data(v->data(), v->size()) != BL_SUCCESS || ff.create_from_data(fd, 0) != BL_SUCCESS) { fprintf(stderr, "font %d does not load\n", i); exit(3); }
    famname[FAM[k]] = ff.family_name().data(); if (int(ff.weight()) != WEIGHT[k] || int(ff.style()) != STYLE[k]) { fprintf(stderr, "font %d: weight %u style %u\n", i, ff.weight(), ff.style()); exit(3); } if (i < NF) fontfile[i] = *v; }
  if (famname[0] == famname[1] || famname[1] == famname[2]) { fprintf(stderr, "family names are equal\n"); exit(3); }
}

// ---- Unique ids ---------------------------------------------------------------------------------------------------------
static std::vector<uint64_t>* ids[4];
static BLImage* imgs[4]; static BLContext* ctxs[4]; static BLContextCookie* cookies[4];
static std::string perform_id(int who, Op o) {
  switch (o.code) {
    case 'g': { int n = o.arg == 0 ? 1 : o.arg == 1 ? 255 : o.arg == 2 ? 256 : 300; for (int i = 0; i < n; i++) ids[who]->push_back(BLUniqueIdGenerator::generate_id(BLUniqueIdGenerator::Domain::kAny)); break; }
    case 'k': { int n = o.arg == 0 ? 1 : 257; for (int i = 0; i < n; i++) ids[who]->push_back(1ull << 63 | BLUniqueIdGenerator::generate_id(BLUniqueIdGenerator::Domain::kContext)); break; }
    case 'F': { BLFontData fd; BLFontFace ff; mc::quiet(true); BLResult r = fd.create_from_data(fontfile[o.arg].data(), fontfile[o.arg].size()); mc::quiet(false); if (r == BL_SUCCESS) r = ff.create_from_data(fd, 0); mc::check(r == BL_SUCCESS, "face", "creating a font face gives %u", r); ids[who]->push_back(ff.unique_id()); break; }
    case 'C': { BLImage im(2, 2, BL_FORMAT_PRGB32); BLContext c(im); BLContextCookie k; mc::check(c.save(k) == BL_SUCCESS, "context", "save() fails"); ids[who]->push_back(1ull << 63 | k.data[0]); c.restore(k); c.end(); break; }
  }
  return "";
}

static void client(void* p) { int who = int(intptr_t(p)); run_ops(who, C->scripts[who]); if (C->kind == 1 && who) { mgr[who]->~BLFontManager(); free(mgr[who]); } }
static BLFontManager* new_mgr(const BLFontManager& o) { void* p = malloc(sizeof(BLFontManager)); return new (p) BLFontManager(o); }
static void body(void* p) {
  C = (const Cfg*)p; stamp = 0; hist = new std::vector<Rec>; kept = new std::vector<KeptList*>; size_t n = C->scripts.size(); hist->reserve(64);
  mc::quiet(true);
  for (auto& x : ids) x = new std::vector<uint64_t>;
  perform = C->kind == 0 ? perform_codec : C->kind == 1 ? perform_font : perform_id;
  if (C->kind == 1) { void* q = malloc(sizeof(BLFontManager)); mgr[0] = new (q) BLFontManager(); mgr[0]->create(); for (size_t i = 1; i < n; i++) mgr[i] = new_mgr(*mgr[0]); }
  mc::quiet(false);
  if (C->seq) {
    // All histories of one thread.
    static const char* OPS[] = {"a0r0a1r1n0x1d0l0L0r2a3", "a0a1a2a3a4a7a5h0h1h7c0f0q0q1b0b1b4"}; auto ops = parse(OPS[C->kind]);
    for (int i = 0; i < C->depth; i++) { int c = mc::choose(int(ops.size())); run_ops(0, OPS[C->kind] ? std::string() + ops[c].code + char('0' + ops[c].arg) : ""); }
    const char* fin = C->kind == 0 ? "l0n0n1n2n3x0d1" : "q0q1q2c0f0h0h1h7h4b0b4"; run_ops(0, fin);
  } else {
    int t[4]; for (size_t i = 1; i < n; i++) t[i] = mc::spawn(client, (void*)intptr_t(i));
    client(nullptr);
    for (size_t i = 1; i < n; i++) mc::join(t[i]);
    run_ops(0, C->kind == 0 ? "l0" : C->kind == 1 ? "q0q1q2c0f0" : "");
  }
  mc::quiet(true);
  if (C->kind < 2) {
    CodecModel cm; cm.v = base; FontModel fm; std::vector<char> used(hist->size(), 0); const Model& m = C->kind == 0 ? (const Model&)cm : fm;
    bool ok = lin(m, used, hist->size()); mc::check(ok, "not-linearizable", "no sequential order of the calls explains their results:%s", ok ? "" : show().c_str());
    for (auto* k : *kept) { mc::check(list_str(k->a) == k->s, "list-changed", "a list of codecs taken earlier changed"); delete k; }
    for (auto& r : *hist) for (char ch : r.res) mc::observe(ch + r.thread * 7);
    if (C->kind == 1) { mgr[0]->~BLFontManager(); free(mgr[0]); }
  } else {
    std::vector<uint64_t> all; for (auto& x : ids) all.insert(all.end(), x->begin(), x->end()); std::sort(all.begin(), all.end());
    for (size_t i = 0; i < all.size(); i++) { mc::check((all[i] << 1) != 0, "id-zero", "the id 0 is handed out"); mc::check(!i || all[i] != all[i - 1], "id-twice", "the unique id %llu is handed out twice", (unsigned long long)all[i]); }
    mc::observe(all.size());
  }
  for (auto& x : ids) { delete x; x = nullptr; } delete hist; delete kept;
}
int main(int argc, char** argv) {
  mc::init(); vh::init(argc, argv); bl_runtime_init(); load_fonts();
  { BLArray<BLImageCodec> a = BLImageCodec::built_in_codecs(); for (int i = 0; i < 4; i++) if (codec[i].find_by_name(NAMES[i]) != BL_SUCCESS) { fprintf(stderr, "codec %d\n", i); return 3; } for (size_t i = 0; i < a.size(); i++) base.push_back(codec_id(a[i])); }
  magic[0] = {0x89, 'P', 'N', 'G', 13, 10, 26, 10, 0, 0, 0, 13, 'I', 'H', 'D', 'R'}; magic[1] = {0xFF, 0xD8, 0xFF, 0xE0, 0, 16, 'J', 'F', 'I', 'F', 0}; magic[2] = {'B', 'M', 58, 0, 0, 0, 0, 0, 0, 0, 54, 0, 0, 0, 40, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 24, 0}; magic[3] = {'q', 'o', 'i', 'f', 0, 0, 0, 1, 0, 0, 0, 1, 4, 0};
  for (int i = 0; i < 4; i++) { BLImageCodec c; c.find_by_data(magic[i].data(), magic[i].size()); if (codec_id(c) != i) fail("by-data", "the codec %s is not recognised by its signature", NAMES[i]); }
  static std::vector<Cfg> cs; bool th = g.thorough; int e = th ? 1 : 0;
  auto codecs = [&](const char* n, std::vector<std::string> s, int pre) { cs.push_back(Cfg{std::string("codec-") + n, 0, s, pre + 1 + e, 2 + e, 0, false}); };
  auto fonts = [&](const char* n, std::vector<std::string> s, int pre) { cs.push_back(Cfg{std::string("font-") + n, 1, s, pre + 1 + e, 2 + e, 0, false}); };
  auto uids = [&](const char* n, std::vector<std::string> s, int pre) { cs.push_back(Cfg{std::string("id-") + n, 2, s, pre + 1 + e, 2 + e, 0, false}); };
  codecs("remove-both", {"r0n0", "r0l0"}, 3); codecs("remove-two", {"r0l0", "r1l0"}, 3); codecs("remove-add", {"r0a0l0", "n0x0d0l0"}, 3); codecs("add-both", {"r0a0", "a0r0"}, 3);
  codecs("readd", {"r2a2", "r3a3l0"}, 3); codecs("kept", {"l0r0l0", "l0a0r1l0"}, 2); codecs("three", {"r0a0", "r0l0", "a0n0"}, 2); codecs("three-lists", {"r1", "l0L0", "l0a1"}, 2); codecs("assign", {"L0r0L0", "L0r1L0"}, 3);
  fonts("add-same", {"a0h0", "a0h0c0"}, 3); fonts("add-twins", {"a0h0h7", "a7h7h0c0"}, 3); fonts("add-family", {"a0q0", "a1q0"}, 3); fonts("add-query", {"a0a1a4", "q0b0c0f0"}, 3); fonts("families", {"a3f0c0", "a5f0c0"}, 3); fonts("order", {"a1a0", "a2q0"}, 3);
  fonts("three", {"a0", "a1", "q0c0"}, 3); fonts("three-families", {"a0c0", "a3f0", "a5c0"}, 2); fonts("reader", {"h0q0h0", "a0"}, 3); fonts("best", {"b0b1b0", "a1a0"}, 3);
  uids("blocks", {"g0g0", "g0g0"}, 3); uids("refill", {"g1g0g0", "g2g0"}, 3); uids("three", {"g3", "g3", "g3"}, 2); uids("domains", {"g0k0g0", "k1g0"}, 3); uids("faces", {"F0F1", "F0g0"}, 2); uids("contexts", {"C0C0", "C0k0"}, 1); uids("same-data", {"F0", "F0"}, 2);
  cs.push_back(Cfg{"seq-codec", 0, {""}, 0, 0, th ? 5 : 4, true}); cs.push_back(Cfg{"seq-font", 1, {""}, 0, 0, th ? 5 : 4, true});
  for (size_t i = 0; i < cs.size(); i++) if (g.replaying || mine(i)) {
    mc::Options o; o.preemptions = cs[i].pre; o.stale = cs[i].stale; o.memory_at_exit = cs[i].kind != 0;
    if (th) o.max_seconds = 400;
    mc::explore(cs[i].name.c_str(), body, &cs[i], o);
  }
  return done();
}
