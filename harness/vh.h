// Shared harness code: command line, progress/crash attribution, violation reporting, explicit-state explorer.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <time.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <unordered_set>
#include <unordered_map>
#include <map>
#include <algorithm>
#include <functional>

namespace vh {

struct Ctx {
  int shard = 0, nshards = 1;
  bool thorough = false;
  uint64_t seed = 1;
  std::string replay;
  bool replaying = false;
  std::string mode;
  char* prog = nullptr;
  char progbuf[65536];
  int nviol = 0, maxviol = 6;
  double t0 = 0, budget = 1e9;
  bool capped = false;
  std::map<std::string, uint64_t> stats;
  std::vector<std::string> samples;
  std::unordered_set<std::string> keys;
};
inline Ctx g;

inline double now() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline void init(int argc, char** argv) {
  g.prog = g.progbuf;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { return i + 1 < argc ? argv[++i] : (char*)""; };
    if (a == "--shard") g.shard = atoi(nx());
    else if (a == "--nshards") g.nshards = atoi(nx());
    else if (a == "--tier") g.thorough = !strcmp(nx(), "thorough");
    else if (a == "--seed") g.seed = strtoull(nx(), 0, 10);
    else if (a == "--mode") g.mode = nx();
    else if (a == "--budget") g.budget = atof(nx());
    else if (a == "--replay") { g.replaying = true; g.replay = nx(); }
    else if (a == "--progress") {
      int fd = open(nx(), O_RDWR);
      if (fd >= 0) { void* p = mmap(0, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); close(fd); if (p != MAP_FAILED) g.prog = (char*)p; }
    }
  }
  static char outbuf[1 << 16]; setvbuf(stdout, outbuf, _IOLBF, sizeof outbuf);
  g.t0 = now();
}

inline bool over_budget() { if (now() - g.t0 > g.budget) { g.capped = true; return true; } return false; }

// Sets the description of the running case (must be re-parsable by --replay).
inline void set_case(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(g.prog, 60000, fmt, ap); va_end(ap);
}
inline void set_case_s(const std::string& s) { size_t n = std::min(s.size(), size_t(60000)); memcpy(g.prog, s.data(), n); g.prog[n] = 0; }
inline std::string cur_case() { return g.prog; }

inline std::string clean(std::string s) { for (char& c : s) if ((unsigned char)c < 32) c = ' '; return s; }

// Reports a violation of the current case; `key` classifies it.
inline void fail(const char* key, const char* fmt, ...) {
  char buf[2048]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  g.nviol++;
  if (!g.keys.insert(std::string(key)).second && g.nviol > 3) return;   // one line per kind
  if (g.keys.size() > 12) return;
  printf("@VIOL\t%s\t%s\t%s\n", key, g.prog, clean(buf).c_str());
  fflush(stdout);
}
inline void stat(const char* k, uint64_t n = 1) { g.stats[k] += n; }
inline void sample(const std::string& s) { if (g.samples.size() < 3) g.samples.push_back(clean(s).substr(0, 600)); }
inline void outcome(const std::string& s) { printf("@OUTCOME\t%s\n", clean(s).c_str()); }
inline int done() {
  for (auto& k : g.stats) printf("@STAT\t%s\t%llu\n", k.first.c_str(), (unsigned long long)k.second);
  for (auto& s : g.samples) printf("@SAMPLE\t%s\n", s.c_str());
  if (g.capped) printf("@CAPPED\n");
  printf("@DONE\n"); fflush(stdout);
  return 0;
}
inline bool mine(uint64_t i) { return int(i % uint64_t(g.nshards)) == g.shard; }

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const uint8_t* b = (const uint8_t*)p; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; } return h;
}
struct Hash {
  uint64_t h = 0x9E3779B97F4A7C15ull;
  void u(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
  void b(const void* p, size_t n) { u(n); u(fnv(p, n)); }
};

inline std::string join(const std::vector<uint16_t>& v) { std::string s; for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; s += std::to_string(v[i]); } return s; }
inline std::vector<uint16_t> split(const std::string& s) { std::vector<uint16_t> v; const char* p = s.c_str(); while (*p) { v.push_back((uint16_t)strtol(p, (char**)&p, 10)); if (*p) p++; else break; } return v; }

// Breadth-first explicit-state search over the real implementation.
// H: int num_ops(); void reset(); bool apply(int op, bool check) -> false if the op is not enabled here;
//    uint64_t state() -> canonical hash of model content and observable representation; std::string op_name(int).
// Every node of the search is an operation history; a node is expanded by replaying its history on fresh objects and applying
// each operation. States already seen are not expanded again.
template<class H>
void bfs(H& h, const char* label, int depth, size_t max_states = 4000000) {
  int nops = h.num_ops();
  if (g.replaying) {
    std::string r = g.replay; size_t c = r.find(':');
    if (c == std::string::npos || r.substr(0, c) != label) return;
    auto ops = split(r.substr(c + 1));
    set_case_s(r);
    h.reset();
    for (size_t i = 0; i < ops.size(); i++) { printf("step %zu: %s\n", i, h.op_name(ops[i]).c_str()); fflush(stdout); h.apply(ops[i], true); }
    h.finish();
    return;
  }
  std::unordered_set<uint64_t> seen;
  std::vector<std::vector<uint16_t>> frontier{{}}, next;
  h.reset(); { uint64_t st0 = h.state(); h.finish(); seen.insert(st0); }
  uint64_t trans = 0, maxd = 0;
  for (int d = 0; d < depth && !frontier.empty(); d++) {
    next.clear();
    // The first layer is explored by every shard; then each shard continues with its part of the frontier.
    bool split_here = (d == 1) || (d == 0 && depth == 1);
    for (size_t i = 0; i < frontier.size(); i++) {
      if (split_here && d > 0 && !mine(i)) continue;
      const auto& hist = frontier[i];
      for (int op = 0; op < nops; op++) {
        if (depth == 1 && !mine(op)) continue;
        { std::string hs = std::string(label) + ":" + join(hist) + (hist.empty() ? "" : ",") + std::to_string(op); set_case_s(hs); }
        h.reset();
        for (uint16_t o : hist) h.apply(o, false);
        if (!h.apply(op, true)) { h.finish(); continue; }
        trans++;
        uint64_t st = h.state();
        h.finish();
        if (seen.size() < max_states) {
          if (seen.insert(st).second) { auto n = hist; n.push_back((uint16_t)op); next.push_back(std::move(n)); maxd = d + 1; }
        } else g.capped = true;
        if (g.keys.size() >= 6 || g.nviol > 200) goto out;
      }
      if ((i & 63) == 0 && over_budget()) goto out;
    }
    frontier.swap(next);
  }
out:
  stat("states", seen.size());
  stat("transitions", trans);
  if (g.stats["max_depth"] < maxd) g.stats["max_depth"] = maxd;
  if (!frontier.empty()) { std::string s; for (uint16_t o : frontier[frontier.size() / 2]) s += h.op_name(o) + "; "; sample(std::string(label) + ": " + s); }
}

} // namespace vh
