// C02: the thread pool under every schedule (bounded), with failing thread creation: exclusive ownership, no loss, no leak, clean shutdown.
#include "vh.h"
#include "mc_rt.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/threading/thread_p.h>
#include <blend2d/threading/threadpool_p.h>
BLThreadPool* bl_thread_pool_create() noexcept;
using namespace vh;

// Script letters: 1-9 acquire that many; ! acquires all-or-nothing the number that follows; w run one work item on every held thread and
// await them; f run without awaiting; r release all held; s release one held; c cleanup; g add_ref; d release a reference;
// p read the pooled count; a set attributes; 0 acquire none; m acquire 64; M acquire 64 all-or-nothing; z settle.
struct Cfg { std::string name; bool futex, global; std::vector<std::string> scripts; int pre, faults, stale; bool cf, mf, sp; };
struct Work { int runs; BLThread* seen; BLThread* expect; };
static BLThreadPool* pool; static const Cfg* C; static BLThread* owned[128]; static int owner_of[128], n_owned; static int failures; static Work works[4096]; static int n_works; static int max_hold[8];

static void BL_CDECL on_work(BLThread* t, void* data) noexcept { Work* w = (Work*)data; w->runs++; w->seen = t; mc::post(w); }
static void own(BLThread* t, int who) {
  mc::check(t != nullptr, "null-thread", "an acquired thread is null");
  for (int i = 0; i < n_owned; i++) mc::check(owned[i] != t, "thread-shared", "a thread is handed to client %d while client %d holds it", who, owner_of[i]);
  mc::check(n_owned < 64, "too-many", "more than 64 threads are handed out"); owned[n_owned] = t; owner_of[n_owned++] = who;
}
static void disown(BLThread* t) { for (int i = 0; i < n_owned; i++) if (owned[i] == t) { owned[i] = owned[--n_owned]; owner_of[i] = owner_of[n_owned]; return; } abort(); }
static void run_script(int who, const std::string& s) {
  BLThread* held[80]; int n = 0; std::vector<Work*> pending;
  for (size_t i = 0; i < s.size(); i++) {
    char ch = s[i]; bool all = false; if (ch == '!') { all = true; ch = s[++i]; }
    if (isdigit(ch) || ch == 'm' || ch == 'M') {
      uint32_t want = ch == 'm' || ch == 'M' ? 64 : ch - '0'; all |= ch == 'M';
      BLThread* got[80]; for (auto& g : got) g = (BLThread*)0x5A5A5A5A5A5A5A50ull;
      BLResult reason = 12345; int others = 0; for (int k = 0; k < 8; k++) if (k != who) others += max_hold[k]; bool room = n + others + int(want) <= 64;
      uint32_t c = pool->acquire_threads(got, want, all ? BL_THREAD_POOL_ACQUIRE_FLAG_ALL_OR_NOTHING : 0, &reason);
      mc::check(c <= want, "acquire-count", "acquiring %u threads gives %u", want, c);
      mc::check(!all || c == want || c == 0, "all-or-nothing", "acquiring %u threads, all or nothing, gives %u", want, c);
      if (c < want && room) { failures++; mc::check(reason != BL_SUCCESS, "acquire-reason", "acquiring %u threads gives %u without a reason", want, c); mc::check(C->faults > 0, "acquire-fails", "acquiring %u threads gives %u (reason %u) although no thread creation failed", want, c, reason); }
      if (c == want) mc::check(reason == BL_SUCCESS, "acquire-reason", "acquiring %u threads succeeds with reason %u", want, reason);
      if (all && c == 0 && want) mc::check(reason != BL_SUCCESS, "acquire-reason", "acquiring %u threads, all or nothing, fails without a reason", want);
      for (uint32_t k = 0; k < c; k++) { own(got[k], who); held[n++] = got[k]; }
    }
    else switch (ch) {
      case 'w': case 'f': { std::vector<Work*> ws; for (int k = 0; k < n; k++) { Work* w = &works[n_works++]; *w = Work{0, nullptr, held[k]}; for (;;) { BLResult r = held[k]->run(on_work, w); if (r == BL_SUCCESS) break; mc::check(r == BL_ERROR_BUSY, "run-result", "run() on an acquired thread gives %u", r); mc::yield(); } ws.push_back(w); }
        for (Work* w : ws) if (ch == 'w') mc::await(w, 1); break; }
      case 'r': for (int k = 0; k < n; k++) disown(held[k]); pool->release_threads(held, uint32_t(n)); n = 0; break;
      case 's': if (n) { disown(held[n - 1]); pool->release_threads(held + n - 1, 1); n--; } break;
      case 'c': pool->cleanup(); break;
      case 'g': pool->add_ref(); break;
      case 'd': pool->release(); break;
      case 'p': { uint32_t c = pool->pooled_thread_count(); mc::check(c <= 64, "pooled-count", "%u pooled threads", c); break; }
      case 'a': { BLThreadAttributes at{}; at.stack_size = bl_runtime_context.system_info.thread_stack_size; pool->set_thread_attributes(at); break; }
      case 'z': mc::settle(); break;
    }
  }
}
struct Arg { int who; const std::string* s; };
static void client(void* p) { Arg* a = (Arg*)p; run_script(a->who, *a->s); }
static int holds(const std::string& s) { int m = 0, c = 0; for (char ch : s) { if (isdigit(ch)) c += ch - '0'; if (ch == 'm' || ch == 'M') c += 64; if (ch == 'r') c = 0; if (ch == 's') c--; m = std::max(m, c); } return m; }
static void body(void* p) {
  const Cfg& c = *(const Cfg*)p; C = &c; n_owned = failures = n_works = 0; memset(max_hold, 0, sizeof max_hold);
  bl_runtime_context.features_info.futex_enabled = c.futex;
  for (size_t i = 0; i < c.scripts.size(); i++) max_hold[i] = holds(c.scripts[i]);
  mc::quiet(true); pool = c.global ? bl_thread_pool_global() : bl_thread_pool_create(); mc::quiet(false);
  if (!pool) return;
  bool refs = c.scripts[0].find('d') != std::string::npos;      // The scripts drop the references themselves.
  if (refs) for (size_t i = 1; i < c.scripts.size(); i++) pool->add_ref();
  Arg a[8]; int t[8]; size_t n = c.scripts.size();
  for (size_t i = 1; i < n; i++) { a[i] = Arg{int(i), &c.scripts[i]}; t[i] = mc::spawn(client, &a[i]); }
  run_script(0, c.scripts[0]);
  for (size_t i = 1; i < n; i++) mc::join(t[i]);
  if (!refs) {
    // Quiescent: everything was released, the pool is fully usable.
    mc::settle(); mc::quiet(true);
    uint32_t pooled = pool->pooled_thread_count(); mc::check(pooled <= 64, "too-many", "%u threads are pooled", pooled); mc::check(int(pooled) == mc::threads_alive() - 0, "pool-count", "%u threads are pooled, %d exist", pooled, mc::threads_alive());
    BLThread* th[80]; BLResult reason = 0; bool maxed = c.scripts[0].find('m') != std::string::npos || c.scripts[0].find('M') != std::string::npos;
    uint32_t want = maxed ? 64 : 4; max_hold[0] = want; uint32_t got = pool->acquire_threads(th, want, BL_THREAD_POOL_ACQUIRE_FLAG_ALL_OR_NOTHING, &reason);
    mc::check(got == want && reason == BL_SUCCESS, "pool-usable", "acquiring %u threads from the idle pool afterwards gives %u (reason %u)", want, got, reason);
    Work* w0 = &works[n_works]; for (uint32_t i = 0; i < got; i++) { own(th[i], 0); Work* w = &works[n_works++]; *w = Work{0, nullptr, th[i]}; mc::check(th[i]->run(on_work, w) == BL_SUCCESS, "pool-usable", "a thread acquired from the idle pool does not accept work"); }
    for (uint32_t i = 0; i < got; i++) mc::await(w0 + i, 1);
    for (uint32_t i = 0; i < got; i++) disown(th[i]);
    pool->release_threads(th, got); mc::settle(); pooled = pool->pooled_thread_count(); mc::check(pooled >= got && int(pooled) == mc::threads_alive(), "pool-count", "%u threads are pooled after releasing %u, %d exist", pooled, got, mc::threads_alive());
    mc::quiet(false);
    if (c.global) { uint32_t k = pool->cleanup(); mc::check(k == pooled, "cleanup", "cleanup() ends %u of %u pooled threads", k, pooled); mc::settle(); mc::check(pool->pooled_thread_count() == 0, "cleanup", "threads are pooled after cleanup()"); }
    else pool->release();
  }
  mc::settle(); mc::check(mc::threads_alive() == 0, "thread-left", "%d threads are left after the pool was released", mc::threads_alive());
  for (int i = 0; i < n_works; i++) mc::check(works[i].runs == 1 && works[i].seen == works[i].expect, "work", "work item %d ran %d times", i, works[i].runs);
  mc::observe(failures * 16 + n_owned); mc::observe(mc::threads_created());
}
int main(int argc, char** argv) {
  mc::init(); vh::init(argc, argv); bl_runtime_init();
  static std::vector<Cfg> cs; bool th = g.thorough;
  struct D { const char* n; std::vector<std::string> s; int pre, faults; bool cf, mf, sp; };
  std::vector<D> ds = {
    {"pairs", {"1wr", "1wr"}, 2, 0, false, false, false},
    {"pairs-fail", {"2r", "2r"}, 2, 1, true, false, false},
    {"pairs-two", {"2wr", "2wr"}, 1, 0, false, false, false},
    {"reuse", {"1r2r", "2r1r"}, 2, 0, false, false, false},
    {"cleanup", {"1wr1r", "c"}, 2, 0, false, false, false},
    {"cleanup-both", {"2rc1r", "1rc"}, 1, 0, false, false, false},
    {"all-fail", {"!3r!2r", "!1r"}, 1, 2, true, true, false},
    {"all-first-fails", {"!1r1r"}, 2, 2, true, true, false},
    {"some-fail", {"3r3r"}, 2, 2, true, true, false},
    {"fire-release", {"1fr1wr", "1fr"}, 1, 0, false, false, false},
    {"none", {"01r0r", "r1r"}, 2, 1, true, false, false},
    {"three", {"1r", "1r", "1r"}, 1, 0, false, false, false},
    {"piecewise", {"3sssr", "2srr"}, 2, 0, false, false, false},
    {"count", {"1rp", "p1rp"}, 2, 0, false, false, false},
    {"attributes", {"1r", "a1r"}, 2, 1, true, false, false},
    {"shutdown", {"1rd", "1rd"}, 2, 1, false, false, true},
    {"shutdown-busy", {"2frd"}, 2, 2, false, false, true},
    {"shutdown-cleanup", {"2rcd", "1rd"}, 2, 0, false, false, false},
    {"shutdown-refs", {"gdd", "1rgdd"}, 2, 1, false, false, true},
    {"maximum", {"m1!1r"}, 0, 1, true, false, false},
    {"maximum-all", {"M1!1rMr"}, 0, 1, true, false, false},
    {"maximum-partial", {"9m!1srmr"}, 0, 1, true, false, false},
    {"exhaust-two", {"mr", "9r"}, 0, 0, false, false, false},
    // Some of the 64 threads wait in the pool while more than those are asked for.
    {"maximum-pooled", {"ms2sss!5!4pr"}, 0, 0, false, false, false},
    {"maximum-pooled-all", {"Msss!5!3s9rp"}, 0, 0, false, false, false},
    {"exhaust-pooled", {"msssr", "4p4r"}, 0, 0, false, false, false},
  };
  for (int f = 1; f >= 0; f--) for (int gl = 0; gl < 2; gl++) for (auto& d : ds) {
    if (gl && d.s[0].find('d') != std::string::npos) continue;
    cs.push_back(Cfg{std::string(f ? "futex" : "portable") + (gl ? "-global-" : "-") + d.n, f == 1, gl == 1, d.s, std::max(0, d.pre + (th && d.pre ? 1 : 0) - (gl && !th && d.s.size() > 1 ? 1 : 0)), d.faults + (th && d.faults ? 1 : 0), 0, d.cf, d.mf, d.sp});
  }
  for (size_t i = 0; i < cs.size(); i++) if (g.replaying || mine(i)) {
    mc::Options o; o.preemptions = cs[i].pre; o.faults = cs[i].faults; o.stale = th ? 1 : 0; o.create_fails = cs[i].cf; o.malloc_fails = cs[i].mf; o.spurious = cs[i].sp; o.timeouts = cs[i].sp;
    o.delay = cs[i].name.find("max") != std::string::npos || cs[i].name.find("exhaust") != std::string::npos;
    if (th) o.max_seconds = 400; if (th && o.delay) o.preemptions = 1;
    mc::explore(cs[i].name.c_str(), body, &cs[i], o);
  }
  return done();
}
