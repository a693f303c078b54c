// C03: worker threads under every schedule (bounded): accepted work runs exactly once, busy submissions never, quit ends the thread.
#include "vh.h"
#include "mc_rt.h"
#include <blend2d/core/api-build_p.h>
#include <blend2d/core/runtime_p.h>
#include <blend2d/threading/thread_p.h>
using namespace vh;

struct Cfg { const char* name; bool futex; int kind; int items; };
struct Item { int id; int state; int runs; BLThread* seen; struct World* w; };   // state: 0 not offered, 1 accepted, 2 busy
struct World { const Cfg* c; BLThread* th; Item it[8]; int n; int exits; bool self_quit; int done; void* exit_data; };
static World W;

static void BL_CDECL on_exit_(BLThread* t, void* data) noexcept { W.exits++; W.exit_data = data; mc::check(t == W.th || !W.th, "wrong-thread", "the exit callback gets another thread"); }
static void BL_CDECL on_work(BLThread* t, void* data) noexcept {
  Item* i = (Item*)data; mc::check(i >= W.it && i < W.it + 8, "wrong-data", "a work item gets data that was never submitted");
  i->runs++; mc::check(i->runs == 1, "run-twice", "work item %d runs %d times", i->id, i->runs); i->seen = t; mc::check(W.exits == 0, "work-after-exit", "work item %d runs after the exit callback", i->id);
  uint32_t s = t->status(); mc::check(s != BL_THREAD_STATUS_IDLE, "status", "a thread running work reports to be idle");
}
static void submit(int k);
static void BL_CDECL on_work_submit(BLThread* t, void* data) noexcept { on_work(t, data); submit(((Item*)data)->id + 1); }
static void BL_CDECL on_work_quit(BLThread* t, void* data) noexcept { on_work(t, data); t->quit(); }
static BLThreadFunc func_of(int k) { switch (W.c->kind) { case 3: return k + 1 < W.c->items ? on_work_submit : on_work; case 4: return k + 1 == W.c->items ? on_work_quit : on_work; } return on_work; }
static void submit(int k) {
  Item& i = W.it[k]; i.id = k; BLResult r = W.th->run(func_of(k), &i);
  mc::check(r == BL_SUCCESS || r == BL_ERROR_BUSY, "run-result", "run() gives %u", r);
  i.state = r == BL_SUCCESS ? 1 : 2;
}
static void submit_retry(int k) { for (;;) { submit(k); if (W.it[k].state == 1) return; mc::yield(); } }
static void client(void* p) { submit(int(intptr_t(p))); }
static void client_retry(void* p) { submit_retry(int(intptr_t(p))); }
static void poll(void*) { for (int i = 0; i < 3; i++) { uint32_t s = W.th->status(); mc::check(s <= BL_THREAD_STATUS_QUITTING, "status", "status() gives %u", s); } }

static void body(void* p) {
  const Cfg& c = *(const Cfg*)p; new (&W) World(); W.c = &c; W.n = c.items;
  bl_runtime_context.features_info.futex_enabled = c.futex;
  BLThreadAttributes at{}; BLResult r = bl_thread_create(&W.th, &at, on_exit_, &W);
  if (r != BL_SUCCESS) { mc::check(W.th == nullptr && W.exits == 0, "create-fails", "a failed thread creation leaves a thread"); mc::check(mc::threads_created() == 0, "create-fails", "a thread exists although its creation was reported to fail"); return; }
  bool quit = true;
  switch (c.kind) {
    case 0: for (int i = 0; i < c.items; i++) submit(i); break;                                   // A burst, some busy, then quit at once.
    case 1: for (int i = 0; i < c.items; i++) submit_retry(i); break;                             // Every item is retried until accepted.
    case 2: { int t[4]; for (int i = 0; i < c.items; i++) t[i] = mc::spawn(client, (void*)intptr_t(i)); for (int i = 0; i < c.items; i++) mc::join(t[i]); break; }   // Competing submitters.
    case 3: submit(0); break;                                                                     // Work submits more work.
    case 4: for (int i = 0; i < c.items; i++) submit_retry(i); quit = false; break;               // The last item makes its own thread quit.
    case 5: { int t[4]; for (int i = 0; i < c.items; i++) t[i] = mc::spawn(client_retry, (void*)intptr_t(i)); for (int i = 0; i < c.items; i++) mc::join(t[i]); break; }
    case 6: { int t = mc::spawn(poll, nullptr); for (int i = 0; i < c.items; i++) submit(i); mc::join(t); break; }
    case 7: for (int i = 0; i < c.items; i++) { submit_retry(i); mc::settle(); mc::quiet(true); mc::check(W.it[i].runs == 1, "lost-work", "accepted work item %d has not run although everything else is idle", i); mc::check(W.th->status() == BL_THREAD_STATUS_IDLE, "status", "a thread without work does not report to be idle"); mc::quiet(false); } break;
    case 8: break;                                                                                // Quit without any work.
    case 9: { mc::settle(); for (int i = 0; i < c.items; i++) submit(i); W.th->quit(); Item& x = W.it[7]; BLResult rr = W.th->run(on_work, &x); x.id = 7; x.state = rr == BL_SUCCESS ? 1 : 2; mc::check(rr == BL_ERROR_BUSY, "run-after-quit", "a quitting thread accepts work (%u)", rr); break; }
    case 11: { int t[4]; for (int i = 0; i < c.items; i++) t[i] = mc::spawn(client, (void*)intptr_t(i)); W.th->quit(); for (int i = 0; i < c.items; i++) mc::join(t[i]); quit = false; break; }   // Quits while others submit.
    case 10: for (int i = 0; i + 1 < c.items; i++) submit(i); mc::settle(); submit_retry(c.items - 1); break;   // Burst, sleep, another item, quit.
  }
  if (c.kind == 3) { mc::settle(); for (int i = 0; i < c.items; i++) mc::check(W.it[i].state == 1 && W.it[i].runs == 1, "lost-work", "item %d submitted from inside a work item has state %d and ran %d times", i, W.it[i].state, W.it[i].runs); }
  if (quit) { BLResult q = W.th->quit(); mc::check(q == BL_SUCCESS, "quit-result", "quit() gives %u", q); }
  mc::settle();
  mc::check(mc::threads_alive() == 0, "still-alive", "the thread does not end after a quit request");
  mc::check(W.exits == 1 && W.exit_data == &W, "exit-count", "the exit callback ran %d times", W.exits);
  uint64_t o = 0;
  for (int i = 0; i < 8; i++) {
    Item& x = W.it[i];
    if (x.state == 1) mc::check(x.runs == 1, "lost-work", "accepted work item %d ran %d times", x.id, x.runs);
    else mc::check(x.runs == 0, "busy-run", "work item %d, reported busy, ran %d times", x.id, x.runs);
    mc::check(!x.runs || x.seen == W.th, "wrong-thread", "work item %d ran with another thread argument", x.id);
    o = o * 3 + x.state;
  }
  mc::observe(o);
  W.th->destroy();
}

int main(int argc, char** argv) {
  mc::init(); vh::init(argc, argv); bl_runtime_init();
  static std::vector<Cfg> cs; static std::vector<std::string> names; names.reserve(100);
  static const char* KN[] = {"burst", "retry", "submitters", "nested", "self-quit", "submitters-retry", "status", "idle-between", "quit-only", "after-quit", "burst-idle", "quit-race"};
  for (int f = 1; f >= 0; f--) for (int k = 0; k <= 11; k++) for (int n = 1; n <= (g.thorough ? 4 : 3); n++) {
    if ((k == 8 && n > 1) || ((k == 2 || k == 5) && n < 2) || (k == 11 && n > 2) || (k == 6 && n > 2) || (k == 10 && n < 2)) continue;
    names.push_back(std::string(f ? "futex" : "portable") + "-" + KN[k] + "-" + std::to_string(n)); cs.push_back(Cfg{names.back().c_str(), f == 1, k, n});
  }
  for (size_t i = 0; i < cs.size(); i++) if (g.replaying || mine(i)) {
    mc::Options o; bool many = cs[i].kind == 2 || cs[i].kind == 5 || cs[i].kind == 11; int n = cs[i].items;
    if (cs[i].kind == 5 && n > 2 && !g.thorough) continue;
    bool st = cs[i].kind == 6; o.preemptions = many || st ? 2 : n < 3 ? 4 : 3; o.faults = cs[i].kind == 2 && n > 2 ? 0 : many || st || n > 2 ? 1 : 2; o.stale = many || st || n > 2 ? 1 : 2;
    if (g.thorough) { o.preemptions++; if (!many) o.faults++; o.max_seconds = 300; }
    o.fair = 60; o.spurious = true; o.create_fails = true; o.malloc_fails = true;
    mc::explore(cs[i].name, body, &cs[i], o);
  }
  return done();
}
