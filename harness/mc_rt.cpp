// See mc_rt.h. This file is compiled without instrumentation.
#include "mc_rt.h"
#include "vh.h"
#include <pthread.h>
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <time.h>
#include <linux/futex.h>
#include <new>
#include <set>

extern "C" { extern char __executable_start, _end; }
namespace mc {
static const int NT = 80;                               // Threads per execution.
static const uint64_t ARENA = 0x100000000000ull, ARENA_PER = 64ull << 20, ARENA_N = NT;
static const uint64_t STACKS = 0x180000000000ull, STACK_SZ = 1024 << 10;
typedef uint32_t Clk;
// Epoch: tid in the upper 7 bits, atomic flag, 24 bits of clock. 0: never.
static inline Clk ep(int t, Clk c, bool atomic) { return Clk(t) << 25 | (atomic ? 1u << 24 : 0) | c; }
static const Clk FREED = 127u << 25 | 1;
struct Cell { Clk w, r; uint32_t wpc, rpc; };
struct VC { Clk c[NT]; };

enum State : uint8_t { T_NONE, T_RUN, T_LOCK, T_RD, T_COND, T_FUTEX, T_JOIN, T_SETTLE, T_AWAIT, T_DONE };
struct Thread {
  void* sp; State st; bool timed, timedout, spurious, yielded, detached; uint64_t obj, mtx; int joinee;
  void (*fn)(void*); void* (*pfn)(void*); void* arg;
  VC vc; uint64_t hash; uint32_t events; uint64_t seq; char* tls; uint32_t nstack; uint32_t stack[64]; int err;
};
enum { K_SCHED, K_STALE, K_FAULT, K_CHOOSE };
struct Dev { uint32_t idx, opt; };
static const int MAXDEV = 20;
struct Node { uint8_t n; Dev d[MAXDEV]; };
struct Alt { Node n; };
struct Race { uint32_t pc1, pc2; uint8_t k1, k2; uint8_t reported; uint64_t addr; };
struct Shm {
  // Result of one execution.
  volatile int status;            // 0 crashed, 1 finished, 2 pruned, 3 violation
  char key[64], msg[1500];
  uint32_t decisions, events, npreempt; uint64_t outcome; uint32_t dropped; uint32_t truncated;
  uint32_t nraces; Race races[512];
  uint32_t newshared; uint32_t nshared; uint64_t shared[4096];
  uint32_t ndev; Dev dev[MAXDEV]; // Trace of the execution (the deviations it was given).
  uint64_t visited_n, visited_full;
  uint32_t stackpc[64], nstackpc;
  Node cur; uint32_t sp; uint64_t execs, pruned, t_decisions, t_events, maxev; Node worst; uint32_t nout; uint64_t out[1 << 16]; int why;
};
static const uint32_t MAXSTACK = 3000000;
static const size_t VIS = size_t(1) << 24;
static Shm* S; static uint64_t* V; static Node* ALT;
static bool active = false, infork = false, isquiet = false, exploring = false;
static Thread T[NT]; static int nT = 0, cur = 0;
static Options O; static int left_pre, left_fault, left_stale;
static Node given; static uint32_t dpos = 0, ngiven = 0; static uint32_t lastdev = 0; static bool tracing = false;
static uint64_t live = 0; static uint64_t seqno = 0; static int consecutive = 0; static uint64_t steps = 0;
static char* bump[ARENA_N]; static Cell* shA; static Cell* shG; static Cell* shS; static uint64_t G0, G1;
static char* tls_addr; static size_t tls_size, tls_init_size; static const void* tls_init;

static void* base_sp; extern "C" void mc_switch(void** from, void* to);
[[noreturn]] static void finish(int status) { S->status = status; if (status == 3 || status == 4) _exit(0); active = false; void* d; mc_switch(&d, base_sp); abort(); }
static void setmsg(const char* key, const char* fmt, va_list ap) { snprintf(S->key, sizeof S->key, "%s", key); vsnprintf(S->msg, sizeof S->msg, fmt, ap); }
[[noreturn]] static void violation(const char* key, const char* fmt, ...) { va_list ap; va_start(ap, fmt); setmsg(key, fmt, ap); va_end(ap); Thread& t = T[cur]; S->nstackpc = std::min<uint32_t>(t.nstack, 64); for (uint32_t i = 0; i < S->nstackpc; i++) S->stackpc[i] = t.stack[i]; finish(3); }
static inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 32; a *= 0xc4ceb9fe1a85ec53ull; a ^= a >> 29; return a; }

// ---- Synchronization objects ----------------------------------------------------------------------------------------
struct Store { uint64_t v; int tid; Clk at; uint64_t hash; VC rel; bool hasrel, sc; };
struct Loc { uint64_t a; int owner; bool shared; uint8_t n; uint64_t readsum; Store s[6]; uint8_t seen[NT]; uint64_t base; };   // Atomic location: recent stores, newest last; base = number of dropped ones.
struct Obj { uint64_t a; int kind; int holder; int readers; VC vc; uint64_t hash; int owner; bool shared; };       // Mutex, rwlock, condition, futex.
template<class X> struct Tab { X** t; size_t cap, n; uint32_t* used; X* get(uint64_t a, bool& isnew); void clear() { for (size_t i = 0; i < n; i++) t[used[i]] = nullptr; n = 0; } };
static char* rtbump; static char* rtbase; static char* rtend;
static void* rtalloc(size_t n) { n = (n + 15) & ~size_t(15); if (rtbump + n > rtend) { fprintf(stderr, "mc: out of runtime memory\n"); _exit(3); } void* p = rtbump; rtbump += n; return p; }
template<class X> X* Tab<X>::get(uint64_t a, bool& isnew) {
  if (!t) { cap = 1 << 20; t = (X**)mmap(nullptr, cap * 12, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | MAP_PRIVATE, -1, 0); used = (uint32_t*)(t + cap); }
  size_t h = size_t(mix(a, 1)) & (cap - 1); while (t[h] && t[h]->a != a) h = (h + 1) & (cap - 1);
  isnew = !t[h]; if (isnew) { if (n > cap / 2) { fprintf(stderr, "mc: too many objects\n"); _exit(3); } used[n++] = uint32_t(h); t[h] = (X*)rtalloc(sizeof(X)); memset((void*)t[h], 0, sizeof(X)); t[h]->a = a; t[h]->owner = -1; }
  return t[h];
}
static Tab<Loc> locs; static Tab<Obj> objs;

static bool is_shared_addr(uint64_t a) { for (uint32_t h = uint32_t(mix(a, 7)) & 4095;; h = (h + 1) & 4095) { if (S->shared[h] == a) return true; if (!S->shared[h]) return false; } }
static void add_shared_addr(uint64_t a) { if (S->nshared > 3000) return; for (uint32_t h = uint32_t(mix(a, 7)) & 4095;; h = (h + 1) & 4095) { if (S->shared[h] == a) return; if (!S->shared[h]) { S->shared[h] = a; S->nshared++; S->newshared++; return; } } }
template<class X> static bool note_access(X* x) {
  if (x->owner == -1) x->owner = cur; else if (x->owner != cur && !x->shared) { x->shared = true; add_shared_addr(x->a); }
  return is_shared_addr(x->a);
}

// ---- Race detection -----------------------------------------------------------------------------------------------
static inline Cell* cell(uint64_t a) {
  if (a - ARENA < ARENA_PER * ARENA_N) return shA + (a - ARENA);
  if (a - STACKS < STACK_SZ * NT) return shS + (a - STACKS);
  if (a >= G0 && a < G1) return shG + (a - G0);
  return nullptr;
}
struct RShared { uint64_t a; int owner; VC vc; uint32_t pc[NT]; };
static Tab<RShared> rsh; static const Clk RSH = 126u << 25;
static void race(uint64_t a, uint32_t pc1, int k1, uint32_t pc2, int k2) {
  if (!O.report_races) return;
  for (uint32_t i = 0; i < S->nraces; i++) if (S->races[i].pc1 == pc1 && S->races[i].pc2 == pc2) return;
  if (S->nraces < 512) S->races[S->nraces++] = Race{pc1, pc2, uint8_t(k1), uint8_t(k2), 0, a};
}
static inline bool hb(Clk e, const VC& vc) { return !e || (e & 0xFFFFFF) <= vc.c[e >> 25]; }
static inline bool is_at(Clk e) { return e >> 24 & 1; }
// Blocks (256 bytes) whose shadow must be reset, and the old content of globals, to return to the initial state.
static const uint64_t TB_A = ARENA_PER * ARENA_N >> 8, TB_S = STACK_SZ * NT >> 8; static uint8_t* touched; static uint32_t* tlist; static uint32_t ntl; static uint64_t arena_base0;
struct Undo { uint64_t a, v; }; static Undo* undo; static uint32_t nundo; static uint8_t* undone;
static inline void touch(uint64_t a, size_t n) {
  uint64_t b = a - ARENA < ARENA_PER * ARENA_N ? (a - ARENA) >> 8 : a - STACKS < STACK_SZ * NT ? TB_A + ((a - STACKS) >> 8) : TB_A + TB_S + ((a - G0) >> 8);
  uint64_t e = b + (((a & 255) + n - 1) >> 8);
  for (; b <= e; b++) if (!touched[b]) { touched[b] = 1; tlist[ntl++] = uint32_t(b); }
}
static inline void log_undo(uint64_t a, size_t n) {
  if (a >= G0 && a < G1) { for (uint64_t q = a & ~7ull; q < a + n && q < G1; q += 8) { uint64_t i = (q - G0) >> 3; if (!undone[i]) { undone[i] = 1; undo[nundo++] = Undo{q, *(uint64_t*)q}; } } }
  else if (a - ARENA < arena_base0 - ARENA) for (uint64_t q = a & ~7ull; q < a + n; q += 8) { if (nundo >= (1 << 20)) _exit(3); undo[nundo++] = Undo{q, *(uint64_t*)q}; }
}
static void access(uint64_t a, size_t n, bool w, bool at, uint32_t pc) {
  if (!active) return;
  if (!n) return;
  Cell* c = cell(a); if (!c) return;
  if (w) log_undo(a, n);
  if (isquiet) return;
  touch(a, n);
  Thread& t = T[cur]; const VC& vc = t.vc; Clk me = ep(cur, vc.c[cur], at);
  for (size_t i = 0; i < n; i++, c++) {
    if ((w ? c->w : c->r) == me && c->w != FREED && (w ? c->r == me || !c->r : c->w == me || !c->w)) continue;
    if (c->w == FREED) violation("use-after-free", "thread %d accesses memory at %#llx that has been freed (by code at pc %#x), access at pc %#x", cur, (unsigned long long)(a + i), c->wpc, pc);
    if (nT > 1) {
      if (!hb(c->w, vc) && !(at && is_at(c->w))) race(a + i, pc, w + 2 * at, c->wpc, 1 + 2 * is_at(c->w));
      if (w && c->r) {
        if (c->r == RSH) { bool nw; RShared* r = rsh.get(a + i, nw); for (int k = 0; k < nT; k++) if (r->vc.c[k] && (r->vc.c[k] & 0xFFFFFF) > vc.c[k] && !(at && r->vc.c[k] >> 24 & 1)) race(a + i, pc, w + 2 * at, r->pc[k], 2 * (r->vc.c[k] >> 24 & 1)); }
        else if (!hb(c->r, vc) && !(at && is_at(c->r))) race(a + i, pc, w + 2 * at, c->rpc, 2 * is_at(c->r));
      }
    }
    if (w) { c->w = me; c->wpc = pc; c->r = 0; }
    else if (!c->r || int(c->r >> 25) == cur || (c->r != RSH && hb(c->r, vc))) { c->r = me; c->rpc = pc; }
    else {
      bool nw; RShared* r = rsh.get(a + i, nw);
      if (c->r != RSH) { memset(&r->vc, 0, sizeof r->vc); r->vc.c[c->r >> 25] = c->r & 0x1FFFFFF; r->pc[c->r >> 25] = c->rpc; c->r = RSH; }
      r->vc.c[cur] = me & 0x1FFFFFF; r->pc[cur] = pc;
    }
  }
}

// ---- Scheduler ----------------------------------------------------------------------------------------------------
asm(R"(
.text
.globl mc_switch
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static const char* ename(uint64_t w) { switch (w) { case 1: case 60: return "creates a thread"; case 2: return "joins"; case 3: return "sees everything settled"; case 11: return "ends"; case 21: return "loads"; case 22: return "stores"; case 23: return "compares (different)"; case 31: return "locks shared"; case 32: return "locks"; case 33: return "unlocks"; case 34: return "releases the mutex to wait"; case 35: return "waits"; case 36: return "locks again after waiting"; case 37: return "fails to lock"; case 38: return "signals"; case 39: return "broadcasts"; case 41: return "futex wait"; case 42: return "futex wake"; case 61: return "fails to create a thread"; case 62: return "gets no memory"; case 71: return "fence"; case 81: return "posts"; case 82: return "has awaited"; } return "?"; }
static std::string sym(uint32_t pc, bool line = true);
static uint64_t trace_val; static uint32_t trace_pc;
static void event(uint64_t what, uint64_t pred = 0) { Thread& t = T[cur];
  if (tracing) { printf("  [decision %u] thread %d %s", S->decisions, cur, ename(what)); if (what == 21 || what == 22 || what == 23) printf(" %#llx", (unsigned long long)trace_val); if (t.nstack && t.nstack <= 64) printf(" in function at pc %#x", t.stack[t.nstack - 1]); printf("\n"); fflush(stdout); }
 t.hash = mix(mix(mix(t.hash, what), pred), ++t.events); t.vc.c[cur]++; S->events++; if (t.vc.c[cur] >= 0xFFFFF0) violation("too-long", "the execution has too many steps"); }
static void joinvc(VC& a, const VC& b) { for (int i = 0; i < nT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
static bool runnable(int i) {
  Thread& t = T[i]; bool nw;
  switch (t.st) {
    case T_RUN: return true;
    case T_LOCK: { Obj* o = objs.get(t.obj, nw); return o->holder < 0 && o->readers == 0; }
    case T_RD: { Obj* o = objs.get(t.obj, nw); return o->holder < 0; }
    case T_JOIN: return T[t.joinee].st == T_DONE;
    case T_AWAIT: { Obj* o = objs.get(t.obj, nw); return o->readers >= t.joinee; }
    default: return false;
  }
}
static uint64_t state_hash() { uint64_t h = 0; for (int i = 0; i < nT; i++) { uint64_t x = mix(T[i].hash, i * 131 + T[i].st); if (T[i].yielded) x = mix(x, 77); h += x; } return h; }
// Takes a decision among n options; cost classes in `cost` (0 free, 1 preemption, 2 fault, 3 stale). Returns the option.
static int decide(int kind, int n, const uint8_t* cost, uint64_t salt) {
  uint32_t idx = S->decisions++;
  uint32_t opt = 0; bool mine = false;
  if (dpos < ngiven && given.d[dpos].idx == idx) { opt = given.d[dpos].opt; dpos++; mine = true; if (int(opt) >= n) { fprintf(stderr, "mc: replay diverged (decision %u has %d options)\n", idx, n); finish(4); } }
  if (!mine && dpos == ngiven && !tracing) {
    // Free part of the execution: prune on known states, then record the alternatives.
    uint64_t key = mix(mix(mix(state_hash(), uint64_t(cur) * 16 + kind), salt), uint64_t(left_pre) << 16 | left_fault << 8 | left_stale);
    if (!key) key = 1;
    if (S->visited_n < VIS * 3 / 4) {
      size_t h = size_t(key) & (VIS - 1);
      while (V[h] && V[h] != key) h = (h + 1) & (VIS - 1);
      if (V[h]) finish(2);
      V[h] = key; S->visited_n++;
    } else S->visited_full = 1;
    for (int i = 1; i < n; i++) {
      if ((cost[i] == 1 && left_pre <= 0) || (cost[i] == 2 && left_fault <= 0) || (cost[i] == 3 && left_stale <= 0)) continue;
      if (given.n >= MAXDEV) { S->truncated++; continue; }
      if (S->sp >= MAXSTACK) { S->dropped++; continue; }
      Node& a = ALT[S->sp++]; a = given; a.d[a.n].idx = idx; a.d[a.n].opt = i; a.n++;
    }
  }
  if (opt) { if (cost[opt] == 1) { left_pre--; S->npreempt++; } else if (cost[opt] == 2) left_fault--; else if (cost[opt] == 3) left_stale--; }
  return opt;
}
static void swap_tls(int from, int to) { if (!tls_size) return; memcpy(T[from].tls, tls_addr, tls_size); memcpy(tls_addr, T[to].tls, tls_size); }
static void switch_to(int t) { if (t == cur) return; int f = cur; T[f].err = errno; swap_tls(f, t); cur = t; consecutive = 0; mc_switch(&T[f].sp, T[t].sp); errno = T[cur].err; }
static void deadlock() {
  char b[1200]; int n = 0; static const char* N[] = {"-", "running", "waiting for a mutex", "waiting for a lock", "waiting on a condition", "waiting on a futex", "joining", "settling", "awaiting", "finished"};
  for (int i = 0; i < nT && n < 1000; i++) if (T[i].st != T_DONE) n += snprintf(b + n, sizeof b - n, " thread %d %s;", i, N[T[i].st]);
  violation("deadlock", "no thread can continue:%s", b);
}
extern "C" uint32_t mc_leaked(size_t& size);
[[noreturn]] static void execution_done() {
  if (O.threads_at_exit) for (int i = 1; i < nT; i++) if (T[i].st != T_DONE) violation("thread-left", "thread %d of %d is left blocked after everything was released", i, nT);
  if (O.memory_at_exit && live) { size_t size = 0; uint32_t pc = mc_leaked(size); violation("leak", "%llu blocks of memory are left allocated, one has %zu bytes and was written at pc 0x%x", (unsigned long long)live, size, pc); }
  finish(1);
}
// Chooses the next thread. `cur` may be running (preemption point) or not.
static void reschedule(bool voluntary) {
  if (++steps > 3000000) violation("livelock", "the execution does not end");
  int cand[NT * 2], n = 0; uint8_t cost[NT * 2]; bool me = T[cur].st == T_RUN && !T[cur].yielded;
  bool force = me && ++consecutive > O.fair;
  if (me && !force) { cand[n] = cur; cost[n++] = 0; }
  for (int pass = 0; pass < 2; pass++) {
    for (int k = 1; k <= nT; k++) { int i = (cur + k) % nT; if (i == cur && (me && !force)) continue; if (!runnable(i) || (T[i].yielded && pass == 0) || (!T[i].yielded && pass == 1)) continue; if (pass == 1 && n) break; cand[n] = i; cost[n++] = (me && !force && !voluntary) ? 1 : 0; }
    if (n) break;
  }
  if (!n) for (int i = 0; i < nT; i++) if (T[i].st == T_SETTLE) { cand[n] = i | 0x400; cost[n++] = 0; break; }
  bool any = n > 0; if (O.delay && n > 1) { n = 2; cost[1] = 1; }
  for (int i = 0; i < nT; i++) if (T[i].st == T_COND || T[i].st == T_FUTEX) {
    if (T[i].timed && (!any || O.timeouts)) { cand[n] = i | 0x100; cost[n++] = any ? 2 : 0; }
    else if (O.spurious && any) { cand[n] = i | 0x200; cost[n++] = 2; }
  }
  if (!n) {
    if (T[0].st == T_DONE) execution_done();
    deadlock();
  }
  int c = n == 1 || isquiet ? 0 : decide(K_SCHED, n, cost, 0);
  int t = cand[c] & 0xFF;
  if (cand[c] & 0x100) { T[t].timedout = true; T[t].st = T_RUN; }
  if (cand[c] & 0x400) T[t].st = T_RUN;
  if (cand[c] & 0x200) { T[t].spurious = true; T[t].st = T_RUN; }
  if (T[t].st == T_RUN || runnable(t)) { for (int i = 0; i < nT; i++) if (i != t) T[i].yielded = T[i].yielded && false; T[t].yielded = false; }
  switch_to(t);
}
static inline bool on() { return active && !isquiet; }
static void sched_point() { if (on() && nT > 1) reschedule(false); }
static void block(State st) { T[cur].st = st; reschedule(true); T[cur].st = T_RUN; }

static void thread_main() {
  Thread& t = T[cur];
  if (t.pfn) t.pfn(t.arg); else t.fn(t.arg);
  event(11); T[cur].st = T_DONE;
  reschedule(true);
  abort();
}
static int new_thread() {
  if (nT >= NT) { fprintf(stderr, "mc: too many threads\n"); finish(4); }
  int i = nT++; Thread& t = T[i]; memset((void*)&t, 0, sizeof t);
  char* top = (char*)STACKS + STACK_SZ * (i + 1) - 64; void** sp = (void**)top; *--sp = nullptr; *--sp = (void*)thread_main; sp -= 6; memset(sp, 0, 48); t.sp = sp;
  t.st = T_RUN; t.tls = (char*)rtalloc(tls_size ? tls_size : 1); memset(t.tls, 0, tls_size); memcpy(t.tls, tls_init, tls_init_size);
  t.hash = mix(i + 1, 99);
  if (i) { t.vc = T[cur].vc; t.hash = mix(T[cur].hash, i); }
  t.vc.c[i] = 1; return i;
}
int spawn(void (*fn)(void*), void* arg) { sched_point(); int i = new_thread(); event(1); T[i].fn = fn; T[i].arg = arg; return i; }
void join(int t) { sched_point(); if (T[t].st != T_DONE) { T[cur].joinee = t; block(T_JOIN); } joinvc(T[cur].vc, T[t].vc); event(2, T[t].hash); }
void check(bool ok, const char* key, const char* fmt, ...) { if (ok) return; va_list ap; va_start(ap, fmt); if (!infork) { fprintf(stderr, "outside an execution: %s: ", key); vfprintf(stderr, fmt, ap); fputc(10, stderr); fflush(stderr); _exit(3); } setmsg(key, fmt, ap); va_end(ap); finish(3); }
int choose(int n) { if (n <= 1) return 0; uint8_t cost[64] = {}; int c = decide(K_CHOOSE, n, cost, 5); T[cur].hash = mix(T[cur].hash, 1000 + c); return c; }
void yield() { if (!on()) return; T[cur].yielded = true; reschedule(true); }
int self() { return cur; }
void settle() { bool q = isquiet; block(T_SETTLE); event(3, state_hash()); for (int i = 0; i < nT; i++) if (i != cur) joinvc(T[cur].vc, T[i].vc); isquiet = q; }
int threads_alive() { int n = 0; for (int i = 0; i < nT; i++) n += i != cur && T[i].st != T_DONE; return n; }
int threads_created() { return nT - 1; }
size_t live_blocks() { return size_t(live); }
void observe(uint64_t v) { S->outcome = mix(S->outcome, v); }
void quiet(bool q) { isquiet = q; }

// ---- Explorer -----------------------------------------------------------------------------------------------------
static void init_runtime() {
  static bool done = false; if (done) return; done = true;
  auto map = [](void* at, size_t n, int fl) { void* p = mmap(at, n, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | fl, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; };
  S = (Shm*)map(nullptr, sizeof(Shm), MAP_SHARED); V = (uint64_t*)map(nullptr, VIS * 8, MAP_SHARED); ALT = (Node*)map(nullptr, sizeof(Node) * size_t(MAXSTACK), MAP_SHARED);
  map((void*)STACKS, STACK_SZ * NT, MAP_PRIVATE | MAP_FIXED);
  shA = (Cell*)map(nullptr, ARENA_PER * ARENA_N * sizeof(Cell), MAP_PRIVATE);
  shS = (Cell*)map(nullptr, STACK_SZ * NT * sizeof(Cell), MAP_PRIVATE);
  G0 = (uint64_t)&__executable_start; G1 = (uint64_t)&_end; shG = (Cell*)map(nullptr, (G1 - G0) * sizeof(Cell), MAP_PRIVATE);
  rtbump = rtbase = (char*)map(nullptr, 256 << 20, MAP_PRIVATE); rtend = rtbump + (256 << 20);
  touched = (uint8_t*)map(nullptr, TB_A + TB_S + ((G1 - G0) >> 8) + 16, MAP_PRIVATE); tlist = (uint32_t*)map(nullptr, 4 * (TB_A + TB_S + ((G1 - G0) >> 8) + 16), MAP_PRIVATE);
  undo = (Undo*)map(nullptr, sizeof(Undo) * ((1 << 20) + ((G1 - G0) >> 3) + 16), MAP_PRIVATE); undone = (uint8_t*)map(nullptr, ((G1 - G0) >> 3) + 16, MAP_PRIVATE);
  dl_iterate_phdr([](dl_phdr_info* i, size_t, void*) { if (i->dlpi_name && i->dlpi_name[0]) return 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS) { tls_size = i->dlpi_phdr[k].p_memsz; tls_init_size = i->dlpi_phdr[k].p_filesz; tls_init = (void*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); tls_addr = (char*)i->dlpi_tls_data; } return 1; }, nullptr);
}
static struct { void (*fn)(void*); void* arg; } body_;
static void on_signal(int sig) { snprintf(S->key, sizeof S->key, "crash"); snprintf(S->msg, sizeof S->msg, "thread %d dies of signal %d", cur, sig); Thread& t = T[cur]; S->nstackpc = std::min<uint32_t>(t.nstack, 64); for (uint32_t i = 0; i < S->nstackpc; i++) S->stackpc[i] = t.stack[i]; S->status = 3; _exit(0); }
static char sigstack[65536];
static char* bump0[ARENA_N]; static char* tls_copy;
static void child_init() {
  stack_t ss{}; ss.ss_sp = sigstack; ss.ss_size = sizeof sigstack; sigaltstack(&ss, nullptr);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  signal(SIGALRM, SIG_DFL); infork = true; memcpy(bump0, bump, sizeof bump); arena_base0 = (uint64_t)bump[0];
  tls_copy = (char*)malloc(tls_size + 1); memcpy(tls_copy, tls_addr, tls_size);
}
static void run_one(const Node& nd) {
  alarm(60);
  given = nd; S->cur = nd; ngiven = nd.n; dpos = 0; S->decisions = S->events = 0; S->status = 0; S->outcome = 0; S->key[0] = S->msg[0] = 0; S->npreempt = 0; S->nstackpc = 0;
  left_pre = O.preemptions; left_fault = O.faults; left_stale = O.stale; nT = 0; live = 0; seqno = 0; consecutive = 0; steps = 0; isquiet = false;
  new_thread(); T[0].fn = body_.fn; T[0].arg = body_.arg; cur = 0; active = true;
  mc_switch(&base_sp, T[0].sp);
  // Back in the initial state: undo writes to globals, forget the heap, the shadow and all objects.
  active = false;
  for (uint32_t i = nundo; i-- > 0;) { *(uint64_t*)undo[i].a = undo[i].v; if (undo[i].a >= G0 && undo[i].a < G1) undone[(undo[i].a - G0) >> 3] = 0; }
  nundo = 0;
  for (uint32_t i = 0; i < ntl; i++) { uint64_t b = tlist[i]; touched[b] = 0; Cell* c = b < TB_A ? shA + (b << 8) : b < TB_A + TB_S ? shS + ((b - TB_A) << 8) : shG + ((b - TB_A - TB_S) << 8); memset((void*)c, 0, 256 * sizeof(Cell)); }
  ntl = 0;
  for (int i = 0; i < nT; i++) { memset(bump0[i], 0, bump[i] - bump0[i]); bump[i] = bump0[i]; }
  memcpy(tls_addr, tls_copy, tls_size);
  locs.clear(); objs.clear(); rsh.clear(); memset(rtbase, 0, rtbump - rtbase); rtbump = rtbase; nT = 0;
}
// Runs executions until the work is done or something has to be reported.
[[noreturn]] static void child(double t_end, bool replay) {
  child_init();
  while (S->sp) {
    if (S->execs >= O.max_executions || ((S->execs & 63) == 0 && vh::now() > t_end)) { S->why = 2; _exit(0); }
    Node nd = ALT[--S->sp]; uint32_t races = S->nraces;
    S->execs++; run_one(nd); S->t_decisions += S->decisions; S->t_events += S->events;
    if (S->status == 2) S->pruned++;
    if (S->status == 1) { uint64_t k = S->outcome | 1; uint32_t h = uint32_t(k >> 20) & 0xFFFF; while (S->out[h] && S->out[h] != k) h = (h + 1) & 0xFFFF; if (!S->out[h] && S->nout < 60000) { S->out[h] = k; S->nout++; } if (S->events > S->maxev) { S->maxev = S->events; S->worst = nd; } }
    if (S->nraces != races) { S->why = 1; _exit(0); }
    if (S->newshared && !replay) { S->why = 3; _exit(0); }
    S->status = 0;
  }
  S->why = 4; _exit(0);
}
static std::string sym(uint32_t pc, bool line) {
  static std::map<uint64_t, std::string> cache; auto& s = cache[uint64_t(pc) * 2 + line]; if (!s.empty()) return s;
  char cmd[256], exe[200]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); exe[n > 0 ? n : 0] = 0;
  snprintf(cmd, sizeof cmd, "llvm-symbolizer-18 -e %s --output-style=GNU -f -C -i %#x 2>/dev/null || addr2line -f -C -i -e %s %#x", exe, pc - 1, exe, pc - 1);
  FILE* f = popen(cmd, "r"); char l1[1000], l2[1000]; std::string inner, outer;
  while (f && fgets(l1, sizeof l1, f) && fgets(l2, sizeof l2, f)) { l1[strcspn(l1, "\n")] = 0; l2[strcspn(l2, "\n")] = 0; std::string fn = l1; size_t p = fn.find('('); if (p != std::string::npos && p) fn = fn.substr(0, p); p = fn.rfind(' '); if (p != std::string::npos && p + 1 < fn.size()) fn = fn.substr(p + 1); const char* sl = strrchr(l2, '/'); if (inner.empty()) inner = fn + " (" + (sl ? sl + 1 : l2) + ")"; outer = fn; }
  if (f) pclose(f);
  return s = line ? inner + (inner.substr(0, outer.size()) == outer ? "" : " in " + outer) : outer;
}
static bool in_client(uint32_t pc) { std::string s = sym(pc, true); size_t p = s.find('('); if (p != std::string::npos) for (const char* f : {"(stl_", ".tcc:", "(alloc_traits.h", "(new_allocator.h", "(basic_string.h", "(move.h", "(char_traits.h"}) if (s.find(f) != std::string::npos) return true; return p != std::string::npos && s.size() > p + 3 && s[p + 1] == 'c' && isdigit(s[p + 2]) && isdigit(s[p + 3]); }
static std::string encode_devs(const Node& n) { std::string s; char b[32]; for (int i = 0; i < n.n; i++) { snprintf(b, sizeof b, "%s%u.%u", i ? "," : "", n.d[i].idx, n.d[i].opt); s += b; } return s; }
static std::string encode(const Node& n) { std::string s = encode_devs(n); s += '/'; for (uint64_t a : S->shared) if (a) { char b[32]; snprintf(b, sizeof b, "%llx.", (unsigned long long)a); s += b; } return s; }
void init() { init_runtime(); }
void explore(const char* name, void (*body)(void*), void* arg, const Options& o) {
  init_runtime(); bump[0] = (char*)std::max<uint64_t>((uint64_t)bump[0], ARENA + (16 << 20)); O = o; body_ = {body, arg}; exploring = true;
  struct Off { ~Off() { exploring = false; } } off_;
  Node root{}; bool replay = vh::g.replaying;
  if (replay) {
    std::string r = vh::g.replay, pre = std::string(name) + "/"; if (r.compare(0, pre.size(), pre)) return;
    const char* p = r.c_str() + pre.size(); while (*p && root.n < MAXDEV) { unsigned a, b; int k; if (sscanf(p, "%u.%u%n", &a, &b, &k) != 2) break; root.d[root.n++] = Dev{a, b}; p += k; if (*p == ',') p++; }
    memset(S, 0, sizeof(Shm)); if (*p == '/') p++; while (*p) { char* e; uint64_t a = strtoull(p, &e, 16); if (e == p) break; add_shared_addr(a); p = *e ? e + 1 : e; }
  } else memset(S, 0, sizeof(Shm));
  if (const char* e = getenv("MC_MAXS")) O.max_seconds = atof(e);
  double t0 = vh::now(); uint64_t rounds = 0; bool capped = false;
  auto* rep = new std::set<std::string>(); std::string nm = name; tracing = replay;
  for (bool again = true; again;) {
    again = false; rounds++; S->newshared = 0; madvise(V, VIS * 8, MADV_REMOVE); S->visited_n = 0; S->execs = S->pruned = S->nout = 0; memset(S->out, 0, sizeof S->out); ALT[0] = root; S->sp = 1; S->nraces = 0;
    for (bool more = true; more;) {
      more = false; vh::set_case_s(nm + "//"); fflush(stdout); S->why = 0; S->status = 0;
      pid_t p = fork(); if (p < 0) { perror("fork"); exit(3); }
      if (!p) child(t0 + O.max_seconds, replay);
      int st; waitpid(p, &st, 0);
      vh::set_case_s(nm + "/" + encode(S->cur));
      if (S->status == 4 || (S->status == 0 && !S->why && !WIFSIGNALED(st))) { vh::fail("machinery", "the explorer failed (status %d, exit %#x)", S->status, st); return; }
      if (S->status == 0 && !S->why) { snprintf(S->key, 64, "hang"); snprintf(S->msg, 1000, "the execution does not end (signal %d)", WTERMSIG(st)); S->status = 3; }
      for (uint32_t i = 0; i < S->nraces; i++) if (!S->races[i].reported) {
        Race& r = S->races[i]; r.reported = 1; if (in_client(r.pc1) && in_client(r.pc2)) continue;   // The model's own data.
        std::string a = sym(r.pc1, false), b = sym(r.pc2, false); if (b < a) std::swap(a, b);
        static const char* K[] = {"reads", "writes", "atomically reads", "atomically writes"};
        std::string key = "race:" + a + "|" + b; if (rep->insert(key).second) vh::fail(key.c_str(), "%s: %s %s and %s %s the same memory without synchronization", name, sym(r.pc1).c_str(), K[r.k1], sym(r.pc2).c_str(), K[r.k2]);
      }
      if (S->status == 3) {
        std::string where; for (uint32_t i = S->nstackpc; i-- > 0 && where.size() < 600;) where += " <- " + sym(S->stackpc[i], false);
        vh::fail(S->key, "%s: %s%s%s", name, S->msg, where.empty() ? "" : "; called from", where.c_str());
        if (rep->insert(S->key).second == false || rep->size() > 6) break;
      }
      if (S->why == 2) { capped = true; break; }
      if (S->newshared && !replay) { again = true; break; }
      more = S->why != 4 && S->sp > 0;
    }
    if (S->dropped || S->visited_full) capped = true;
  }
  if (S->truncated) vh::stat("deviation_bound_reached", S->truncated);
  vh::stat("executions", S->execs); vh::stat("pruned_executions", S->pruned); vh::stat("states", S->visited_n); vh::stat("transitions", S->t_events); vh::stat("decisions", S->t_decisions); vh::stat("outcomes", S->nout); vh::stat("clients", 1); vh::stat("shared_objects", S->nshared);
  if (capped) { vh::g.capped = true; vh::stat("capped_clients", 1); }
  if (getenv("MC_VERBOSE") || replay) fprintf(stderr, "  %s: %llu executions (%llu pruned), %llu states, %u outcomes, %llu rounds, %u shared objects, longest %llu events, %.1f s%s\n", name, (unsigned long long)S->execs, (unsigned long long)S->pruned, (unsigned long long)S->visited_n, S->nout, (unsigned long long)rounds, S->nshared, (unsigned long long)S->maxev, vh::now() - t0, capped ? " CAPPED" : "");
  vh::sample(nm + "/" + encode_devs(S->worst));
  delete rep;
}

// ---- Atomics ------------------------------------------------------------------------------------------------------
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static Loc* loc(uint64_t a, uint64_t curv, bool& shared) {
  bool nw; Loc* l = locs.get(a, nw);
  shared = note_access(l);
  if (nw || l->s[l->n - 1].v != curv) { l->n = 1; l->base = 0; memset(&l->s[0], 0, sizeof(Store)); l->s[0].v = curv; l->s[0].tid = 0; l->s[0].at = 0; l->readsum = 0; memset(l->seen, 0, sizeof l->seen); if (!nw) l->s[0].hash = mix(curv, 3); }
  return l;
}
template<class X> static X peek(const volatile X* p) { return *(const X*)p; }
template<class X> static X a_load(const volatile X* p, int mo, uint32_t pc) {
  if (!active) return peek(p);
  uint64_t a = (uint64_t)p;
  { bool nw; Loc* l = locs.get(a, nw); if (nw || !l->n) { l->n = 1; l->s[0].v = (uint64_t)peek(p); } if (note_access(l)) sched_point(); }
  access(a, sizeof(X), false, true, pc);
  bool sh; Loc* l = loc(a, (uint64_t)peek(p), sh); Thread& t = T[cur];
  int lo = l->seen[cur], last = l->n - 1; if (lo > last) lo = last;
  for (int i = last; i > lo; i--) if (l->s[i].at && l->s[i].at <= t.vc.c[l->s[i].tid]) { lo = i; break; }
  if (mo == __ATOMIC_SEQ_CST) for (int i = last; i > lo; i--) if (l->s[i].sc) { lo = i; break; }
  int pick = last;
  if (on() && nT > 1 && last > lo && left_stale > 0) { uint8_t cost[8]; cost[0] = 0; for (int i = 1; i <= last - lo; i++) cost[i] = 3; pick = last - decide(K_STALE, last - lo + 1, cost, 17); }
  l->seen[cur] = uint8_t(pick); Store& s = l->s[pick];
  if (s.hasrel && acq(mo)) joinvc(t.vc, s.rel);
  trace_val = s.v; event(21, s.hash); l->readsum += t.hash;
  return (X)s.v;
}
static void push_store(Loc* l, uint64_t v, int mo, bool rmw) {
  trace_val = v; Thread& t = T[cur]; Store old = l->s[l->n - 1]; event(22, mix(old.hash, l->readsum)); l->readsum = 0;
  if (l->n == 6) { memmove(&l->s[0], &l->s[1], sizeof(Store) * 5); l->n = 5; for (int i = 0; i < NT; i++) if (l->seen[i]) l->seen[i]--; }
  Store& s = l->s[l->n++]; s.v = v; s.tid = cur; s.at = t.vc.c[cur]; s.hash = mix(t.hash, v); s.sc = mo == __ATOMIC_SEQ_CST; s.hasrel = false;
  if (rel(mo)) { s.rel = t.vc; s.hasrel = true; }
  if (rmw && old.hasrel) { if (s.hasrel) joinvc(s.rel, old.rel); else { s.rel = old.rel; s.hasrel = true; } }
  l->seen[cur] = l->n - 1; t.vc.c[cur]++;
}
template<class X> static void a_store(volatile X* p, X v, int mo, uint32_t pc) {
  if (!active) { *p = v; return; }
  uint64_t a = (uint64_t)p;
  { bool nw; Loc* l = locs.get(a, nw); if (nw || !l->n) { l->n = 1; l->s[0].v = (uint64_t)peek(p); } if (note_access(l)) sched_point(); }
  access(a, sizeof(X), true, true, pc);
  bool sh; Loc* l = loc(a, (uint64_t)peek(p), sh); push_store(l, (uint64_t)v, mo, false); *p = v;
}
template<class X, class F> static X a_rmw(volatile X* p, int mo, F f, uint32_t pc) {
  if (!active) { X o = *p; *p = f(o); return o; }
  uint64_t a = (uint64_t)p;
  { bool nw; Loc* l = locs.get(a, nw); if (nw || !l->n) { l->n = 1; l->s[0].v = (uint64_t)peek(p); } if (note_access(l)) sched_point(); }
  access(a, sizeof(X), true, true, pc);
  bool sh; X o = peek(p); Loc* l = loc(a, (uint64_t)o, sh); Store& s = l->s[l->n - 1];
  if (s.hasrel && acq(mo)) joinvc(T[cur].vc, s.rel);
  X nv = f(o); push_store(l, (uint64_t)nv, mo, true); *p = nv; return o;
}
template<class X> static bool a_cas(volatile X* p, X* e, X d, int mo, int fmo, uint32_t pc) {
  if (!active) { X o = *p; if (o == *e) { *p = d; return true; } *e = o; return false; }
  uint64_t a = (uint64_t)p;
  { bool nw; Loc* l = locs.get(a, nw); if (nw || !l->n) { l->n = 1; l->s[0].v = (uint64_t)peek(p); } if (note_access(l)) sched_point(); }
  X o = peek(p); bool ok = o == *e;
  access(a, sizeof(X), ok, true, pc);
  bool sh; Loc* l = loc(a, (uint64_t)o, sh); Store& s = l->s[l->n - 1];
  if (s.hasrel && acq(ok ? mo : fmo)) joinvc(T[cur].vc, s.rel);
  if (ok) { push_store(l, (uint64_t)d, mo, true); *p = d; } else { l->seen[cur] = l->n - 1; trace_val = o; event(23, s.hash); l->readsum += T[cur].hash; *e = o; }
  return ok;
}

// ---- Locks, conditions, futexes -----------------------------------------------------------------------------------
static Obj* obj(const void* p) { bool nw; Obj* o = objs.get((uint64_t)p, nw); if (nw) o->holder = -1; return o; }
static void obj_event(Obj* o, int what, bool a, bool r) { if (a) joinvc(T[cur].vc, o->vc); event(what, o->hash); o->hash = mix(T[cur].hash, what); if (r) joinvc(o->vc, T[cur].vc); T[cur].vc.c[cur]++; }
static void lock(const void* m, bool rd) {
  Obj* o = obj(m); if (note_access(o)) sched_point();
  if (o->holder == cur) violation("self-deadlock", "thread %d locks a mutex it already holds", cur);
  while (o->holder >= 0 || (!rd && o->readers)) { T[cur].obj = (uint64_t)m; block(rd ? T_RD : T_LOCK); }
  if (rd) o->readers++; else o->holder = cur;
  obj_event(o, rd ? 31 : 32, true, false);
}
static void unlock(const void* m) {
  Obj* o = obj(m); if (note_access(o)) sched_point();
  if (o->holder == cur) o->holder = -1; else if (o->readers > 0 && o->holder < 0) o->readers--; else violation("bad-unlock", "thread %d unlocks a mutex it does not hold", cur);
  obj_event(o, 33, false, true);
}
static int wake(State st, uint64_t a, int n, int what) {
  Obj* o = obj((void*)a); int woken = 0;
  while (n-- > 0) {
    int w[NT], k = 0; for (int i = 0; i < nT; i++) if (T[i].st == st && T[i].obj == a) w[k++] = i;
    if (!k) break;
    std::sort(w, w + k, [](int x, int y) { return T[x].seq < T[y].seq; });
    int c = 0; if (k > 1 && n < 64 && on()) { uint8_t cost[NT] = {}; if (O.delay) { k = 2; cost[1] = 1; } c = decide(K_CHOOSE, k, cost, 9); }
    T[w[c]].st = T_RUN; woken++;
    T[cur].hash = mix(T[cur].hash, 40 + w[c]);
  }
  (void)o; (void)what; return woken;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  Obj* oc = obj(c); Obj* om = obj(m); if (note_access(oc) | note_access(om)) sched_point();
  if (om->holder != cur) violation("bad-wait", "thread %d waits on a condition without holding the mutex", cur);
  om->holder = -1; obj_event(om, 34, false, true); obj_event(oc, 35, false, false);
  Thread& t = T[cur]; t.timed = timed; t.timedout = t.spurious = false; t.obj = (uint64_t)c; t.seq = ++seqno;
  block(T_COND);
  bool to = t.timedout; T[cur].hash = mix(T[cur].hash, 50 + to * 2 + t.spurious);
  while (om->holder >= 0 || om->readers) { T[cur].obj = (uint64_t)m; block(T_LOCK); }
  om->holder = cur; obj_event(om, 36, true, false);
  return to ? ETIMEDOUT : 0;
}
void post(void* k) { Obj* o = obj(k); add_shared_addr((uint64_t)k); sched_point(); obj_event(o, 81, true, true); o->readers++; }
void await(void* k, int n) { Obj* o = obj(k); add_shared_addr((uint64_t)k); sched_point(); if (o->readers < n) { T[cur].obj = (uint64_t)k; T[cur].joinee = n; block(T_AWAIT); } obj_event(o, 82, true, false); }
} // mc
using namespace mc;

#define PC uint32_t((uint64_t)__builtin_return_address(0))
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (active) lock(m, false); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (!active) return 0; Obj* o = obj(m); if (note_access(o)) sched_point(); if (o->holder >= 0 || o->readers) { obj_event(o, 37, false, false); return EBUSY; } o->holder = cur; obj_event(o, 32, true, false); return 0; }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (active) unlock(m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept { if (active) { Obj* o = obj(m); if (o->holder >= 0) violation("destroy-locked", "a mutex is destroyed while it is held"); } return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (active) lock(m, true); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { if (active) lock(m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { if (active) unlock(m); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t*) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return active ? cond_wait(c, m, false) : 0; }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return active ? cond_wait(c, m, true) : ETIMEDOUT; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (active) { Obj* o = obj(c); if (note_access(o)) sched_point(); obj_event(o, 38, false, false); wake(T_COND, (uint64_t)c, 1, 38); } return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (active) { Obj* o = obj(c); if (note_access(o)) sched_point(); obj_event(o, 39, false, false); wake(T_COND, (uint64_t)c, 1000, 39); } return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept { if (active) for (int i = 0; i < nT; i++) if (T[i].st == T_COND && T[i].obj == (uint64_t)c) violation("destroy-waited", "a condition variable is destroyed while thread %d waits on it", i); return 0; }
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept {
  if (!active) return EAGAIN;
  sched_point();
  if (O.create_fails && on()) { uint8_t cost[2] = {0, 2}; if (left_fault > 0 && decide(K_FAULT, 2, cost, 3)) { event(61); return EAGAIN; } }
  event(60); int i = new_thread(); T[i].pfn = fn; T[i].arg = arg; T[cur].vc.c[cur]++;
  *th = pthread_t(i); access((uint64_t)th, sizeof *th, true, false, PC); return 0;
}
long syscall(long nr, ...) noexcept {
  va_list ap; va_start(ap, nr); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
  if (nr != SYS_futex || !active) { long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5]; asm volatile("syscall" : "=a"(r) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory"); if (r < 0) { errno = -r; return -1; } return r; }
  uint32_t* p = (uint32_t*)a[0]; int op = int(a[1]) & 127; Obj* o = obj(p); add_shared_addr((uint64_t)p); sched_point();
  if (op == FUTEX_WAIT) {
    if (cell((uint64_t)p) && cell((uint64_t)p)->w == FREED) violation("use-after-free", "thread %d waits on a futex in freed memory", cur);
    uint32_t v = *p; bool sh; Loc* l = loc((uint64_t)p, v, sh); l->readsum += T[cur].hash;
    obj_event(o, 41, false, false); T[cur].hash = mix(T[cur].hash, l->s[l->n - 1].hash);
    if (v != uint32_t(a[2])) { errno = EAGAIN; return -1; }
    Thread& t = T[cur]; t.timed = a[3] != 0; t.timedout = t.spurious = false; t.obj = (uint64_t)p; t.seq = ++seqno; block(T_FUTEX);
    T[cur].hash = mix(T[cur].hash, 50 + t.timedout * 2 + t.spurious);
    if (t.timedout) { errno = ETIMEDOUT; return -1; }
    if (t.spurious) { errno = EINTR; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE) { obj_event(o, 42, false, false); return wake(T_FUTEX, (uint64_t)p, int(a[2]), 42); }
  errno = ENOSYS; return -1;
}
int sched_yield() noexcept { mc::yield(); return 0; }

// ---- Allocator: memory is never reused, so every access after free is seen ------------------------------------------
struct Hdr { uint64_t size; uint32_t magic; uint32_t inrun; };
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_memalign(size_t, size_t); void* __libc_realloc(void*, size_t); }
static bool own_heap(void* p) { return uint64_t(p) - ARENA < ARENA_PER * ARENA_N; }
uint32_t mc_leaked(size_t& size) {   // Finds a block that is left: where it was last written.
  for (uint64_t a = 0; a < ARENA_N; a++) for (char* p = (char*)(ARENA + ARENA_PER * a + 64); p + sizeof(Hdr) < bump[a]; p += 16) { Hdr* h = (Hdr*)p; if (h->magic == 0xA110C8ED && h->inrun == 1) { size = h->size; if (!shA) return 0; Cell* c = cell((uint64_t)(h + 1)); for (size_t i = 0; i < h->size; i++) if (c[i].w) return c[i].wpc; return 0; } }
  return 0;
}
static void* do_alloc(size_t n, size_t al, bool zero = false) {
  if (!active && exploring) { void* p = al > 16 ? __libc_memalign(al, n) : __libc_malloc(n); if (p && zero) memset(p, 0, n); return p; }   // The explorer's own memory.
  if (!bump[0]) { void* p = mmap((void*)ARENA, ARENA_PER * ARENA_N, PROT_READ | PROT_WRITE, MAP_ANONYMOUS | MAP_NORESERVE | MAP_PRIVATE | MAP_FIXED, -1, 0); if (p == MAP_FAILED) _exit(3); for (uint64_t i = 0; i < ARENA_N; i++) bump[i] = (char*)(ARENA + ARENA_PER * i + 64); }
  if (active && O.malloc_fails && on()) { uint8_t cost[2] = {0, 2}; if (left_fault > 0 && decide(K_FAULT, 2, cost, 4)) { event(62); errno = ENOMEM; return nullptr; } }
  int c = active ? cur : 0; uint64_t p = ((uint64_t)bump[c] + sizeof(Hdr) + al - 1) & ~(uint64_t(al) - 1);
  if (n > ARENA_PER || p + n + 16 > ARENA + ARENA_PER * (c + 1)) { errno = ENOMEM; return nullptr; }
  Hdr* h = (Hdr*)(p - sizeof(Hdr)); h->size = n; h->magic = 0xA110C8ED; h->inrun = active && infork; bump[c] = (char*)((p + n + 31) & ~15ull); if (h->inrun) live++;
  return (void*)p;
}
void* malloc(size_t n) { return do_alloc(n, 16); }
void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; return do_alloc(n, 16, true); }   // Arena memory is never reused and zero.
void* aligned_alloc(size_t al, size_t n) { return do_alloc(n, al < 16 ? 16 : al); }
void* memalign(size_t al, size_t n) { return do_alloc(n, al < 16 ? 16 : al); }
int posix_memalign(void** p, size_t al, size_t n) { *p = do_alloc(n, al < 16 ? 16 : al); return *p ? 0 : ENOMEM; }
void free(void* p) {
  if (!p) return;
  Hdr* h = (Hdr*)p - 1; if (!own_heap(p)) { if (!active) __libc_free(p); return; }
  if (h->magic == 0xDEADF4EE) { if (active) violation("double-free", "thread %d frees memory twice", cur); return; }
  if (h->magic != 0xA110C8ED) { if (active) violation("bad-free", "thread %d frees an address that was not allocated", cur); return; }
  if (h->inrun && live) live--;
  if (active && shA) {
    uint32_t pc = PC;
    if (!isquiet) access((uint64_t)p, h->size, true, false, pc);
    if (h->size) touch((uint64_t)p, h->size);
    Cell* c = cell((uint64_t)p); for (size_t i = 0; i < h->size; i++) { c[i].w = FREED; c[i].wpc = pc; }
  }
  if (active) log_undo((uint64_t)&h->magic, 8);
  h->magic = 0xDEADF4EE;
}
void* realloc(void* p, size_t n) { if (!p) return malloc(n); if (!own_heap(p)) return __libc_realloc(p, n); void* q = malloc(n); if (!q) return q; size_t o = ((Hdr*)p - 1)->size; memcpy(q, p, o < n ? o : n); if (active) { access((uint64_t)p, o, false, false, PC); } free(p); return q; }
size_t malloc_usable_size(void* p) { return p ? ((Hdr*)p - 1)->size : 0; }

// ---- Compiler callbacks -------------------------------------------------------------------------------------------
void __tsan_init() {}
void __tsan_func_entry(void* pc) { if (active) { Thread& t = T[cur]; if (t.nstack < 64) t.stack[t.nstack] = uint32_t((uint64_t)pc); t.nstack++; } }
void __tsan_func_exit() { if (active && T[cur].nstack) T[cur].nstack--; }
#define RW(n) void __tsan_read##n(void* a) { access((uint64_t)a, n, false, false, PC); } void __tsan_write##n(void* a) { access((uint64_t)a, n, true, false, PC); } \
  void __tsan_unaligned_read##n(void* a) { access((uint64_t)a, n, false, false, PC); } void __tsan_unaligned_write##n(void* a) { access((uint64_t)a, n, true, false, PC); } \
  void __tsan_read_write##n(void* a) { access((uint64_t)a, n, true, false, PC); } void __tsan_unaligned_read_write##n(void* a) { access((uint64_t)a, n, true, false, PC); } \
  void __tsan_volatile_read##n(void* a) { access((uint64_t)a, n, false, false, PC); } void __tsan_volatile_write##n(void* a) { access((uint64_t)a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access((uint64_t)p, 8, true, false, PC); }
void __tsan_vptr_read(void** p) { access((uint64_t)p, 8, false, false, PC); }
void __tsan_acquire(void* a) { if (active) { Obj* o = obj((char*)a + 1); joinvc(T[cur].vc, o->vc); } }
void __tsan_release(void* a) { if (active) { Obj* o = obj((char*)a + 1); joinvc(o->vc, T[cur].vc); T[cur].vc.c[cur]++; } }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uint64_t)s, n, false, false, PC); access((uint64_t)d, n, true, false, PC); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uint64_t)s, n, false, false, PC); access((uint64_t)d, n, true, false, PC); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uint64_t)d, n, true, false, PC); return memset(d, c, n); }
#define AT(b, X) \
  X __tsan_atomic##b##_load(const volatile X* p, int mo) { return a_load<X>(p, mo, PC); } \
  void __tsan_atomic##b##_store(volatile X* p, X v, int mo) { a_store<X>(p, v, mo, PC); } \
  X __tsan_atomic##b##_exchange(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X) { return v; }, PC); } \
  X __tsan_atomic##b##_fetch_add(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(o + v); }, PC); } \
  X __tsan_atomic##b##_fetch_sub(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(o - v); }, PC); } \
  X __tsan_atomic##b##_fetch_and(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(o & v); }, PC); } \
  X __tsan_atomic##b##_fetch_or(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(o | v); }, PC); } \
  X __tsan_atomic##b##_fetch_xor(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(o ^ v); }, PC); } \
  X __tsan_atomic##b##_fetch_nand(volatile X* p, X v, int mo) { return a_rmw<X>(p, mo, [&](X o) { return X(~(o & v)); }, PC); } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile X* p, X* e, X d, int mo, int f) { return a_cas<X>(p, e, d, mo, f, PC); } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile X* p, X* e, X d, int mo, int f) { return a_cas<X>(p, e, d, mo, f, PC); } \
  X __tsan_atomic##b##_compare_exchange_val(volatile X* p, X e, X d, int mo, int f) { a_cas<X>(p, &e, d, mo, f, PC); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (!active) return; sched_point(); Obj* o = obj((void*)8); obj_event(o, 71, true, true); }
void __tsan_atomic_signal_fence(int) {}
}
