// Simulator core. Compiled without instrumentation.
#include <cstdarg>
#include "sim.h"
#include <algorithm>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <errno.h>
#include <map>
#include <set>
#include <poll.h>
#include <link.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

// ------------------------------------------------------------------ globals
static const int MAXF = 24;
static const size_t STACK = 192 * 1024;
static char *STACKS = (char *)0x200000000000ull;
static char *ARENA = (char *)0x210000000000ull;
static const size_t ARENA_SZ = 8u << 20;
static Fiber fibers[MAXF];
static int nf;
Fiber *cur;
static void *main_sp;
static i64 now_ns, rt_off;
static u64 npoints_g, seq_g, hash_g;
static size_t arena_used, arena_hi;
SchedCfg sc;
ClockCfg clk;
PStat ps;
PFault pf;
u64 preemptions;
int dead_fiber;
static int death_target; static u64 death_at;
static int pause_target, pause_fiber; static u64 pause_at; // a thread held up at a point until thaw()
void (*on_stuck)(const char *);
void (*on_thread_exit)(Fiber *);
std::vector<ClockRead> clock_reads;
struct Off { i64 mono; i64 off; };
static std::vector<Off> offs;
struct Region { const char *p; size_t n; char name[24]; };
static std::vector<Region> regions;
static const char *g_prop = "";

const char *fault_names[FK_N] = {"thread_stall", "thread_frozen_forever", "clock_step_forward", "clock_step_backward", "coarse_clock", "spurious_wakeup", "interrupted_sleep", "late_timeout", "thread_create_failure", "thread_attr_failure", "mutex_init_failure", "cond_init_failure", "memory_poison_or_reuse", "preemption_inside_operation", "destroyed_object", "slow_thread_start", "random_initial_skew", "burst_or_lap", "failing_timed_wait", "failing_join"};
static u64 fault_count[FK_N], fault_total[FK_N];

// ------------------------------------------------------------------ PRNG and streams
static inline u64 rng_next(u64 &s) { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
struct Stream { std::vector<u32> log; size_t pos; u64 rng; };
static Stream W, Fs;
static u64 srng;
struct Seg { int f; u32 n; };
static std::vector<Seg> segs;
static size_t segpos;
static bool replaying, fair;
static bool tracef;
static u32 slice_left, slice_cnt;
bool tracing() { return tracef; }

u32 choose(u32 n) {
  if (n <= 1) return 0;
  u32 v;
  if (replaying) v = W.pos < W.log.size() ? W.log[W.pos] % n : 0;
  else { v = rng_next(W.rng) % n; W.log.push_back(v); }
  W.pos++;
  return v;
}
static u32 fs_raw(u32 v, u32 n) {
  if (replaying) v = Fs.pos < Fs.log.size() ? Fs.log[Fs.pos] % n : 0;
  else Fs.log.push_back(v);
  Fs.pos++;
  return v;
}
u32 fault_choose(int kind, u32 num, u32 den, u32 n) {
  if (num == 0 || fair) return 0;
  u32 v = 0;
  if (!replaying) { u64 r = rng_next(Fs.rng); if ((r >> 32) % den < num) v = 1 + (u32)(r & 0xffffffffu) % n; }
  v = fs_raw(v, n + 1);
  if (v) fault_count[kind]++;
  return v;
}
u32 cfg_choose(u32 n) { if (n <= 1) return 0; u32 v = 0; if (!replaying) v = rng_next(Fs.rng) % n; return fs_raw(v, n); }
void count_fault(int k, u64 n) { fault_count[k] += n; }

// ------------------------------------------------------------------ result of a run
enum Outcome { O_RUNNING, O_OK, O_VIOL, O_KNOWN, O_OTHER };
static int outcome;
static char out_kind[96], out_msg[1200];
static bool nontriv_f;
static std::string desc;
static std::vector<std::string> notes;
static std::map<std::string, u64> stats_total, stats_run;
static std::unordered_set<u64> run_states;

void mix(u64 v) { hash_g = (hash_g ^ v) * 0x100000001B3ull; hash_g ^= hash_g >> 29; }
u64 tick() { return ++seq_g; }
u64 seq_now() { return seq_g; }
u64 points() { return npoints_g; }
void nontrivial() { nontriv_f = true; }
void stat(const char *n, u64 k) { stats_run[n] += k; }
void state_mark(u64 v) { u64 x = v; run_states.insert(rng_next(x)); }
const char *prop_id() { return g_prop; }
void describe(const char *fmt, ...) { char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); desc += b; }
void note(const char *fmt, ...) {
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (tracef) { char c[700]; snprintf(c, sizeof c, "[%llu @%lldns] %s: %s", (unsigned long long)npoints_g, (long long)now_ns, cur ? cur->name : "-", b); notes.push_back(c); }
}
extern "C" void sim_switch(void **save, void *to);
asm(R"(
.text
.globl sim_switch
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void close_seg(bool preempted = false);
[[noreturn]] static void leave() { // abandon the run
  if (cur) { Fiber *f = cur; close_seg(); cur = nullptr; sim_switch(&f->sp, main_sp); }
  abort();
}
static const char *widened; // what goes wrong in this run refutes this property too
void widen(const char *prop) { widened = prop; }
static bool prop_in(const char *props) {
  if (widened && !strcmp(widened, g_prop)) return true;
  if (!strcmp(props, "*") || os.all_as) return true;
  const char *p = strstr(props, g_prop);
  return p != nullptr;
}
static void set_outcome(int o, const char *kind, const char *msg) {
  if (outcome != O_RUNNING) return;
  outcome = o;
  snprintf(out_kind, sizeof out_kind, "%s", kind);
  snprintf(out_msg, sizeof out_msg, "%s", msg);
}
static std::string g_known; // fingerprints of the known findings listed for this property
static bool listed(const char *fp) { return ("," + g_known + ",").find(std::string(",") + fp + ",") != std::string::npos; }
Os os = {16384, 0, 0, nullptr, false};
static bool aba_view; // an operation of this run saw a pointer-wide page come back to a value it had before
static bool in_sched; // violation raised from scheduler context (main stack)
void violate(const char *props, const char *kind, const char *fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  note("VIOLATION %s: %s", kind, b);
  if (aba_view && listed("page-aba")) set_outcome(O_KNOWN, "page-aba", b);
  set_outcome(prop_in(props) ? O_VIOL : O_OTHER, kind, b);
  leave();
}
void report(const char *props, const char *kind, const char *fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  note("VIOLATION %s: %s", kind, b);
  if (aba_view && listed("page-aba")) set_outcome(O_KNOWN, "page-aba", b);
  set_outcome(prop_in(props) ? O_VIOL : O_OTHER, kind, b);
}
void report_known(const char *fp, const char *fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  note("KNOWN %s: %s", fp, b);
  set_outcome(listed(fp) ? O_KNOWN : O_VIOL, fp, b);
}
void known(const char *fp, const char *fmt, ...) {
  char b[1200]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  note("KNOWN %s: %s", fp, b);
  set_outcome(listed(fp) ? O_KNOWN : O_VIOL, fp, b);
  leave();
}

// ------------------------------------------------------------------ memory
void *alloc(size_t n, size_t align, unsigned char fill) {
  arena_used = (arena_used + align - 1) / align * align;
  void *p = ARENA + arena_used;
  arena_used += n + 64;
  if (arena_used > ARENA_SZ) { fprintf(stderr, "sim: arena exhausted\n"); _exit(2); }
  if (arena_used > arena_hi) arena_hi = arena_used;
  memset(p, fill, n + 48);
  return p;
}
void region(const void *p, size_t n, const char *name) { Region r; r.p = (const char *)p; r.n = n; snprintf(r.name, sizeof r.name, "%s", name); regions.push_back(r); }

// ------------------------------------------------------------------ time
i64 mono() { return now_ns; }
i64 rt() { return now_ns + rt_off; }
void start_clock(i64 t) { if (os.short_time) { i64 lo = t & 0xffffffff; if (lo < 500000000 || lo > 3700000000ll) lo = 500000000 + lo % 3200000000ll; t = (t >> 32 << 32) + lo; } rt_off = t - now_ns; offs.clear(); offs.push_back({0, rt_off}); count_fault(FK_SKEW); note("the clock starts at %lld", (long long)t); }
static void wake_due();
void jump_clock(i64 d) { rt_off += d; offs.push_back({now_ns, rt_off}); fault_count[d >= 0 ? FK_CLOCK_FWD : FK_CLOCK_BACK]++; mix(0x77 ^ (u64)d); note("clock stepped by %lld ns", (long long)d); if (d > 0) wake_due(); } // setting a clock expires its timers at once
i64 rt_sup(i64 a, i64 b, bool closed) {
  // rt(m) = m + off(m), off piecewise constant; sup is approached at the end of each piece
  i64 best = INT64_MIN;
  for (size_t i = 0; i < offs.size(); i++) {
    i64 s = offs[i].mono, e = i + 1 < offs.size() ? offs[i + 1].mono : INT64_MAX;
    i64 lo = std::max(a, s), hi = std::min(b, e);
    if (lo > hi) continue;
    if (!closed && lo >= b) continue;
    if (hi + offs[i].off > best) best = hi + offs[i].off;
  }
  return best;
}
i64 rt_inf(i64 a, i64 b) {
  i64 best = INT64_MAX;
  for (size_t i = 0; i < offs.size(); i++) {
    i64 s = offs[i].mono, e = i + 1 < offs.size() ? offs[i + 1].mono : INT64_MAX; i64 lo = std::max(a, s), hi = std::min(b, e);
    if (lo <= hi && lo + offs[i].off < best) best = lo + offs[i].off;
  }
  return best;
}
static void advance(i64 d) {
  if (d <= 0) return;
  now_ns += d;
  for (int i = 0; i < nf; i++) { Fiber &f = fibers[i]; if ((f.state == F_RUN && &f != cur) || i == pause_fiber) f.stall += d; }
}
static i64 deadline_mono(const Fiber &f) { i64 d = f.rtclock ? f.due - rt_off : f.due; return d + f.late; }

// ------------------------------------------------------------------ fibers
Fiber *fiber(int id) { return &fibers[id]; }
int nfibers() { return nf; }
bool fiber_done(int id) { return fibers[id].state == F_DONE; }
static void switch_to_sched() {
  Fiber *f = cur;
  cur = nullptr;
  int e = errno; // each thread has its own
  sim_switch(&f->sp, main_sp);
  errno = e;
}
struct Mtx { int owner; bool rec; int depth; };
struct RwS { int w, r; };
static std::map<const void *, RwS> rws;
static std::map<const void *, int> condattrs, condclk, onces; // clock of the attribute, of the condition variable; progress of a once
static std::set<volatile unsigned char *> guards_busy;
static std::map<const void *, ThreadAttr> attrs; static ThreadAttr thattr[64]; static u64 waiterr[64];
static std::set<std::pair<int, const void *>> refused; // resources refused and not obtained afterwards
static std::map<const void *, Mtx> mtxs;
struct SemS { int v; };
static std::map<const void *, SemS> sems;

static void make_runnable(Fiber &f, int why) {
  f.state = F_RUN; f.wake_reason = why; f.obj = nullptr;
  f.runnable_since = now_ns;
  if (f.timed && why == 1) { i64 d = f.rtclock ? f.due - rt_off : f.due; if (now_ns > d) f.stall += 0; }
  f.timed = false;
}
static void finish_fiber() {
  Fiber *f = cur;
  f->state = F_DONE;
  f->lib = 0;
  for (auto &m : mtxs) if (m.second.owner == f->id) { ps.mutex_held_at_exit++; note("thread exits holding a mutex"); }
  if (on_thread_exit) on_thread_exit(f);
  close_seg();
  for (int i = 0; i < nf; i++) if (fibers[i].state == F_JOIN && fibers[i].joinid == f->id) make_runnable(fibers[i], 0);
  switch_to_sched();
  abort();
}
static void tramp() { cur->ret = cur->fn(cur->arg); finish_fiber(); }
static void tls_new(int id);
static int new_fiber(void *(*fn)(void *), void *arg, const char *name) {
  if (nf >= MAXF) { fprintf(stderr, "sim: too many threads\n"); _exit(2); }
  int id = nf++;
  Fiber &f = fibers[id];
  tls_new(id);
  memset(&f, 0, sizeof f);
  f.id = id; f.state = F_RUN; f.stack = STACKS + (size_t)id * STACK; f.fn = fn; f.arg = arg;
  f.runnable_since = now_ns;
  f.prio = (int)(rng_next(srng) >> 40) & 0xffff;
  snprintf(f.name, sizeof f.name, "%s%d", name, id);
  void **sp = (void **)(f.stack + STACK - 64);
  *--sp = nullptr;
  *--sp = (void *)tramp;
  for (int i = 0; i < 6; i++) *--sp = nullptr;
  f.sp = sp;
  return id;
}
int spawn(void *(*fn)(void *), void *arg, const char *name) { int id = new_fiber(fn, arg, name); mix(0xF1 + id); return id; }

// ------------------------------------------------------------------ scheduler
static int strategy; static u32 mean_slice; static u64 pct_next; static u32 freeze_den;
static u32 draw_slice() {
  u64 r = rng_next(srng);
  if (mean_slice >= 100000) return 1000000000;
  return 1 + (u32)(r % (2 * mean_slice - 1 ? 2 * mean_slice - 1 : 1));
}
// A segment that ended by blocking is recorded one longer, so that replay does not preempt at its last point.
static void close_seg(bool preempted) { if (!replaying && !fair && cur) segs.push_back({cur->id, slice_cnt + (preempted ? 0u : 1u)}); }
static void block() { // current fiber's state already set
  cur->blocks++;
  close_seg();
  switch_to_sched();
}
static inline bool on_own_stack(const void *a) { return (const char *)a >= cur->stack && (const char *)a < cur->stack + STACK; }
static void trace_point(const void *a, unsigned n, const char *kind) {
  char b[200];
  for (auto &r : regions) if ((const char *)a >= r.p && (const char *)a < r.p + r.n) { snprintf(b, sizeof b, "    %-6s %s %s+0x%lx (%u)", cur->name, kind, r.name, (long)((const char *)a - r.p), n); notes.push_back(b); return; }
  snprintf(b, sizeof b, "    %-6s %s %p (%u)", cur->name, kind, a, n);
  notes.push_back(b);
}
static void preempt() {
  close_seg(true);
  preemptions++;
  fault_count[FK_PREEMPT]++;
  switch_to_sched();
}
static inline void point(const void *a, unsigned n, int kind, const char *ks) {
  npoints_g++;
  cur->npoints++; cur->oppoints++;
  slice_cnt++;
  u64 av = (u64)(uintptr_t)a; if (av < (u64)STACKS || av >= (u64)ARENA + ARENA_SZ) av = 0; // other addresses vary between processes
  hash_g = (hash_g ^ (av + ((u64)cur->id << 56) + ((u64)kind << 48))) * 0x100000001B3ull;
  hash_g ^= hash_g >> 31;
  if (__builtin_expect(tracef, 0)) trace_point(a, n, ks);
  if (clk.point_cost) advance(clk.point_cost);
  if (cur->id == death_target && cur->npoints >= death_at && !fair) {
    cur->state = F_DEAD; dead_fiber = cur->id; death_target = -1;
    fault_count[FK_FREEZE]++;
    note("thread frozen for ever here");
    block();
  }
  if (cur->id == pause_target && cur->npoints >= pause_at) {
    pause_fiber = pause_target; pause_target = -1; cur->state = F_SEM; cur->timed = false; cur->obj = &pause_fiber;
    fault_count[FK_STALL]++;
    note("thread held up here");
    block();
    return;
  }
  if (slice_left == 0 || --slice_left == 0) preempt();
}
static inline void acc(const void *a, unsigned n, int kind, const char *ks) {
  if (!cur || cur->lib <= 0) return;
  if (on_own_stack(a)) return;
  point(a, n, kind, ks);
}
void arm_death(int f, u64 at, bool) { death_target = f; death_at = at; }
void arm_pause(int f, u64 at) { pause_target = f; pause_at = at; }
bool paused() { return pause_fiber >= 0; }
bool paused(int f) { return pause_fiber >= 0 && pause_fiber == f; }
void thaw() { pause_target = -1; if (pause_fiber < 0) return; Fiber &f = fibers[pause_fiber]; pause_fiber = -1; if (f.state == F_SEM) { make_runnable(f, 0); note("%s goes on", f.name); } }
void yield_now() { close_seg(); switch_to_sched(); }

// thread-local variables of the program: every simulated thread has its own values
static char *tls_at; static const char *tls_image; static size_t tls_init, tls_size; static char *tls_save;
static int find_tls(struct dl_phdr_info *in, size_t, void *) {
  for (int i = 0; i < in->dlpi_phnum; i++) if (in->dlpi_phdr[i].p_type == PT_TLS && in->dlpi_tls_data) {
    tls_at = (char *)in->dlpi_tls_data; tls_image = (const char *)(in->dlpi_addr + in->dlpi_phdr[i].p_vaddr); tls_init = in->dlpi_phdr[i].p_filesz; tls_size = in->dlpi_phdr[i].p_memsz;
    tls_save = (char *)malloc(tls_size * MAXF);
  }
  return 1; // only the program itself
}
static void tls_new(int id) { if (tls_size) { memset(tls_save + id * tls_size, 0, tls_size); memcpy(tls_save + id * tls_size, tls_image, tls_init); } }
static void run_fiber(int id) {
  cur = &fibers[id];
  Fiber *f = cur;
  slice_cnt = 0;
  if (tls_size) memcpy(tls_at, tls_save + id * tls_size, tls_size);
  sim_switch(&main_sp, f->sp);
  if (tls_size) memcpy(tls_save + id * tls_size, tls_at, tls_size);
  cur = nullptr;
}
static i64 next_deadline() {
  i64 best = INT64_MAX;
  for (int i = 0; i < nf; i++) { Fiber &f = fibers[i]; if (f.timed && f.state != F_RUN && f.state != F_DONE) best = std::min(best, deadline_mono(f)); }
  return best;
}
static void wake_due() {
  for (int i = 0; i < nf; i++) { Fiber &f = fibers[i];
    if (f.timed && f.state != F_RUN && f.state != F_DONE && f.state != F_DEAD && deadline_mono(f) <= now_ns) { f.stall += f.late; make_runnable(f, f.wake_reason == 3 ? 3 : 1); } }
}

// Advance the clock to the next deadline. Returns false if there is none.
static bool do_advance() { i64 d = next_deadline(); if (d == INT64_MAX) return false; advance(d - now_ns); wake_due(); return true; }

static void sched_loop() {
  int last = 0; u64 fair_start = 0, rr = 0;
  while (outcome == O_RUNNING) {
    wake_due();
    if (fibers[0].state == F_DONE) { outcome = O_OK; break; }
    int nrun = 0, run[MAXF];
    for (int i = 0; i < nf; i++) if (fibers[i].state == F_RUN) run[nrun++] = i;
    if (!fair && !replaying && npoints_g > sc.max_points) { fair = true; }
    if (!fair && replaying && segpos >= segs.size()) { fair = true; }
    if (fair && !fair_start) fair_start = npoints_g + 1;
    if (fair && npoints_g > fair_start + sc.fair_points) { in_sched = true; if (on_stuck) on_stuck("no progress"); if (outcome == O_RUNNING) set_outcome(O_VIOL, "no-progress", "step bound exceeded under fair scheduling"); break; }
    if (nrun == 0) {
      if (!replaying && !fair) segs.push_back({-1, 0});
      else if (replaying && !fair && segpos < segs.size() && segs[segpos].f == -1) segpos++;
      if (!do_advance()) { if (on_stuck) on_stuck("deadlock"); if (outcome == O_RUNNING) set_outcome(O_VIOL, "deadlock", "no thread can run"); break; }
      continue;
    }
    int pick = -1;
    if (fair) {
      // round robin
      for (int k = 1; k <= nf; k++) { int i = (last + k) % nf; if (fibers[i].state == F_RUN) { pick = i; break; } }
      slice_left = 512;
      // the clock must move even if somebody spins
      if (!clk.point_cost) { if (++rr % 64 == 0 && next_deadline() != INT64_MAX) { i64 d = next_deadline(); if (d > now_ns) { advance(std::min<i64>(d - now_ns, 1000000)); } } }
    } else if (replaying) {
      while (segpos < segs.size()) {
        Seg s = segs[segpos++];
        if (s.f == -1) { pick = -2; break; }
        if (s.f < nf && fibers[s.f].state == F_RUN) { pick = s.f; slice_left = s.n ? s.n : 1000000000; if (s.n == 0) slice_left = 1000000000; break; }
      }
      if (pick == -2) { do_advance(); continue; }
      if (pick == -1) continue;
    } else {
      int el = 0, elig[MAXF];
      for (int k = 0; k < nrun; k++) if (fibers[run[k]].frozen_until <= npoints_g) elig[el++] = run[k];
      if (el == 0) {
        // everybody runnable is stalled: let time pass or end the stall
        if (next_deadline() != INT64_MAX && (rng_next(srng) & 3)) { segs.push_back({-1, 0}); do_advance(); continue; }
        for (int k = 0; k < nrun; k++) fibers[run[k]].frozen_until = 0;
        continue;
      }
      if (sc.freeze && el > 1 && freeze_den && rng_next(srng) % freeze_den == 0) {
        int v = elig[rng_next(srng) % el];
        fibers[v].frozen_until = npoints_g + 20 + rng_next(srng) % (rng_next(srng) % 3 == 0 ? 3000 : 300);
        fault_count[FK_STALL]++;
        continue;
      }
      if (sc.freeze && !clk.point_cost && freeze_den && next_deadline() != INT64_MAX && rng_next(srng) % (freeze_den * 2) == 0) { // processor busy elsewhere: everybody late
        segs.push_back({-1, 0}); do_advance(); fault_count[FK_STALL]++; continue;
      }
      if (strategy == 1) { // PCT-like
        pick = elig[0];
        for (int k = 1; k < el; k++) if (fibers[elig[k]].prio > fibers[pick].prio) pick = elig[k];
        if (npoints_g >= pct_next) { fibers[pick].prio = -(int)(rng_next(srng) & 0xffff); pct_next = npoints_g + 1 + rng_next(srng) % (mean_slice * 8); }
        slice_left = pct_next > npoints_g ? (u32)(pct_next - npoints_g) : 1;
        // a spinning thread must not starve the others
        if (pick == last && el > 1 && rng_next(srng) % 3 == 0) { fibers[pick].prio = -(int)(rng_next(srng) & 0xffffff); }
      } else {
        pick = elig[rng_next(srng) % el];
        slice_left = draw_slice();
      }
      if (pause_fiber >= 0 && nrun == 1) slice_left = 1000000000; // nobody to switch to until a timer fires
    }
    last = pick;
    run_fiber(pick);
  }
}

void wait_all(u64 mask) {
  for (;;) {
    bool ok = true;
    for (int i = 0; i < nf; i++) if (i != cur->id && i < 64 && (mask >> i & 1) && fibers[i].state != F_DONE && fibers[i].state != F_DEAD) { ok = false; cur->joinid = i; break; }
    if (ok) return;
    cur->state = F_JOIN; cur->timed = false;
    // a dead thread never finishes: poll by a coarse sleep when one is armed
    if (death_target >= 0 || sc.death) { cur->timed = true; cur->rtclock = false; cur->late = 0; cur->due = now_ns + 1000; }
    block();
  }
}
void sleep_ns(i64 ns) {
  if (ns <= 0) return;
  cur->state = F_SLEEP; cur->timed = true; cur->rtclock = false; cur->late = 0; cur->due = now_ns + ns; cur->wake_reason = 0;
  block();
}

// ------------------------------------------------------------------ clock seam
static void read_clock(struct timespec *ts, bool realtime, i64 tickns = 0) {
  if (clk.read_cost) advance(clk.read_cost);
  if (cur && pf.on && pf.jump && pf.jump_budget && realtime) {
    u32 v = fault_choose(FK_CLOCK_FWD, pf.jump, 1000, 2);
    if (v) { pf.jump_budget--; fault_count[FK_CLOCK_FWD]--; i64 m = 1 + cfg_choose(1000); i64 d = pf.jump_max / 1000 * m + 7; jump_clock(v == 1 ? d : -d); }
  }
  i64 t = realtime ? rt() : now_ns;
  if (clk.quantum > 1) t -= (((t - clk.phase) % clk.quantum) + clk.quantum) % clk.quantum;
  if (tickns) t -= ((t % tickns) + tickns) % tickns;
  ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
  if (ts->tv_nsec < 0) { ts->tv_nsec += 1000000000; ts->tv_sec--; }
  clock_reads.push_back({cur ? cur->id : -1, t, tick(), now_ns});
  note("clock read %lld", (long long)t);
}
static bool ts_ok(const struct timespec *t) { return t->tv_nsec >= 0 && t->tv_nsec < 1000000000L; }
static i64 ts_ns(const struct timespec *t) { if (t->tv_sec > 9000000000LL) return 9000000000LL * 1000000000LL; return (i64)t->tv_sec * 1000000000LL + t->tv_nsec; }
static void lib_point(const void *o, int kind, const char *ks) { if (cur && cur->lib > 0) point(o, 0, kind, ks); }
static int do_nanosleep(i64 ns, i64 *rem, bool abs, bool realtime) {
  if (!cur) return 0;
  lib_point(nullptr, 20, "nanosleep");
  i64 due = abs ? ns : now_ns + ns;
  if (abs ? (realtime ? rt() : now_ns) >= ns : ns <= 0) { close_seg(); switch_to_sched(); return 0; }
  cur->state = F_SLEEP; cur->timed = true; cur->rtclock = abs && realtime; cur->due = due; cur->late = 0; cur->wake_reason = 0;
  i64 full = now_ns;
  bool intr = false;
  if (pf.on && fault_choose(FK_EINTR, pf.eintr, 1000, 1)) { i64 left = (cur->rtclock ? due - rt_off : due) - now_ns; i64 cut = left * (i64)cfg_choose(100) / 100; cur->rtclock = false; cur->due = now_ns + cut; intr = true; cur->wake_reason = 3; }
  else if (pf.on && fault_choose(FK_LATE, pf.late, 1000, 1)) cur->late = pf.late_max / 100 * (1 + cfg_choose(100));
  (void)full;
  block();
  cur->wake_reason = 0;
  if (intr) { if (rem) *rem = abs ? 0 : (due - now_ns > 0 ? due - now_ns : 0); return EINTR; }
  return 0;
}

// ------------------------------------------------------------------ mutex/cond seam
static bool zeroed(const void *p, size_t n) { for (size_t i = 0; i < n; i++) if (((const char *)p)[i]) return false; return true; }
static Mtx &mtx(const void *m) { auto it = mtxs.find(m); if (it == mtxs.end() && !zeroed(m, sizeof(pthread_mutex_t))) violate("*", "bad-lock", "a lock is used that was never initialised"); if (it == mtxs.end()) it = mtxs.insert({m, Mtx{-1, false, 0}}).first; return it->second; }
static void lock_mutex(const void *m) {
  while (mtx(m).owner >= 0) { cur->state = F_MUTEX; cur->obj = m; cur->timed = false; block(); }
  mtx(m).owner = cur->id;
}
static void unlock_mutex(const void *m) {
  Mtx &x = mtx(m); x.owner = -1; x.depth = 0;
  for (int i = 0; i < nf; i++) if (fibers[i].state == F_MUTEX && fibers[i].obj == m) make_runnable(fibers[i], 0);
}
const ThreadAttr &thread_attr(int f) { return thattr[f]; }
u64 failed_wait(int f) { return f < 0 ? 0 : waiterr[f]; }
static int cond_wait(const void *c, const void *m, bool timed, i64 due, bool realtime) {
  lib_point(c, 21, "cond_wait");
  if (!zeroed(c, sizeof(pthread_cond_t))) violate("*", "bad-cond", "a condition variable is used that was never initialised");
  if (mtx(m).owner != cur->id) violate("M04", "lock-not-held", "a wait begins although the thread does not hold the lock");
  if (timed && pf.on && fault_choose(FK_WAITERR, pf.waiterr, 1000, 1)) { waiterr[cur->id] = tick(); note("the timed wait fails"); return cfg_choose(2) ? EINVAL : EPERM; }
  unlock_mutex(m);
  int rc = 0;
  if (timed && (realtime ? rt() : now_ns) >= due) { close_seg(); switch_to_sched(); rc = ETIMEDOUT; }
  else {
    cur->state = F_COND; cur->obj = c; cur->timed = timed; cur->rtclock = realtime; cur->due = due; cur->late = 0; cur->wake_reason = 0;
    bool spur = false;
    if (pf.on && fault_choose(FK_SPURIOUS, pf.spurious, 1000, 1)) {
      spur = true;
      i64 left = timed ? (realtime ? due - rt_off : due) - now_ns : 1000000;
      cur->timed = true; cur->rtclock = false; cur->due = now_ns + (i64)((double)left * cfg_choose(100) / 100.0);
    } else if (pf.on && timed && fault_choose(FK_LATE, pf.late, 1000, 1)) cur->late = pf.late_max / 100 * (1 + cfg_choose(100));
    block();
    if (spur) rc = (timed && (realtime ? rt() : now_ns) >= due) ? ETIMEDOUT : 0;
    else rc = cur->wake_reason == 1 ? ETIMEDOUT : 0;
    cur->wake_reason = 0;
  }
  lock_mutex(m);
  return rc;
}
static void cond_wake(const void *c, bool all) {
  for (int i = 0; i < nf; i++) if (fibers[i].state == F_COND && fibers[i].obj == c) { make_runnable(fibers[i], 0); if (!all) return; }
}

} // namespace sim
using namespace sim;

// ------------------------------------------------------------------ wrapped calls
extern "C" {
#define REAL(r, n, ...) r __real_##n(__VA_ARGS__)
REAL(int, clock_gettime, clockid_t, struct timespec *);
REAL(int, nanosleep, const struct timespec *, struct timespec *);
REAL(int, sched_yield);
REAL(int, pthread_create, pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
REAL(int, gettimeofday, struct timeval *, void *);
REAL(time_t, time, time_t *);
REAL(int, poll, struct pollfd *, nfds_t, int);
REAL(int, select, int, fd_set *, fd_set *, fd_set *, struct timeval *);

int __wrap_clock_gettime(clockid_t id, struct timespec *ts) {
  if (!cur) return __real_clock_gettime(id, ts);
  lib_point(nullptr, 22, "clock");
  read_clock(ts, id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE || id == CLOCK_TAI, id == CLOCK_REALTIME_COARSE || id == CLOCK_MONOTONIC_COARSE ? 4000000 : 0);
  return 0;
}
// the ARM ports' timer: counts down from LOAD to 1 once a millisecond, LOAD according to the clock's resolution
uint32_t sim_systick_load() { return clk.quantum > 1 && 1000000 % clk.quantum == 0 ? 1000000 / clk.quantum : 1000000; }
static i64 timer_read() {
  lib_point(nullptr, 22, "clock");
  if (clk.read_cost) advance(clk.read_cost);
  i64 t = rt(), q = 1000000 / sim_systick_load(); t -= t % q;
  clock_reads.push_back({cur ? cur->id : -1, t, tick(), now_ns});
  note("timer read at %lld", (long long)t);
  return t;
}
uint32_t sim_systick_val() { if (!cur) return 0; i64 t = timer_read(); u32 l = sim_systick_load(); return l - (u32)(t % 1000000 / (1000000 / l)); }
uint64_t sim_system_timer() { if (!cur) return 0; return (u64)timer_read() / 1000000; }
int __wrap_gettimeofday(struct timeval *tv, void *tz) { if (!cur) return __real_gettimeofday(tv, tz); struct timespec t; lib_point(nullptr, 22, "clock"); read_clock(&t, true); tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; return 0; }
time_t __wrap_time(time_t *p) { if (!cur) return __real_time(p); struct timespec t; read_clock(&t, true); if (p) *p = t.tv_sec; return t.tv_sec; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *rem) {
  if (!cur) return __real_nanosleep(a, rem);
  if (!ts_ok(a) || a->tv_sec < 0) { errno = EINVAL; ps.einval++; return -1; }
  i64 r = 0; int rc = do_nanosleep(ts_ns(a), &r, false, false);
  if (rc) { if (rem) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; } errno = rc; return -1; }
  return 0;
}
int __wrap_clock_nanosleep(clockid_t id, int fl, const struct timespec *a, struct timespec *rem) {
  if (!ts_ok(a)) { ps.einval++; return EINVAL; }
  i64 r = 0; int rc = do_nanosleep(ts_ns(a), &r, fl & TIMER_ABSTIME, id == CLOCK_REALTIME);
  if (rc && rem && !(fl & TIMER_ABSTIME)) { rem->tv_sec = r / 1000000000; rem->tv_nsec = r % 1000000000; }
  return rc;
}
int __wrap_usleep(useconds_t u) { int rc = do_nanosleep((i64)u * 1000, nullptr, false, false); if (rc) { errno = rc; return -1; } return 0; }
unsigned __wrap_sleep(unsigned s) { i64 r = 0; do_nanosleep((i64)s * 1000000000, &r, false, false); return (unsigned)(r / 1000000000); }
int __wrap_sched_yield() {
  if (!cur) return __real_sched_yield();
  if (cur->lib > 0) point(nullptr, 0, 23, "yield");
  close_seg(); switch_to_sched();
  return 0;
}
int __wrap_pthread_yield() { return __wrap_sched_yield(); }

static int seam_fail(int kind, u32 permille, const void *obj, int what) {
  if (!pf.on || !permille) { if (refused.size()) { refused.erase({what, obj}); ps.refused = refused.size(); } return 0; }
  u32 v = fault_choose(kind, permille, 1000, 3);
  int e = v == 0 ? 0 : v == 1 ? EAGAIN : v == 2 ? ENOMEM : EPERM;
  if (e && !ps.first_fail) ps.first_fail = kind + 1;
  if (e) refused.insert({what, obj}); else refused.erase({what, obj});
  ps.refused = refused.size();
  if (e) note("injected failure %d (%s)", e, fault_names[kind]);
  return e;
}
static int refuse(const void *obj, int what) { refused.insert({what, obj}); ps.refused = refused.size(); if (!ps.first_fail) ps.first_fail = FK_ATTR + 1; note("invalid thread attribute"); return EINVAL; }
int __wrap_pthread_attr_init(pthread_attr_t *a) { lib_point(nullptr, 24, "attr_init"); memset(a, 0xA5, sizeof *a); int e = seam_fail(FK_ATTR, pf.init_fail, a, 0); if (!e) attrs[a] = ThreadAttr{SCHED_OTHER, 0, 8 << 20}; ps.attrs_left = attrs.size(); return e; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { if (!attrs.erase(a)) violate("M05", "bad-attr", "a thread attribute object is destroyed that does not exist"); ps.attrs_left = attrs.size(); return 0; }
int __wrap_pthread_attr_setschedpolicy(pthread_attr_t *a, int p) { if (p != SCHED_OTHER && p != SCHED_FIFO && p != SCHED_RR) return refuse(a, 1); int e = seam_fail(FK_ATTR, pf.init_fail, a, 1); if (!e && attrs.count(a)) attrs[a].policy = p; return e; }
int __wrap_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { if (n < os.min_stack) return refuse(a, 2); int e = seam_fail(FK_ATTR, pf.init_fail, a, 2); if (!e && attrs.count(a)) attrs[a].stack = n; return e; }
int __wrap_pthread_attr_setschedparam(pthread_attr_t *a, const struct sched_param *p) {
  int pol = attrs.count(a) ? attrs[a].policy : SCHED_OTHER, lo = pol == SCHED_OTHER ? 0 : 1, hi = pol == SCHED_OTHER ? os.other_prio_max : 99;
  if (p->sched_priority < lo || p->sched_priority > hi) return refuse(a, 3);
  int e = seam_fail(FK_ATTR, pf.init_fail, a, 3); if (!e && attrs.count(a)) attrs[a].prio = p->sched_priority; return e;
}
int __wrap_pthread_attr_setinheritsched(pthread_attr_t *a, int) { return seam_fail(FK_ATTR, pf.init_fail, a, 4); }
int __wrap_pthread_attr_setdetachstate(pthread_attr_t *a, int) { return seam_fail(FK_ATTR, pf.init_fail, a, 5); }

static const u64 THBASE = 0x7100000000ull;
static void *lib_entry(void *p) { (void)p; return nullptr; }
struct Start { void *(*fn)(void *); void *arg; bool slow; };
static Start starts[64];
static void *start_thread(void *p) { Start *s = (Start *)p; if (s->slow) sim::sleep_ns((i64)(1 + cfg_choose(2000)) * 1000); cur->lib = 1; void *r = s->fn(s->arg); point(nullptr, 0, 35, "thread exit"); cur->lib = 0; return r; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
  (void)lib_entry;
  if (!cur) return __real_pthread_create(t, a, fn, arg);
  lib_point(nullptr, 25, "create");
  ps.creates++;
  if (int e = seam_fail(FK_CREATE, pf.create_fail, arg, 6)) { ps.create_fail++; return e; }
  Start *s = &starts[sim::nfibers()];
  s->fn = fn; s->arg = arg; s->slow = pf.on && fault_choose(FK_SLOWSTART, pf.slowstart, 1000, 1);
  int id = new_fiber(start_thread, s, "task");
  fibers[id].ispthread = true; thattr[id] = a && attrs.count(a) ? attrs[a] : ThreadAttr{SCHED_OTHER, 0, 8 << 20};
  *t = (pthread_t)(THBASE + (u64)id * 64);
  mix(0xC0 + id);
  note("thread %d created", id);
  // the new thread may run before the creator continues
  if (cur->lib > 0) point(nullptr, 0, 26, "created");
  return 0;
}
static int hid(pthread_t t) { u64 v = (u64)t; if (v < THBASE || (v - THBASE) % 64) return -1; u64 i = (v - THBASE) / 64; if (i >= (u64)nf || !fibers[i].ispthread) return -1; return (int)i; }
int __wrap_pthread_join(pthread_t t, void **ret) {
  lib_point(nullptr, 27, "join");
  ps.joins++;
  int id = hid(t);
  if (id < 0) { ps.bad_handle++; violate("*", "bad-thread-handle", "pthread_join called on a thread handle that was never obtained (%#llx)", (unsigned long long)t); }
  if (fibers[id].joined || fibers[id].detached) { ps.bad_join++; violate("*", "double-join", "pthread_join called on a thread that was already joined or detached"); }
  if (id == cur->id) return EDEADLK;
  if (pf.on && fault_choose(FK_JOIN, pf.join_fail, 1000, 1)) { ps.join_failed++; note("the join fails"); return EINVAL; }
  while (fibers[id].state != F_DONE) { cur->state = F_JOIN; cur->joinid = id; cur->timed = false; block(); }
  fibers[id].joined = true;
  if (ret) *ret = fibers[id].ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t t) { int id = hid(t); if (id < 0) violate("*", "bad-thread-handle", "pthread_detach on a bad handle"); fibers[id].detached = true; return 0; }
pthread_t __wrap_pthread_self() { return (pthread_t)(THBASE + (u64)(cur ? cur->id : 0) * 64); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *ma) { int kind = PTHREAD_MUTEX_DEFAULT; if (ma) pthread_mutexattr_gettype(ma, &kind); lib_point(m, 28, "mutex_init"); if (int e = seam_fail(FK_MTXINIT, pf.init_fail, m, 7)) return e; memset((void *)m, 0, sizeof *m); mtxs[m] = Mtx{-1, kind == PTHREAD_MUTEX_RECURSIVE, 0}; return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { mtxs.erase(m); return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { if (!cur) return 0; lib_point(m, 29, "lock"); if (mtx(m).owner == cur->id && mtx(m).rec) { mtx(m).depth++; return 0; } if (mtx(m).owner == cur->id) { cur->state = F_MUTEX; cur->obj = (char *)m + 1; cur->timed = false; note("self deadlock on a mutex"); block(); } lock_mutex(m); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { lib_point(m, 29, "trylock"); if (mtx(m).owner >= 0) return EBUSY; lock_mutex(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (!cur) return 0; lib_point(m, 30, "unlock"); if (mtx(m).owner != cur->id) violate("M04", "lock-not-held", "a thread releases a lock that it does not hold"); if (mtx(m).depth) { mtx(m).depth--; return 0; } unlock_mutex(m); return 0; }
int __wrap_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *ca) { lib_point(c, 31, "cond_init"); if (int e = seam_fail(FK_CONDINIT, pf.init_fail, c, 8)) return e; memset((void *)c, 0, sizeof *c); condclk[c] = ca && condattrs.count(ca) ? condattrs[ca] : CLOCK_REALTIME; return 0; }
int __wrap_pthread_condattr_init(pthread_condattr_t *a) { condattrs[a] = CLOCK_REALTIME; return 0; }
int __wrap_pthread_condattr_setclock(pthread_condattr_t *a, clockid_t id) { if (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC) return EINVAL; condattrs[a] = id; return 0; }
int __wrap_pthread_condattr_destroy(pthread_condattr_t *a) { condattrs.erase(a); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { condclk.erase(c); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false, 0, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { lib_point(t, 21, "cond_timedwait"); if (!ts_ok(t)) { ps.einval++; return EINVAL; } return cond_wait(c, m, true, ts_ns(t), !condclk.count(c) || condclk[c] == CLOCK_REALTIME); }
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t id, const struct timespec *t) { lib_point(t, 21, "cond_clockwait"); if (!ts_ok(t)) { ps.einval++; return EINVAL; } return cond_wait(c, m, true, ts_ns(t), id == CLOCK_REALTIME); }
int __wrap_pthread_cond_signal(pthread_cond_t *c) { lib_point(c, 32, "signal"); if (cur && !zeroed(c, sizeof(pthread_cond_t))) violate("*", "bad-cond", "a condition variable is signalled that was never initialised"); cond_wake(c, false); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { lib_point(c, 32, "broadcast"); if (cur && !zeroed(c, sizeof(pthread_cond_t))) violate("*", "bad-cond", "a condition variable is signalled that was never initialised"); cond_wake(c, true); return 0; }
int __wrap_sem_init(sem_t *s, int, unsigned v) { sems[s] = SemS{(int)v}; return 0; }
int __wrap_sem_destroy(sem_t *s) { sems.erase(s); return 0; }
int __wrap_sem_post(sem_t *s) { lib_point(s, 33, "sem_post"); sems[s].v++; for (int i = 0; i < nf; i++) if (fibers[i].state == F_SEM && fibers[i].obj == s) { make_runnable(fibers[i], 0); break; } return 0; }
int __wrap_sem_wait(sem_t *s) { lib_point(s, 34, "sem_wait"); while (sems[s].v <= 0) { cur->state = F_SEM; cur->obj = s; cur->timed = false; block(); } sems[s].v--; return 0; }
int __wrap_sem_trywait(sem_t *s) { lib_point(s, 34, "sem_trywait"); if (sems[s].v <= 0) { errno = EAGAIN; return -1; } sems[s].v--; return 0; }

static int sem_timed(sem_t *s, i64 due, bool realtime) {
  lib_point(s, 34, "sem_timedwait");
  while (sems[s].v <= 0) {
    if ((realtime ? rt() : now_ns) >= due) { errno = ETIMEDOUT; return -1; }
    cur->state = F_SEM; cur->obj = s; cur->timed = true; cur->rtclock = realtime; cur->due = due; cur->late = 0; cur->wake_reason = 0;
    bool intr = pf.on && fault_choose(FK_EINTR, pf.eintr, 1000, 1);
    if (intr) { i64 left = (realtime ? due - rt_off : due) - now_ns; cur->rtclock = false; cur->due = now_ns + left * (i64)cfg_choose(100) / 100; }
    else if (pf.on && fault_choose(FK_LATE, pf.late, 1000, 1)) cur->late = pf.late_max / 100 * (1 + cfg_choose(100));
    block();
    bool to = cur->wake_reason == 1; cur->wake_reason = 0;
    if (intr && to) { errno = EINTR; return -1; }
  }
  sems[s].v--; return 0;
}
int __wrap_sem_timedwait(sem_t *s, const struct timespec *t) { if (!ts_ok(t)) { ps.einval++; errno = EINVAL; return -1; } return sem_timed(s, ts_ns(t), true); }
int __wrap_sem_clockwait(sem_t *s, clockid_t id, const struct timespec *t) { if (!ts_ok(t)) { ps.einval++; errno = EINVAL; return -1; } return sem_timed(s, ts_ns(t), id == CLOCK_REALTIME); }
int __wrap_sem_getvalue(sem_t *s, int *v) { lib_point(s, 34, "sem_getvalue"); *v = sems[s].v; return 0; }
// locks of other kinds
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int) { mtxs[(void *)l] = Mtx{-1, false, 0}; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { mtxs.erase((void *)l); return 0; }
static Mtx &spin(pthread_spinlock_t *l) { return mtxs.insert({(void *)l, Mtx{-1, false, 0}}).first->second; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { lib_point((void *)l, 29, "spin_lock"); while (spin(l).owner >= 0) { cur->state = F_MUTEX; cur->obj = (void *)l; cur->timed = false; block(); } spin(l).owner = cur->id; return 0; }
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { lib_point((void *)l, 29, "spin_trylock"); if (spin(l).owner >= 0) return EBUSY; spin(l).owner = cur->id; return 0; }
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { lib_point((void *)l, 30, "spin_unlock"); spin(l); unlock_mutex((void *)l); return 0; }
static void rw_wake(const void *l) { for (int i = 0; i < nf; i++) if (fibers[i].state == F_MUTEX && fibers[i].obj == l) make_runnable(fibers[i], 0); }
int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { rws[l] = RwS{-1, 0}; return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { rws.erase(l); return 0; }
static RwS &rw(const void *l) { return rws.insert({l, RwS{-1, 0}}).first->second; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *l) { lib_point(l, 29, "rdlock"); while (rw(l).w >= 0) { cur->state = F_MUTEX; cur->obj = l; cur->timed = false; block(); } rw(l).r++; return 0; }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *l) { lib_point(l, 29, "wrlock"); while (rw(l).w >= 0 || rw(l).r) { cur->state = F_MUTEX; cur->obj = l; cur->timed = false; block(); } rw(l).w = cur->id; return 0; }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t *l) { lib_point(l, 29, "tryrdlock"); if (rw(l).w >= 0) return EBUSY; rw(l).r++; return 0; }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t *l) { lib_point(l, 29, "trywrlock"); if (rw(l).w >= 0 || rw(l).r) return EBUSY; rw(l).w = cur->id; return 0; }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *l) { lib_point(l, 30, "rwunlock"); RwS &x = rw(l); if (x.w == cur->id) x.w = -1; else if (x.r) x.r--; rw_wake(l); return 0; }
int __wrap_pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!cur) { fn(); return 0; }
  for (;;) {
    int &st = onces[o];
    if (st == 2) return 0;
    if (st == 0) { st = 1; fn(); onces[o] = 2; rw_wake(o); return 0; }
    cur->state = F_MUTEX; cur->obj = o; cur->timed = false; block();
  }
}
// initialisation of local static objects
int __cxa_guard_acquire(void *g) {
  volatile unsigned char *b = (volatile unsigned char *)g;
  while (b[1] && !b[0]) { if (!cur) abort(); cur->state = F_MUTEX; cur->obj = g; cur->timed = false; block(); }
  if (b[0]) return 0;
  b[1] = 1; guards_busy.insert(b); return 1;
}
void __cxa_guard_release(void *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[0] = 1; b[1] = 0; guards_busy.erase(b); rw_wake(g); }
void __cxa_guard_abort(void *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[1] = 0; guards_busy.erase(b); rw_wake(g); }
// scheduling attributes and names
int __wrap_pthread_setname_np(pthread_t, const char *) { return 0; }
int __wrap_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
int __wrap_pthread_attr_setaffinity_np(pthread_attr_t *, size_t, const cpu_set_t *) { return 0; }
int __wrap_pthread_attr_setscope(pthread_attr_t *, int sc) { return sc == PTHREAD_SCOPE_SYSTEM ? 0 : ENOTSUP; }
int __wrap_pthread_attr_setguardsize(pthread_attr_t *, size_t) { return 0; }
int __wrap_pthread_attr_getstacksize(const pthread_attr_t *a, size_t *n) { *n = attrs.count(a) ? attrs[a].stack : 8u << 20; return 0; }
int __wrap_pthread_attr_getschedpolicy(const pthread_attr_t *a, int *n) { *n = attrs.count(a) ? attrs[a].policy : SCHED_OTHER; return 0; }
int __wrap_pthread_attr_getschedparam(const pthread_attr_t *a, struct sched_param *n) { n->sched_priority = attrs.count(a) ? attrs[a].prio : 0; return 0; }
int __wrap_pthread_attr_getdetachstate(const pthread_attr_t *, int *n) { *n = PTHREAD_CREATE_JOINABLE; return 0; }
int __wrap_pthread_getschedparam(pthread_t t, int *pol, struct sched_param *p) { int id = hid(t); if (id < 0) return ESRCH; *pol = thattr[id].policy; p->sched_priority = thattr[id].prio; return 0; }
// other ways to let time pass
int __wrap_poll(struct pollfd *f, nfds_t n, int ms) { if (!cur) return __real_poll(f, n, ms); int rc = do_nanosleep((i64)ms * 1000000, nullptr, false, false); if (rc) { errno = rc; return -1; } return 0; }
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) { if (!cur) return __real_select(n, r, w, e, tv); if (!tv) abort(); int rc = do_nanosleep((i64)tv->tv_sec * 1000000000 + (i64)tv->tv_usec * 1000, nullptr, false, false); if (rc) { errno = rc; return -1; } return 0; }
} // extern "C"
// the parts of the C++ library that would call the system themselves
std::chrono::_V2::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept { struct timespec t; __wrap_clock_gettime(CLOCK_REALTIME, &t); return time_point(duration((i64)t.tv_sec * 1000000000 + t.tv_nsec)); }
std::chrono::_V2::steady_clock::time_point std::chrono::_V2::steady_clock::now() noexcept { struct timespec t; __wrap_clock_gettime(CLOCK_MONOTONIC, &t); return time_point(duration((i64)t.tv_sec * 1000000000 + t.tv_nsec)); }
void std::condition_variable::wait(std::unique_lock<std::mutex> &l) { __wrap_pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void std::condition_variable::notify_one() noexcept { __wrap_pthread_cond_signal(native_handle()); }
void std::condition_variable::notify_all() noexcept { __wrap_pthread_cond_broadcast(native_handle()); }
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { pthread_t t; _State *p = s.get(); int e = __wrap_pthread_create(&t, nullptr, [](void *q) -> void * { _State_ptr s((_State *)q); s->_M_run(); return nullptr; }, p); if (e) { std::__throw_system_error(e); } s.release(); _M_id = id(t); }
void std::thread::join() { if (!joinable()) std::__throw_system_error(EINVAL); int e = __wrap_pthread_join(_M_id._M_thread, nullptr); if (e) std::__throw_system_error(e); _M_id = id(); }
void std::thread::detach() { if (!joinable()) std::__throw_system_error(EINVAL); __wrap_pthread_detach(_M_id._M_thread); _M_id = id(); }
extern "C" {

// ------------------------------------------------------------------ tsan callbacks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *a) { acc(a, n, 1, "R"); } void __tsan_write##n(void *a) { acc(a, n, 2, "W"); } \
  void __tsan_unaligned_read##n(void *a) { acc(a, n, 1, "R"); } void __tsan_unaligned_write##n(void *a) { acc(a, n, 2, "W"); } \
  void __tsan_volatile_read##n(void *a) { acc(a, n, 1, "R"); } void __tsan_volatile_write##n(void *a) { acc(a, n, 2, "W"); } \
  void __tsan_unaligned_volatile_read##n(void *a) { acc(a, n, 1, "R"); } void __tsan_unaligned_volatile_write##n(void *a) { acc(a, n, 2, "W"); } \
  void __tsan_read_write##n(void *a) { acc(a, n, 3, "RW"); } void __tsan_unaligned_read_write##n(void *a) { acc(a, n, 3, "RW"); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void *a, void *) { acc(a, 1, 1, "R"); }
void __tsan_vptr_update(void **a, void *) { acc(a, 8, 2, "W"); }
void __tsan_vptr_read(void **a) { acc(a, 8, 1, "R"); }
void __tsan_read_range(void *a, unsigned long n) { acc(a, (unsigned)n, 1, "R"); }
void __tsan_write_range(void *a, unsigned long n) { acc(a, (unsigned)n, 2, "W"); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
  if (!cur || cur->lib <= 0) return memcpy(d, s, n);
  bool ds = on_own_stack(d), ss = on_own_stack(s);
  if (ds && ss) return memcpy(d, s, n);
  size_t o = 0;
  while (o < n) {
    size_t k = std::min<size_t>(8, n - o);
    if (!ss) point((const char *)s + o, k, 1, "R");
    if (!ds && !ss) { u64 tmp; memcpy(&tmp, (const char *)s + o, k); point((char *)d + o, k, 2, "W"); memcpy((char *)d + o, &tmp, k); }
    else { if (!ds) point((char *)d + o, k, 2, "W"); memcpy((char *)d + o, (const char *)s + o, k); }
    o += k;
  }
  return d;
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (!cur || cur->lib <= 0 || (d > s && d < (const char *)s + n)) return memmove(d, s, n); return __tsan_memcpy(d, s, n); }
void *__tsan_memset(void *d, int c, unsigned long n) {
  if (!cur || cur->lib <= 0 || on_own_stack(d)) return memset(d, c, n);
  for (size_t o = 0; o < n; o += 8) { size_t k = std::min<size_t>(8, n - o); point((char *)d + o, k, 2, "W"); memset((char *)d + o, c, k); }
  return d;
}
typedef unsigned __int128 u128;
// Ports whose page is a bare pointer: an exchange that succeeds although the page changed and changed back since the
// thread read it is the known defect of those ports (an ABA problem); the run ends there.
enum { ABA_H = 8 }; // what a fiber's present operation saw of a word: values with the number of changes before them
struct AbaSeen { u64 op; int n; struct { u64 val, ver; } h[ABA_H]; };
static struct Aba { const volatile void *a; u64 ver; AbaSeen seen[MAXF]; } aba[96]; static int naba;
static Aba *aba_at(const volatile void *a) { for (int i = 0; i < naba; i++) if (aba[i].a == a) return &aba[i]; if (naba == 96) return nullptr; aba[naba].a = a; return &aba[naba++]; }
static bool aba_look(Aba *x, u64 val) { // true: this operation saw the same value before, and it changed in between
  auto &s = x->seen[cur->id]; bool back = false;
  if (s.op != cur->libops) { s.op = cur->libops; s.n = 0; }
  for (int i = 0; i < s.n; i++) if (s.h[i].val == val) { if (s.h[i].ver != x->ver) back = true; else return back; }
  if (s.n == ABA_H) { memmove(s.h, s.h + 1, sizeof s.h[0] * (ABA_H - 1)); s.n--; }
  s.h[s.n].val = val; s.h[s.n].ver = x->ver; s.n++;
  return back;
}
static void aba_load(const volatile void *a, u64 val) { if (!os.page || !cur || cur->lib <= 0) return; Aba *x = aba_at(a); if (x && aba_look(x, val)) aba_view = true; }
static void aba_store(const volatile void *a) { if (!os.page || !cur) return; Aba *x = aba_at(a); if (x) x->ver++; }
static void aba_cas(const volatile void *a, u64 val) { if (!os.page || !cur || cur->lib <= 0) return; Aba *x = aba_at(a); if (!x) return; auto &s = x->seen[cur->id]; if (s.op == cur->libops) for (int i = s.n; i-- > 0;) if (s.h[i].val == val) { if (s.h[i].ver != x->ver) known("page-aba", "the page is exchanged although it was published by others since the thread read it"); break; } x->ver++; s.n = 0; }
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((const void *)a, bits / 8, 4, "AR"); if (bits == os.page) aba_load(a, (u64)*a); return *a; } \
  void __tsan_atomic##bits##_store(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 5, "AW"); if (bits == os.page) aba_store(a); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "AX"); if (bits == os.page) aba_store(a); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A+"); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A-"); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A&"); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A|"); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A^"); T o = *a; *a = o ^ v; return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { acc((const void *)a, bits / 8, 6, "A~"); T o = *a; *a = ~(o & v); return o; } \
  static inline T cas##bits(volatile T *a, T c, T v) { acc((const void *)a, bits / 8, 7, "CAS"); T o = *a; if (bits == os.page && o != c) aba_load(a, (u64)o); if (o == c) { if (bits == os.page) aba_cas(a, (u64)c); *a = v; if (cur && cur->lib > 0) { if (bits == (os.page ? os.page : 128)) { cur->cas16++; cur->cas16_addr = (const void *)a; } if (__builtin_expect(tracef, 0)) notes.push_back("           CAS ok"); } } return o; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int, int) { return cas##bits(a, c, v); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) { T o = cas##bits(a, *c, v); if (o == *c) return 1; *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) { T o = cas##bits(a, *c, v); if (o == *c) return 1; *c = o; return 0; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long) ATOM(128, u128)
void __tsan_atomic_thread_fence(int) { if (cur && cur->lib > 0) point(nullptr, 0, 8, "fence"); }
void __tsan_atomic_signal_fence(int) {}
void __tsan_acquire(void *) {}
void __tsan_release(void *) {}

// ---------------------------------------------------------------- debug output of the library: a system call, printed nowhere
static bool lib_print(const char *fmt, va_list ap) {
  if (!cur || cur->lib <= 0) return false;
  { Quiet q; char buf[1024]; vsnprintf(buf, sizeof buf, fmt, ap); }
  point(nullptr, 0, 29, "print"); return true;
}
static bool lib_print0() { if (!cur || cur->lib <= 0) return false; point(nullptr, 0, 29, "print"); return true; }
int __real_fputc(int, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_puts(const char *); int __real_putchar(int); int __real_fputs(const char *, FILE *); int __real_fflush(FILE *);
int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = 1; if (!lib_print(fmt, ap)) { va_end(ap); va_start(ap, fmt); r = vfprintf(f, fmt, ap); } va_end(ap); return r; }
int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = 1; if (!lib_print(fmt, ap)) { va_end(ap); va_start(ap, fmt); r = vfprintf(stdout, fmt, ap); } va_end(ap); return r; }
int __wrap_fputc(int c, FILE *f) { return lib_print0() ? c : __real_fputc(c, f); }
int __wrap_putchar(int c) { return lib_print0() ? c : __real_putchar(c); }
int __wrap_puts(const char *s) { return lib_print0() ? 1 : __real_puts(s); }
int __wrap_fputs(const char *s, FILE *f) { return lib_print0() ? 1 : __real_fputs(s, f); }
int __wrap_fflush(FILE *f) { return lib_print0() ? 0 : __real_fflush(f); }
size_t __wrap_fwrite(const void *p, size_t a, size_t n, FILE *f) { return lib_print0() ? n : __real_fwrite(p, a, n, f); }

} // extern "C"

// ------------------------------------------------------------------ running
namespace sim {
static std::vector<Scenario> &scens() { static std::vector<Scenario> v; return v; }
void add(const char *p, const char *n, void (*f)(), int w) { scens().push_back({p, f, w, n}); }
static std::vector<Scenario> active;
static const Scenario *cur_scen;
static void *scen_entry(void *) { cur_scen->fn(); return nullptr; }

struct Input { std::string scen; u64 seed; std::vector<u32> w, f; std::vector<Seg> s; };
static u64 run_no, tot_points, tot_runs, tot_sim_ns, tot_other, tot_known, tot_nontriv, tot_segs;
static std::map<std::string, std::pair<u64, std::string>> known_seen;
static std::unordered_set<u64> hashes, all_states;
static u64 last_hash;
static u64 max_fibers;

static void reset_run() {
  // wipe used stack memory, so that uninitialised locals are the same in every execution of a seed
  static bool first = true;
  for (int i = 0; i < (first ? MAXF : nf); i++) {
    char *top = STACKS + (size_t)(i + 1) * STACK; const size_t shallow = 24 * 1024; bool deep = first;
    for (size_t o = shallow; !deep && o < shallow + 4096; o += 8) if (*(u64 *)(top - o - 8) != 0x5A5A5A5A5A5A5A5Aull) deep = true;
    size_t n = deep ? STACK : shallow; memset(top - n, 0x5A, n);
  }
  first = false;
  nf = 0; cur = nullptr; now_ns = 0; rt_off = 0; npoints_g = 0; seq_g = 0; hash_g = 0xcbf29ce484222325ull;
  arena_used = 0; memset(ARENA, 0, arena_hi); arena_hi = 0;
  memset(&ps, 0, sizeof ps); memset(&pf, 0, sizeof pf);
  aba_view = false; memset(aba, 0, naba * sizeof *aba); naba = 0;
  preemptions = 0; widened = nullptr; pause_target = pause_fiber = -1; dead_fiber = -1; death_target = -1; death_at = 0; on_stuck = nullptr; on_thread_exit = nullptr;
  clock_reads.clear(); offs.clear(); regions.clear(); desc.clear(); notes.clear(); stats_run.clear(); run_states.clear();
  for (auto g : guards_busy) g[1] = 0;
  guards_busy.clear(); rws.clear(); condattrs.clear(); condclk.clear(); onces.clear();
  mtxs.clear(); sems.clear(); refused.clear(); attrs.clear(); memset(waiterr, 0, sizeof waiterr);
  fair = false; slice_left = 0; slice_cnt = 0; segpos = 0; outcome = O_RUNNING; out_kind[0] = out_msg[0] = 0; nontriv_f = false; in_sched = false;
  memset(fault_count, 0, sizeof fault_count);
  sc = SchedCfg{1, 1, 20000, 400000, 0, 0};
  clk = ClockCfg{10, 1, 1, 0};
}
static void execute(const Scenario *s) {
  cur_scen = s;
  // initial realtime: 1000 s, so that absolute times are positive and backward steps stay positive
  rt_off = os.short_time ? 1000000000ll : 1000000000000ll; offs.push_back({0, rt_off});
  new_fiber(scen_entry, nullptr, "main");
  sched_loop();
}
static void begin_record(u64 seed) {
  replaying = false;
  W = Stream{{}, 0, seed * 3 + 0x1111}; Fs = Stream{{}, 0, seed * 5 + 0x2222}; srng = seed * 7 + 0x3333;
  rng_next(W.rng); rng_next(Fs.rng);
  segs.clear();
  // strategy of this run
  u64 r = rng_next(srng);
  static const u32 means[] = {1, 2, 3, 5, 8, 13, 25, 60, 200};
  strategy = (r & 7) < 3 ? 1 : 0;
  mean_slice = means[(r >> 8) % 9];
  freeze_den = (r >> 20) % 3 == 0 ? 0 : 5 + (r >> 24) % 60;
  pct_next = 1 + rng_next(srng) % (mean_slice * 8);
}
static u64 final_hash() { u64 h = hash_g; h ^= (u64)outcome * 0x9E37; h = (h ^ (u64)now_ns) * 0x100000001B3ull; h = (h ^ npoints_g) * 0x100000001B3ull; return h; }
static const Scenario *pick_scen(u64 seed) { u64 x = seed ^ 0xABCDEF; u64 r = rng_next(x); int tot = 0; for (auto &s : active) tot += s.weight; int k = (int)(r % tot); for (auto &s : active) { if ((k -= s.weight) < 0) return &s; } return &active[0]; }
static void account() {
  tot_runs++; tot_points += npoints_g; tot_sim_ns += now_ns; tot_segs += segs.size();
  for (int i = 0; i < FK_N; i++) fault_total[i] += fault_count[i];
  for (auto &k : stats_run) stats_total[k.first] += k.second;
  for (u64 s : run_states) if (all_states.size() < 500000) all_states.insert(s);
  if (outcome == O_OTHER) tot_other++;
  if (outcome == O_KNOWN) { tot_known++; auto &e = known_seen[out_kind]; e.first++; if (e.second.empty()) e.second = out_msg; }
  last_hash = final_hash();
  if (nontriv_f && hashes.size() < 1000000 && hashes.insert(last_hash).second) tot_nontriv++; // capped: a lower bound
  if ((u64)nf > max_fibers) max_fibers = nf;
}

// ------------------------------------------------------------------ output
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static u64 g_seed_cur; static const Scenario *g_scen_cur;
static void write_input(FILE *fp, const Input &in) {
  fprintf(fp, "scenario %s\nseed %llu\nw", in.scen.c_str(), (unsigned long long)in.seed);
  for (u32 v : in.w) fprintf(fp, " %u", v);
  fprintf(fp, "\nf"); for (u32 v : in.f) fprintf(fp, " %u", v);
  fprintf(fp, "\ns"); for (auto &g : in.s) fprintf(fp, " %d:%u", g.f, g.n);
  fprintf(fp, "\n");
}
static Input current_input() { if (cur) close_seg(); Input in; in.scen = g_scen_cur->name; in.seed = g_seed_cur; in.w = W.log; in.f = Fs.log; in.s = segs; return in; }
static void write_viol(const char *path, const Input &in, const char *kind, const char *msg, u64 hash) {
  FILE *fp = fopen(path, "w"); if (!fp) return;
  fprintf(fp, "prop %s\nkind %s\nmsg %s\nhash %016llx\n", g_prop, kind, msg, (unsigned long long)hash);
  if (!g_known.empty()) fprintf(fp, "known %s\n", g_known.c_str());
  write_input(fp, in);
  fclose(fp);
}
static bool read_input(const char *path, Input &in, std::string *kind = nullptr, std::string *hash = nullptr, std::string *prop = nullptr) {
  FILE *fp = fopen(path, "r"); if (!fp) return false;
  char *line = nullptr; size_t cap = 0; 
  while (getline(&line, &cap, fp) > 0) {
    std::string l = line; while (!l.empty() && (l.back() == '\n')) l.pop_back();
    size_t sp = l.find(' '); std::string k = l.substr(0, sp), rest = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "scenario") in.scen = rest; else if (k == "seed") in.seed = strtoull(rest.c_str(), 0, 10);
    else if (k == "kind" && kind) *kind = rest; else if (k == "hash" && hash) *hash = rest; else if (k == "prop" && prop) *prop = rest;
    else if (k == "w" || k == "f") { char *p = (char *)rest.c_str(); while (*p) { char *e; u32 v = strtoul(p, &e, 10); if (e == p) break; (k == "w" ? in.w : in.f).push_back(v); p = e; while (*p == ' ') p++; } }
    else if (k == "s") { char *p = (char *)rest.c_str(); while (*p) { char *e; long f = strtol(p, &e, 10); if (e == p) break; u32 n = 0; if (*e == ':') n = strtoul(e + 1, &e, 10); in.s.push_back({(int)f, n}); p = e; while (*p == ' ') p++; } }
  }
  free(line); fclose(fp); return true;
}
static volatile u64 wd_run, wd_seen; static volatile int wd_same; static int wd_limit = 3;
static char g_violpath[512];
static int g_crash_fd = -1;
static void on_crash(int sig) {
  // Report through the violation file; the process is lost.
  const char *kind = sig == SIGPROF ? "hang" : "crash";
  char msg[200];
  if (sig != SIGPROF && aba_view && cur && outcome == O_RUNNING && listed("page-aba")) known("page-aba", "the code under test crashed with signal %d after it saw the page come back", sig);
  snprintf(msg, sizeof msg, sig == SIGPROF ? "operation never ends (no scheduling point reached for a long time)" : "the code under test crashed with signal %d", sig);
  if (outcome == O_RUNNING && g_violpath[0]) {
    cur = nullptr; // from here on, output is output
    write_viol(g_violpath, current_input(), kind, msg, 0);
    _exit(11);
  }
  if (g_crash_fd >= 0) { dprintf(g_crash_fd, "V %s 0\n", kind); _exit(0); }
  _exit(12);
}
static void on_alarm(int) { if (wd_seen == wd_run) { if (++wd_same >= wd_limit) on_crash(SIGPROF); } else { wd_seen = wd_run; wd_same = 0; } }
static void install_handlers() {
  static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGTRAP}) sigaction(s, &sa, nullptr);
  sa.sa_handler = on_alarm; sa.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 4; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
}
static void setup_memory() {
  if (os.page == 32) STACKS = (char *)0xC0000000ull, ARENA = (char *)0xD0000000ull;
  if (mmap(STACKS, MAXF * STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED ||
      mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) == MAP_FAILED) { perror("sim mmap"); _exit(2); }
}
static const Scenario *find_scen(const std::string &n) { for (auto &s : active) if (n == s.name) return &s; return nullptr; }
static void replay_in_process(const Input &in) {
  reset_run();
  replaying = true; W = Stream{in.w, 0, 0}; Fs = Stream{in.f, 0, 0}; segs = in.s; srng = 1; segpos = 0;
  const Scenario *s = find_scen(in.scen); if (!s) { fprintf(stderr, "no scenario %s\n", in.scen.c_str()); _exit(2); }
  g_scen_cur = s; g_seed_cur = in.seed;
  wd_run++;
  execute(s);
}
// child replay; returns true if the same kind of violation appears
struct RR { bool viol; std::string kind; std::string hash; };
static RR child_replay(const Input &in) {
  int p[2]; if (pipe(p)) _exit(2);
  pid_t pid = fork();
  if (pid == 0) {
    close(p[0]); g_violpath[0] = 0; g_crash_fd = p[1]; wd_limit = 2;
    struct itimerval it; it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
    wd_same = 0;
    replay_in_process(in);
    if (outcome == O_VIOL) dprintf(p[1], "V %s %016llx\n", out_kind, (unsigned long long)final_hash()); else dprintf(p[1], "N\n");
    _exit(0);
  }
  close(p[1]);
  char b[256]; ssize_t n = 0, k; while ((k = read(p[0], b + n, sizeof b - 1 - n)) > 0) n += k; close(p[0]); b[n] = 0;
  int st; waitpid(pid, &st, 0);
  RR r; r.viol = b[0] == 'V'; if (r.viol) { char kd[100], hs[40]; if (sscanf(b + 2, "%99s %39s", kd, hs) == 2) { r.kind = kd; r.hash = hs; } }
  return r;
}
static int shrink(const char *path, const char *outp, int seconds) {
  Input in; std::string kind; if (!read_input(path, in, &kind)) return 2;
  time_t t0 = __real_time(nullptr); u64 tries = 0;
  auto ok = [&](const Input &c) { tries++; RR r = child_replay(c); return r.viol && r.kind == kind; };
  auto timeup = [&] { return __real_time(nullptr) - t0 > seconds; };
  bool repro = ok(in);
  if (repro) {
    bool changed = true;
    while (changed && !timeup()) {
      changed = false;
      // schedule: drop chunks of segments, then merge
      for (size_t ch = std::max<size_t>(1, in.s.size() / 2); ch >= 1 && !timeup(); ch /= 2) {
        for (size_t i = 0; i + ch <= in.s.size() && !timeup();) {
          Input c = in; c.s.erase(c.s.begin() + i, c.s.begin() + i + ch);
          if (ok(c)) { in = c; changed = true; } else i += ch;
        }
        if (ch == 1) break;
      }
      for (size_t ch = std::max<size_t>(1, in.f.size() / 2); ch >= 1 && !timeup() && !in.f.empty(); ch /= 2) {
        for (size_t i = 0; i + ch <= in.f.size() && !timeup(); i += ch) {
          Input c = in; bool any = false; for (size_t k = i; k < i + ch; k++) { if (c.f[k]) any = true; c.f[k] = 0; }
          if (any && ok(c)) { in = c; changed = true; }
        }
        if (ch == 1) break;
      }
      while (!in.f.empty() && in.f.back() == 0) in.f.pop_back();
      for (size_t ch = std::max<size_t>(1, in.w.size() / 2); ch >= 1 && !timeup() && !in.w.empty(); ch /= 2) {
        for (size_t i = 0; i + ch <= in.w.size() && !timeup();) {
          Input c = in; c.w.erase(c.w.begin() + i, c.w.begin() + i + ch);
          if (ok(c)) { in = c; changed = true; continue; }
          c = in; bool any = false; for (size_t k = i; k < i + ch; k++) { if (c.w[k]) any = true; c.w[k] = 0; }
          if (any && ok(c)) { in = c; changed = true; }
          i += ch;
        }
        if (ch == 1) break;
      }
      for (size_t i = 0; i < in.w.size() && !timeup(); i++) while (in.w[i] > 0 && !timeup()) { Input c = in; c.w[i] = c.w[i] > 3 ? c.w[i] / 2 : c.w[i] - 1; if (ok(c)) { in = c; changed = true; } else break; }
      for (size_t i = 0; i + 1 < in.s.size() && !timeup(); i++) if (in.s[i].f == in.s[i + 1].f && in.s[i].f >= 0) { Input c = in; c.s[i].n += c.s[i + 1].n; c.s.erase(c.s.begin() + i + 1); if (ok(c)) { in = c; changed = true; } }
    }
  }
  RR r = child_replay(in);
  FILE *fp = fopen(outp, "w"); if (!fp) return 2;
  fprintf(fp, "prop %s\nkind %s\nhash %s\nreproduced %d\ntries %llu\n", g_prop, kind.c_str(), r.hash.c_str(), r.viol && r.kind == kind, (unsigned long long)tries);
  write_input(fp, in); fclose(fp);
  return 0;
}

static int sim_main(int argc, char **argv) {
  u64 seed = 1, start = 0, stride = 1, count = 1000; double secs = 1e9; const char *out = nullptr, *viol = nullptr, *shr = nullptr, *rep = nullptr, *only = nullptr, *hf = nullptr; int shsec = 40; bool dump = false, repeat2 = false, forked = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char *)""; };
    if (a == "--prop") g_prop = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 10); else if (a == "--start") start = strtoull(nx(), 0, 10);
    else if (a == "--stride") stride = strtoull(nx(), 0, 10); else if (a == "--count") count = strtoull(nx(), 0, 10); else if (a == "--secs") secs = atof(nx());
    else if (a == "--out") out = nx(); else if (a == "--viol") viol = nx(); else if (a == "--shrink") shr = nx(); else if (a == "--shrink-secs") shsec = atoi(nx());
    else if (a == "--replay") rep = nx(); else if (a == "--only") only = nx(); else if (a == "--known") g_known = nx(); else if (a == "--hashes") hf = nx(); else if (a == "--dump") dump = true; else if (a == "--check-determinism") repeat2 = true; else if (a == "--fork") forked = true;
    else if (a == "--list") { for (auto &s : scens()) printf("%s %s\n", s.prop, s.name); return 0; }
  }
  for (auto &s : scens()) if (!strcmp(s.prop, g_prop) && (!only || !strcmp(only, s.name))) active.push_back(s);
  if (active.empty()) { fprintf(stderr, "no scenario for %s\n", g_prop); return 2; }
  setup_memory(); install_handlers(); dl_iterate_phdr(find_tls, nullptr);
  if (shr) return shrink(shr, out, shsec);
  if (rep) {
    Input in; std::string kind, hash; if (!read_input(rep, in, &kind, &hash)) return 2;
    tracef = true; g_crash_fd = 1; 
    replay_in_process(in);
    u64 h = final_hash();
    for (auto &n : notes) printf("%s\n", n.c_str());
    printf("RESULT outcome=%s kind=%s hash=%016llx msg=%s\n", outcome == O_VIOL ? "violation" : outcome == O_KNOWN ? "known" : outcome == O_OTHER ? "other" : "ok", out_kind, (unsigned long long)h, out_msg);
    return 0;
  }
  if (viol) snprintf(g_violpath, sizeof g_violpath, "%s", viol);
  struct timespec ts0, ts1; __real_clock_gettime(CLOCK_MONOTONIC, &ts0);
  std::vector<std::string> samples; int rc = 0; u64 other_samples = 0; std::string other_msg; u64 nondet = 0;
  FILE *hfp = hf ? fopen(hf, "w") : nullptr;
  if (forked) reset_run();
  for (u64 k = 0; k < count; k++) {
    if ((k & 15) == 0) { __real_clock_gettime(CLOCK_MONOTONIC, &ts1); if ((ts1.tv_sec - ts0.tv_sec) + (ts1.tv_nsec - ts0.tv_nsec) * 1e-9 > secs) break; }
    u64 idx = start + k * stride; u64 x = seed * 0x9E3779B97F4A7C15ull + idx; u64 rs = rng_next(x);
    run_no = idx; wd_run++;
    const Scenario *s = pick_scen(rs); g_scen_cur = s; g_seed_cur = idx;
    if (dump) tracef = true;
    if (forked) { // static data of the code under test is as at the start in every run
      static struct Res { int outcome, nontriv, nf; u64 points, hash; i64 now; u64 faults[FK_N]; char kind[sizeof out_kind], msg[sizeof out_msg]; } *res;
      if (!res) res = (Res *)mmap(nullptr, sizeof *res, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      pid_t pid = fork();
      if (pid == 0) {
        struct itimerval it; it.it_interval.tv_sec = 4; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
        reset_run(); begin_record(rs); execute(s);
        res->outcome = outcome; res->nontriv = nontriv_f; res->nf = nf; res->points = npoints_g; res->hash = hash_g; res->now = now_ns;
        memcpy(res->faults, fault_count, sizeof fault_count); memcpy(res->kind, out_kind, sizeof out_kind); memcpy(res->msg, out_msg, sizeof out_msg);
        _exit(0);
      }
      int st = 0; waitpid(pid, &st, 0);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 11) { rc = 11; break; }
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && res->outcome != O_VIOL) {
        outcome = res->outcome; nontriv_f = res->nontriv; nf = res->nf; npoints_g = res->points; hash_g = res->hash; now_ns = res->now;
        memcpy(fault_count, res->faults, sizeof fault_count); memcpy(out_kind, res->kind, sizeof out_kind); memcpy(out_msg, res->msg, sizeof out_msg);
        account(); nf = 0; continue;
      }
    }
    reset_run(); begin_record(rs); execute(s);
    account();
    if (hfp) fprintf(hfp, "%llu %s %016llx\n", (unsigned long long)idx, s->name, (unsigned long long)last_hash);
    if (nontriv_f && samples.size() < 3 && !desc.empty()) { char b[300]; snprintf(b, sizeof b, "run %llu scenario %s, %d threads, %llu scheduling points, %zu schedule segments, %lld ns simulated: ", (unsigned long long)idx, s->name, nf, (unsigned long long)npoints_g, segs.size(), (long long)now_ns); samples.push_back(b + desc); }
    if (outcome == O_OTHER && other_msg.empty()) { other_msg = std::string(out_kind) + ": " + out_msg; other_samples = idx; }
    if (outcome == O_VIOL) {
      if (viol) write_viol(viol, current_input(), out_kind, out_msg, last_hash);
      fprintf(stderr, "violation run %llu scenario %s kind %s: %s\n", (unsigned long long)idx, s->name, out_kind, out_msg);
      rc = 1; break;
    }
    if (repeat2) { // replay the recorded choices in this process: must give the identical execution
      Input in = current_input(); u64 h = last_hash; auto n1 = notes; replay_in_process(in);
      if (dump && final_hash() != h) { // show where the two executions part
        size_t i = 0; while (i < n1.size() && i < notes.size() && n1[i] == notes[i]) i++;
        for (size_t j = i > 6 ? i - 6 : 0; j < i + 6; j++) printf("%s\n   | %s\n", j < n1.size() ? n1[j].c_str() : "-", j < notes.size() ? notes[j].c_str() : "-");
        dump = false;
      }
      if (final_hash() != h) { nondet++; if (nondet < 5) fprintf(stderr, "NONDETERMINISM run %llu scenario %s %016llx %016llx\n", (unsigned long long)idx, s->name, (unsigned long long)h, (unsigned long long)final_hash()); }
    }
  }
  if (hfp) fclose(hfp);
  __real_clock_gettime(CLOCK_MONOTONIC, &ts1);
  double el = (ts1.tv_sec - ts0.tv_sec) + (ts1.tv_nsec - ts0.tv_nsec) * 1e-9;
  FILE *fp = out ? fopen(out, "w") : stdout;
  fprintf(fp, "{\"runs\":%llu,\"points\":%llu,\"sim_ns\":%llu,\"segments\":%llu,\"nontrivial_distinct\":%llu,\"other\":%llu,\"known\":%llu,\"states\":%llu,\"elapsed\":%.3f,\"nondet\":%llu,\"max_threads\":%llu,\"other_msg\":\"%s\",\"other_run\":%llu,", (unsigned long long)tot_runs, (unsigned long long)tot_points, (unsigned long long)tot_sim_ns, (unsigned long long)tot_segs, (unsigned long long)tot_nontriv, (unsigned long long)tot_other, (unsigned long long)tot_known, (unsigned long long)all_states.size(), el, (unsigned long long)nondet, (unsigned long long)max_fibers, jesc(other_msg).c_str(), (unsigned long long)other_samples);
  fprintf(fp, "\"faults\":{"); for (int i = 0; i < FK_N; i++) fprintf(fp, "%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long)fault_total[i]);
  fprintf(fp, "},\"stats\":{"); bool first = true; for (auto &k : stats_total) { fprintf(fp, "%s\"%s\":%llu", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second); first = false; }
  fprintf(fp, "},\"known_seen\":{"); first = true; for (auto &k : known_seen) { fprintf(fp, "%s\"%s\":{\"count\":%llu,\"msg\":\"%s\"}", first ? "" : ",", k.first.c_str(), (unsigned long long)k.second.first, jesc(k.second.second).c_str()); first = false; }
  fprintf(fp, "},\"samples\":["); for (size_t i = 0; i < samples.size(); i++) fprintf(fp, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
  fprintf(fp, "]}\n");
  if (out) { fclose(fp); std::string hp = std::string(out) + ".hashes"; FILE *h = fopen(hp.c_str(), "wb"); if (h) { std::vector<u64> v(hashes.begin(), hashes.end()); fwrite(v.data(), 8, v.size(), h); fclose(h); } hp = std::string(out) + ".states"; h = fopen(hp.c_str(), "wb"); if (h) { std::vector<u64> v(all_states.begin(), all_states.end()); fwrite(v.data(), 8, v.size(), h); fclose(h); } }
  return rc;
}
} // namespace sim
int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
