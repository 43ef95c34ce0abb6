// Deterministic simulator: single OS thread, fibers, seeded scheduler, virtual
// clock, fault injection.  Harness code runs inside fibers; only code executed
// under a sim::Lib scope (the library under test) has scheduling points.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <new>
#include <utility>
#include <string>
#include <vector>

namespace sim {

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;

enum FState { F_FREE, F_RUN, F_SLEEP, F_COND, F_MUTEX, F_JOIN, F_WAITALL, F_SEM, F_DEAD, F_DONE };

struct Fiber {
  int id;
  int state;
  void *sp;
  char *stack;
  int lib;            // >0: inside library code (scheduling points active)
  u64 npoints;        // points executed
  u64 oppoints;       // points since the current operation began (harness resets)
  // sleeping / timed waits
  bool timed;
  bool rtclock;       // deadline on the realtime clock
  i64 due;            // true deadline (ns, clock as above)
  i64 late;           // injected wake-up latency
  int wake_reason;    // 0 normal, 1 timeout, 2 spurious, 3 interrupted
  const void *obj;    // what it is blocked on
  int joinid;
  u64 stall;          // ns of virtual time that passed while runnable but not running
  i64 runnable_since; // virtual time it last became runnable
  u64 blocks;         // number of times it blocked
  u64 frozen_until;   // global point count; scheduler avoids it before
  int prio;           // PCT priority
  void *(*fn)(void *);
  void *arg;
  void *ret;
  bool detached, joined, ispthread;
  char name[16];
  u64 cas16;          // successful 16-byte compare-and-swaps (ever)
  const void *cas16_addr;
  u64 libops;         // library operations begun
};

extern Fiber *cur;             // running fiber, null outside

// ---------------------------------------------------------------- scopes
struct Lib { Lib() { if (cur && !cur->lib++) cur->libops++; } ~Lib() { if (cur) cur->lib--; } };
struct Quiet { int s; Quiet() { s = cur ? cur->lib : 0; if (cur) cur->lib = 0; } ~Quiet() { if (cur) cur->lib = s; } };
#define LIB(e) ([&]() -> decltype(e) { ::sim::Lib _l; return e; }())
#define LIBV(e) do { ::sim::Lib _l; e; } while (0)

// ---------------------------------------------------------------- choices
u32 choose(u32 n);                 // workload choice in [0,n); 0 is simplest
inline bool coin(u32 n) { return choose(n) == n - 1 && n > 1; } // true with 1/n; 0 = false
u32 fault_choose(int kind, u32 num, u32 den, u32 n); // 0 = no fault, else 1..n with probability num/den
u32 cfg_choose(u32 n);             // fault-stream configuration choice, always logged

enum FaultKind { FK_STALL, FK_FREEZE, FK_CLOCK_FWD, FK_CLOCK_BACK, FK_CLOCK_COARSE, FK_SPURIOUS, FK_EINTR, FK_LATE, FK_CREATE, FK_ATTR, FK_MTXINIT, FK_CONDINIT, FK_POISON, FK_PREEMPT, FK_CRASH, FK_SLOWSTART, FK_SKEW, FK_BURST, FK_WAITERR, FK_JOIN, FK_N };
extern const char *fault_names[FK_N];
void count_fault(int kind, u64 n = 1);

// ---------------------------------------------------------------- time
i64 mono();                        // virtual monotonic ns
i64 rt();                          // virtual realtime ns
void jump_clock(i64 delta);        // step the realtime clock
i64 rt_sup(i64 from_mono, i64 to_mono, bool closed_end); // sup of rt over an interval of mono time
i64 rt_inf(i64 from_mono, i64 to_mono);
struct ClockCfg { i64 point_cost; i64 read_cost; i64 quantum; i64 phase; };
void start_clock(i64 realtime); // before anything else happens in a run
extern ClockCfg clk;
struct ClockRead { int fiber; i64 value; u64 seq; i64 mono; };
extern std::vector<ClockRead> clock_reads;

// ---------------------------------------------------------------- threads
int spawn(void *(*fn)(void *), void *arg, const char *name);
void wait_all(u64 mask = ~0ull);   // block the calling fiber until all (masked) others are done
void sleep_ns(i64 ns);
void yield_now();
bool fiber_done(int id);
Fiber *fiber(int id);
int nfibers();

// ---------------------------------------------------------------- memory
void *alloc(size_t n, size_t align, unsigned char fill);
template <class T, class... A> T *make(unsigned char fill, A &&...a) { return new (alloc(sizeof(T), alignof(T) < 16 ? 16 : alignof(T), fill)) T(std::forward<A>(a)...); }
void region(const void *p, size_t n, const char *name);

// ---------------------------------------------------------------- logging
u64 tick();                        // next global sequence number
u64 seq_now();
u64 points();
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(u64 v);                   // add to the execution hash
void state_mark(u64 v);            // record an abstract state reached (coverage measure)
// props: comma-separated ids the observation refutes, or "*" (any).  If the property being checked is not among
// them the run is abandoned (and counted), because its history can no longer be judged.
[[noreturn]] void violate(const char *props, const char *kind, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void known(const char *fingerprint, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
// from here on every violation in this run refutes prop as well (it claims that something changes nothing)
void widen(const char *prop);
// same, for use in scheduler context (on_stuck)
void report(const char *props, const char *kind, const char *fmt, ...) __attribute__((format(printf, 3, 4)));
void report_known(const char *fingerprint, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void describe(const char *fmt, ...) __attribute__((format(printf, 1, 2))); // sample text for evidence
void nontrivial();                 // this run counts as non-trivial by the check's rule
void stat(const char *name, u64 n = 1);
bool tracing();

// ---------------------------------------------------------------- run parameters set by scenarios
struct SchedCfg {
  int preempt;        // 0: only at blocking points; else on
  int freeze;         // allow temporary stalls of a thread
  u64 max_points;     // random phase
  u64 fair_points;    // fair phase
  int death;          // a thread may be frozen for ever inside a library call
  u32 death_span;     // victim dies within its first this-many points
};
extern SchedCfg sc;
void arm_death(int fiber, u64 at_point, bool resume = false); // fiber freezes for ever once it has executed at_point points
void arm_pause(int fiber, u64 at_point); // fiber is held up once it has executed at_point points, until thaw()
bool paused();
bool paused(int fiber);
void thaw();
extern int dead_fiber;
extern void (*on_stuck)(const char *why); // called in scheduler context when nothing can move / caps exceeded
extern void (*on_thread_exit)(Fiber *);
extern u64 preemptions;            // preemptions inside library code so far in this run

// pthread seam state that oracles look at
struct PStat { u64 creates, create_fail, bad_join, bad_handle, joins, mutex_held_at_exit, einval; int first_fail; u64 refused, join_failed, attrs_left; };
extern PStat ps;
struct PFault { bool on; u32 spurious, eintr, late; i64 late_max; u32 jump; u32 jump_budget; i64 jump_max; u32 create_fail, init_fail; u32 slowstart; u32 waiterr, join_fail; };
struct ThreadAttr { int policy, prio; size_t stack; };
const ThreadAttr &thread_attr(int fiber); // as given to pthread_create
u64 failed_wait(int fiber);               // when a timed wait of the thread failed, or 0
extern PFault pf;

// ---------------------------------------------------------------- scenario registry
struct Scenario { const char *prop; void (*fn)(); int weight; const char *name; };
void add(const char *prop, const char *name, void (*fn)(), int weight);
struct Reg { Reg(const char *p, const char *n, void (*f)(), int w = 1) { add(p, n, f, w); } };
#ifdef SIM_ARM
#define SIM_PORT_PROP "X04"
#else
#define SIM_PORT_PROP "X03"
#endif
#ifdef SIM_PORT
// the scenarios of all properties, for the property about the ports
#define SCENARIO(prop, name, weight) static void prop##_##name(); static ::sim::Reg _r_##name##_##prop(SIM_PORT_PROP, #prop "_" #name, prop##_##name, weight); static void prop##_##name()
#define ALSO(prop, name, weight)
#else
#define SCENARIO(prop, name, weight) static void name(); static ::sim::Reg _r_##name##_##prop(#prop, #name, name, weight); static void name()
#define ALSO(prop, name, weight) static ::sim::Reg _r_##name##_##prop(#prop, #name, name, weight);
#endif
const char *prop_id();             // property being checked

// what the operating system of a port accepts, and what its atomic operations are like
// page: bits of the page when it is a bare pointer, 0 when it has a counter; short_time: stamps have 32 bits
struct Os { size_t min_stack; int other_prio_max; int page; const char *all_as; bool short_time; };
extern Os os;

#ifdef SIM_ARM
namespace { struct PortInit { PortInit() { os = Os{4096, 254, 32, "X04", true}; } } port_init; }
#elif defined SIM_PORT
namespace { struct PortInit { PortInit() { os = Os{4096, 254, 64, "X03", false}; } } port_init; }
#endif

} // namespace sim
