// Periodic monitor scenarios: RTML_monitor and task (real code) on simulated threads, clocks and system calls.
#include "sim.h"
#include <algorithm>
#include <periodicmonitor.h>
using namespace sim;

static const i64 US = 1000, MS = 1000000;
struct Job { u64 seq0, seq1; i64 m0, m1; u64 st0, st1; i64 newp; }; // newp: period set inside this job (us), or -1
struct Ctl { u64 inv, ret; i64 m_inv, m_ret; int res; };
struct SetP { u64 inv, ret; i64 m_inv, m_ret; i64 p; };
struct MonState {
  std::vector<Job> jobs; bool injob; std::vector<Ctl> enables, disables; std::vector<SetP> sets; int fib; i64 period0; // us
  int jobmax; // job length in tenths of the period
  u64 stall_en; bool built; bool threadless; bool refused; bool joined; int failed; i64 now_p; int setinjob; u64 quietseq;
};
static void job(MonState *s, void *mon);

struct Mon : RTML_monitor<'s', 'i', 'm', '1'> {
  typedef RTML_monitor<'s', 'i', 'm', '1'> Base;
  MonState *s;
  Mon(useconds_t p, MonState *st) : Base(p), s(st) {}
  Mon(useconds_t p, unsigned pol, unsigned pri, MonState *st) : Base(p, pol, pri), s(st) {}
  void run() override { Quiet q; job(s, this); }
};

static MonState ms[4]; static Mon *mon[4]; static int nmon; static bool phase_end;
static i64 eps; static u32 pclass; static bool joinfail, selfjoin, joining[4]; static bool disabling[4];

static void job(MonState *s, void *m) {
  u64 sq = tick(); // first thing
  int i = (int)(s - ms);
  if (s < ms || i >= nmon || mon[i] != (Mon *)m) violate("M01,M02", "wrong-object", "a job ran on a monitor object that was not constructed");
  if (s->injob) violate("M02", "overlap", "two jobs of monitor %d overlap", i);
  if (s->enables.empty()) violate("M01", "ran-before-enable", "monitor %d ran a job before enable was called", i);
  if (s->joined) violate("M03", "ran-after-join", "monitor %d ran a job after join had returned", i);
  if (failed_wait(cur->id)) violate("M04", "ran-after-failed-wait", "monitor %d ran a job although the wait for its release failed", i);
  s->injob = true;
  s->fib = cur->id;
  Job j; j.seq0 = sq; j.m0 = mono(); j.st0 = cur->stall; j.newp = -1; j.seq1 = 0;
  s->jobs.push_back(j); size_t k = s->jobs.size() - 1;
  note("monitor %d job %zu starts (clock %lld)", i, k + 1, (long long)rt());
  mix(0x10b0 + i * 64 + k);
  if (s->jobmax && choose(3) == 2) { i64 d = s->now_p * 100 * (1 + (i64)choose((u32)s->jobmax)); sleep_ns(d); }
  else if (choose(4) == 3) yield_now();
  if (s->setinjob && choose(6) == 5) { useconds_t np = (useconds_t)std::min<i64>(s->period0 * (1 + choose(3)), 4294967295); { Lib l; ((Mon *)m)->setPeriod(np); } s->jobs[k].newp = np; s->now_p = np; note("monitor %d period set to %u us inside the job", i, np); }
  if (selfjoin && !joining[i] && choose(6) == 5) { int r; { Lib l; r = ((Mon *)m)->join(); } if (r == 0) violate("M03", "join-lied", "join reported success to the monitor's own thread"); note("monitor %d cannot join itself", i); }
  Job &e = s->jobs[k]; e.seq1 = tick(); e.m1 = mono(); e.st1 = cur->stall;
  s->injob = false;
  note("monitor %d job %zu ends", i, k + 1);
}

static Ctl op_begin() { Ctl c; c.inv = tick(); c.m_inv = c.m_ret = mono(); c.ret = UINT64_MAX; c.res = 0; return c; }
static void op_end(Ctl &c) { c.ret = tick(); c.m_ret = mono(); }
static void enable(int i) { note("enable %d", i); MonState &s = ms[i]; if (s.enables.empty()) s.stall_en = s.fib >= 0 ? fiber(s.fib)->stall : 0; s.enables.push_back(op_begin()); size_t k = s.enables.size() - 1; Mon *m = mon[i]; int r = LIB(m->enable()); Ctl &c = s.enables[k]; c.res = r; op_end(c); note("enable %d -> %d", i, r); if (!s.threadless && !s.refused && r != 0) violate("M01", "enable-failed", "enable returned %d although the monitor's thread exists", r); }
static void disable(int i) { note("disable %d", i); MonState &s = ms[i]; Ctl c = op_begin(); Mon *m = mon[i]; disabling[i] = true; c.res = LIB(m->disable()); op_end(c); s.disables.push_back(c); note("disable %d -> %d", i, c.res); mix(c.res); if (!s.threadless && !s.refused && c.res != 0) violate("M03", "disable-failed", "disable returned %d", c.res); }
static bool running(int i) {
  MonState &s = ms[i]; bool dis = !s.disables.empty(); size_t jobs0 = s.jobs.size();
  Mon *m = mon[i]; bool r = LIB(m->isRunning());
  note("isRunning %d -> %d", i, r);
  if (r && (s.threadless || s.refused)) violate("M05", "running-without-thread", "monitor %d reports itself as running although a resource it needs was refused", i);
  if (r && s.enables.empty()) violate("M01", "running-before-enable", "monitor %d reports itself as running although enable was never called", i);
  bool ran = jobs0 && s.fib >= 0 && !failed_wait(s.fib);
  if (!r && ran && s.disables.empty() && !disabling[i]) violate("M01", "not-running", "monitor %d reports itself as not running although it has run %zu jobs and was never disabled", i, jobs0);
  if (r && dis) violate("M03", "running-after-disable", "monitor %d still reports itself as running after disable", i);
  return r;
}
static void set_period(int i, i64 p) { p = std::min<i64>(p, 4294967295); MonState &s = ms[i]; SetP x; x.inv = tick(); x.m_inv = mono(); x.p = p; Mon *m = mon[i]; useconds_t np = (useconds_t)p; LIBV(m->setPeriod(np)); x.ret = tick(); x.m_ret = mono(); s.sets.push_back(x); s.now_p = p; note("period of %d set to %lld us", i, (long long)p); useconds_t g = LIB(m->getPeriod()); if ((i64)g != p && !s.setinjob) violate("M02", "get-period", "the period reads %u after it was set to %lld", g, (long long)p); }

static void construct(int i, bool poison) {
  MonState &s = ms[i];
  s.jobs.clear(); s.injob = false; s.enables.clear(); s.disables.clear(); s.sets.clear(); s.fib = -1; s.stall_en = 0; s.joined = false; s.threadless = s.refused = false; disabling[i] = joining[i] = false; s.failed = 0; s.setinjob = 0;
  static const i64 per[3][6] = {{2000, 5000, 20000, 1000, 1500, 12345}, {1000000, 1500000, 2700000, 999999, 100000, 1000001}, {4294967, 4294968, 5000000, 65536001, 3600000000, 4294967295}};
  s.period0 = per[pclass][choose(6)]; s.now_p = s.period0; s.jobmax = choose(2) ? 1 + (int)choose(35) : 0;
  mon[i] = (Mon *)alloc(sizeof(Mon), 64, 0); char nm[20]; snprintf(nm, sizeof nm, "monitor%d", i); region(mon[i], sizeof(Mon), nm);
  if (poison) { u32 v = cfg_choose(8); for (size_t o = 0; o + 4 <= sizeof(Mon); o += 4) *(u32 *)((char *)mon[i] + o) = v == 6 ? 0xFFFFFFFFu : v == 7 ? 0xA5A5A5A5u : v; count_fault(FK_POISON); note("memory of monitor %d held the pattern %u", i, v); }
  int f0 = nfibers(); u64 cf = ps.refused;
  bool plain = choose(2); Mon *m = mon[i]; MonState *sp = &s; useconds_t p = (useconds_t)s.period0;
  note("construct monitor %d, period %lld us", i, (long long)s.period0);
  s.built = false;
  static const int POL[] = {SCHED_OTHER, SCHED_FIFO, SCHED_RR, 99}; u32 pc = choose(3); if (pf.create_fail || pf.init_fail) pc = choose(4);
  unsigned pol = (unsigned)POL[pc], pri = pc ? 1 + choose(99) : 0; if ((pf.create_fail || pf.init_fail) && choose(8) == 7) pri = choose(2) ? 100 : 0;
  if (plain) { Lib l; new (m) Mon(p, sp); } else { note("policy %u priority %u", pol, pri); Lib l; new (m) Mon(p, pol, pri, sp); }
  s.built = true; s.refused = ps.refused > cf; if (s.refused) widen("M05");
  s.threadless = nfibers() == f0; if (!s.threadless) s.fib = f0;
  if (s.threadless && !ps.first_fail) violate("M01", "no-thread", "constructing a monitor created no thread");
  bool legit = plain || (pol == SCHED_OTHER ? (int)pri <= os.other_prio_max : (pol == SCHED_FIFO || pol == SCHED_RR) && pri >= 1 && pri <= 99);
  if (legit && !pf.create_fail && !pf.init_fail && (s.refused || s.threadless)) violate("M01,M06", "not-created", "monitor %d (policy %u, priority %u) was not created although the operating system allows it", i, plain ? 0 : pol, plain ? 0 : pri);
  if (!s.threadless && !plain) { const ThreadAttr &a = thread_attr(s.fib); if (a.policy != (int)pol || a.prio != (int)pri) violate("M06", "thread-attributes", "monitor %d was constructed with policy %u and priority %u, its thread was created with policy %d and priority %d", i, pol, pri, a.policy, a.prio); }
  if (nfibers() > f0 + 1) violate("M06,M05", "extra-threads", "constructing a monitor created %d threads", nfibers() - f0);
  if (ps.attrs_left) violate("M05", "leak", "%llu thread attribute objects stay allocated after the construction of monitor %d", (unsigned long long)ps.attrs_left, i);
  note("monitor %d constructed%s", i, s.threadless ? " without a thread" : "");
}
// Every job k must have been released at one activation time A plus the periods; job k=1.. Judges until `to` (mono).
static void check_timing(int i, i64 to, u64 to_seq) {
  MonState &s = ms[i]; if (s.enables.empty() || s.threadless) return;
  const Ctl &en = s.enables[0];
  i64 end0 = s.jobs.empty() ? to : s.jobs[0].m0;
  // activation: a clock value between enable and the first job, soon after enable
  i64 alo = rt_inf(en.m_inv, end0) - clk.quantum - eps;
  u64 stall_to_first = (s.jobs.empty() ? fiber(s.fib)->stall : s.jobs[0].st0) - s.stall_en;
  i64 ahi = rt_sup(en.m_inv, std::min(end0, en.m_ret + 5 * MS + (i64)stall_to_first), true) + eps;
  // every set of the period, those inside jobs too; releases computed while one of them was under way may use either value
  std::vector<SetP> sets = s.sets; for (auto &j : s.jobs) if (j.newp >= 0) { SetP x; x.inv = x.ret = j.seq0; x.m_inv = x.m_ret = j.m0; x.p = j.newp; sets.push_back(x); }
  struct Hyp { i64 rel, alo, ahi; const char *lowhy, *hiwhy; int lok, hik; }; // rel: release offset of the job relative to the activation
  std::vector<Hyp> H; H.push_back(Hyp{0, alo, ahi, "enable", "prompt activation", 0, 0});
  i64 prev_end = en.m_inv; u64 prev_st = s.stall_en; u64 prev_seq = en.inv; bool first = true;
  size_t n = s.jobs.size();
  for (size_t k = 0; k <= n; k++) {
    bool ghost = k == n; if (ghost && failed_wait(s.fib)) break; // a job that had not started by the end of the observation
    if (ghost && (n && !s.jobs[n - 1].seq1)) break;
    i64 start = ghost ? to : s.jobs[k].m0; u64 st = ghost ? fiber(s.fib)->stall : s.jobs[k].st0; u64 sseq = ghost ? to_seq : s.jobs[k].seq0;
    // the periods that may have been in force when this release was computed
    i64 uncertain_until = first ? start : prev_end + eps + (i64)(st - prev_st);
    i64 p = s.period0; u64 best = 0; for (auto &x : sets) if (x.ret < prev_seq && x.inv >= best) { p = x.p; best = x.inv; }
    std::vector<i64> ps1(1, p); for (auto &x : sets) if (x.ret >= prev_seq && x.inv <= sseq && x.m_inv <= uncertain_until && std::find(ps1.begin(), ps1.end(), x.p) == ps1.end()) ps1.push_back(x.p);
    std::vector<Hyp> G; for (auto &h : H) for (i64 q : ps1) { Hyp g = h; g.rel += q * US; bool dup = false; for (auto &o : G) dup |= o.rel == g.rel && o.alo == g.alo && o.ahi == g.ahi; if (!dup) G.push_back(g); }
    if (ps1.size() > 1) stat("releases_during_set", 1);
    if (G.size() > 200) { G.clear(); G.push_back(Hyp{0, INT64_MIN / 2, INT64_MAX / 2, "", "", 0, 0}); } // start again with an unknown base
    H.clear();
    i64 slack = (i64)(st - prev_st) + eps; i64 before = start - slack;
    i64 after = prev_end + slack; // the thread has computed the release and waits for it from here on
    if (first) { before -= 5 * MS; after += 5 * MS; }
    for (size_t z = 0; z < G.size(); z++) {
      Hyp g = G[z];
      if (!ghost) { i64 h = rt_sup(prev_end, start, true) - g.rel; if (h + eps < g.ahi) { g.ahi = h + eps; g.hiwhy = "start of job"; g.hik = (int)k + 1; } }
      if (before > after) { i64 l = rt_sup(after, before, false) - g.rel; if (l != INT64_MIN - g.rel && l > g.alo) { g.alo = l; g.lowhy = ghost ? "no further job by the end of the observation, expected job" : "late start of job"; g.lok = (int)k + 1; } }
      if (g.alo <= g.ahi + eps) H.push_back(g);
      else if (H.empty() && z + 1 == G.size()) violate("M02,M04", g.hik > g.lok ? "early" : "late", "monitor %d (period %lld us): no activation time explains the releases: %s %d needs it after %lld, %s %d needs it before %lld", i, (long long)s.period0, g.lowhy, g.lok, (long long)g.alo, g.hiwhy, g.hik, (long long)g.ahi);
    }
    if (ghost || !s.jobs[k].seq1) break;
    prev_end = s.jobs[k].m1; prev_st = s.jobs[k].st1; prev_seq = s.jobs[k].seq1; first = false;
  }
  stat("jobs_judged", n);
}
static i64 maxp(int i) { i64 p = ms[i].period0; for (auto &x : ms[i].sets) p = std::max(p, x.p); for (auto &x : ms[i].jobs) p = std::max(p, x.newp); return p; }
static i64 back; // total backward clock movement so far
static i64 lastrt, lastmono;
static i64 total_back() { return back; }

static int racing[4];
static void *enabler(void *a) { int i = (int)(intptr_t)a; if (choose(2)) sleep_ns((i64)choose(20) * US); enable(i); return nullptr; }
static void stop(int i, bool reenable, bool others) {
  MonState &s = ms[i];
  u64 st0 = s.fib >= 0 ? fiber(s.fib)->stall : 0; u64 mst = cur->stall; i64 b0 = total_back();
  racing[i] = reenable && choose(2) ? spawn(enabler, (void *)(intptr_t)i, "enabler") : -1; if (racing[i] >= 0) { others = true; if (choose(3)) sleep_ns((i64)choose(20) * US); }
  disable(i); if (choose(4) == 3) disable(i);
  i64 d0 = s.disables[0].m_ret;
  u64 dseq = s.disables[0].ret;
  if (reenable && racing[i] < 0) { enable(i); }
  running(i);
  if (choose(3) == 2) sleep_ns((i64)choose(30) * s.now_p * 100);
  running(i);
  note("join %d", i); i64 jc = mono(); joining[i] = true;
  Mon *m = mon[i]; int r; bool again = true;
  if (joinfail && !s.threadless && !s.refused && choose(2)) { // the first attempt fails
    pf.join_fail = 1000; u64 jf = ps.join_failed; r = LIB(m->join()); pf.join_fail = 0;
    if (ps.join_failed > jf && r == 0) violate("M03", "join-lied", "join reported success although waiting for the monitor's thread failed");
    if (ps.join_failed > jf) { note("join %d failed", i); jc = mono(); } else again = false;
  }
  if (again) r = LIB(m->join());
  i64 t = mono(); s.joined = true; u64 jseq = tick();
  note("join %d -> %d", i, r);
  if (s.threadless || s.refused) {
    bool en_err = false; for (auto &e : s.enables) if (e.res) en_err = true;
    if (r == 0 && !en_err) violate("M05", "failure-not-reported", "the monitor did not get what it needs to run, but neither enable nor join reported an error");
    if (r == 0 && s.enables.empty()) violate("M05", "failure-not-reported", "the monitor did not get what it needs to run, but join reported success");
    return;
  }
  if (r != 0) violate("M03", "join-failed", "join returned %d after disable", r);
  if (!fiber_done(s.fib)) violate("M03", "join-early", "join returned although the monitor's thread had not ended");
  // one period, the rest of a job, what the processor took away, and what backward clock steps add
  i64 jobrest = 0; int after = 0;
  for (auto &j : s.jobs) { if (j.seq0 > dseq) after++; if (!j.seq1) violate("M03", "job-cut", "the monitor's thread ended inside a job"); if (j.m1 > d0) jobrest += j.m1 - std::max(j.m0, d0); }
  if (after > 1) violate("M03", "jobs-after-disable", "%d jobs started after disable had returned", after);
  i64 limit = maxp(i) * US + jobrest + (i64)(fiber(s.fib)->stall - st0) + (i64)(cur->stall - mst) + (total_back() - b0) + 3 * MS + 20 * eps + 1000000 * (others ? 5 : 1) ;
  if (!pf.jump && t > std::max(d0 + limit, jc + (i64)(cur->stall - mst) + MS)) violate("M03", "join-slow", "join returned %lld ns after disable, with a period of %lld us (bound %lld ns, job %lld ns)", (long long)(t - d0), (long long)maxp(i), (long long)limit, (long long)jobrest);
  if (running(i)) violate("M03", "running-after-join", "the monitor reports itself as running after join");
  s.quietseq = jseq;
}
static void stuck(const char *why) {
  for (int i = 0; i < nmon; i++) if (ms[i].fib >= 0 && fiber(ms[i].fib)->state != F_DONE && !ms[i].disables.empty() && !ms[i].threadless) { report("M03,M04,M05", "never-stops", "%s: monitor %d never stops after disable", why, i); return; }
  report("*", "stuck", "%s: no progress", why);
}
static void on_exit_check(Fiber *f) { if (ps.mutex_held_at_exit) report("M04", "lock-held", "a monitor's thread ended while holding its lock"); }

struct TF { bool poison, spur, eintr, late, jump, fail, slow, setp, multi, shorty, stops; bool werr = false; bool longrun = false; };
static void *ctl_main(void *a) { // a second thread that uses the same monitor
  int i = (int)(intptr_t)a; int n = 1 + (int)choose(3);
  for (int k = 0; k < n; k++) { sleep_ns((i64)choose(20) * ms[i].period0 * 100); if (phase_end) break; u32 c = choose(3); if (c == 0) enable(i); else running(i); }
  return nullptr;
}
// holds up a monitor's thread wherever it happens to be, for some time, while the others go on
static void *hold_main(void *) {
  int n = 1 + (int)choose(4); i64 unit = 0; for (int i = 0; i < nmon; i++) unit = std::max(unit, ms[i].period0 * US);
  for (int k = 0; k < n && !phase_end; k++) {
    int i = (int)choose((u32)nmon); if (ms[i].fib < 0 || fiber_done(ms[i].fib)) continue;
    sleep_ns((i64)choose(20) * unit / 10); if (phase_end || fiber_done(ms[i].fib)) break;
    arm_pause(ms[i].fib, fiber(ms[i].fib)->npoints + 1 + choose(60));
    for (int w = 0; w < 30 && !paused(); w++) { if (phase_end || fiber_done(ms[i].fib)) break; sleep_ns(unit / 7 + 1); }
    if (paused()) { sleep_ns(1 + (i64)choose(25) * unit / 10); stat("held_up"); }
    thaw();
  }
  thaw();
  return nullptr;
}
static bool started[4];
static void life(const TF &f) {
  static const i64 costs[] = {0, 1, 10, 100}; clk.point_cost = costs[choose(4)]; clk.read_cost = 1; clk.quantum = 1; pclass = choose(6) == 5 ? 2 : choose(2);
  static const i64 secs[] = {1000, 1, 1700000000, 2147483645, 4294967295}, nss[] = {0, 999999999, 999000000, 500000000};
  u32 si = choose(5); if (f.jump && si == 1) si = 0;
  if (choose(2)) start_clock(secs[si] * 1000 * MS + (choose(2) ? nss[choose(4)] : (i64)choose(1000000) * 1000 + choose(1000)));
  if (choose(4) == 3) { static const i64 qs[] = {1000, 100, 1 * MS, 10 * MS}; clk.quantum = qs[choose(pclass ? 4 : 2)]; static const i64 ph[] = {0, 1, -1}; clk.phase = ph[choose(3)]; count_fault(FK_CLOCK_COARSE); }
  eps = 200 * clk.point_cost + clk.quantum + 50;
  sc.max_points = 60000; sc.fair_points = 600000; on_stuck = stuck; on_thread_exit = on_exit_check; phase_end = false; back = 0;
  nmon = f.multi && pclass != 2 && choose(2) ? 2 + (int)choose(2) : 1;
  pf.on = true;
  if (f.slow && choose(2)) pf.slowstart = 700;
  if (f.spur && choose(4)) pf.spurious = choose(2) ? 300 : 800;
  if (f.eintr && choose(4)) pf.eintr = choose(2) ? 100 : 600;
  if (f.late && choose(3)) { pf.late = 300; pf.late_max = choose(2) ? 5 * MS : 3000 * MS; }
  if (f.jump && choose(3)) { pf.jump = 20 + choose(200); pf.jump_budget = 1 + choose(6); pf.jump_max = choose(3) == 2 ? (pclass ? 60000 * MS : 300 * MS) : choose(2) ? (pclass ? 2000 * MS : 20 * MS) : 1 * MS; }
  joinfail = f.stops && choose(4) == 3; selfjoin = f.stops && choose(6) == 5;
  if (f.werr) pf.waiterr = 20 + choose(200);
  if (f.fail) { if (choose(2)) pf.create_fail = 600; else pf.init_fail = 100 + 200 * choose(3); }
  i64 jm = pf.jump_max; u32 jp = pf.jump; pf.jump = 0;
  for (int i = 0; i < nmon; i++) { construct(i, f.poison); ms[i].setinjob = f.setp && choose(2); started[i] = false; }
  pf.jump = jp; pf.jump_max = jm; pf.create_fail = pf.init_fail = 0;
  for (int i = 0; i < nmon; i++) { running(i); if (choose(2)) { sleep_ns((i64)choose(30) * 20 * US); running(i); } }
  if (f.spur || f.eintr) widen("M04");
  bool ctl = choose(4) == 3; int ctlmon = ctl ? (int)choose((u32)nmon) : -1, ctlid = -1; int holdid = -1;
  bool never = choose(12) == 11;
  if (never) { // never enabled: waits, then must not have run anything
    sleep_ns((i64)choose(50) * MS); for (int i = 0; i < nmon; i++) running(i); stat("never_enabled");
  } else {
    for (int i = 0; i < nmon; i++) { enable(i); if (choose(3) == 2) enable(i); if (choose(3) == 2 && i + 1 < nmon) sleep_ns((i64)choose(30) * 10 * US); }
    if (choose(nmon > 1 ? 2 : 6) == 1) holdid = spawn(hold_main, nullptr, "hold");
    if (ctl) ctlid = spawn(ctl_main, (void *)(intptr_t)ctlmon, "ctl");
    bool early = f.stops && choose(3) != 0; // disable soon: during start, activation, first wait
    if (early) { u32 c = choose(4); if (c == 1) yield_now(); else if (c == 2) sleep_ns((i64)choose(400) * US); else if (c == 3) sleep_ns((i64)choose(30) * ms[0].period0 * 100); }
    else {
      int steps = 1 + (int)choose(f.shorty ? 4 : 8); i64 unit = 0; for (int i = 0; i < nmon; i++) unit = std::max(unit, ms[i].period0);
      for (int k = 0; k < steps; k++) {
        sleep_ns((i64)(1 + choose(30)) * unit * 100);
        u32 c = choose(6); int i = (int)choose((u32)nmon);
        if (c == 0) running(i); else if (c == 1) enable(i);
        else if (c == 2 && f.setp && !ms[i].setinjob) set_period(i, ms[i].period0 * (1 + choose(3)) / (choose(3) == 2 ? 3 : 1));
        else if (c == 3 && f.jump && jp) { i64 d = (i64)(1 + choose(20)) * jm / 20; jump_clock(choose(2) ? d : -d); }
      }
    }
  }
  if (f.longrun && !never) sleep_ns((i64)(100 + choose(500)) * ms[0].period0 * US);
  bool wait_first = !f.stops && !f.werr && !never && !pf.jump && choose(2);
  if (wait_first) { // liveness: every enabled monitor runs
    for (int i = 0; i < nmon; i++) if (!ms[i].threadless && !ms[i].refused && ms[i].jobs.empty()) {
      for (int tries = 0; tries < 400 && ms[i].jobs.empty(); tries++) { sleep_ns(maxp(i) * US + 6 * MS); i64 due = ms[i].enables[0].m_ret + maxp(i) * US + 6 * MS + (i64)(fiber(ms[i].fib)->stall - ms[i].stall_en) + 10 * eps + back;
        if (mono() > due && ms[i].jobs.empty()) { if (fiber(ms[i].fib)->state == F_RUN || paused(ms[i].fib) || (fiber(ms[i].fib)->late && fiber(ms[i].fib)->timed)) continue; violate("M01,M02", "does-not-run", "monitor %d was enabled but ran no job within a period", i); } }
    }
  }
  phase_end = true;
  for (int i = 0; i < nmon; i++) { MonState &s = ms[i]; i64 t = mono(); u64 q = tick(); bool blocked_late = s.fib >= 0 && (fiber(s.fib)->state == F_RUN || paused(s.fib) || fiber(s.fib)->late);
    stop(i, f.stops && choose(6) == 5, nmon > 1 || ctl);
    (void)blocked_late;
    if (!s.enables.empty() && !s.threadless && !s.refused) { // judge the releases up to the disable
      if (!s.disables.empty() && s.enables[0].ret < s.disables[0].inv && s.enables[0].ret < q) check_timing(i, blocked_late ? std::min(t, s.jobs.empty() ? s.enables[0].m_inv : s.jobs.back().m1) : t, q); }
  }
  pf.on = false;
  for (int i = 0; i < nmon; i++) if (racing[i] >= 0) wait_all(1ull << racing[i]);
  if (holdid >= 0) wait_all(1ull << holdid);
  if (ctlid >= 0) wait_all(1ull << ctlid); // nobody uses a monitor while it is destroyed
  if (choose(3) == 2) { sleep_ns(3 * maxp(0) * US); }
  for (int i = 0; i < nmon; i++) {
    running(i); Mon *m = mon[i]; { Lib l; m->~Mon(); }
    memset((void *)m, cfg_choose(2) ? 0xFF : 0, sizeof(Mon)); count_fault(FK_POISON);
  }
  for (int i = 0; i < nmon; i++) mon[i] = nullptr;
  sleep_ns(20 * MS);
  if (ps.mutex_held_at_exit) violate("M04", "lock-held", "a thread ended while holding a lock");
  if (ps.einval) violate("M02,M04", "bad-timespec", "a system call got an invalid time");
  bool any = ps.first_fail != 0; size_t tj = 0; for (int i = 0; i < nmon; i++) { tj += ms[i].jobs.size(); if (!ms[i].jobs.empty()) any = true; }
  if (any || f.stops || never) nontrivial();
  stat("jobs", tj); stat("monitors", nmon); u64 h = 0; for (int i = 0; i < nmon; i++) h = h * 1000003 + ms[i].jobs.size() * 31 + ms[i].threadless * 7 + ms[i].disables.size(); state_mark(h);
  describe("%d monitors, period %lld us, %zu jobs, job length up to %d/10 period, faults:%s%s%s%s%s%s", nmon, (long long)ms[0].period0, tj, ms[0].jobmax, pf.spurious ? " spurious" : "", pf.eintr ? " interrupted" : "", pf.late ? " late" : "", jp ? " clock-steps" : "", ps.first_fail ? " creation-failure" : "", pf.slowstart ? " slow-start" : "");
}
SCENARIO(M01, starting, 3) { TF f = {true, false, false, false, false, false, true, false, true, true, false}; f.eintr = choose(3) == 2; life(f); }
SCENARIO(M02, periodic, 3) { TF f = {true, false, false, false, false, false, true, true, true, false, false}; f.late = choose(3) == 2; life(f); }
SCENARIO(M02, clock_steps, 2) { TF f = {true, false, false, false, true, false, true, false, true, false, false}; life(f); }
SCENARIO(M02, longrun, 1) { TF f = {false, false, false, false, false, false, false, false, false, false, false}; f.longrun = true; life(f); }
SCENARIO(M03, stopping, 3) { TF f = {true, false, false, false, false, false, true, false, true, true, true}; f.setp = choose(4) == 3; f.late = choose(4) == 3; life(f); }
ALSO(M03, periodic, 1)
SCENARIO(M04, disturbed, 3) { TF f = {true, true, true, true, false, false, true, true, true, false, false}; f.stops = choose(4) == 3; life(f); }
SCENARIO(M04, failing_wait, 1) { TF f = {true, false, false, false, false, false, true, false, true, false, false}; f.werr = true; f.stops = choose(3) == 2; f.spur = f.eintr = choose(2); life(f); }
SCENARIO(M05, failing, 3) { TF f = {true, false, false, false, false, true, true, false, true, true, false}; f.stops = choose(2); life(f); }
ALSO(M06, failing, 2)
ALSO(M06, starting, 1)
