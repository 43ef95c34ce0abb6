// RMTLD3 scenarios: trace reader, formulas and terms (real code) over ring buffers fed by real writers, in histories with
// interleaved pushes; and the end-to-end scenario with instrumented threads and a periodic monitor.
#include "sim.h"
#include <algorithm>
#include <circularbuffer.h>
#include <periodicmonitor.h>
#include <reader.h>
#include <rmtld3/reader.h>
#include <writer.h>
#include "formula.h"
using namespace sim;
// unit of the long bounds: a second, as far as time stamps can hold it
#ifdef SIM_ARM
static constexpr long BIG = 100000;
#else
static constexpr long BIG = 1000000000;
#endif
unsigned props_[3];
int count_until_iterations;

struct FI { int kind; const char *name; int fn; };
static const FI forms[] = {
#define F(k, ...) {k, #__VA_ARGS__, 0},
#define G(k, ...)
#include "formulas.inc"
};
static const int NF = sizeof forms / sizeof *forms;
static V (*const refs[])(const RTr &, int) = {
#define F(k, ...) &__VA_ARGS__::ref,
#define G(k, ...)
#include "formulas.inc"
};
struct DI { long long u; const char *name; };
static const DI durs[] = {
#define F(k, ...)
#define G(u, ...) {u, #__VA_ARGS__},
#include "formulas.inc"
};
static const int ND = sizeof durs / sizeof *durs;
static Dur (*const drefs[])(const RTr &, int, long long, long long) = {
#define F(k, ...)
#define G(u, ...) &rdur<__VA_ARGS__>,
#include "formulas.inc"
};
template <class T> struct Tab {
  typedef V (*Fn)(T &, timespan &);
  typedef duration (*Dn)(T &, timespan &);
  static Fn f(int i) {
    static const Fn t[] = {
#define F(k, ...) &__VA_ARGS__::template lib<T>,
#define G(k, ...)
#include "formulas.inc"
    };
    return t[i];
  }
  static Dn d(int i) {
    static const Dn t[] = {
#define F(k, ...)
#define G(u, ...) &duration_term<T, E2<T, __VA_ARGS__>, u>,
#include "formulas.inc"
    };
    return t[i];
  }
};
// a formula without nested temporal operators (for long windows)
static bool flat(const char *s) { int k = 0; static const char *ops[] = {"Until", "Since", "AlwaysL", "AlEq", "EvEq", "HistL", "HistEq", "PastEq", "EvU", "Dur"}; if (strstr(s, "UntilIn")) return false; for (const char *o : ops) for (const char *p = s; (p = strstr(p, o)); p++) k++; return k < 2; }
// an in-between until with a temporal operand: the instants it tries depend on later events
static bool nested_in(const char *s) {
  static const char *ops[] = {"Until", "Since", "AlwaysL", "AlEq", "EvEq", "HistL", "HistEq", "PastEq", "EvU", "Dur"};
  for (const char *p = s; (p = strstr(p, "UntilIn<")); p += 8) {
    const char *q = p + 8; int d = 1; while (*q && d) { d += *q == '<' ? 1 : *q == '>' ? -1 : 0; q++; }
    std::string in(p + 8, q); for (const char *o : ops) if (in.find(o) != std::string::npos) return true;
  }
  return false;
}
// values of events and propositions: small, or equal up to their low bits
static int vmap_; static int val(int d) { return vmap_ == 1 ? 1 + 256 * (d - 1) : vmap_ == 2 ? 1 + 65536 * (d - 1) : vmap_ == 3 ? d | 0x40000000 : d; }
static void set_props() { vmap_ = choose(3) == 2 ? 1 + (int)choose(3) : 0; for (int i = 0; i < 3; i++) props_[i] = (unsigned)val(1 + (int)choose(3)); }
static const char *vn(V v) { return v == T_TRUE ? "true" : v == T_FALSE ? "false" : v == T_UNKNOWN ? "unknown" : "none of the three values"; }
static const char *kind_props(int k) { static const char *s[] = {"R02,R04", "R02", "R04", "R02,R04", "R05", "R02,R05", "R04,R05", "R02,R04,R05"}; return s[k & 7]; }

struct Opt { int want; bool conc; bool grow; bool mono; bool twice; }; // want: formula kind mask that must be present (0 any)

template <size_t N> struct Wd {
  typedef Event<int> E; typedef RTML_buffer<E, N> B; typedef RTML_writer<B> Wr; typedef RTML_reader<B> Rd; typedef RMTLD3_reader<Rd> T;
  B *buf; Wr *w[2]; int nw; T *tr; std::vector<RE> all; int done; int start, n; int gapmax; bool stamped; long long last; int vals; bool ever; int conc_n; bool big;
  static Wd *S;
  RTr view() { return RTr{all.data() + start, n}; }

  void push1() { // one event, by a writer or directly
    E e; int d = val(1 + (int)choose((u32)vals)); e.setData(d);
    long long g = 1 + (long long)choose((u32)gapmax); if (big) { g *= BIG; if (choose(4) == 3) g += (long long)choose(3) - 1; } int mode = nw ? (int)choose((u32)nw + 1) : 0;
    if (stamped) { if (!nw) mode = 0; else if (!mode) mode = 1; }
    if (stamped && mode) { sleep_ns(g); all.push_back(RE{0, d}); { Lib l; w[mode - 1]->push(e); } all.back().t = e.getTime(); last = e.getTime(); }
    else { last += g; timespan t = (timespan)last; e.setTime(t); all.push_back(RE{last, d}); if (mode) { Lib l; w[mode - 1]->push_all(e); } else { Lib l; buf->push(e); } }
    done++; mix((u64)last * 31 + (u64)d);
    note("pushed event %zu: (%d at %lld)", all.size() - 1, d, last);
  }
  long long inside_gap(int k) { long long d = all[k + 1].t - all[k].t; if (d < 1000000) return (long long)choose((u32)d); u32 c = choose(4); return c == 0 ? 0 : c == 1 ? d - 1 : c == 2 ? 1 : (long long)((u64)choose(1u << 31) * 4 % (u64)d); }
  void make_world() {
    buf = make<B>(0); region(buf, sizeof *buf, "buf"); nw = (int)choose(3);
    for (int i = 0; i < nw; i++) { void *p = alloc(sizeof(Wr), 64, 0); region(p, sizeof(Wr), "writer"); Lib l; w[i] = new (p) Wr(*buf); }
    void *p = alloc(sizeof(T), 64, cfg_choose(2) ? 0xA5 : 0); region(p, sizeof(T), "trace"); { Lib l; tr = new (p) T(*buf); }
    all.clear(); all.reserve(4096); done = 0; start = 0; n = 0; ever = false; stamped = nw > 0 && choose(3) == 2; last = 0; big = choose(5) == 4; if (choose(3) == 2) { static const i64 st[] = {1700000000000000000ll, 0, 2147483640, 4294967290, 9007199254740988ll, 2147483647999999500ll}; start_clock((i64)(timespan)(st[choose(6)] + (i64)choose(1000))); if (choose(2)) last = rt(); } vals = 2 + (int)choose(2); gapmax = choose(3) == 0 ? 2 : 1 + (int)choose(12);
    set_props();
    if (stamped) { last = rt(); }
  }
  // synchronize; `lo` events are known to be complete, all.size() have begun
  void sync(bool conc) {
    int lo = done; auto g = LIB(tr->synchronize()); int hi = (int)all.size();
    LIBV(tr->reset()); int len = (int)LIB(tr->length()); note("synchronize -> %d, %d events", (int)g, len);
    if (!conc) {
      if (lo == 0) { n = 0; return; }
      int kept = std::min(lo, (int)N); if (!ever || start < lo - kept) start = lo - kept; ever = true;
      n = lo - start;
      if (len != n) violate("C05,C06", "window", "the reader's window has %d events instead of %d", len, n);
    } else {
      if (start + len < lo || start + len > hi) violate("C04,C05,C06", "window", "the reader's window ends at event %d, not between %d and %d", start + len, lo, hi);
      while (done < start + len) sleep_ns(1); // until the pusher has noted the stamp of its last event
      n = len;
    }
  }
  size_t bottom() { size_t c = tr->get_cursor(); LIBV(tr->reset()); size_t b = tr->get_cursor(); tr->get_cursor() = c; return b; }
  // positions the trace at event i of the window; when the library's own positioning is wrong (R01), step by step
  bool at(int i) { E e; auto r = LIB(tr->read(e)); return r == Rd::AVAILABLE && (long long)e.getTime() == all[start + i].t && e.getData() == all[start + i].d; }
  void go(int i) {
    u32 how = choose(3);
    if (how && i < n - 1) { if (how == 1) LIBV(tr->reset()); timespan t = (timespan)all[start + i].t; auto r = LIB(tr->set(t)); if (r == Rd::AVAILABLE && at(i)) return; }
    LIBV(tr->reset()); for (int k = 0; k < i; k++) LIBV(tr->increment_cursor());
    if (!at(i)) violate("R01,R06", "position", "stepping to event %d of %d does not reach it", i, n);
  }
  std::string tracestr() { std::string s; char b[40]; for (int i = 0; i < n && i < 24; i++) { snprintf(b, sizeof b, "%s%lld:%d", i ? " " : "", all[start + i].t - all[start].t, all[start + i].d); s += b; } return s; }
  V eval(int f, int i, const char *props) {
    size_t c = tr->get_cursor(); size_t b0 = bottom(); size_t l0 = LIB(((Rd *)tr)->length());
    timespan t = (timespan)all[start + i].t, t0 = t;
    V v; auto fn = Tab<T>::f(f);
    { Lib l; v = fn(*tr, t); }
    note("%s at event %d -> %s", forms[f].name, i, vn(v)); mix((u64)v * 7919 + (u64)f);
    if (tr->get_cursor() != c) violate("R06", "cursor-moved", "evaluating %s moved the cursor from %zu to %zu", forms[f].name, c, tr->get_cursor());
    if (bottom() != b0 || LIB(((Rd *)tr)->length()) != l0) violate("R06", "window-moved", "evaluating %s changed the reader's window", forms[f].name);
    if (t != t0) violate("R06", "time-changed", "evaluating %s changed the time from %ld to %ld", forms[f].name, (long)t0, (long)t);
    if (props) {
      V x = refs[f](view(), i);
      if (v != x) { std::string s = tracestr(); violate(props, "wrong-verdict", "%s (a=%u b=%u c=%u) at event %d of [%s] is %s, must be %s", forms[f].name, props_[0], props_[1], props_[2], i, s.c_str(), vn(v), vn(x)); }
    }
    stat("evaluations"); stat(v == T_TRUE ? "verdict_true" : v == T_FALSE ? "verdict_false" : "verdict_unknown");
    return v;
  }
  static void *pusher(void *) { Wd &s = *S; for (int i = 0; i < s.conc_n; i++) { if (choose(2)) yield_now(); s.push1(); } return nullptr; }
  int pick(int want) { for (int k = 0; k < 60; k++) { int f = (int)choose(NF); if (big != !!(forms[f].kind & 8) && forms[f].kind) continue; if (N > 64 && !flat(forms[f].name)) continue; if (!want || (forms[f].kind & want) || forms[f].kind == 0) return f; } return 0; }

  void run(const Opt &o) {
    S = this; sc.fair_points = 40000000; clk.point_cost = 0; clk.read_cost = 1; make_world();
    int pre = choose(3) ? (int)choose(3 * N) : 0; for (int i = 0; i < pre; i++) push1();
    if (pre && choose(4) == 3) { sync(false); count_fault(FK_BURST); }
    int rounds = 1 + (int)choose(o.grow ? 5 : 2);
    struct Past { int f, idx, start; V v; bool ref; }; std::vector<Past> past; past.reserve(64); int definite = 0;
    for (int k = 0; k < rounds; k++) {
      int add = (int)choose(k ? 5 : N + 2); for (int i = 0; i < add; i++) push1();
      if (choose(6) == 5) { int lap = (int)N + 1 + (int)choose(4); for (int i = 0; i < lap; i++) push1(); count_fault(FK_BURST); }
      sync(false); if (!n) continue;
      // with a concurrent writer that does not overwrite the window
      bool conc = o.conc && (int)all.size() < start + (int)N && choose(2);
      if (conc) { conc_n = 1 + (int)choose((u32)(start + (int)N - (int)all.size())); if (conc_n > 6) conc_n = 6; spawn(pusher, nullptr, "pusher"); if (choose(2)) { yield_now(); sync(true); } }
      int evs = 1 + (int)choose(3);
      if (o.mono) for (auto &p : past) { // earlier verdicts again, on the longer trace
        if (p.idx < start || (p.start != start && (forms[p.f].kind & 2))) continue;
        go(p.idx - start); V v = eval(p.f, p.idx - start, nullptr); if (v != T_UNKNOWN || p.v != T_UNKNOWN) definite++;
        bool ref = nested_in(forms[p.f].name) && v == refs[p.f](view(), p.idx - start);
        if (p.v != T_UNKNOWN && v != p.v && ref && p.ref) known("in-between-withdrawn", "%s was %s and became %s", forms[p.f].name, vn(p.v), vn(v));
        if (p.v != T_UNKNOWN && v != p.v) { std::string s = tracestr(); violate("R03", "withdrawn", "%s (a=%u b=%u c=%u) at event %d was %s and became %s on the longer trace [%s]", forms[p.f].name, props_[0], props_[1], props_[2], p.idx - start, vn(p.v), vn(v), s.c_str()); }
        p.v = v; p.ref = ref;
      }
      for (int q = 0; q < evs; q++) {
        int f = pick(o.want), i = (int)choose((u32)n); go(i);
        const char *pr = o.mono || o.twice ? nullptr : kind_props(forms[f].kind);
        V v = eval(f, i, pr);
        if (v != T_UNKNOWN) definite++;
        if (o.mono && past.size() < 20) past.push_back(Past{f, start + i, start, v, nested_in(forms[f].name) && v == refs[f](view(), i)});
        if (o.twice) {
          int more = (int)choose(3); for (int m = 0; m < more; m++) { int f2 = pick(0); eval(f2, i, nullptr); }
          if (choose(2)) { int i2 = (int)choose((u32)n); go(i2); eval(pick(0), i2, nullptr); go(i); }
          V v2 = eval(f, i, nullptr);
          if (v2 != v) violate("R06", "second-evaluation-differs", "evaluating %s a second time gives %s instead of %s", forms[f].name, vn(v2), vn(v));
        }
      }
      if (conc) { wait_all(); }
    }
    if (definite) nontrivial(); stat("traces"); state_mark((u64)start % (N + 1) * 64 + (u64)n);
    if (o.twice) intact();
    describe("buffer of %zu, %zu events, %d rounds, window of %d events starting at %d, %d writers", N, all.size(), rounds, n, start, nw);
  }
  void intact() { // monitoring changed nothing in the buffer
    size_t b, t; LIBV(buf->state(b, t)); int kept = std::min(done, (int)N);
    size_t len = (t + N + 1 - b) % (N + 1); if ((int)len != kept) violate("R06,E01", "buffer-changed", "the buffer holds %zu events instead of %d", len, kept);
    for (int k = 0; k < kept; k++) { E e; size_t ix = (b + k) % (N + 1); LIBV(buf->read(e, ix)); RE &x = all[all.size() - kept + k]; if ((long long)e.getTime() != x.t || e.getData() != x.d) violate("R06,E01", "buffer-changed", "event %d of the buffer is not the one pushed", k); }
  }
  // ---- R01
  void cursor() {
    S = this; sc.fair_points = 40000000; clk.point_cost = 0; clk.read_cost = 1; make_world();
    int pre = choose(3) ? (int)choose(3 * N) : 0; for (int i = 0; i < pre; i++) push1();
    int rounds = 1 + (int)choose(3);
    for (int k = 0; k < rounds; k++) {
      int add = (int)choose(N + 2); for (int i = 0; i < add; i++) push1();
      if (choose(5) == 4) { int lap = (int)N + 1 + (int)choose(4); for (int i = 0; i < lap; i++) push1(); count_fault(FK_BURST); }
      sync(false); if (!n) continue;
      bool conc = (int)all.size() < start + (int)N && choose(3) == 2;
      if (conc) { conc_n = 1 + (int)choose((u32)(start + (int)N - (int)all.size())); spawn(pusher, nullptr, "pusher"); if (choose(2)) { yield_now(); sync(true); } }
      // stepping
      if (choose(2)) {
        LIBV(tr->reset()); int i = 0; int steps = 2 * n + (int)choose(6); u32 bias = choose(3);
        for (int s = 0; s < steps; s++) {
          E e; bool fwd = choose(4) >= 1 + bias;
          if (i < n) { auto r = LIB(tr->read(e)); same(r == Rd::AVAILABLE, e, i, "read"); }
          size_t len = LIB(tr->length()), con = LIB(tr->consumed()); if ((int)len != n - i || (int)con != i) violate("R01", "length", "at event %d of %d the trace reports %zu events ahead and %zu behind", i, n, len, con);
          if (choose(3) == 2) { E x; auto r = LIB(tr->read_next(x)); if ((r == Rd::AVAILABLE) != (i + 1 < n)) violate("R01", "read-next", "reading the next event at event %d of %d: %d", i, n, (int)r); if (r == Rd::AVAILABLE) same(true, x, i + 1, "read_next"); }
          if (choose(3) == 2) { E x; auto r = LIB(tr->read_previous(x)); if ((r == Rd::AVAILABLE) != (i > 0)) violate("R01", "read-previous", "reading the previous event at event %d of %d: %d", i, n, (int)r); if (r == Rd::AVAILABLE) same(true, x, i - 1, "read_previous"); }
          if (tr->get_cursor() != (size_t)((bottom() + i) % (N + 1))) violate("R01", "cursor", "the cursor is not at event %d", i);
          if (fwd) {
            if (choose(2)) { E x; auto r = LIB(tr->pull(x)); if (i < n) { same(true, x, i, "pull"); i++; } if ((r == Rd::AVAILABLE) != (i < n)) violate("R01", "pull", "pull at event %d of %d: %d", i, n, (int)r); }
            else { auto r = LIB(tr->increment_cursor()); if ((r == Rd::AVAILABLE) != (i < n)) violate("R01", "increment", "increment at event %d of %d: %d", i, n, (int)r); if (i < n) i++; }
          } else { auto r = LIB(tr->decrement_cursor()); if ((r == Rd::AVAILABLE) != (i > 0)) violate("R01", "decrement", "decrement at event %d of %d: %d", i, n, (int)r); if (i > 0) i--; }
        }
        nontrivial();
      }
      int sets = 1 + (int)choose(4);
      for (int s = 0; s < sets; s++) {
        // any starting position
        if (choose(2)) { LIBV(tr->reset()); int j = (int)choose((u32)n + (choose(4) == 3)); for (int q = 0; q < j; q++) LIBV(tr->increment_cursor()); }
        else if (choose(3) == 2) { size_t c = (bottom() + choose((u32)n)) % (N + 1); auto r = LIB(tr->set_cursor(c)); if (r != Rd::AVAILABLE || tr->get_cursor() != c) violate("R01", "set-cursor", "setting the cursor to the valid index %zu failed", c); }
        if (choose(6) == 5) { size_t c0 = tr->get_cursor(), c = N + 1 + choose(5); auto r = LIB(tr->set_cursor(c)); if (r == Rd::AVAILABLE || tr->get_cursor() != c0) violate("R01", "set-cursor", "the invalid cursor %zu was accepted or changed the cursor", c); }
        long long first = all[start].t, lst = all[start + n - 1].t, t;
        u32 c = choose(8); bool inside = true;
        if (n < 2 || c == 0) { inside = false; t = choose(2) ? first - 1 - (long long)choose(5) : lst + 1 + (long long)choose(9); if (t < 0) t = 0; if (t >= first) { t = lst + 1; } }
        else { int i = (int)choose((u32)n - 1); t = all[start + i].t + inside_gap(start + i); }
        int i = 0; while (i + 1 < n && all[start + i + 1].t <= t) i++;
        size_t c0 = tr->get_cursor(); timespan ts = (timespan)t; auto r = LIB(tr->set(ts)); stat("cursor_sets");
        note("set(%lld) from index %zu -> %d, event %d", t, c0, (int)r, i); mix(r * 3 + tr->get_cursor());
        if (!inside) { if (r == Rd::AVAILABLE) { std::string str = tracestr(); violate("R01", "set-outside", "setting the cursor to +%lld succeeded on [%s]", t - first, str.c_str()); } continue; }
        if (r != Rd::AVAILABLE) { std::string str = tracestr(); violate("R01", "set-failed", "setting the cursor to +%lld on [%s] failed", t - first, str.c_str()); }
        E e; auto rr = LIB(tr->read(e)); if (rr != Rd::AVAILABLE || (long long)e.getTime() != all[start + i].t || e.getData() != all[start + i].d) { std::string str = tracestr(); violate("R01", "set-position", "setting the cursor to +%lld on [%s] leaves it at +%lld, not at event %d", t - first, str.c_str(), (long long)e.getTime() - first, i); }
        proposition p = (proposition)val(1 + (int)choose(3)); timespan tt = ts; V v; { Lib l; v = prop<T>(*tr, p, tt); } V x = i + 1 >= n ? T_UNKNOWN : (int)p == all[start + i].d ? T_TRUE : T_FALSE;
        if (choose(3) == 2) { // with the cursor on some other event: unknown, or the truth
          LIBV(tr->reset()); int j = (int)choose((u32)n); for (int q = 0; q < j; q++) LIBV(tr->increment_cursor());
          V v2; { Lib l; v2 = prop<T>(*tr, p, tt); } if (v2 != T_UNKNOWN && v2 != x) violate("R01,R02,R03", "prop", "proposition %u at +%lld, with the cursor on event %d, is %s, must be unknown or %s", p, t - first, j, vn(v2), vn(x));
        }
        if (v != x) violate("R01,R02", "prop", "proposition %u at +%lld is %s, must be %s", p, t - first, vn(v), vn(x));
        nontrivial();
      }
      if (conc) wait_all();
    }
    state_mark((u64)start % (N + 1) * 64 + (u64)n);
    describe("buffer of %zu, %zu events, window of %d events starting at %d", N, all.size(), n, start);
  }
  void same(bool ok, E &e, int i, const char *op) { if (!ok || (long long)e.getTime() != all[start + i].t || e.getData() != all[start + i].d) violate("R01", "event", "%s at event %d of %d gives (%d at %lld) instead of (%d at %lld)", op, i, n, e.getData(), (long long)e.getTime(), all[start + i].d, all[start + i].t); }
  // ---- R05
  void durations() {
    S = this; sc.fair_points = 40000000; clk.point_cost = 0; clk.read_cost = 1; make_world();
    int pre = choose(3) ? (int)choose(3 * N) : 0; for (int i = 0; i < pre; i++) push1();
    int rounds = 1 + (int)choose(2);
    for (int k = 0; k < rounds; k++) {
      int add = (int)choose(N + 2); for (int i = 0; i < add; i++) push1();
      sync(false); if (n < 2) continue;
      bool conc = (int)all.size() < start + (int)N && choose(3) == 2;
      if (conc) { conc_n = 1 + (int)choose((u32)(start + (int)N - (int)all.size())); if (conc_n > 6) conc_n = 6; spawn(pusher, nullptr, "pusher"); if (choose(2)) { yield_now(); sync(true); } }
      int evs = 1 + (int)choose(3);
      for (int q = 0; q < evs; q++) {
        int d = (int)choose(ND); for (int z = 0; z < 40 && (((durs[d].u >= BIG) != big && (durs[d].u || z < 4)) || (N > 64 && !flat(durs[d].name))); z++) d = (int)choose(ND); if (N > 64 && !flat(durs[d].name)) d = 0; int i = (int)choose((u32)n - 1); go(i);
        long long off = choose(2) ? inside_gap(start + i) : 0; timespan t = (timespan)(all[start + i].t + off);
        duration x; auto fn = Tab<T>::d(d); size_t c = tr->get_cursor(); { Lib l; x = fn(*tr, t); }
        if (tr->get_cursor() != c) violate("R06", "cursor-moved", "evaluating a duration moved the cursor");
        Dur y = drefs[d](view(), i, t, durs[d].u); stat("durations"); mix((u64)x.first * 2 + x.second); note("duration of %s over %lld at event %d +%lld -> %lld%s", durs[d].name, durs[d].u, i, off, (long long)x.first, x.second ? " unknown" : "");
        if (x.second != y.unk || (!y.unk && (long long)x.first != y.v)) { std::string s = tracestr(); violate("R05", "wrong-duration", "duration of %s (a=%u b=%u c=%u) over %lld from event %d +%lld of [%s] is %lld (%s), must be %lld (%s)", durs[d].name, props_[0], props_[1], props_[2], durs[d].u, i, off, s.c_str(), (long long)x.first, x.second ? "inconclusive" : "conclusive", y.v, y.unk ? "inconclusive" : "conclusive"); }
        if (!y.unk) { nontrivial(); stat("durations_conclusive"); if (y.v) stat("durations_nonzero"); }
      }
      if (conc) wait_all();
    }
    state_mark((u64)start % (N + 1) * 64 + (u64)n);
    describe("buffer of %zu, %zu events, window of %d events starting at %d", N, all.size(), n, start);
  }
};
template <size_t N> Wd<N> *Wd<N>::S;
template <class Fn> static void on_world(Fn fn, bool large = true) { if (large && choose(80) == 79) { static Wd<300> w; fn(w); return; } switch (choose(3)) { case 0: { static Wd<7> w; fn(w); break; } case 1: { static Wd<20> w; fn(w); break; } default: { static Wd<3> w; fn(w); } } }
static void runw(Opt o) { on_world([&](auto &w) { w.run(o); }); }

SCENARIO(R01, cursor, 1) { switch (choose(60)) { case 59: { static Wd<300> w; w.cursor(); return; } case 58: case 57: { static Wd<1> w; w.cursor(); return; } case 56: case 55: case 54: { static Wd<2> w; w.cursor(); return; } } on_world([](auto &w) { w.cursor(); }, false); }
SCENARIO(R02, future, 1) { runw(Opt{1, true, false, false, false}); }
SCENARIO(R03, growth, 1) { runw(Opt{0, false, true, true, false}); }
SCENARIO(R04, past, 1) { runw(Opt{2, true, false, false, false}); }
SCENARIO(R05, durations, 2) { on_world([](auto &w) { w.durations(); }); }
SCENARIO(R05, comparisons, 1) { runw(Opt{4, true, false, false, false}); }
SCENARIO(R06, twice, 1) { runw(Opt{0, true, false, false, true}); }

// ---- E01: instrumented threads, writers, monitors and formulas together
static const i64 EUS = 1000, EMS = 1000000;
#define EFORMS(X) \
  X(P<0>) X(Until<100000, P<0>, P<1>>) X(Until<1000000, Not<P<0>>, P<1>>) X(Until<20000000, Or<P<0>, P<2>>, P<1>>) \
  X(UntilIn<1000000, Not<P<0>>, P<1>>) X(AlwaysL<1000000, Or<P<0>, P<1>>>) X(AlwaysL<10000000, Not<P<0>>>) X(AlwaysL<10000000, Imp<P<0>, Until<1000000, Tr, P<1>>>>) \
  X(EvEq<500000, P<0>>) X(EvEq<5000000, P<1>>) X(AlEq<2000000, Not<P<2>>>) X(EvU<P<0>>) X(EvU<And<P<0>, AlwaysL<1000000, Not<P<1>>>>>) X(Not<EvU<Not<P<1>>>>) \
  X(Since<1000000, Not<P<0>>, P<1>>) X(Since<10000000, P<0>, P<1>>) X(HistL<3000000, Not<P<2>>>) X(PastEq<1000000, P<0>>) X(HistEq<5000000, P<1>>) X(Until<5000000, Since<1000000, Not<P<0>>, P<1>>, P<2>>) \
  X(DurC<1000000, P<0>, 300000>) X(DurC<10000000, P<0>, 2000000>) X(DurD<5000000, P<0>, 5000000, P<1>>) X(AlwaysL<5000000, Imp<P<0>, DurC<1000000, P<0>, 700000>>>)
struct EPush { u64 inv, ret; long long t; int d; };
struct EJob { u64 seq0, seq1, qseq, rseq; i64 m0; long long t0; int m, idx; V v; bool setfail; };
struct EMon;
static const size_t EN = 24;
typedef Wd<EN>::B EB; typedef Wd<EN>::T ET; typedef Wd<EN>::Wr EW;
static V (*const erefs[])(const RTr &, int) = {
#define X(...) &__VA_ARGS__::ref,
  EFORMS(X)
#undef X
};
static V (*const efns[])(ET &, timespan &) = {
#define X(...) &__VA_ARGS__::lib<ET>,
  EFORMS(X)
#undef X
};
static const char *const enames[] = {
#define X(...) #__VA_ARGS__,
  EFORMS(X)
#undef X
};
static const int NEF = sizeof erefs / sizeof *erefs;
struct EState { std::vector<EJob> jobs; int f, mode; bool slow; bool injob; ET *tr; i64 period; int fib; };
static EState es[3]; static int enm; static EB *ebuf; static EW *ew[4]; static int enw; static std::vector<EPush> epush[4]; static i64 egap; static int enpush; static bool elaps;
static void ejob(EState *s);
struct EMon : RTML_monitor<'s', 'i', 'm', '2'> {
  EState *s;
  EMon(useconds_t p, EState *st) : RTML_monitor<'s', 'i', 'm', '2'>(p), s(st) {}
  void run() override { Quiet q; ejob(s); }
};
static EMon *em[3];
static void ejob(EState *s) {
  if (s->injob) violate("M02,E01", "overlap", "two jobs of one monitor overlap");
  s->injob = true; s->fib = cur->id;
  EJob j; j.seq0 = tick(); j.m0 = mono(); j.m = 0; j.idx = -1; j.v = T_UNKNOWN; j.seq1 = 0; j.setfail = false; j.t0 = 0;
  ET *tr = s->tr; LIBV(tr->synchronize()); j.qseq = tick(); LIBV(tr->reset()); j.m = (int)LIB(tr->length());
  if (j.m > 0) { typename EB::event_t e; LIBV(tr->read(e)); j.t0 = (long long)e.getTime(); } j.rseq = tick();
  if (s->slow && choose(3) == 2) sleep_ns((i64)(1 + choose(20)) * s->period * 100);
  if (j.m > 0) {
    j.idx = s->mode == 0 ? 0 : s->mode == 1 ? j.m - 1 : j.m / 2;
    for (int k = 0; k < j.idx; k++) LIBV(tr->increment_cursor());
    typename EB::event_t e; LIBV(tr->read(e)); timespan t = e.getTime();
    if (s->mode == 2 && j.idx + 1 < j.m) { LIBV(tr->reset()); auto r = LIB(tr->set(t)); if (r != ET::AVAILABLE) j.setfail = true; }
    auto fn = efns[s->f]; { Lib l; j.v = fn(*tr, t); }
  }
  j.seq1 = tick(); note("monitor %d job %zu: %d events, %s at event %d -> %s", (int)(s - es), s->jobs.size() + 1, j.m, enames[s->f], j.idx, vn(j.v)); mix((u64)j.v * 64 + (u64)j.m);
  s->jobs.push_back(j); s->injob = false;
}
static void *eapp(void *a) {
  int w = (int)(intptr_t)a; int n = 1 + (int)choose((u32)enpush);
  for (int k = 0; k < n; k++) {
    if (choose(4)) sleep_ns(1 + (i64)choose(40) * egap / 20);
    EPush p; p.d = val(1 + (int)choose(3)); typename EB::event_t e; e.setData(p.d); p.inv = tick(); p.ret = ~0ull; p.t = 0; epush[w].push_back(p);
    EW *wr = ew[w]; auto r = LIB(wr->push(e)); EPush &q = epush[w].back(); q.t = (long long)e.getTime(); q.ret = tick();
    note("thread %d pushed (%d at %lld)", w, q.d, q.t); if (r != EB::OK && !elaps) violate("C02", "overflow", "a push reported %d although the buffer is not full", (int)r);
  }
  return nullptr;
}
static void estuck(const char *why) { report("*", "stuck", "%s: no progress", why); }
SCENARIO(E01, endtoend, 1) {
  static const i64 costs[] = {1, 10, 50}; clk.point_cost = costs[choose(3)]; clk.read_cost = 1; clk.quantum = 1; i64 eps = 200 * clk.point_cost + 2000;
  sc.max_points = 150000; sc.fair_points = 30000000; on_stuck = estuck;
  pf.on = true; if (choose(3) == 2) pf.slowstart = 500; if (choose(3) == 2) pf.spurious = 300; if (choose(4) == 3) pf.eintr = 300; if (choose(3) == 2) { pf.late = 300; pf.late_max = choose(2) ? EMS : 30 * EMS; }
  if (choose(3) == 2) { static const i64 st[] = {1700000000000000000ll, 1, 2147483640, 4294967290, 9007199254740988ll, 2147483647999999500ll}; start_clock((i64)(timespan)(st[choose(6)] + (i64)choose(1000))); }
  ebuf = make<EB>(0); region(ebuf, sizeof *ebuf, "buf");
  { int rot = choose(2) ? 0 : (int)choose(EN + 1); for (int k = 0; k < rot; k++) { typename EB::event_t e; int d9 = 9; e.setData(d9); timespan x = (timespan)(k + 1); e.setTime(x); Lib l; ebuf->push(e); ebuf->pull(e); } }
  enw = 1 + (int)choose(4); enm = 1 + (int)choose(3); elaps = choose(3) == 2; enpush = elaps ? 40 : (int)EN / enw; static const i64 gaps[] = {300, 20 * EUS, EMS, 4 * EMS}; egap = gaps[choose(4)] * 1; if (egap < EMS) egap = gaps[1 + choose(3)]; if (elaps && egap > EMS) egap = EMS;
  set_props();
  for (int i = 0; i < enw; i++) { ew[i] = (EW *)alloc(sizeof(EW), 64, 0); region(ew[i], sizeof(EW), "writer"); EW *p = ew[i]; { Lib l; new (p) EW(*ebuf); } epush[i].clear(); epush[i].reserve(128); }
  static const i64 per[] = {1000, 300, 2500, 10000};
  for (int i = 0; i < enm; i++) {
    EState &s = es[i]; s.jobs.clear(); s.jobs.reserve(4096); s.f = (int)choose(NEF); s.mode = (int)choose(3); s.slow = choose(3) == 2; s.injob = false; s.fib = -1; s.period = per[choose(4)];
    s.tr = (ET *)alloc(sizeof(ET), 64, cfg_choose(2) ? 0xA5 : 0); region(s.tr, sizeof(ET), "trace"); ET *p = s.tr; { Lib l; new (p) ET(*ebuf); }
    em[i] = (EMon *)alloc(sizeof(EMon), 64, 0xFF); region(em[i], sizeof(EMon), "monitor"); EMon *m = em[i]; EState *sp = &s; useconds_t up = (useconds_t)s.period; int f0 = nfibers(); { Lib l; new (m) EMon(up, sp); } if (nfibers() > f0) s.fib = f0;
  }
  bool first = choose(2); u64 mask = 0;
  if (first) for (int i = 0; i < enm; i++) { EMon *m = em[i]; LIBV(m->enable()); if (choose(2)) sleep_ns((i64)choose(30) * 100 * EUS); }
  for (int i = 0; i < enw; i++) { int id = spawn(eapp, (void *)(intptr_t)i, "app"); mask |= 1ull << id; }
  if (!first) { if (choose(2)) sleep_ns((i64)choose(30) * 100 * EUS); for (int i = 0; i < enm; i++) { EMon *m = em[i]; LIBV(m->enable()); } }
  wait_all(mask); i64 q = mono(); u64 qseq = tick(); note("the program is quiet"); u64 st0[3];
  for (int i = 0; i < enm; i++) st0[i] = es[i].fib >= 0 ? fiber(es[i].fib)->stall : 0;
  size_t total = 0; for (int w = 0; w < enw; w++) total += epush[w].size();
  // within two periods, each monitor has judged the complete trace
  for (int i = 0; i < enm; i++) { EState &s = es[i];
    for (int tries = 0;; tries++) {
      if (!s.jobs.empty() && s.jobs.back().seq0 > qseq) break;
      sleep_ns(s.period * EUS / 4 + 1);
      if (!s.jobs.empty() && s.jobs.back().seq0 > qseq) break;
      if (s.fib < 0) violate("M01,E01", "never-runs", "monitor %d has no thread", i);
      Fiber *f = fiber(s.fib); i64 due = q + 2 * s.period * EUS + 6 * EMS + (i64)(f->stall - st0[i]) + 4 * eps;
      if (mono() > due && !s.injob && f->state != F_RUN && !(f->late && f->timed)) violate("M02,E01", "not-conclusive", "monitor %d (period %lld us) has not judged the complete trace %lld ns after the program went quiet", i, (long long)s.period, (long long)(mono() - q));
      if (tries > 4000) violate("M02,E01", "not-conclusive", "monitor %d did not judge the complete trace", i);
    }
  }
  for (int i = 0; i < enm; i++) { EMon *m = em[i]; LIBV(m->disable()); }
  for (int i = 0; i < enm; i++) { EMon *m = em[i]; int r = LIB(m->join()); if (r) violate("M03", "join-failed", "join returned %d", r); }
  pf.on = false;
  // the recorded order of events, which is that of their stamps, and the events still recorded
  static std::vector<RE> ord; static std::vector<std::pair<u64, u64>> when; ord.clear(); when.clear();
  { std::vector<const EPush *> all; for (int w = 0; w < enw; w++) for (size_t k = 0; k < epush[w].size(); k++) { if (k && epush[w][k].t <= epush[w][k - 1].t) violate("C03,E01", "stamp-order", "the stamps of thread %d run backwards", w); all.push_back(&epush[w][k]); }
    std::sort(all.begin(), all.end(), [](const EPush *a, const EPush *b) { return a->t < b->t; }); for (auto *p : all) { if (!ord.empty() && ord.back().t == p->t) violate("C03,E01", "stamp-order", "two events have the stamp %lld", p->t); ord.push_back(RE{p->t, p->d}); when.push_back({p->inv, p->ret}); } }
  size_t b, t; LIBV(ebuf->state(b, t)); size_t kept = (t + EN + 1 - b) % (EN + 1), len = ord.size();
  if (kept != std::min(total, EN)) violate("C01,E01", "buffer-changed", "the buffer holds %zu events, %zu were pushed", kept, total);
  for (size_t k = 0; k < kept; k++) { typename EB::event_t e; size_t ix = (b + k) % (EN + 1); LIBV(ebuf->read(e, ix)); RE &x = ord[len - kept + k]; if ((long long)e.getTime() != x.t || e.getData() != x.d) violate("C01,E01", "buffer-changed", "event %zu of the buffer (%d at %lld) is not the event of that rank (%d at %lld)", k, e.getData(), (long long)e.getTime(), x.d, x.t); }
  size_t njobs = 0, defin = 0, overrun = 0; bool mid = false;
  for (int i = 0; i < enm; i++) { EState &s = es[i]; int end = 0;
    for (size_t k = 0; k < s.jobs.size(); k++) { EJob &j = s.jobs[k]; njobs++;
      size_t begun = 0, done = 0; for (auto &w : when) { if (w.first < j.seq1) begun++; if (w.second < j.seq0) done++; }
      if (j.m < 0 || j.m > (int)EN) violate("C05,E01", "window", "job %zu saw %d events", k, j.m);
      int s0 = 0; while (s0 < (int)len && ord[s0].t != j.t0) s0++;
      if (j.m && s0 == (int)len) { if (begun <= EN) violate("C05,E01", "window", "the window of job %zu of monitor %d begins with an event that was never pushed (stamp %lld)", k, i, j.t0); overrun++; continue; }
      if (!j.m) { s0 = 0; if (done > EN) continue; }
      if (j.m && s0 > (int)EN && when[s0].second > j.seq0) { overrun++; continue; } // the slot was overwritten while the job looked for its window
      bool over = s0 + EN < len && when[s0 + EN].first < j.seq1; // the window was overwritten before the job ended
      if (over) { overrun++; continue; }
      end = s0 + j.m;
      if (s0 > 0 && ((size_t)(s0 - 1) + EN >= len || when[s0 - 1 + EN].first > j.rseq)) violate("C06,E01", "event-lost", "job %zu of monitor %d judged from event %d on, although event %d had not been overwritten", k, i, s0, s0 - 1);
      for (size_t x = 0; x < len; x++) {
        if ((int)x >= end && when[x].second < j.seq0) violate("C05,E01", "event-missed", "job %zu of monitor %d judged %d events from event %d on, but event %zu had been pushed before the job began", k, i, j.m, s0, x);
        if ((int)x < end && when[x].first > j.qseq) violate("C05,E01", "event-from-future", "job %zu of monitor %d judged %d events from event %d on, but event %zu was pushed afterwards", k, i, j.m, s0, x);
      }
      if (!j.m) continue;
      if (j.setfail) violate("R01,E01", "set-failed", "the monitor could not set its trace to the time of event %d of %d", j.idx, j.m);
      if (end < (int)len) mid = true;
      RTr r = {ord.data() + s0, j.m}; V x = erefs[s.f](r, j.idx); if (j.v != T_UNKNOWN) defin++; stat("verdicts");
      if (j.v != x) violate("R02,R04,R05,E01", "wrong-verdict", "job %zu of monitor %d: %s (a=%u b=%u c=%u) at event %d of the %d events from event %d on is %s, must be %s", k, i, enames[s.f], props_[0], props_[1], props_[2], j.idx, j.m, s0, vn(j.v), vn(x));
    }
    EJob &l = s.jobs.back(); if (end != (int)len || l.seq0 < qseq) violate("E01", "not-complete", "the last job of monitor %d judged up to event %d of %zu", i, end, len);
  }
  if (overrun) stat("jobs_overrun", overrun); if (len > EN) { stat("runs_with_overwriting"); count_fault(FK_BURST); }
  if (mid && defin) nontrivial(); stat("jobs", njobs); stat("definite_verdicts", defin); if (mid) stat("runs_with_overlap"); state_mark(njobs * 64 + len);
  for (int i = 0; i < enm; i++) { EMon *m = em[i]; { Lib l; m->~EMon(); } }
  describe("%d threads pushing %zu events, %d monitors, %zu jobs, first formula %s", enw, len, enm, njobs, enames[es[0].f]);
}
