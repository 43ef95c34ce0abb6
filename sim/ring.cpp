// Ring-buffer scenarios: RTML_buffer, RTML_writer, RTML_reader (real code) under simulated threads and clock.
#include "sim.h"
#include <algorithm>
#include <circularbuffer.h>
#include <reader.h>
#include <writer.h>
using namespace sim;
// a time as the library's stamps hold it
static i64 TS(i64 t) { return (i64)(timespan)t; }

// ------------------------------------------------------------------ payloads
struct Big { u64 w[4]; bool operator==(const Big &o) const { return !memcmp(w, o.w, sizeof w); } };
struct Mid { u32 a, b, c; bool operator==(const Mid &o) const { return a == o.a && b == o.b && c == o.c; } };
// a payload that only its own copy operations can copy (like a string or a smart pointer)
struct Own { Own *me; int v; Own() : me(this), v(0) {} Own(const Own &o) : me(this), v(o.me == &o ? o.v : -1) {} Own &operator=(const Own &o) { v = o.me == &o && me == this ? o.v : -1; return *this; } ~Own() { me = nullptr; } bool operator==(const Own &o) const { return v == o.v; } };
#ifdef RTMLIB_DEBUG // whose output prints the payload as a number
#define OWN int
#else
#define OWN Own
#endif
static u64 h64(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static void enc(int &d, int id) { d = id; }
static void enc(Big &d, int id) { d.w[0] = id; for (int i = 1; i < 4; i++) d.w[i] = h64(id * 8 + i); }
static void enc(Mid &d, int id) { d.a = id; d.b = (u32)h64(id * 8 + 1); d.c = (u32)h64(id * 8 + 2); }
static void enc(Own &d, int id) { d.v = id; }
static int dec(const Own &d) { return d.me == &d ? d.v : -1; }
static int dec(const int &d) { return d; }
static int dec(const Big &d) { Big r; enc(r, (int)d.w[0]); if (d.w[0] == 0 && !d.w[1] && !d.w[2] && !d.w[3]) return 0; return (d.w[0] >> 31) == 0 && d == r ? (int)d.w[0] : -1; }
static int dec(const Mid &d) { Mid r; enc(r, (int)d.a); if (!d.a && !d.b && !d.c) return 0; return d == r ? (int)d.a : -1; }

struct Push { int id, thr; u64 inv, ret, rd; i64 stamp, want; int res; bool timed; int rank; i64 mono_inv, mono_ret; };
enum { R_SYNC, R_PULL, R_POP, R_GAP };
struct RRec { int kind, res; u64 inv, ret; int id; i64 ts; bool quiet; };
enum { S_STATE2, S_STATE4, S_LEN };
struct SRead { size_t idx; int id; i64 ts; u64 ret; };
struct SRec { int kind; u64 inv, ret; size_t b, t, len; i64 tb, tt; std::vector<SRead> reads; };

struct Feat {
  int maxw = 4, maxops = 5, maxr = 2, maxs = 1; int minw = 1; bool pops = false, churn = false, death = false, all = true; // all: plain pushes allowed
  bool jumps = false, quant = false; bool latestart = false; bool forcefull = false; bool lap = false;
};

template <class T, size_t N> struct Ring {
  typedef Event<T> E; typedef RTML_buffer<E, N> B; typedef RTML_writer<B> Wr; typedef RTML_reader<B> Rd;
  B *buf; std::vector<Push> pushes; // index id-1
  int n0; size_t t0; bool ranked; std::vector<int> byrank; // rank -> id
  struct WT { int nops; bool churn; bool timed; Wr *w; int id0; std::vector<int> plan; int fib; bool inpush; u64 cas0; void *mem; int delay; };
  struct RT { int nops; std::vector<int> plan; Rd *r; std::vector<RRec> recs; int fib; int delay; };
  struct ST { std::vector<int> plan; std::vector<SRec> recs; int fib; };
  std::vector<WT> wt; std::vector<RT> rt_; std::vector<ST> st; bool monotone; int opsdone, opstotal;
  static Ring *S;
  Feat f;

  int newpush(int thr, bool timed) { Push p; memset(&p, 0, sizeof p); p.id = (int)pushes.size() + 1; p.thr = thr; p.timed = timed; p.rank = -1; p.want = TS(5000000000000ll + p.id * 3); pushes.push_back(p); return p.id; }
  void direct(int id) { E e; T d; enc(d, id); e.setData(d); Push &p = pushes[id - 1]; timespan ts = (timespan)(999000000000ll + id); e.setTime(ts); p.stamp = ts; p.inv = tick(); p.res = LIB(buf->push(e)); p.ret = tick(); p.rd = p.inv; }

  static void *writer_main(void *a) { S->writer((int)(intptr_t)a); return nullptr; }
  static void *reader_main(void *a) { S->reader((int)(intptr_t)a); return nullptr; }
  static void *sampler_main(void *a) { S->sampler((int)(intptr_t)a); return nullptr; }

  void do_push(WT &w, int id) {
    Push &p = pushes[id - 1];
    E e; T d; enc(d, id); e.setData(d); timespan st = (timespan)p.want; e.setTime(st);
    size_t c0 = clock_reads.size();
    w.cas0 = cur->cas16; w.inpush = true;
    note("push id %d (%s)", id, p.timed ? "stamped" : "plain");
    p.mono_inv = mono(); p.inv = tick(); p.rd = p.inv; i64 rt_inv = TS(rt());
    int r;
    if (p.timed) r = LIB(w.w->push(e)); else r = LIB(w.w->push_all(e));
    p.ret = tick(); p.mono_ret = mono(); p.res = r; p.stamp = e.getTime(); i64 rt_ret = TS(rt());
    w.inpush = false;
    note("push id %d -> %d stamp %lld", id, r, (long long)p.stamp);
    mix(p.res * 977 + id);
    opsdone++;
    bool found = false; u64 lastrd = 0;
    for (size_t i = c0; i < clock_reads.size(); i++) if (clock_reads[i].fiber == cur->id) { lastrd = clock_reads[i].seq; if (TS(clock_reads[i].value) == p.stamp) found = true; }
    if (p.timed) {
      if (!found) violate("C03", "stamp-not-from-call", "push of event %d left stamp %lld, which the clock did not return during the call", id, (long long)p.stamp);
      p.rd = lastrd;
      // the stamp is a time of the call, as far as the resolution of the clocks (1 us at least) allows
      i64 lo = clk.quantum + 1000;
      if (monotone && (p.stamp < rt_inv - lo || p.stamp > rt_ret) && (p.stamp < p.mono_inv - lo || p.stamp > p.mono_ret)) violate("C03", "stamp-outside-call", "push of event %d from %lld to %lld left stamp %lld", id, (long long)rt_inv, (long long)rt_ret, (long long)p.stamp);
    } else if (p.stamp != p.want) violate("C03", "stamp-changed", "plain push changed the caller's stamp of event %d from %lld to %lld", id, (long long)p.want, (long long)p.stamp);
    if (dec(e.getData()) != id) violate("C03,C01", "caller-event-changed", "push changed the data of the caller's event %d", id);
  }
  void writer(int i) {
    WT &w = wt[i];
    if (w.delay) sleep_ns(w.delay);
    int per = 0;
    for (int k = 0; k < (int)w.plan.size(); k++) {
      if (w.churn && per == 0) { per = 1 + (w.plan[k] % 3); attach(w); widen("C08"); }
      do_push(w, w.plan[k] >> 3);
      if (w.churn && --per == 0) detach(w);
    }
    if (w.churn && per) detach(w);
  }
  int attached; // writers ever attached
  void attach(WT &w) { attached++; note("attach writer"); { Lib l; w.w = new (w.mem) Wr(*buf); } stat("writer_attach"); }
  void detach(WT &w) {
    note("destroy writer");
    { Lib l; w.w->~Wr(); }
    w.w = nullptr;
    // the memory is reused for something else
    u32 v = cfg_choose(4); count_fault(FK_CRASH); count_fault(FK_POISON);
    unsigned char *m = (unsigned char *)w.mem;
    if (v == 0) memset(m, 0, sizeof(Wr)); else if (v == 1) memset(m, 0xFF, sizeof(Wr)); else if (v == 2) for (size_t i = 0; i < sizeof(Wr); i++) m[i] = (unsigned char)(i * 7 + 1); else for (size_t i = 0; i + 8 <= sizeof(Wr); i += 8) *(u64 *)(m + i) = (i / 8) % 3;
    note("memory of the destroyed writer overwritten (pattern %u)", v);
  }
  void rop(RT &r, int kind, bool quiet) {
    RRec x; memset(&x, 0, sizeof x); x.kind = kind; x.quiet = quiet; x.id = 0;
    E e; static const char *nm[] = {"synchronize", "pull", "pop", "gap"};
    note("reader %s", nm[kind]);
    x.inv = tick();
    if (kind == R_SYNC) x.res = LIB(r.r->synchronize());
    else if (kind == R_PULL) x.res = LIB(r.r->pull(e));
    else if (kind == R_POP) x.res = LIB(r.r->pop(e));
    else x.res = LIB(r.r->gap());
    x.ret = tick();
    if ((kind == R_PULL || kind == R_POP) && x.res == Rd::AVAILABLE) { x.id = dec(e.getData()); x.ts = e.getTime(); }
    note("reader %s -> %d id %d", nm[kind], x.res, x.id);
    mix(kind * 131 + x.res * 7 + x.id);
    r.recs.push_back(x); opsdone++;
  }
  void reader(int i) {
    RT &r = rt_[i];
    if (r.delay) sleep_ns(r.delay);
    for (size_t k = 0; k < r.plan.size(); k++) {
      int p = r.plan[k];
      if (p == 0) rop(r, R_SYNC, false);
      else if (p == 1) rop(r, R_PULL, false);
      else if (p == 2) rop(r, R_POP, false);
      else if (p == 3) rop(r, R_GAP, false);
      else if (p == 4) { for (int q = 0; q < 40; q++) { rop(r, R_PULL, false); if (r.recs.back().res != Rd::AVAILABLE) break; } }
      else if (p == 5) { for (int q = 0; q < 40; q++) { rop(r, R_POP, false); if (r.recs.back().res != Rd::AVAILABLE) break; } }
      else sleep_ns((p - 5) * 300);
    }
  }
  void sampler(int i) {
    ST &s = st[i];
    for (int kind : s.plan) {
      SRec x; x.kind = kind; x.b = x.t = x.len = 0; x.tb = x.tt = 0;
      timespanw tb = -7, tt = -7;
      x.inv = tick();
      if (kind == S_LEN) x.len = LIB(buf->length());
      else if (kind == S_STATE2) { LIBV(buf->state(x.b, x.t)); }
      else { LIBV(buf->state(x.b, x.t, tb, tt)); }
      x.ret = tick(); x.tb = tb; x.tt = tt;
      note("snapshot kind %d -> b=%zu t=%zu len=%zu", kind, x.b, x.t, x.len);
      mix(x.b * 31 + x.t * 7 + x.len);
      if (kind != S_LEN) {
        if (x.b > N || x.t > N) violate("C04,C10", "index-range", "state returned indexes out of range: b=%zu t=%zu", x.b, x.t);
        for (size_t j = x.b; j != x.t; j = (j + 1) % (N + 1)) {
          E e; SRead rr; LIBV(buf->read(e, j)); rr.idx = j; rr.id = dec(e.getData()); rr.ts = e.getTime(); rr.ret = tick(); x.reads.push_back(rr);
        }
      }
      s.recs.push_back(x); opsdone++;
    }
  }
  // -------------------------------------------------------------- judging
  int live(u64 seq_ret) { int c = 0; for (auto &p : pushes) if (p.rank < 0 || p.rank >= n0) if (p.ret && p.ret < seq_ret) c++; return c; }
  int returned_before(u64 s) const { int c = n0; for (size_t i = n0pushes; i < pushes.size(); i++) if (pushes[i].ret && pushes[i].ret < s) c++; return c; }
  int published_before(u64 s) const { int c = n0; for (size_t i = n0pushes; i < pushes.size(); i++) if (pushes[i].inv && pushes[i].rd < s) c++; return c; }
  size_t n0pushes; // ids of pushes before the concurrent phase
  size_t pos(int rank) const { return (t0 + (size_t)(rank - n0) + 100 * (N + 1)) % (N + 1); }
  int total() const { return (int)byrank.size(); }
  bool rank_published_before(int rank, u64 s) const { if (rank >= total()) return false; if (rank < n0) return true; if (!ranked) return published_before(s) > rank; return pushes[byrank[rank] - 1].rd < s; }

  void order(const std::vector<int> &initial) {
    byrank = initial; // ids live before the concurrent phase, oldest first
    std::vector<int> ids; for (size_t i = n0pushes; i < pushes.size(); i++) if (pushes[i].ret) ids.push_back(pushes[i].id);
    if (ranked) std::sort(ids.begin(), ids.end(), [&](int a, int b) { return pushes[a - 1].rd < pushes[b - 1].rd; });
    for (int id : ids) byrank.push_back(id);
    for (size_t i = 0; i < byrank.size(); i++) pushes[byrank[i] - 1].rank = (int)i;
  }
  void check_final() {
    // contents at quiescence, read by index and then drained
    size_t b, t; timespanw tb, tt;
    LIBV(buf->state(b, t, tb, tt));
    size_t len = LIB(buf->length());
    int M = total(); int want = std::min<int>(M, (int)N);
    if ((int)len != want) violate("C02,C01", "final-length", "after %d pushes into capacity %zu the length is %zu, not %d", M, N, len, want);
    if ((t + N + 1 - b) % (N + 1) != len) violate("C04,C02", "state-length", "state (%zu,%zu) disagrees with length %zu", b, t, len);
    std::vector<int> got; i64 lastts = INT64_MIN;
    for (size_t j = b, k = 0; k < len; k++, j = (j + 1) % (N + 1)) {
      E e; LIBV(buf->read(e, j)); int id = dec(e.getData());
      if (id < 0) violate("C01", "torn", "slot %zu holds a torn event at quiescence", j);
      if (id == 0 || id > (int)pushes.size() || pushes[id - 1].rank < 0) violate("C01", "invented", "slot %zu holds an event (id %d) that was never pushed or not live", j, id);
      if (std::find(got.begin(), got.end(), id) != got.end()) violate("C01", "duplicate", "event %d is stored twice", id);
      Push &p = pushes[id - 1];
      if (e.getTime() != p.stamp) violate("C01,C03", "stamp-stored", "event %d is stored with stamp %lld but the push returned %lld", id, (long long)e.getTime(), (long long)p.stamp);
      if (monotone && p.timed) { if (p.stamp < lastts) violate("C03", "stamp-order", "stamps run backwards in the buffer: %lld after %lld (event %d)", (long long)p.stamp, (long long)lastts, id); lastts = p.stamp; }
      got.push_back(id);
    }
    // order: program order, real-time order, and eviction order
    for (size_t i = 0; i < got.size(); i++) for (size_t j = i + 1; j < got.size(); j++) { Push &x = pushes[got[i] - 1], &y = pushes[got[j] - 1]; if (y.ret && y.ret < x.inv) violate("C01", "order", "event %d is stored before event %d, although its push began after the other had returned", x.id, y.id); }
    for (int id : byrank) if (std::find(got.begin(), got.end(), id) == got.end()) for (int g : got) { Push &x = pushes[id - 1], &y = pushes[g - 1]; if (y.ret < x.inv) violate("C01", "lost", "event %d was lost although the older event %d is still stored", id, g); }
    if (ranked) for (size_t i = 0; i < got.size(); i++) if (got[i] != byrank[M - want + i]) violate("C01,C03", "order-stamp", "position %zu holds event %d, but by clock order it should be %d", i, got[i], byrank[M - want + i]);
    // drain
    for (size_t i = 0; i < got.size(); i++) { E e; int r = LIB(buf->pull(e)); if ((r != B::OK && r != B::UNSAFE) || dec(e.getData()) != got[i]) violate("C01,C10", "drain", "pull %zu returned %d with event %d, expected event %d", i, r, dec(e.getData()), got[i]); if (attached > 1 ? r != B::UNSAFE : r != B::OK) violate("C08,C10", "writers-forgotten", "a direct pull returned %d although %d writers were attached", r, attached); }
    { E e; int r = LIB(buf->pull(e)); if (r != B::EMPTY) violate("C01,C10", "drain-end", "pull from an empty buffer returned %d", r); }
  }
  void check_results() {
    int M = total(), ov = 0;
    for (size_t i = n0pushes; i < pushes.size(); i++) { Push &p = pushes[i]; if (!p.ret) continue;
      if (p.res != B::OK && p.res != B::BUFFER_OVERFLOW) violate("C02", "result-code", "push of event %d returned %d", p.id, p.res);
      if (p.res == B::BUFFER_OVERFLOW) ov++;
      if (ranked) { bool w = p.rank >= (int)N; if ((p.res == B::BUFFER_OVERFLOW) != w) violate("C02", "overflow-exact", "push of event %d (rank %d, capacity %zu) reported %s", p.id, p.rank, N, p.res == B::OK ? "success although it discarded an event" : "overflow although the buffer was not full"); } }
    int want = std::max(0, M - (int)N) - std::max(0, n0 - (int)N);
    if (ov != want) violate("C02", "overflow-count", "%d pushes reported overflow, %d events were overwritten (events %d, capacity %zu, initially %d)", ov, want, M, N, n0);
  }
  void check_sampler(ST &s) {
    for (auto &x : s.recs) {
      int klo = returned_before(x.inv), khi = published_before(x.ret); bool ok = false; std::string why;
      if (x.kind == S_LEN) {
        for (int k = klo; k <= khi && !ok; k++) { if ((int)x.len == std::min(k, (int)N)) ok = true; if (k + 1 <= khi && k + 1 > (int)N && (int)x.len == (int)N - 1) ok = true; }
        if (!ok) violate("C04", "length", "length %zu is impossible: between %d and %d events pushed, capacity %zu", x.len, klo, khi, N);
        continue;
      }
      int L = (int)((x.t + N + 1 - x.b) % (N + 1)); int bad_id = 0; size_t bad_idx = 0; bool window = false;
      for (int k = klo; k <= khi && !ok; k++) {
        if (pos(k) != x.t) continue;
        bool len_ok = L == std::min(k, (int)N) || (k + 1 <= khi && L == std::min(k, (int)N - 1));
        if (!len_ok) continue;
        window = true;
        if (!ranked) { // contents: intact, known events only
          bool good = true;
          for (auto &r : x.reads) { bool reused = khi_reuse(r.ret, k - L); if (reused) continue; if (r.id <= 0 || r.id > (int)pushes.size()) { good = false; bad_id = r.id; bad_idx = r.idx; } }
          ok = good; continue;
        }
        bool good = true; int j = k - L;
        for (auto &r : x.reads) { bool reused = rank_published_before(j + (int)N + 1, r.ret); if (!reused && (j >= total() || byrank[j] != r.id || r.ts != pushes[byrank[j] - 1].stamp)) { good = false; bad_id = r.id; bad_idx = r.idx; } j++; }
        if (good && x.kind == S_STATE4 && L > 0) {
          if (x.tb != pushes[byrank[k - L] - 1].stamp) { good = false; bad_idx = x.b; why = "time stamp of the oldest slot"; }
          // the free slot holds the event discarded last, or one being written
          bool tok = false; int o = k - (int)N - 1; if (o >= 0) tok = x.tt == pushes[byrank[o] - 1].stamp; else tok = true;
          if (k < total() && rank_published_before(k, x.ret) && x.tt == pushes[byrank[k] - 1].stamp) tok = true;
          if (!tok) { good = false; bad_idx = x.t; why = "time stamp of the top slot"; }
        }
        if (good) ok = true;
      }
      if (!ok) {
        if (!window) violate("C04", "window", "state (b=%zu,t=%zu) is no window the buffer had: %d..%d events pushed, capacity %zu", x.b, x.t, klo, khi, N);
        violate("C04", "window-content", "inside the reported window (b=%zu,t=%zu), slot %zu: %s (read id %d)", x.b, x.t, bad_idx, why.empty() ? "not the completed event that belongs there" : why.c_str(), bad_id);
      }
    }
  }
  bool khi_reuse(u64 ret, int lo) const { return published_before(ret) > lo + (int)N; }
  void check_reader(RT &r) {
    int last = -1; bool exact = false; int exp = -1; int exp_lo = 0, exp_hi = 0; bool synced = false; // exp_lo: lower bound on the rank of the reader's next event
    int poprank = -1; bool popping = false; int pop_klo = 0, pop_khi = 0; bool topknown = false;
    for (auto &x : r.recs) {
      int klo = returned_before(x.inv), khi = published_before(x.ret);
      bool lostdef = synced && (exact ? exp : -1) >= 0 && exact && klo > exp + (int)N; // the next event is certainly overwritten
      if (x.kind == R_SYNC) {
        if (x.res == Rd::GAP) {
          if (synced && !rank_published_before((exact ? exp : exp_lo) + (int)N, x.ret)) violate("C06", "false-gap", "synchronize reported a gap, but the reader's next event (rank %s%d) cannot have been overwritten (%d pushes published)", exact ? "" : ">=", exact ? exp : exp_lo, khi);
          exact = false; exp_lo = std::max(0, klo - (int)N); exp_hi = std::max(0, khi - (int)N); synced = klo > 0;
          if (last >= 0 && exp_lo <= last) exp_lo = last + 1; 
        } else if (x.res == Rd::NO_GAP) { if (lostdef) violate("C06", "missed-gap", "synchronize reported no gap although the reader's next event (rank %d) had been overwritten", exp); if (!synced && klo > 0) { synced = true; } }
        else { if (N > 1 && (synced || klo > 0)) violate("C06,C05", "sync-unknown", "synchronize on a non-empty buffer returned %d", x.res); }
        if (x.res == Rd::GAP || x.res == Rd::NO_GAP) { popping = true; topknown = false; pop_klo = klo; pop_khi = khi; }
      } else if (x.kind == R_GAP) {
        if (x.res == Rd::GAP) { if (synced && !rank_published_before((exact ? exp : exp_lo) + (int)N, x.ret)) violate("C06", "false-gap", "gap reported although the reader's next event cannot have been overwritten"); }
        else if (lostdef) violate("C06", "missed-gap", "gap query denied a gap although the reader's next event (rank %d) had been overwritten", exp);
      } else if (x.kind == R_PULL) {
        if (x.res == Rd::AVAILABLE) {
          if (x.id < 0) violate("C05", "torn", "pull delivered a torn event as available");
          if (x.id == 0 || x.id > (int)pushes.size() || pushes[x.id - 1].rank < 0) violate("C05", "invented", "pull delivered an event (id %d) that was never pushed", x.id);
          Push &p = pushes[x.id - 1];
          if (p.inv > x.ret) violate("C05", "future", "pull delivered event %d before it was pushed", x.id);
          if (x.ts != p.stamp) violate("C05", "stamp", "pull delivered event %d with a wrong stamp", x.id);
          if (ranked) {
            int rk = p.rank;
            if (rk <= last) violate("C05", rk == last ? "duplicate" : "reordered", "pull delivered rank %d after rank %d", rk, last);
            if (exact && rk != exp) violate("C05,C06", "unreported-loss", "pull jumped from rank %d to %d without any gap or overflow report", exp - 1, rk);
            if (!exact && synced && rk < exp_lo) violate("C05", "stale", "pull delivered rank %d, older than the synchronized window (from %d)", rk, exp_lo);
            if (!exact && synced && rk > exp_hi) violate("C05", "skipped", "after synchronizing, pull started at rank %d although the oldest held event was at most rank %d", rk, exp_hi);
            last = rk; exact = true; exp = rk + 1; synced = true;
          } else { for (auto &y : r.recs) if (&y < &x && y.kind == R_PULL && y.res == Rd::AVAILABLE && y.id == x.id) violate("C05", "duplicate", "pull delivered event %d twice", x.id); 
            for (auto &y : r.recs) if (&y < &x && y.kind == R_PULL && y.res == Rd::AVAILABLE && pushes[x.id - 1].ret < pushes[y.id - 1].inv) violate("C05", "reordered", "pull delivered event %d after event %d against their real-time order", x.id, y.id); }
        } else if (x.res == Rd::READER_OVERFLOW) {
          if (synced && !rank_published_before((exact ? exp : exp_lo) + (int)N, x.ret)) violate("C06", "false-overflow", "pull reported an overflow, but the reader's next event (rank %s%d) cannot have been overwritten (%d pushes published)", exact ? "" : ">=", exact ? exp : exp_lo, khi);
        } else if (x.res != Rd::UNAVAILABLE) violate("C05", "pull-code", "pull returned %d", x.res);
      } else if (x.kind == R_POP) {
        if (x.res == Rd::AVAILABLE) {
          if (x.id < 0) violate("C11", "torn", "pop delivered a torn event as available");
          if (x.id == 0 || x.id > (int)pushes.size() || pushes[x.id - 1].rank < 0) violate("C11", "invented", "pop delivered an event (id %d) that was never pushed", x.id);
          Push &p = pushes[x.id - 1];
          if (p.inv > x.ret) violate("C11", "future", "pop delivered event %d before it was pushed", x.id);
          if (x.ts != p.stamp) violate("C11", "stamp", "pop delivered event %d with a wrong stamp", x.id);
          if (ranked) {
            if (!popping) violate("C11", "pop-unsynced", "pop delivered an event without any synchronize");
            if (topknown && p.rank != poprank - 1) violate("C11", "pop-order", "pop delivered rank %d after rank %d", p.rank, poprank);
            if (!topknown && (p.rank < pop_klo - 1 || p.rank > pop_khi - 1)) violate("C11", "pop-newest", "the first pop after synchronizing delivered rank %d, the newest event then had rank %d..%d", p.rank, pop_klo - 1, pop_khi - 1);
            if (p.rank < (exact ? exp : exp_lo)) violate("C11", "pop-old", "pop delivered rank %d, older than the reader's window", p.rank);
            poprank = p.rank; topknown = true;
          }
        } else if (x.res == Rd::READER_OVERFLOW) {
          if (synced && !rank_published_before((exact ? exp : exp_lo) + (int)N, x.ret)) violate("C11,C06", "false-overflow", "pop reported an overflow, but nothing in the reader's window can have been overwritten");
          popping = false; topknown = false;
        } else if (x.res == Rd::UNAVAILABLE) {
          if (ranked && popping && topknown && poprank > (exact ? exp : exp_hi)) violate("C11", "pop-short", "pop reported nothing left after rank %d, but the synchronized window reached back to rank %d", poprank, exact ? exp : exp_hi);
          if (N > 1 && ranked && popping && !topknown && synced && pop_klo > 0 && pop_klo - 1 >= (exact ? exp : exp_hi)) violate("C11", "pop-none", "pop reported nothing although the synchronized window holds events");
        } else violate("C11", "pop-code", "pop returned %d", x.res);
      }
      if ((x.kind == R_PULL && x.res == Rd::READER_OVERFLOW)) { exp_lo = exact ? exp : exp_lo; exact = false; exp_hi = 1 << 29; }
      if (x.kind == R_GAP && x.res == Rd::GAP) { exp_lo = exact ? exp : exp_lo; exact = false; exp_hi = 1 << 29; }
    }
    // everything still held but the newest has been delivered by the quiet phase
    if (ranked && !r.recs.empty() && r.recs.back().quiet && total() >= 2 && N >= 2) {
      if (last != total() - 2) violate("C05", "undelivered", "after the writers stopped, repeated synchronize and pull delivered up to rank %d of %d", last, total() - 2);
    }
  }
  void quiet_drain(RT &r) {
    for (int round = 0; round < 3; round++) { rop(r, R_SYNC, true); for (int q = 0; q < (int)N + 3; q++) { rop(r, R_PULL, true); if (r.recs.back().res != Rd::AVAILABLE) break; } }
  }
  static void stuck(const char *why) {
    Ring &s = *S; int blocked = 0, readers = 0; std::string who;
    for (auto &w : s.wt) if (w.fib >= 0 && fiber(w.fib)->state != F_DONE && fiber(w.fib)->state != F_DEAD) { blocked++; who += " writer" + std::to_string(w.fib); }
    for (auto &r : s.rt_) if (r.fib >= 0 && fiber(r.fib)->state != F_DONE && fiber(r.fib)->state != F_DEAD) { readers++; who += " reader" + std::to_string(r.fib); }
    for (auto &r : s.st) if (r.fib >= 0 && fiber(r.fib)->state != F_DONE && fiber(r.fib)->state != F_DEAD) { readers++; who += " sampler" + std::to_string(r.fib); }
    if (dead_fiber >= 0 && readers == 0 && blocked > 0 && !s.mainphase) {
      for (auto &w : s.wt) if (w.fib == dead_fiber && w.inpush && fiber(w.fib)->cas16 > w.cas0) { report_known("writer-frozen-after-publish", "a writer frozen between publishing its slot and storing the event blocks the other writers:%s", who.c_str()); return; }
    }
    report(dead_fiber >= 0 ? "C07" : "*", "stuck", "%s: no progress under fair scheduling%s; still running:%s%s", why, dead_fiber >= 0 ? " after another thread was frozen" : "", who.c_str(), s.mainphase ? " (quiescent phase)" : "");
  }
  bool mainphase;
  // One thread is held up somewhere inside its operations while a writer pushes an exact number of events, often one
  // at which counters, slots and state objects are back where they were.
  static int laps() {
    if (choose(150) == 149) return 1 << (16 - 4 * (int)choose(3));
    int m = choose(3) == 2 ? 8 : 1 + (int)choose(9), k;
    switch (choose(5)) { case 4: case 0: k = 1 << m; break; case 1: k = (int)((N + 1) << choose(7)); break; case 2: k = (1 << m) + (int)choose(5) - 2; break; default: k = 1 + (int)choose(40); }
    return k < 1 ? 1 : k;
  }
  int victim, before;
  void around() {
    int nr = (int)rt_.size(), ns = (int)st.size(); victim = (int)cfg_choose(3 + nr + ns);
    sc.max_points = points() + 8000000; sc.fair_points = 40000000;
    { WT &w = wt[1]; for (int k = 0; k < before; k++) { do_push(w, w.plan[0] >> 3); w.plan.erase(w.plan.begin()); } }
    if (victim < 3) wt[0].fib = victim = spawn(writer_main, (void *)0, "writer");
    else if (victim < 3 + nr) { int i = victim - 3; rt_[i].fib = victim = spawn(reader_main, (void *)(intptr_t)i, "reader"); }
    else { int i = victim - 3 - nr; st[i].fib = victim = spawn(sampler_main, (void *)(intptr_t)i, "sampler"); }
    u64 at = 1 + cfg_choose(cfg_choose(4) == 3 ? 200 : 45); arm_pause(victim, at);
    while (!paused() && !fiber_done(victim)) sleep_ns(10000);
    for (size_t i = 0; i < wt.size(); i++) if (wt[i].fib < 0 && (i || victim != wt[0].fib)) wt[i].fib = spawn(writer_main, (void *)(intptr_t)i, "writer");
  }
  void finish_around() {
    // until the others are through, or wait for the one held up
    for (int idle = 0, seen = -1; idle < 3;) { bool all = true; for (auto &w : wt) if (w.fib >= 0 && w.fib != victim && !fiber_done(w.fib)) all = false; if (all) break; sleep_ns(20000); idle = opsdone == seen ? idle + 1 : 0; seen = opsdone; }
    if (paused()) { stat("laps_around_a_held_up_thread"); nontrivial(); }
    thaw();
    for (size_t i = 0; i < rt_.size(); i++) if (rt_[i].fib < 0) rt_[i].fib = spawn(reader_main, (void *)(intptr_t)i, "reader");
    for (size_t i = 0; i < st.size(); i++) if (st[i].fib < 0) st[i].fib = spawn(sampler_main, (void *)(intptr_t)i, "sampler");
  }
  void run(const Feat &ff) {
    f = ff; S = this; pushes.clear(); byrank.clear(); wt.clear(); rt_.clear(); st.clear(); mainphase = false; opsdone = 0; attached = 0;
    on_stuck = stuck;
    static const i64 costs[] = {1, 10, 0, 100};
    clk.point_cost = costs[choose(4)]; clk.read_cost = 1; clk.quantum = 1; monotone = true;
    if (f.quant && choose(3) == 2) { clk.quantum = choose(2) ? 1000 : 64; count_fault(FK_CLOCK_COARSE); }
    static const i64 starts[] = {0, 1700000000000000000ll, 2147483640, 4294967290, 9007199254740990ll, 999999000, 2147483647999999000ll, 4294967295999999000ll}; if (choose(3) == 2) start_clock(starts[choose(8)] + (i64)choose(3) * (i64)choose(1000000));
    buf = make<B>((unsigned char)(choose(2) ? 0xFF : 0x00)); region(buf, sizeof(B), "buffer");
    // initial ring position and content
    int rot = (int)choose(2 * N + 3), pre = (int)choose(N + 1); std::vector<int> initial;
    for (int i = 0; i < rot; i++) { direct(newpush(0, false)); E e; LIBV(buf->pull(e)); }
    for (int i = 0; i < pre; i++) { int id = newpush(0, false); direct(id); initial.push_back(id); }
    if (f.forcefull && pre < (int)N && choose(2)) { while ((int)initial.size() < (int)N) { int id = newpush(0, false); direct(id); initial.push_back(id); } }
    n0 = (int)initial.size(); n0pushes = pushes.size();
    { size_t b; LIBV(buf->state(b, t0)); if ((t0 + N + 1 - b) % (N + 1) != (size_t)n0) violate("C10,C02", "initial", "state after %d direct pushes is (%zu,%zu)", n0, b, t0); }
    if (f.lap && !clk.point_cost) clk.point_cost = 1;
    int nw = f.minw + (int)choose(f.maxw - f.minw + 1), nr = f.maxr ? (int)choose(f.maxr + 1) : 0, ns = f.maxs ? (int)choose(f.maxs + 1) : 0;
    if (f.pops && nr == 0) nr = 1;
    bool plain = f.all && choose(3) == 2; // 0: stamped only
    bool mixed = f.all && !plain && choose(4) == 3;
    ranked = !(plain || mixed) || nw == 1;
    for (int i = 0; i < nw; i++) {
      WT w; w.churn = f.churn && choose(3) != 0; w.timed = !plain; w.fib = -1; w.inpush = false; w.cas0 = 0; w.w = nullptr; w.delay = f.latestart && choose(3) == 2 ? 100 * (int)choose(30) : 0;
      int n = 1 + (int)choose(f.maxops); if (choose(6) == 5) { n += (int)N; count_fault(FK_BURST); }
      if (f.lap && i == 1) { before = (int)choose(4); n = before + laps(); }
      for (int k = 0; k < n; k++) { bool tm = mixed ? choose(2) == 0 : !plain; int id = newpush(i, tm); w.plan.push_back(id << 3 | (int)choose(3)); }
      w.mem = alloc(sizeof(Wr), 64, (unsigned char)(0xC0 + i)); char nm[20]; snprintf(nm, sizeof nm, "writer%d", i); region(w.mem, sizeof(Wr), nm);
      wt.push_back(w);
    }
    for (int i = 0; i < nw; i++) if (!wt[i].churn) attach(wt[i]);
    bool pre_sync = choose(2);
    for (int i = 0; i < nr; i++) {
      RT r; r.fib = -1; r.delay = f.latestart && choose(3) == 2 ? 100 * (int)choose(30) : 0; r.nops = 0;
      int n = 2 + (int)choose(10); bool popper = f.pops && choose(3) != 0;
      for (int k = 0; k < n; k++) {
        u32 c = choose(8); int op = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 4 : c == 3 ? 0 : c == 4 ? (popper ? 5 : 4) : c == 5 ? (popper ? 2 : 1) : c == 6 ? (popper ? 5 : 3) : 6 + (int)choose(4);
        if (popper && op == 0 && choose(2)) { r.plan.push_back(0); op = 5; }
        r.plan.push_back(op);
      }
      r.r = make<Rd>(0xEE, *buf); char nm[20]; snprintf(nm, sizeof nm, "reader%d", i); region(r.r, sizeof(Rd), nm);
      if (pre_sync && choose(2)) { rop(r, R_SYNC, false); if (choose(2)) rop(r, R_PULL, false); }
      rt_.push_back(r);
    }
    for (int i = 0; i < ns; i++) { ST s; s.fib = -1; int n = 1 + (int)choose(6); for (int k = 0; k < n; k++) s.plan.push_back((int)choose(3)); st.push_back(s); }
    if (f.jumps && choose(2)) { pf.on = true; pf.jump = 150; pf.jump_max = choose(2) ? 1000000 : 20000; monotone = false; }
    opstotal = 0;
    if (f.lap) { around(); }
    else {
      for (int i = 0; i < nw; i++) wt[i].fib = spawn(writer_main, (void *)(intptr_t)i, "writer");
      for (int i = 0; i < nr; i++) rt_[i].fib = spawn(reader_main, (void *)(intptr_t)i, "reader");
      for (int i = 0; i < ns; i++) st[i].fib = spawn(sampler_main, (void *)(intptr_t)i, "sampler");
    }
    if (f.death) { sc.death = 1; sc.fair_points = 60000; sc.max_points = 12000; int v = 1 + (int)cfg_choose(nw + nr + ns); arm_death(v, 1 + cfg_choose(cfg_choose(2) ? 60 : 400)); }
    describe("capacity %zu, payload %zu bytes, ring offset %zu, %d initial events, writers:", N, sizeof(T), t0, n0);
    for (auto &w : wt) describe(" %zu %s%s", w.plan.size(), plain ? "plain" : mixed ? "mixed" : "stamped", w.churn ? "/churn" : "");
    describe("; %d readers, %d samplers", nr, ns);
    if (N > 64) { sc.max_points += points(); sc.fair_points = 40000000; }
    if (f.lap) finish_around();
    wait_all();
    mainphase = true;
    if (preemptions) nontrivial();
    stat("pushes", pushes.size() - n0pushes);
    if (dead_fiber >= 0) { // progress only
      stat("runs_with_frozen_thread");
      for (auto &r : rt_) if (r.fib != dead_fiber) { rop(r, R_SYNC, true); rop(r, R_PULL, true); rop(r, R_SYNC, true); }
      size_t b, t; timespanw x, y; LIBV(buf->state(b, t, x, y)); LIBV(buf->length());
      mainphase = false;
      return;
    }
    pf.on = false;
    for (auto &r : rt_) quiet_drain(r);
    // stamps must be distinct for the gap statements
    order(initial);
    bool distinct = true; { std::vector<i64> s; for (auto &p : pushes) if (p.rank >= 0) s.push_back(p.stamp); std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) if (s[i] == s[i - 1]) distinct = false; }
    for (auto &p : pushes) mix(p.rank * 7919 + p.res);
    u64 hm = 0; for (int id : byrank) hm = h64(hm ^ (u64)pushes[id - 1].thr * 131 ^ (u64)pushes[id - 1].res); state_mark(hm);
    check_results();
    for (auto &s : st) check_sampler(s);
    if (distinct) for (auto &r : rt_) check_reader(r); else stat("runs_with_equal_stamps");
    if (monotone && ranked) { i64 l = INT64_MIN; for (int id : byrank) if (pushes[id - 1].timed) { if (pushes[id - 1].stamp < l) violate("C03", "stamp-order", "stamps run backwards in push order at event %d", id); l = pushes[id - 1].stamp; } }
    check_final();
    bool lap = total() > (int)N; if (lap) { stat("runs_with_overwriting"); count_fault(FK_BURST, 1); }
  }
};
template <class T, size_t N> Ring<T, N> *Ring<T, N>::S;
template <class T, size_t N> static void go(const Feat &f) { static Ring<T, N> r; r.run(f); }


// ------------------------------------------------------------------ exact sequential model of one buffer
template <class T, size_t N> struct Seq {
  typedef Event<T> E; typedef RTML_buffer<E, N> B; typedef RTML_writer<B> Wr; typedef RTML_reader<B> Rd;
  B *buf; size_t b, t; int nw; const char *nm;
  struct Slot { bool set; int id; i64 ts; } slot[N + 1]; // what every slot holds
  struct WS { Wr *w; bool dead; }; std::vector<WS> ws; std::vector<Rd *> rs;
  static int nextid;
  static i64 nextts(bool wild) { static i64 base; if (nextid == 1) base = 0; base++; return wild ? (i64)choose(1000) : TS(700000000000ll + base * 5); }
  size_t len() const { return (t + N + 1 - b) % (N + 1); }
  void init(unsigned char fill, const char *name) { buf = make<B>(fill); nm = name; region(buf, sizeof(B), name); b = t = 0; nw = 0; for (auto &x : slot) x.set = false; ws.clear(); rs.clear(); }
  const char *props;
#define BAD(kind, ...) violate(props, kind, __VA_ARGS__)
  // writers attached and destroyed again, up to more than the counter of the buffer can count
  void attach_many(int n) { void *m = alloc(sizeof(Wr), 64, 0x5A); note("%s: attach and destroy %d writers", nm, n); for (int i = 0; i < n; i++) { Wr *w; B *bb = buf; { Lib l; w = new (m) Wr(*bb); w->~Wr(); } nw++; } count_fault(FK_CRASH, n); }
  void attach() { void *m = alloc(sizeof(Wr), 64, (unsigned char)(choose(2) ? 0xC7 : 0)); char n[24]; snprintf(n, sizeof n, "%s.writer%zu", nm, ws.size()); region(m, sizeof(Wr), n); note("%s: attach writer", nm); Wr *w; B *bb = buf; { Lib l; w = new (m) Wr(*bb); } ws.push_back({w, false}); nw++; }
  void kill(size_t i) {
    if (ws[i].dead) return; note("%s: destroy writer %zu", nm, i);
    { Lib l; ws[i].w->~Wr(); } ws[i].dead = true; u32 v = cfg_choose(3); unsigned char *m = (unsigned char *)ws[i].w; count_fault(FK_CRASH); count_fault(FK_POISON);
    if (v == 0) memset(m, 0, sizeof(Wr)); else if (v == 1) memset(m, 0xFF, sizeof(Wr)); else for (size_t k = 0; k + 8 <= sizeof(Wr); k += 8) *(u64 *)(m + k) = (k / 8) % 3;
  }
  bool mpush(int id, i64 ts) { slot[t] = {true, id, ts}; t = (t + 1) % (N + 1); if (t == b) { b = (b + 1) % (N + 1); return true; } return false; }
  int ok() const { return nw > 1 ? B::UNSAFE : B::OK; }
  static E mk(int id, i64 ts) { E e; T d; enc(d, id); timespan x = (timespan)ts; if (id & 1) e.set(d, x); else { e.setData(d); e.setTime(x); } return e; }
  void chk(const E &e, const Slot &s, const char *what) { if (!s.set) return; int id = dec(e.getData()); if (id != s.id || (i64)e.getTime() != s.ts) BAD("wrong-event", "%s: %s gave event %d stamp %lld, expected event %d stamp %lld", nm, what, id, (long long)e.getTime(), s.id, (long long)s.ts); }
  void unchanged(const E &e, const char *what) { if (dec(e.getData()) != 999999 || (i64)e.getTime() != 424242) BAD("failed-op-wrote", "%s: failed %s changed the caller's event", nm, what); }
  void code(int got, int want, const char *what) { if (got != want) BAD("result", "%s: %s returned %d, expected %d (length %zu of %zu, %d writers)", nm, what, got, want, len(), N, nw); }
  void dpush(bool wild) { int id = nextid++; i64 ts = nextts(wild); E e = mk(id, ts); note("%s: direct push %d", nm, id); int r = LIB(buf->push(e)); bool o = mpush(id, ts); code(r, o ? B::BUFFER_OVERFLOW : ok(), "push"); if (dec(e.getData()) != id) BAD("caller", "push changed the caller's event"); }
  void pull() { E e = mk(999999, 424242); size_t l = len(); int r = LIB(buf->pull(e)); note("%s: pull -> %d", nm, r); code(r, l ? ok() : B::EMPTY, "pull"); if (!l) { unchanged(e, "pull"); return; } chk(e, slot[b], "pull"); b = (b + 1) % (N + 1); }
  void pop() { E e = mk(999999, 424242); size_t l = len(); int r = LIB(buf->pop(e)); note("%s: pop -> %d", nm, r); code(r, l ? ok() : B::EMPTY, "pop"); if (!l) { unchanged(e, "pop"); return; } t = (t + N) % (N + 1); chk(e, slot[t], "pop"); }
  void wpush(size_t i, bool all, bool wild) {
    if (ws[i].dead) return; int id = nextid++; i64 ts = nextts(wild); E e = mk(id, ts); Wr *w = ws[i].w; note("%s: writer %zu %s %d", nm, i, all ? "push_all" : "push", id);
    size_t c0 = clock_reads.size(); int r = all ? LIB(w->push_all(e)) : LIB(w->push(e));
    if (!all) { ts = e.getTime(); bool f = false; for (size_t k = c0; k < clock_reads.size(); k++) if (TS(clock_reads[k].value) == ts) f = true; if (!f) violate("C03,C10", "stamp-not-from-call", "push left stamp %lld, which the clock did not return", (long long)ts); }
    bool o = mpush(id, ts); code(r, o ? B::BUFFER_OVERFLOW : B::OK, all ? "writer push_all" : "writer push");
  }
  void readidx(size_t i) { E e = mk(999999, 424242); int r = LIB(buf->read(e, i)); code(r, i <= N ? B::OK : B::OUT_OF_BOUND, "read"); if (i > N) unchanged(e, "read"); else chk(e, slot[i], "read"); }
  void writeidx(size_t i) { int id = nextid++; i64 ts = nextts(false); E e = mk(id, ts); int r = LIB(buf->write(e, i)); code(r, i <= N ? B::OK : B::OUT_OF_BOUND, "write"); if (i <= N) slot[i] = {true, id, ts}; }
  void query() {
    size_t x = 77, y = 77; int r = LIB(buf->state(x, y)); if (r != B::OK || x != b || y != t) BAD("state", "%s: state gave (%zu,%zu), expected (%zu,%zu)", nm, x, y, b, t);
    timespanw p = -1, q = -1; r = LIB(buf->state(x, y, p, q)); if (r != B::OK || x != b || y != t || (slot[b].set && (i64)p != slot[b].ts) || (slot[t].set && (i64)q != slot[t].ts)) BAD("state4", "%s: state gave (%zu,%zu,%lld,%lld), expected (%zu,%zu)", nm, x, y, (long long)p, (long long)q, b, t);
    if (choose(4) == 3) LIBV(buf->debug());
    size_t l = LIB(buf->length()); if (l != len()) BAD("length", "%s: length is %zu, expected %zu", nm, l, len());
  }
  void full() { query(); for (size_t i = 0; i <= N; i++) readidx(i); }
  void step(bool wild, bool churn) {
    u32 c = choose(20);
    if (c < 4) dpush(wild); else if (c < 6) pull(); else if (c < 8) pop(); else if (c < 13) { if (!ws.empty()) wpush(choose((u32)ws.size()), choose(2), wild); else dpush(wild); }
    else if (c == 13) readidx(choose(N + 4)); else if (c == 14) readidx(choose(2) ? (size_t)-1 : (size_t)1 << 33); else if (c == 15) { if (choose(4) == 3) writeidx(choose(N + 3)); } else if (c == 16) query();
    else if (c == 17) { if (churn && ws.size() < 6) attach(); } else if (c == 18) { if (churn && !ws.empty() && choose(2)) kill(choose((u32)ws.size())); } else { u32 n = choose((u32)(N > 1000 ? 20 : 2 * N + 3)); for (u32 k = 0; k < n; k++) { u32 m = choose(4); if (m == 0) pull(); else if (m == 1) pop(); else dpush(wild); } count_fault(FK_BURST); }
    mix(b * 31 + t); state_mark(b * 1000 + t * 10 + (nw > 1));
  }
  void drain() { while (len()) { if (choose(2)) pull(); else pop(); } pull(); pop(); query(); }
  // a reader, with nobody pushing: everything but the newest event, oldest first from where it stands
  void reader_pass(Rd *r, bool fresh) {
    int g = LIB(r->synchronize()); note("%s: reader synchronize -> %d", nm, g);
    if (!len()) return;
    if (g != Rd::GAP && g != Rd::NO_GAP) BAD("reader-sync", "%s: synchronize returned %d on a non-empty buffer", nm, g);
    if (fresh && g != Rd::GAP) BAD("reader-sync", "%s: first synchronize did not report", nm);
    int expect = g == Rd::GAP ? (int)b : -1; int n = 0; size_t at = 0;
    for (;;) { E e; int x = LIB(r->pull(e)); if (x == Rd::UNAVAILABLE) break; if (x != Rd::AVAILABLE) BAD("reader-pull", "%s: pull returned %d although nobody pushes", nm, x);
      int id = dec(e.getData()); note("%s: reader pulled %d", nm, id);
      if (expect < 0) { size_t i = b; bool f = false; for (; i != t; i = (i + 1) % (N + 1)) if (slot[i].id == id) { f = true; break; } if (!f) BAD("reader-event", "%s: the reader pulled event %d, which the buffer does not hold", nm, id); expect = (int)i; }
      chk(e, slot[expect], "reader pull"); at = expect; expect = (expect + 1) % (int)(N + 1); if (++n > (int)N + 2) BAD("reader-endless", "%s: the reader pulls without end", nm); }
    if ((g == Rd::GAP && len() > 1) || n) { if (n == 0 || (at + 2) % (N + 1) != t) BAD("reader-short", "%s: the reader stopped %zu events before the end of a buffer of length %zu", nm, n ? (t + N + 1 - at) % (N + 1) : len(), len()); }
  }
};
template <class T, size_t N> int Seq<T, N>::nextid;
template <class T, size_t N> static void seq_run() {
  typedef Seq<T, N> Q; static Q q; Q::nextid = 1; q.props = "C10"; clk.point_cost = 1;
  bool wild = choose(3) == 2; if (choose(3) == 2) { pf.on = true; pf.jump = 200; pf.jump_max = 1000000; }
  q.init(choose(2) ? 0xFF : 0, "buffer");
  int k = choose(3); for (int i = 0; i < k; i++) q.attach();
  if (choose(12) == 11) { static const int many[] = {1, 2, 254, 255, 256, 257, 511, 512}; q.attach_many(many[choose(8)]); }
  int n = 10 + (int)choose(60); for (int i = 0; i < n; i++) q.step(wild, true);
  q.full(); q.drain(); nontrivial(); stat("operations", n);
  describe("capacity %zu, payload %zu bytes, %d operations, %zu writers, arbitrary stamps %d", N, sizeof(T), n, q.ws.size(), wild);
}
// more events than 16 bits can index
template <class T, size_t N> static void seq_long() {
  typedef Seq<T, N> Q; static Q q; Q::nextid = 1; q.props = "C10"; clk.point_cost = 1; sc.fair_points = 40000000; sc.max_points = 40000000;
  q.init(choose(2) ? 0xFF : 0, "buffer"); if (choose(2)) q.attach();
  u32 n = N - 3 + choose(8); for (u32 i = 0; i < n; i++) q.dpush(false); q.query(); q.readidx(N); q.readidx(N + 1); q.readidx(65535); q.readidx(65536); q.readidx(q.b); q.readidx((q.t + N) % (N + 1));
  n = choose(12); for (u32 i = 0; i < n; i++) q.step(false, true);
  if (choose(2)) { n = 65530 + choose(12); for (u32 i = 0; i < n; i++) { if (choose(64)) q.pull(); else q.pop(); } q.query(); }
  n = choose(12); for (u32 i = 0; i < n; i++) q.step(false, true); q.query();
  for (u32 i = 0; i < 200; i++) q.readidx(choose((u32)N + 1)); nontrivial(); stat("operations", 70000); count_fault(FK_BURST);
  describe("capacity %zu, %zu events left", N, q.len());
}
// the same through writers, and readers that take it all back
template <class T, size_t N> static void seq_long_writers() {
  typedef Seq<T, N> Q; typedef typename Q::Rd Rd; static Q q; Q::nextid = 1; q.props = "C01,C02,C04,C05,C08,C10"; clk.point_cost = 1; sc.fair_points = 40000000; sc.max_points = 40000000;
  q.init(choose(2) ? 0xFF : 0, "buffer"); q.attach(); if (choose(2)) q.attach();
  bool all = choose(2); u32 n = (choose(2) ? N : 65530) - 3 + choose(8), two = choose(64);
  Rd *r[2]; for (auto &x : r) x = make<Rd>(0x11, *q.buf);
  for (u32 i = 0; i < n; i++) { q.wpush(q.ws.size() > 1 && (i & 63) == two, all, false); if (i == 2 && choose(2)) { q.reader_pass(r[0], true); r[0] = nullptr; } }
  q.query(); for (auto x : r) if (x) q.reader_pass(x, true); for (u32 i = 0; i < 200; i++) q.readidx(choose((u32)N + 1)); q.readidx(q.b); q.readidx((q.t + N) % (N + 1));
  if (choose(2)) { q.kill(0); q.query(); }
  nontrivial(); stat("operations", 70000); count_fault(FK_BURST); describe("capacity %zu, %u events through %zu writers", N, n, q.ws.size());
}
// copying
template <class T, size_t N> struct Copy {
  typedef Seq<T, N> Q; typedef typename Q::E E; typedef typename Q::Wr Wr; typedef typename Q::Rd Rd;
  static Q q[3]; struct Job { int buf; size_t w; std::vector<int> ids; std::vector<int> res; }; static std::vector<Job> jobs; struct PR { int buf; int id; u64 rd; i64 ts; int res; }; static std::vector<PR> prs; static bool alive[3];
  static void *worker(void *a) {
    int j = (int)(intptr_t)a; Wr *w = q[jobs[j].buf].ws[jobs[j].w].w;
    for (int id : jobs[j].ids) { E e = Q::mk(id, 5); int r = LIB(w->push(e)); u64 rd = 0; for (auto &c : clock_reads) if (c.fiber == cur->id) rd = c.seq; prs.push_back({jobs[j].buf, id, rd, (i64)e.getTime(), r}); note("%s: pushed %d -> %d", q[jobs[j].buf].nm, id, r); }
    return nullptr;
  }
  static void stuck(const char *why) { report("*", "stuck", "%s: writers of copied buffers make no progress", why); }
  static void run() {
    Q::nextid = 1; clk.point_cost = 1; on_stuck = stuck; if (N > 64) sc.fair_points = 40000000; int nb = 2 + (int)choose(2); static const char *names[3] = {"bufferA", "bufferB", "bufferC"}; jobs.clear(); prs.clear(); int copies = 0;
    for (int i = 0; i < nb; i++) { q[i].props = "C09"; q[i].init(choose(2) ? 0xFF : 0, names[i]); alive[i] = true; int k = choose(3); for (int j = 0; j < k; j++) q[i].attach(); int r = choose(3); for (int j = 0; j < r; j++) q[i].rs.push_back(make<Rd>(0xEE, *q[i].buf)); }
    int rounds = 1 + (int)choose(4);
    for (int c = 0; c < rounds; c++) {
      for (int i = 0; i < nb; i++) if (alive[i]) { int n = choose(N > 64 ? 20 : 2 * N + 6); for (int k = 0; k < n; k++) q[i].step(false, true); if (!q[i].rs.empty() && choose(2)) { Rd *r = q[i].rs[choose((u32)q[i].rs.size())]; q[i].reader_pass(r, false); } }
      int s = (int)choose(nb), d = (int)choose(nb); if (!alive[s] || !alive[d]) continue; 
      note("%s = %s", names[d], names[s]); { auto *x = q[d].buf; auto *y = q[s].buf; Lib l; *x = *y; } copies++;
      { // contents only: the position in the destination's ring is its own business
        size_t b2, t2; LIBV(q[d].buf->state(b2, t2)); size_t L = (t2 + N + 1 - b2) % (N + 1);
        if (b2 > N || t2 > N || L != q[s].len()) violate("C09", "copy-length", "after %s = %s the destination holds %zu events, the source %zu", names[d], names[s], L, q[s].len());
        typename Q::Slot tmp[N + 1]; for (auto &x : tmp) x.set = false; for (size_t k = 0; k < L; k++) tmp[(b2 + k) % (N + 1)] = q[s].slot[(q[s].b + k) % (N + 1)];
        memcpy(q[d].slot, tmp, sizeof tmp); q[d].b = b2; q[d].t = t2;
      }
      for (int i = 0; i < nb; i++) if (alive[i]) q[i].full();
      if (s != d && choose(3) == 2) { // the source goes away
        for (size_t k = 0; k < q[s].ws.size(); k++) q[s].kill(k);
        note("destroy %s", names[s]); { typedef typename Q::B B; Lib l; q[s].buf->~B(); } memset((void *)q[s].buf, cfg_choose(2) ? 0xFF : 0, sizeof(typename Q::B)); count_fault(FK_CRASH); count_fault(FK_POISON); alive[s] = false;
      }
    }
    for (int i = 0; i < nb; i++) if (alive[i]) q[i].full();
    if (N > 64) { sc.max_points += points(); sc.fair_points = 40000000; }
    // both used by threads at the same time
    if (choose(2)) {
      int first[3] = {0, 0, 0};
      for (int i = 0; i < nb; i++) if (alive[i]) { int k = 1 + (int)choose(2); for (int j = 0; j < k; j++) { size_t w; if (!q[i].ws.empty() && choose(2) && !q[i].ws[w = choose((u32)q[i].ws.size())].dead) { bool used = false; for (auto &x : jobs) if (x.buf == i && x.w == w) used = true; if (used) continue; } else { q[i].attach(); w = q[i].ws.size() - 1; }
        Job jb; jb.buf = i; jb.w = w; int n = 1 + (int)choose(4); for (int z = 0; z < n; z++) jb.ids.push_back(Q::nextid++); jobs.push_back(jb); } }
      (void)first;
      for (size_t j = 0; j < jobs.size(); j++) spawn(worker, (void *)(intptr_t)j, "writer");
      wait_all(); std::sort(prs.begin(), prs.end(), [](const PR &a, const PR &b) { return a.rd < b.rd; });
      for (auto &p : prs) { bool o = q[p.buf].mpush(p.id, p.ts); if (p.res != (o ? Q::B::BUFFER_OVERFLOW : Q::B::OK)) violate("C09", "result", "push of event %d into %s returned %d, expected %s", p.id, names[p.buf], p.res, o ? "overflow" : "success"); }
      for (int i = 0; i < nb; i++) if (alive[i]) q[i].full();
      stat("concurrent_phases");
    }
    for (int i = 0; i < nb; i++) if (alive[i]) for (auto *r : q[i].rs) q[i].reader_pass(r, false);
    for (int i = 0; i < nb; i++) if (alive[i]) { Rd *r = make<Rd>(0xEE, *q[i].buf); q[i].reader_pass(r, true); q[i].full(); q[i].drain(); }
    if (copies) nontrivial(); stat("copies", copies);
    describe("%d buffers of capacity %zu, payload %zu bytes, %d assignments, %zu concurrent writers", nb, N, sizeof(T), copies, jobs.size());
  }
};
template <class T, size_t N> typename Copy<T, N>::Q Copy<T, N>::q[3];
template <class T, size_t N> std::vector<typename Copy<T, N>::Job> Copy<T, N>::jobs;
template <class T, size_t N> std::vector<typename Copy<T, N>::PR> Copy<T, N>::prs;
template <class T, size_t N> bool Copy<T, N>::alive[3];
SCENARIO(C10, sequential, 1) { if (choose(3000) == 2999) { seq_long<int, 70000>(); return; } if (choose(100) == 99) { seq_run<Mid, 300>(); return; } switch (choose(7)) { case 6: seq_run<OWN, 3>(); break; case 0: seq_run<int, 2>(); break; case 1: seq_run<int, 1>(); break; case 2: seq_run<Big, 3>(); break; case 3: seq_run<Mid, 4>(); break; case 4: seq_run<int, 16>(); break; default: seq_run<Big, 7>(); } }
SCENARIO(C09, copies, 1) { if (choose(100) == 99) { Copy<int, 270>::run(); return; } switch (choose(6)) { case 5: Copy<OWN, 3>::run(); break; case 0: Copy<int, 2>::run(); break; case 1: Copy<Big, 3>::run(); break; case 2: Copy<Mid, 5>::run(); break; case 3: Copy<int, 8>::run(); break; default: Copy<Big, 4>::run(); } }

static void any(const Feat &f) {
  if (!f.death && choose(3000) == 2999) { seq_long_writers<int, 70000>(); return; }
  if (choose(200) == 199) { go<Mid, 300>(f); return; }
  switch (choose(10)) {
  case 0: go<int, 2>(f); break;
  case 9: go<int, 1>(f); break;
  case 1: go<int, 3>(f); break;
  case 2: go<int, 4>(f); break;
  case 3: go<Big, 2>(f); break;
  case 4: go<Big, 3>(f); break;
  case 5: go<Big, 5>(f); break;
  case 6: go<Mid, 8>(f); break;
  case 7: go<int, 16>(f); break;
  default: go<Big, 7>(f); break;
  }
}

SCENARIO(C01, writers_only, 3) { Feat f; f.maxr = 0; f.maxs = 0; f.minw = 2; any(f); }
SCENARIO(C01, writers_and_readers, 2) { Feat f; f.latestart = true; any(f); }
ALSO(C02, writers_only, 3) ALSO(C02, writers_and_readers, 1)
SCENARIO(C01, lapped, 2) { Feat f; f.minw = f.maxw = 2; f.maxr = 1; f.maxs = 1; f.lap = true; f.pops = choose(2); any(f); }
ALSO(C02, lapped, 1) ALSO(C04, lapped, 1) ALSO(C05, lapped, 1) ALSO(C06, lapped, 1) ALSO(C11, lapped, 1)
SCENARIO(C02, writers_full, 3) { Feat f; f.maxr = 0; f.maxs = 0; f.forcefull = true; f.maxops = 3; any(f); }
SCENARIO(C03, stamps, 3) { Feat f; f.maxr = 1; f.maxs = 0; f.quant = true; f.minw = 2; f.all = choose(3) == 2; any(f); }
ALSO(C03, writers_only, 1)
SCENARIO(C04, snapshots, 3) { Feat f; f.maxr = 0; f.maxs = 2; f.maxw = 3; f.forcefull = true; any(f); }
SCENARIO(C05, readers, 3) { Feat f; f.maxr = 3; f.maxs = 0; f.maxw = 3; f.latestart = true; f.all = choose(4) == 3; any(f); }
SCENARIO(C05, readers_one_writer, 2) { Feat f; f.maxr = 2; f.maxs = 0; f.maxw = 1; f.maxops = 12; f.latestart = true; any(f); }
ALSO(C06, readers, 2) ALSO(C06, readers_one_writer, 2)
SCENARIO(C06, readers_clock_steps, 3) { Feat f; f.maxr = 2; f.maxs = 0; f.maxw = 3; f.jumps = true; f.latestart = true; f.all = false; f.maxs = choose(3) == 2; any(f); }
ALSO(C01, readers_clock_steps, 1) ALSO(C02, readers_clock_steps, 1) ALSO(C05, readers_clock_steps, 1) ALSO(C04, readers_clock_steps, 1)
SCENARIO(C07, freeze, 4) { Feat f; f.maxr = 2; f.maxs = 1; f.death = true; f.pops = choose(2); any(f); }
SCENARIO(C07, progress, 1) { Feat f; f.maxr = 2; f.maxs = 1; f.pops = choose(2); f.churn = choose(3) == 2; any(f); }
SCENARIO(C08, churn, 3) { Feat f; f.maxr = 2; f.maxs = 1; f.churn = true; f.maxops = 6; any(f); }
SCENARIO(C11, poppers, 3) { Feat f; f.maxr = 2; f.maxs = 0; f.pops = true; f.maxw = 3; f.all = choose(4) == 3; f.latestart = true; any(f); }
