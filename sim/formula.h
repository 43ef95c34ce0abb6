// Formula combinators: each has lib(), which evaluates with the real RMTLD3 templates, and ref(), the executable
// reference of the three-valued point semantics (written from the definition, over an array of events).
#pragma once
#include <rmtld3/formulas.h>
#define NOSAN __attribute__((no_sanitize("thread")))

struct RE { long long t; int d; };
struct RTr { const RE *e; int n; };
typedef three_valued_type V;
extern unsigned props_[3];
struct Dur { long long v; bool unk; };

static inline V rnot(V a) { return a == T_TRUE ? T_FALSE : a == T_FALSE ? T_TRUE : T_UNKNOWN; }
static inline V ror(V a, V b) { return a == T_TRUE || b == T_TRUE ? T_TRUE : a == T_FALSE && b == T_FALSE ? T_FALSE : T_UNKNOWN; }
static inline V rand_(V a, V b) { return rnot(ror(rnot(a), rnot(b))); }

template <class T, class A, class B = A> struct E2 {
  static NOSAN V eval_phi1(T &tr, timespan &t) { return A::template lib<T>(tr, t); }
  static NOSAN V eval_phi2(T &tr, timespan &t) { return B::template lib<T>(tr, t); }
};
// an operator with one operand uses phi1 only
template <class T, class A> struct E1 {
  static NOSAN V eval_phi1(T &tr, timespan &t) { return A::template lib<T>(tr, t); }
  static NOSAN V eval_phi2(T &tr, timespan &t) { V v = A::template lib<T>(tr, t); return v == T_TRUE ? T_FALSE : v == T_FALSE ? T_UNKNOWN : T_TRUE; }
};
#define LIBF template <class T> static NOSAN V lib(T &tr, timespan &t)
#define REFF static V ref(const RTr &r, int i)
// the reference at a time between event i and the next one
#define ATF static V at(const RTr &r, int i, long long t)

template <int K> struct P {
  LIBF { proposition p = props_[K]; return prop<T>(tr, p, t); }
  REFF { return i + 1 >= r.n ? T_UNKNOWN : (unsigned)r.e[i].d == props_[K] ? T_TRUE : T_FALSE; }
  ATF { return ref(r, i); }
};
struct Tr { LIBF { return T_TRUE; } REFF { return T_TRUE; } ATF { return T_TRUE; } };
struct Fa { LIBF { return T_FALSE; } REFF { return T_FALSE; } ATF { return T_FALSE; } };
// the connectives are used both on variables and nested directly in each other
template <class A> struct Not { LIBF { V x = A::template lib<T>(tr, t); return b3_not(x); } REFF { return rnot(A::ref(r, i)); } ATF { return rnot(A::at(r, i, t)); } };
template <class A, class B> struct And { LIBF { V x = A::template lib<T>(tr, t); V y = B::template lib<T>(tr, t); return b3_and(x, y); } REFF { return rand_(A::ref(r, i), B::ref(r, i)); } ATF { return rand_(A::at(r, i, t), B::at(r, i, t)); } };
template <class A, class B> struct Or { LIBF { V x = A::template lib<T>(tr, t); V y = B::template lib<T>(tr, t); return b3_or(x, y); } REFF { return ror(A::ref(r, i), B::ref(r, i)); } ATF { return ror(A::at(r, i, t), B::at(r, i, t)); } };
template <class A, class B> struct Not<Or<A, B>> { LIBF { V x = A::template lib<T>(tr, t); V y = B::template lib<T>(tr, t); return b3_not(b3_or(x, y)); } REFF { return rnot(ror(A::ref(r, i), B::ref(r, i))); } ATF { return rnot(ror(A::at(r, i, t), B::at(r, i, t))); } };
template <class A, class B> struct Not<And<A, B>> { LIBF { V x = A::template lib<T>(tr, t); V y = B::template lib<T>(tr, t); return b3_not(b3_and(x, y)); } REFF { return rnot(rand_(A::ref(r, i), B::ref(r, i))); } ATF { return rnot(rand_(A::at(r, i, t), B::at(r, i, t))); } };
template <class A, class B> struct Imp { LIBF { V x = A::template lib<T>(tr, t); V y = B::template lib<T>(tr, t); return b3_or(b3_not(x), b3_and(y, b3_or(x, y))); } REFF { V x = A::ref(r, i), y = B::ref(r, i); return ror(rnot(x), rand_(y, ror(x, y))); } ATF { V x = A::at(r, i, t), y = B::at(r, i, t); return ror(rnot(x), rand_(y, ror(x, y))); } };

template <long b, class A, class B> static V runtil(const RTr &r, int i) {
  for (int j = i; j < r.n; j++) {
    if (r.e[j].t >= r.e[i].t + b) return T_FALSE;
    V v2 = B::ref(r, j); if (v2 != T_FALSE) return v2;
    V v1 = A::ref(r, j); if (v1 != T_TRUE) return v1;
  }
  return T_UNKNOWN;
}
template <long b, class A, class B> static V rsince(const RTr &r, int i) {
  if (b <= 0) return T_FALSE; // an empty window is decided, whatever the trace covers
  for (int j = i - 1; j >= 0; j--) {
    if (r.e[j].t <= r.e[i].t - b) return T_FALSE;
    V v2 = B::ref(r, j); if (v2 != T_FALSE) return v2;
    V v1 = A::ref(r, j); if (v1 != T_TRUE) return v1;
  }
  return T_UNKNOWN;
}
template <long b, class A> static V rat(const RTr &r, int i) { // value at the event active at +b
  long long t = r.e[i].t + b;
  if (r.e[r.n - 1].t <= t) return T_UNKNOWN;
  int j = i; while (j + 1 < r.n && r.e[j + 1].t <= t) j++;
  return A::ref(r, j);
}
template <long b, class A> static V rat_t(const RTr &r, int i, long long t0) {
  long long t = t0 + b;
  if (r.e[r.n - 1].t <= t) return T_UNKNOWN;
  int j = i; while (j + 1 < r.n && r.e[j + 1].t <= t) j++;
  return A::ref(r, j);
}
template <long b, class A, class B> static V runtil_t(const RTr &r, int i, long long t) { // operands: propositions
  for (int j = i; j < r.n; j++) {
    if (r.e[j].t >= t + b) return T_FALSE;
    V v2 = B::ref(r, j); if (v2 != T_FALSE) return v2;
    V v1 = A::ref(r, j); if (v1 != T_TRUE) return v1;
  }
  return T_UNKNOWN;
}
// until whose operands are also evaluated between event j and the next: at the time of j plus the gap after the next event,
// plus the gap after that, and so on, before the next event and the end of the window
template <long b, class A, class B> static V runtil_in(const RTr &r, int i) {
  long long end = r.e[i].t + b;
  for (int j = i; j < r.n; j++) {
    if (r.e[j].t >= end) return T_FALSE;
    V v2 = B::ref(r, j); if (v2 != T_FALSE) return v2;
    V v1 = A::ref(r, j); if (v1 != T_TRUE) return v1;
    long long u = r.e[j].t;
    for (int k = j + 1; k + 1 < r.n; k++) {
      u += r.e[k + 1].t - r.e[k].t; if (u >= r.e[j + 1].t || u >= end) break;
      v2 = B::at(r, j, u); if (v2 != T_FALSE) return v2;
      v1 = A::at(r, j, u); if (v1 != T_TRUE) return v1;
    }
  }
  return T_UNKNOWN;
}
template <long b, class A> static V rpat(const RTr &r, int i) { // at -b; the oldest event counts for all times before it
  if (i == 0) return T_UNKNOWN;
  int j = i - 1; while (j > 0 && r.e[j].t > r.e[i].t - b) j--;
  return A::ref(r, j);
}
// window [t, t+u], t anywhere from e_i up to e_{i+1}
template <class A> static Dur rdur(const RTr &r, int i, long long t, long long u) {
  Dur d = {0, false};
  if (r.e[r.n - 1].t <= t + u) { d.unk = true; return d; }
  for (int j = i; j + 1 < r.n && r.e[j].t <= t + u; j++) {
    long long lo = r.e[j].t < t ? t : r.e[j].t, hi = r.e[j + 1].t < t + u ? r.e[j + 1].t : t + u;
    V v = A::ref(r, j); if (v == T_UNKNOWN) d.unk = true; else if (v == T_TRUE) d.v += hi - lo;
  }
  return d;
}
struct NegTrue { };
template <long b, class A, class B> struct Until { LIBF { return until_less<T, E2<T, A, B>, b>(tr, t); } REFF { return runtil<b, A, B>(r, i); } ATF { return runtil_t<b, A, B>(r, i, t); } };
template <long b, class A, class B> struct UntilIn { LIBF { return until_less<T, E2<T, A, B>, b, with_in_between>(tr, t); } REFF { return runtil_in<b, A, B>(r, i); } };
template <long b, class A> struct AlwaysL { LIBF { return always_less<T, E1<T, A>, b>(tr, t); } REFF { return rnot(runtil<b, Tr, Not<A>>(r, i)); } };
template <long b, class A> struct AlEq { LIBF { return always_equal<T, E1<T, A>, b>(tr, t); } REFF { return rat<b, A>(r, i); } ATF { return rat_t<b, A>(r, i, t); } };
template <long b, class A> struct EvEq { LIBF { return eventually_equal<T, E1<T, A>, b>(tr, t); } REFF { return rat<b, A>(r, i); } ATF { return rat_t<b, A>(r, i, t); } };
template <class A> struct EvU { LIBF { return eventually_less_unbounded<T, E1<T, A>>(tr, t); } REFF { for (int j = i; j < r.n; j++) { V v = A::ref(r, j); if (v != T_FALSE) return v; } return T_UNKNOWN; } };
template <long b, class A, class B> struct Since { LIBF { return since_less<T, E2<T, A, B>, b>(tr, t); } REFF { return rsince<b, A, B>(r, i); } };
template <long b, class A> struct HistL { LIBF { return historically_less<T, E1<T, A>, b>(tr, t); } REFF { return rnot(rsince<b, Tr, Not<A>>(r, i)); } };
template <long b, class A> struct HistEq { LIBF { return historically_equal<T, E1<T, A>, b>(tr, t); } REFF { return rpat<b, A>(r, i); } };
template <long b, class A> struct PastEq { LIBF { return pasteventually_equal<T, E1<T, A>, b>(tr, t); } REFF { return rpat<b, A>(r, i); } };
static inline V rless(Dur a, Dur b) { return a.unk || b.unk ? T_UNKNOWN : a.v < b.v ? T_TRUE : T_FALSE; }
template <long b, class A, long c> struct DurC { LIBF { duration x = duration_term<T, E1<T, A>, b>(tr, t); duration y = make_duration(c, false); return b3_lessthan(x, y); } REFF { return rless(rdur<A>(r, i, r.e[i].t, b), Dur{c, false}); } ATF { return rless(rdur<A>(r, i, t, b), Dur{c, false}); } };
template <long b, class A, long b2, class B> struct DurD { LIBF { duration x = duration_term<T, E1<T, A>, b>(tr, t); duration y = duration_term<T, E1<T, B>, b2>(tr, t); return b3_lessthan(x, y); } REFF { return rless(rdur<A>(r, i, r.e[i].t, b), rdur<B>(r, i, r.e[i].t, b2)); } };
template <long b, class A, long b2, class B, long c> struct DurS { LIBF { duration x = sum_dur(duration_term<T, E1<T, A>, b>(tr, t), mult_dur(make_duration(2, false), duration_term<T, E1<T, B>, b2>(tr, t))); duration y = make_duration(c, false); return b3_not(b3_lessthan(x, y)); }
  REFF { Dur x = rdur<A>(r, i, r.e[i].t, b), y = rdur<B>(r, i, r.e[i].t, b2); return rnot(rless(Dur{x.v + 2 * y.v, x.unk || y.unk}, Dur{c, false})); } };
