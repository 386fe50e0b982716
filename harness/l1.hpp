// The BLAS-1 routines as one family, with the exact list of summands each one stands for.
#pragma once
#include "model.hpp"
enum Kind { SUM, ASUM, DOT, DOTC, SSQ };
static const char *kind_name(int k, int z) { static const char *r[] = {"sum", "asum", "dot", "dotc", "ssq"}, *c[] = {"zsum", "zasum", "zdotu", "zdotc", "zssq"}; return z ? c[k] : r[k]; }

template <class T> T mulr(T a, T b) { volatile T p = a * b; return p; }

template <class T> struct L1 {
  typedef Lib<T> B; int kind, z, N, ix, iy; std::vector<T> x, y;      // x, y: compact values (interleaved when complex)
  int parts() const { return z && kind != ASUM && kind != SSQ ? 2 : 1; }
  bool two() const { return kind == DOT || kind == DOTC; }
  std::string name() const { return std::string(B::nm()) + ":" + kind_name(kind, z); }
  // summands of element i, in no particular order
  template <class F> void each(int i, T scl, F f) const {
    if (!z) switch (kind) { case SUM: f(0, x[i]); break; case ASUM: f(0, std::fabs(x[i])); break; case SSQ: { T v = mulr<T>(x[i], (T)1 / scl); f(0, mulr(v, v)); break; } default: f(0, mulr(x[i], y[i])); }
    else { T a = x[2 * i], b = x[2 * i + 1]; switch (kind) {
      case SUM: f(0, a); f(1, b); break; case ASUM: f(0, std::fabs(a)); f(0, std::fabs(b)); break;
      case SSQ: { T v = mulr<T>(a, (T)1 / scl), w = mulr<T>(b, (T)1 / scl); f(0, mulr(v, v)); f(0, mulr(w, w)); break; }
      case DOT: { T c = y[2 * i], d = y[2 * i + 1]; f(0, mulr(a, c)); f(0, -mulr(b, d)); f(1, mulr(a, d)); f(1, mulr(b, c)); break; }
      default: { T c = y[2 * i], d = y[2 * i + 1]; f(0, mulr(a, c)); f(0, mulr(b, d)); f(1, mulr(a, d)); f(1, -mulr(b, c)); } } }
  }
  void model(Acc<T> *a, T scl = 1) const { for (int i = 0; i < N; i++) each(i, scl, [&](int p, T v) { a[p].add(v); }); }
  static std::vector<T> spread(const std::vector<T> &v, int N, int w, int inc, T fill) { std::vector<T> o((size_t)std::max(0, N - 1) * w * inc + w * (N > 0) , fill); for (int i = 0; i < N; i++) for (int q = 0; q < w; q++) o[(size_t)i * w * inc + q] = v[i * w + q]; return o; }
  std::vector<T> X() const { return spread(x, N, z + 1, ix, (T)3.0e33); }
  std::vector<T> Y() const { return two() ? spread(y, N, z + 1, iy, (T)-3.0e33) : std::vector<T>(); }
  // into a packed accumulator
  void packed(int f, const T *X, const T *Y, T *Z) const {
    if (!z) switch (kind) { case SUM: B::bsum(f, N, X, ix, Z); break; case ASUM: B::basum(f, N, X, ix, Z); break; default: B::bdot(f, N, X, ix, Y, iy, Z); }
    else switch (kind) { case SUM: B::bzsum(f, N, X, ix, Z); break; case ASUM: B::bzasum(f, N, X, ix, Z); break; case DOT: B::bzdotu(f, N, X, ix, Y, iy, Z); break; default: B::bzdotc(f, N, X, ix, Y, iy, Z); }
  }
  void manual(int f, const T *X, const T *Y, T *p, int ip, T *c, int ic) const {
    if (!z) switch (kind) { case SUM: B::msum(f, N, X, ix, p, ip, c, ic); break; case ASUM: B::masum(f, N, X, ix, p, ip, c, ic); break; default: B::mdot(f, N, X, ix, Y, iy, p, ip, c, ic); }
    else switch (kind) { case SUM: B::mzsum(f, N, X, ix, p, ip, c, ic); break; case ASUM: B::mzasum(f, N, X, ix, p, ip, c, ic); break; case DOT: B::mzdotu(f, N, X, ix, Y, iy, p, ip, c, ic); break; default: B::mzdotc(f, N, X, ix, Y, iy, p, ip, c, ic); }
  }
  // plain result, fold f (0: the default-fold entry point)
  void plain(int f, const T *X, const T *Y, T *o) const {
    o[0] = o[1] = 0;
    if (f) {
      if (!z) switch (kind) { case SUM: o[0] = B::rsum(f, N, X, ix); break; case ASUM: o[0] = B::rasum(f, N, X, ix); break; case SSQ: o[0] = B::rnrm2(f, N, X, ix); break; default: o[0] = B::rdot(f, N, X, ix, Y, iy); }
      else switch (kind) { case SUM: B::rzsum(f, N, X, ix, o); break; case ASUM: o[0] = B::rzasum(f, N, X, ix); break; case SSQ: o[0] = B::rznrm2(f, N, X, ix); break; case DOT: B::rzdotu(f, N, X, ix, Y, iy, o); break; default: B::rzdotc(f, N, X, ix, Y, iy, o); }
    } else {
      if (!z) switch (kind) { case SUM: o[0] = B::dsum(N, X, ix); break; case ASUM: o[0] = B::dasum(N, X, ix); break; case SSQ: o[0] = B::dnrm2(N, X, ix); break; default: o[0] = B::ddot(N, X, ix, Y, iy); }
      else switch (kind) { case SUM: B::dzsum(N, X, ix, o); break; case ASUM: o[0] = B::dzasum(N, X, ix); break; case SSQ: o[0] = B::dznrm2(N, X, ix); break; case DOT: B::dzdotu(N, X, ix, Y, iy, o); break; default: B::dzdotc(N, X, ix, Y, iy, o); }
    }
  }
  void permute(Rng &r) { std::vector<int> p(N); for (int i = 0; i < N; i++) p[i] = i; int how = r.below(4); if (how == 0) std::reverse(p.begin(), p.end()); else if (how == 1) std::sort(p.begin(), p.end(), [&](int a, int b) { return x[a * (z + 1)] < x[b * (z + 1)] || (x[a * (z + 1)] == x[b * (z + 1)] && a < b); }); else if (how == 2 && N) std::rotate(p.begin(), p.begin() + r.below(N), p.end()); else r.shuffle(p);
    std::vector<T> u = x, v = y; int w = z + 1; for (int i = 0; i < N; i++) for (int q = 0; q < w; q++) { x[i * w + q] = u[p[i] * w + q]; if (two()) y[i * w + q] = v[p[i] * w + q]; } }
  std::string data(int k = 10) const { std::string s; for (int i = 0; i < std::min((int)x.size(), k); i++) s += hexf(x[i]) + (two() ? "*" + hexf(y[i]) : "") + " "; return s; }
  std::string desc(int f) const { return name() + " fold=" + std::to_string(f) + " N=" + std::to_string(N) + " inc=" + std::to_string(ix) + "," + std::to_string(iy) + " data: " + data(); }
};
// special: 0 finite with finite products only, 1 whatever comes, 2 specials planted
template <class T> int fill_l1(Rng &r, L1<T> &l, int special, int bigN = 5000) {
  typedef Lib<T> B; l.N = pick_n(r, bigN); l.ix = r.chance(3, 5) ? 1 : r.range(1, 5); l.iy = r.chance(3, 5) ? l.ix : r.range(1, 5); if (l.N > 2000 && !r.chance(1, 4)) l.ix = l.iy = 1;
  int w = l.z + 1; l.x.resize((size_t)l.N * w); int cat;
  if (l.two()) {
    l.y.resize((size_t)l.N * w);
    int lo = -9999, hi = 9999;
    if (special == 0) { lo = B::EMIN; hi = B::EMAX / 2 - 1; if (r.chance(1, 5)) { cat = gen_any<T>(r, l.x, B::EMAX - 60, B::EMAX); gen_any<T>(r, l.y, B::EMIN, 59 < 0 ? 0 : -1); lo = 1; hi = 0; } }
    if (lo <= hi) { cat = gen_any<T>(r, l.x, lo, hi);
      if (r.chance(1, 3)) gen_any<T>(r, l.y, lo, hi);
      else if (r.chance(1, 2)) { for (auto &v : l.y) v = (T)ldexp(1.0, 0) * (r.chance(1, 2) ? 1 : -1); }             // products are x exactly
      else gen_vec<T>(r, G_ONEEXP, l.y, std::max(lo, -20), std::min(hi, 20)); }
    if (r.chance(1, 6)) {   // equal large products of one sign: the fastest growth a bin can see
      T a = (T)ldexp(1.0 - ldexp(1.0, -B::MANT), r.range(1, 12)); int e = B::EMAX - r.range(1, B::MAXINDEX - 1) * B::W - fexp(a); if (e < B::ENORM + 2 || e > B::EMAX - 20) e = 0; T b = (T)ldexp(1.0 - ldexp(1.0, -B::MANT), e);
      int sg = r.below(4); for (int i = 0; i < l.N * w; i++) { l.x[i] = a; l.y[i] = b; if (l.z && (i & 1) && (sg & 1)) l.x[i] = -a; if (l.z && (i & 1) && (sg & 2)) l.y[i] = -b; } cat = G_TOPBIN; }
  } else { cat = gen_any<T>(r, l.x); if (r.chance(1, 8)) { gen_vec<T>(r, G_TOPBIN, l.x); cat = G_TOPBIN; } }
  if (special == 2 && l.N) for (int k = r.range(1, 4); k--;) { T s; switch (r.below(5)) { case 0: s = std::numeric_limits<T>::quiet_NaN(); if (r.chance(2, 3)) s = std::numeric_limits<T>::infinity(); break; case 1: case 2: s = std::numeric_limits<T>::infinity(); break; default: s = -std::numeric_limits<T>::infinity(); }
    std::vector<T> &v = l.two() && r.chance(1, 2) ? l.y : l.x; v[r.below(v.size())] = s; }
  return cat;
}
// The same summands added one by one through the scalar routines.
template <class T> void scalar_ref(const L1<T> &l, int fold, std::vector<T> *acc) {
  for (int p = 0; p < 2; p++) acc[p].assign(2 * fold, (T)0);
  for (int i = 0; i < l.N; i++) l.each(i, (T)1, [&](int p, T v) { Lib<T>::radd(fold, v, &acc[p][0]); });
}
