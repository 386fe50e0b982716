// Sums of squares, their scales, merging and norms.
#define RB_BLAS
#include "l1.hpp"
#include <quadmath.h>
template <class T> T model_scale(T x) { return Lib<T>::scale(x); }      // C14 decides the scale function itself
template <class T> struct Part {            // an accumulator of squares under observation
  typedef Lib<T> B; int fold, ip, ic; bool packed; std::vector<T> pri, car; T scale = 0; std::vector<T> data; T wscale = 0;
  Part(int f, Rng &r) : fold(f) { packed = r.chance(1, 2); ip = packed ? 1 : r.range(1, 3); ic = packed ? 1 : r.range(1, 3); if (packed) { pri.assign(2 * f + 4, (T)-5e30); for (int i = 0; i < 2 * f; i++) pri[i] = 0; } else { pri.assign((size_t)f * ip + 4, (T)-5e30); car.assign((size_t)f * ic + 4, (T)-6e30); for (int i = 0; i < f; i++) pri[(size_t)i * ip] = car[(size_t)i * ic] = 0; } }
  T *P() { return pri.data(); }
  T *C() { return packed ? &pri[fold] : car.data(); }
  bool gaps() { if (packed) { for (size_t i = 2 * fold; i < pri.size(); i++) if (pri[i] != (T)-5e30) return false; return true; }
    for (size_t i = 0; i < pri.size(); i++) if ((i % ip || i / ip >= (size_t)fold) && pri[i] != (T)-5e30) return false; for (size_t i = 0; i < car.size(); i++) if ((i % ic || i / ic >= (size_t)fold) && car[i] != (T)-6e30) return false; return true; }
};
template <class T> void shiftacc(Acc<T> &a, int k) { typedef Lib<T> B; for (int i = Acc<T>::NB - 1; i >= 0; i--) a.S[i] = i - k >= 0 && i <= B::MAXINDEX ? a.S[i - k] : 0; for (int i = B::MAXINDEX + 1; i < Acc<T>::NB; i++) a.S[i] = 0; a.top += k; if (a.nz && a.top > B::MAXINDEX) a.top = B::MAXINDEX; }

template <class T> struct Ssq {
  typedef Lib<T> B; Rep &rep; Rng &r; int fold, z; bool sp; std::string log; bool bad = false;
  Ssq(Rep &a, Rng &b, bool s) : rep(a), r(b), sp(s) { fold = pick_fold<T>(r); z = r.chance(1, 2); }
  std::string nm(const char *o) { return std::string(o) + ":" + B::nm() + (z ? "z" : ""); }
  std::string ctx() { return std::string(B::nm()) + (z ? " complex" : " real") + " fold=" + std::to_string(fold) + " " + log; }
  void feed(Part<T> &p, const std::vector<T> &v) {
    int N = v.size() / (z + 1), ix = r.chance(1, 2) ? 1 : r.range(1, 4); auto X = L1<T>::spread(v, N, z + 1, ix, std::numeric_limits<T>::quiet_NaN()); auto X0 = X; T s;
    log += "ssq n=" + std::to_string(N) + " inc=" + std::to_string(ix) + (p.packed ? " packed; " : "; "); if (N && N <= 4 && log.size() < 900) for (T x : v) log += hexf(x) + " ";
    if (p.packed && r.chance(1, 2)) s = z ? B::bzssq(fold, N, X.data(), ix, p.scale, p.P()) : B::bssq(fold, N, X.data(), ix, p.scale, p.P());
    else s = z ? B::mzssq(fold, N, X.data(), ix, p.scale, p.P(), p.ip, p.C(), p.ic) : B::mssq(fold, N, X.data(), ix, p.scale, p.P(), p.ip, p.C(), p.ic);
    p.scale = s; p.data.insert(p.data.end(), v.begin(), v.end());
    if (memcmp(X0.data(), X.data(), X.size() * sizeof(T))) { rep.viol(nm("ssq:input"), ctx()); bad = true; }
    rep.count(std::string(B::nm()) + (z ? ":zssq" : ":ssq")); T m = 0; for (T x : v) if (std::fabs(x) > m) m = std::fabs(x);
    if (N) p.wscale = std::max(p.wscale, model_scale(m));
  }
  // the exact contents: squares of the elements divided by the final scale
  bool check(Part<T> &p, const char *op) {
    Acc<T> a; a.wantexact = false; long small = 0; bool nan = false, inf = false;
    for (T x : p.data) { if (x != x) { nan = true; continue; } if (std::isinf(x)) { inf = true; continue; } }
    State<T> s = read_state<T>(fold, p.P(), p.ip, p.C(), p.ic); rep.count("states-read");
    if (!p.gaps()) { rep.viol(nm(op) + ":gap", ctx()); bad = true; return false; }
    if (nan || inf) { rep.count("special-states"); if (!s.special || (nan ? s.sv == s.sv : !(s.sv > 0))) { rep.viol(nm(op) + ":special", ctx() + " state " + state_str(s) + (nan ? " expected NaN" : " expected +Inf")); bad = true; return false; } return true; }
    if (p.scale != p.wscale) { rep.viol(nm(op) + ":scale", ctx() + " scale " + hexf(p.scale) + " expected " + hexf(p.wscale)); bad = true; return false; }
    if (p.data.empty()) { if (s.first >= 0) { rep.viol(nm(op) + ":empty", ctx() + state_str(s)); bad = true; return false; } return true; }
    T inv = (T)1 / p.wscale, mn = sizeof(T) == 8 ? (T)DBL_MIN : (T)FLT_MIN;
    for (T x : p.data) { T v = mulr(x, inv), q = mulr(v, v); if (x != 0 && q < mn) small++; a.add(q); }
    std::string why; bool ok;
    bool beyond = s.first >= 0 && s.first + fold - 1 > B::MAXINDEX; if (!small && !beyond) ok = state_matches(s, a, fold, why);
    else {                     // a square that underflows is rounded a second time: it may fall either way at the last bin held
      ok = s.ok && !s.special; why = s.why; if (s.special) why = "finite data gave " + hexf(s.sv);
      if (ok && a.nz && s.first >= 0 && s.first != a.top) { ok = false; why = "first bin " + std::to_string(s.first) + " expected " + std::to_string(a.top); }
      if (ok && a.nz && s.first < 0) { ok = false; why = "zero"; }
      if (ok && s.first >= 0) { BigFix g = state_value(s), e = a.held(fold, s.first), lim; g.add(e, -1); lim.add(small + (beyond ? (long)a.nz : 0), unit_exp<T>(std::min(s.first + fold - 1, (int)B::MAXINDEX)) ); if (cmpabs(g, lim) > 0) { ok = false; why = "bins are off by " + hexf(g.approx()); } }
      for (int j = 0; ok && !small && s.first >= 0 && j < fold && s.first + j < B::MAXINDEX; j++) if (s.S[j] != a.S[s.first + j]) { ok = false; why = "bin " + std::to_string(s.first + j) + " holds " + i128(s.S[j]) + " expected " + i128(a.S[s.first + j]); }
      rep.count("underflowing-squares", small);
    }
    if (!ok) { rep.viol(nm(op) + ":state", ctx() + " scale " + hexf(p.scale) + ": " + why + " | state " + state_str(s) + " | model " + a.str(fold)); bad = true; return false; }
    return true;
  }
  std::vector<T> chunk() {
    int n = r.chance(1, 12) ? r.range(0, 4) : r.chance(1, 10) ? r.range(B::ENDURANCE - 3, 3 * B::ENDURANCE) : r.range(1, 60); std::vector<T> v((size_t)n * (z + 1)); if (r.chance(1, 3)) { int c = r.range(B::EMIN + 1, B::EMAX); gen_any<T>(r, v, c - 20, c + 20); } else gen_any<T>(r, v);
    if (sp && n && r.chance(1, 3)) v[r.below(v.size())] = r.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    return v;
  }
  void run() {
    int parts = r.range(1, 5); std::vector<Part<T>> p; for (int i = 0; i < parts; i++) p.emplace_back(fold, r); uint64_t h = fold * 2 + z;
    for (int k = r.range(1, 6); k-- && !bad;) { auto v = chunk(); h = hashbytes(v.data(), v.size() * sizeof(T), h); Part<T> &q = p[r.below(parts)]; feed(q, v); if (!bad) check(q, "ssq"); }
    std::vector<T> all; for (auto &q : p) all.insert(all.end(), q.data.begin(), q.data.end());
    while (p.size() > 1 && !bad) {
      size_t i = r.below(p.size()), j = r.below(p.size()); if (i == j) continue; Part<T> &x = p[i], &y = p[j]; auto px = x.pri, cx = x.car; log += "addsq " + hexf(x.scale) + "->" + hexf(y.scale) + "; ";
      if (x.scale != y.scale && x.scale > 0 && y.scale > 0) rep.count(x.scale > y.scale ? "merged-into-smaller-scale" : "merged-into-larger-scale");
      y.scale = x.packed && y.packed && r.chance(2, 3) ? B::addsq(fold, x.scale, x.P(), y.scale, y.P()) : B::maddsq(fold, x.scale, x.P(), x.ip, x.C(), x.ic, y.scale, y.P(), y.ip, y.C(), y.ic);
      y.data.insert(y.data.end(), x.data.begin(), x.data.end()); y.wscale = std::max(y.wscale, x.wscale); rep.count("scaled-merges");
      if (memcmp(px.data(), x.pri.data(), px.size() * sizeof(T)) || memcmp(cx.data(), x.car.data(), cx.size() * sizeof(T))) { rep.viol(nm("addsq:source"), ctx()); bad = true; break; }
      check(y, "addsq"); p.erase(p.begin() + i);
    }
    if (bad) return;
    norm(all, p[0]); rep.eval(h, all.size() > 1); rep.sample(ctx());
  }
  // the norm: right special, no false overflow, and within the error of its sum of squares
  void norm(const std::vector<T> &all, Part<T> &p) {
    int N = all.size() / (z + 1), ix = r.range(1, 3); auto X = L1<T>::spread(all, N, z + 1, ix, std::numeric_limits<T>::quiet_NaN());
    T n = z ? B::rznrm2(fold, N, X.data(), ix) : B::rnrm2(fold, N, X.data(), ix), merged = (T)((double)p.scale * std::sqrt((double)B::rmto(fold, p.P(), p.ip, p.C(), p.ic))); bool nan = false, inf = false; T m = 0;
    for (T x : all) { if (x != x) nan = true; else if (std::isinf(x)) inf = true; else m = std::max(m, (T)std::fabs(x)); }
    rep.count("norms"); std::string g = ctx() + " norm of " + std::to_string(N) + " elements gave " + hexf(n);
    if (nan) { if (n == n) rep.viol(nm("nrm2:nan"), g); return; }
    if (inf) { if (!(n > 0 && std::isinf(n))) rep.viol(nm("nrm2:inf"), g + " expected inf"); return; }
    if (!samebits(n, merged) && N) { rep.viol(nm("nrm2:merge"), g + " merged accumulators give " + hexf(merged)); return; }
    if (fold == 3) { T d = z ? B::dznrm2(N, X.data(), ix) : B::dnrm2(N, X.data(), ix); if (!samebits(d, n)) rep.viol(nm("nrm2:default"), g + " default " + hexf(d)); }
    if (m == 0) { if (n != 0) rep.viol(nm("nrm2:zero"), g); return; }
    int e; frexp((double)m, &e); __float128 s = 0; for (T x : all) { __float128 q = ldexpq((__float128)x, -e); s += q * q; } __float128 w = sqrtq(s), wf = ldexpq(w, e);
    if (n != n || n < 0) { rep.viol(nm("nrm2:value"), g); return; }
    if (std::isinf(n)) { if (wf < ldexpq(1, B::EMAX) * (1 - 1e-3 * (sizeof(T) == 4))) rep.viol(nm("nrm2:overflow"), g + " but it is " + hexf((double)(T)wf)); rep.count("overflowing"); return; }
    __float128 eps = sizeof(T) == 8 ? 0x1p-52 : 0x1p-23, err = fabsq(ldexpq((__float128)n, -e) - w), lim = w * 8 * eps + ldexpq((__float128)N * (z + 1) * 4, (1 - fold) * B::W) / w + ldexpq(1, B::EMIN - e) ; if (lim > w * 1.0000001) lim = w * 1.0000001;
    if (!(err <= lim)) rep.viol(nm("nrm2:error"), g + " exact " + std::to_string((double)w) + "*2^" + std::to_string(e) + " fold " + std::to_string(fold));
    rep.count("norms-compared");
  }
};
// rescaling an accumulator moves every bin down by exactly the ratio squared, and what falls off the end is gone
template <class T> void rescale(Rep &rep, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r), z = r.chance(1, 2), w = z + 1, ip = r.range(1, 3), ic = r.range(1, 3); std::vector<T> pri((size_t)fold * ip * w + 2, (T)-5e30), car((size_t)fold * ic * w + 2, (T)-6e30); Acc<T> a[2]; for (auto &x : a) x.wantexact = false;
  for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) pri[(size_t)j * ip * w + q] = car[(size_t)j * ic * w + q] = 0;
  int n = r.range(0, 30); std::vector<T> v((size_t)n * w); int top = r.chance(1, 3) ? r.range(B::EMIN + 2 * B::W, B::EMAX - 2 * B::W) : 2 * B::W; gen_any<T>(r, v, r.chance(1, 2) ? B::EMIN : top - 3 * B::W, top); std::string d;
  for (int i = 0; i < n; i++) { if (z) B::zmadd(fold, &v[2 * i], &pri[0], ip, &car[0], ic); else B::rmadd(fold, v[i], &pri[0], ip, &car[0], ic); for (int q = 0; q < w; q++) a[q].add(v[i * w + q]); if (i < 4) d += hexf(v[i * w]) + " "; }
  T s1 = model_scale(rnd_mant<T>(r, r.range(B::ENORM, B::EMAX))), s2 = model_scale(rnd_mant<T>(r, r.range(B::ENORM, B::EMAX))); if (r.chance(1, 2)) { s2 = s1 * (T)ldexp(1.0, B::W * r.range(0, 4)); if (std::isinf(s2)) s2 = s1; } if (s2 < s1) std::swap(s1, s2); if (r.chance(1, 20)) s1 = 0;
  bool noop = s1 == s2 || s1 == 0; int k = noop ? 0 : 2 * (ilogb((double)s2) - ilogb((double)s1)) / B::W; std::string ctx = std::string(B::nm()) + (z ? " complex" : " real") + " fold=" + std::to_string(fold) + " n=" + std::to_string(n) + " " + d + " rescaled " + hexf(s1) + " to " + hexf(s2);
  std::vector<T> p0 = pri, c0 = car; if (z) B::zrescale(fold, s2, s1, &pri[0], ip, &car[0], ic); else B::rrescale(fold, s2, s1, &pri[0], ip, &car[0], ic);
  rep.count("rescales"); if (k) rep.count("shifting-rescales");
  if (noop) { if (memcmp(p0.data(), pri.data(), pri.size() * sizeof(T)) || memcmp(c0.data(), car.data(), car.size() * sizeof(T))) rep.viol("rescale:noop", ctx); }
  for (int q = 0; q < w; q++) { State<T> s = read_state<T>(fold, &pri[q], ip * w, &car[q], ic * w); std::string why; bool clipped = a[q].nz && a[q].top + k > B::MAXINDEX; if (!noop) shiftacc(a[q], k); if (clipped) rep.count("bins-fell-off"); if (n == 0 && s.first >= 0) { bool zz = true; for (auto x : s.S) zz &= x == 0; if (zz) continue; }
    if (clipped && s.ok && !s.special) { bool zz = true; for (auto x : s.S) zz &= x == 0; if (zz) continue; }
    if (!state_matches(s, a[q], fold, why)) { rep.viol(std::string("rescale:") + B::nm(), ctx + " part " + std::to_string(q) + ": " + why + " | state " + state_str(s) + " | model " + a[q].str(fold)); return; } }
  for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) { p0[(size_t)j * ip * w + q] = pri[(size_t)j * ip * w + q]; c0[(size_t)j * ic * w + q] = car[(size_t)j * ic * w + q]; }
  if (memcmp(p0.data(), pri.data(), pri.size() * sizeof(T)) || memcmp(c0.data(), car.data(), car.size() * sizeof(T))) rep.viol("rescale:gap", ctx);
  rep.eval(hashbytes(v.data(), v.size() * sizeof(T), fold * 64 + k), n > 0 && k); if (n < 4 && k) rep.sample(ctx);
}

int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) {
    if (o.mode == "ssq") { bool s = r.chance(1, 8); if (i & 1) Ssq<float>(rep, r, s).run(); else Ssq<double>(rep, r, s).run(); }
    else if (o.mode == "rescale") { if (i & 1) rescale<float>(rep, r); else rescale<double>(rep, r); }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
