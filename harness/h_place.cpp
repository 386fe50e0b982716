// Every scalar operation on accumulators: the manually placed form at independent strides must do to the fields exactly what the
// packed form does, read no gap (gaps of inputs are NaN) and write no gap; vectors of accumulators must equal element by element.
#include "model.hpp"
template <class T> struct Place {      // one accumulator scattered over sentinel-filled memory
  int fold, w, ip, ic; std::vector<T> p, c, p0, c0; T fill;
  Place(Rng &r, int f, int ww, T fl, const T *packed) : fold(f), w(ww), ip(r.chance(1, 4) ? 1 : r.range(1, 6)), ic(r.chance(1, 4) ? 1 : r.range(1, 6)), fill(fl) {
    p.assign((size_t)w * fold * ip + 6, fill); c.assign((size_t)w * fold * ic + 6, fill);
    for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) { P()[(size_t)j * ip * w + q] = packed[j * w + q]; C()[(size_t)j * ic * w + q] = packed[(fold + j) * w + q]; }
    p0 = p; c0 = c;
  }
  T *P() { return &p[3]; }
  T *C() { return &c[3]; }
  void get(std::vector<T> &o) { o.resize((size_t)2 * fold * w); for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) { o[j * w + q] = P()[(size_t)j * ip * w + q]; o[(fold + j) * w + q] = C()[(size_t)j * ic * w + q]; } }
  bool untouched(bool fields_too) {
    std::vector<char> up(p.size(), 0), uc(c.size(), 0);
    if (!fields_too) for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) { up[3 + (size_t)j * ip * w + q] = 1; uc[3 + (size_t)j * ic * w + q] = 1; }
    for (size_t i = 0; i < p.size(); i++) if (!up[i] && memcmp(&p[i], &p0[i], sizeof(T))) return false;
    for (size_t i = 0; i < c.size(); i++) if (!uc[i] && memcmp(&c[i], &c0[i], sizeof(T))) return false;
    return true;
  }
};
template <class T> void place(Rep &rep, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r), z = r.chance(1, 2), w = z + 1, n = 2 * fold * w;
  static const char *nm[] = {"set", "merge", "add", "update", "deposit", "renorm", "from", "to", "rset", "negate", "setzero", "addsq", "rescale", "rupdate", "addv"};
  int op = r.below(15); if (op == 11) { z = 0; w = 1; n = 2 * fold; } if ((op == 8 || op == 13) && !z) return;
  std::vector<T> v(16); int c0 = r.range(B::EMIN + 1, B::EMAX); bool any = r.chance(1, 4), sp = r.chance(1, 20); int wd = r.range(1, 4 * B::W);
  gen_any<T>(r, v, any ? -9999 : std::max(B::EMIN + 1, c0 - wd), any ? 9999 : std::min(B::EMAX, c0 + wd));
  if (sp) v[r.below(16)] = r.chance(1, 2) ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::quiet_NaN();
  auto build = [&](std::vector<T> &a, int ww, int k, int m) { a.assign((size_t)2 * fold * ww, (T)0); for (; m--; k += 2) { int t = r.chance(1, 6) ? r.range(1, 900) : 1; while (t--) if (ww == 2) B::zadd(fold, &v[k], a.data()); else B::radd(fold, v[k], a.data()); } };
  int xw = op == 8 ? 1 : w; std::vector<T> X, Y; build(X, xw, 0, r.range(0, 3)); build(Y, w, 6, r.range(0, 3));
  T x[2] = {v[14], v[15]};
  if (op == 4) { T m[2] = {(T)std::fabs(x[0]), (T)std::fabs(x[1])}; if (z) B::zupdate(fold, m, Y.data()); else B::rupdate(fold, m[0], Y.data()); }
  if (op == 5) { int k = r.range(1, B::ENDURANCE); T m[2] = {(T)std::fabs(x[0]), (T)std::fabs(x[1])}; if (z) B::zupdate(fold, m, Y.data()); else B::rupdate(fold, m[0], Y.data()); while (k--) if (z) B::zdeposit(fold, x, Y.data()); else B::rdeposit(fold, x[0], Y.data()); }
  T s1 = B::scale((T)1), s2 = s1 * (T)std::ldexp(1.0, B::W * r.range(0, 3)), sx = r.chance(1, 2) ? s1 : s2, sy = sx == s1 ? s2 : s1; T o1[2] = {0, 0}, o2[2] = {0, 0};
  std::string ds = std::string(B::nm()) + (z ? " complex " : " ") + nm[op] + " fold=" + std::to_string(fold) + " data " + hexf(v[0]) + " " + hexf(v[6]) + " " + hexf(x[0]), key = std::string(B::nm()) + (z ? ":z" : ":") + nm[op];
  if (op == 14) {                      // vectors of accumulators
    int N = r.range(0, 5), ix = r.range(1, 3), iy = r.range(1, 3); std::vector<T> A((size_t)n * (N * ix + 1), (T)-7e30f), Bv((size_t)n * (N * iy + 1), (T)-7e30f);
    for (int k = 0; k < N; k++) { build(X, w, 2 * r.below(4), r.range(0, 2)); build(Y, w, 6, r.range(0, 3)); std::copy(X.begin(), X.end(), A.begin() + (size_t)n * k * ix); std::copy(Y.begin(), Y.end(), Bv.begin() + (size_t)n * k * iy); }
    std::vector<T> A0 = A, W = Bv; for (int k = 0; k < N; k++) if (z) B::zzadd(fold, &A[(size_t)n * k * ix], &W[(size_t)n * k * iy]); else B::rradd(fold, &A[(size_t)n * k * ix], &W[(size_t)n * k * iy]);
    if (z) B::zzaddv(fold, N, A.data(), ix, Bv.data(), iy); else B::rraddv(fold, N, A.data(), ix, Bv.data(), iy);
    rep.count("placements"); rep.count(key); bool ok = true; for (size_t i = 0; i < W.size(); i++) ok &= samebits(W[i], Bv[i]);
    if (!ok) rep.viol("addv:" + key, ds + " N=" + std::to_string(N) + " inc " + std::to_string(ix) + "," + std::to_string(iy) + " differs from adding one by one");
    if (memcmp(A.data(), A0.data(), A.size() * sizeof(T))) rep.viol("input:" + key, ds + " changed its input");
    rep.eval(hashbytes(Bv.data(), Bv.size() * sizeof(T), N), N > 0); return;
  }
  Place<T> a(r, fold, xw, std::numeric_limits<T>::quiet_NaN(), X.data()), b(r, fold, w, (T)-7.25e30f, Y.data());
  std::vector<T> y = Y, xin = X, got; T ra = 0, rb = 0; T *p = b.P(), *q = b.C(); int ip = b.ip, ic = b.ic;
  ds += " inc " + std::to_string(a.ip) + "," + std::to_string(a.ic) + " -> " + std::to_string(ip) + "," + std::to_string(ic);
  switch (op) {
    case 0: if (z) { B::zset(fold, X.data(), y.data()); B::zmset(fold, a.P(), a.ip, a.C(), a.ic, p, ip, q, ic); } else { B::rset(fold, X.data(), y.data()); B::rmset(fold, a.P(), a.ip, a.C(), a.ic, p, ip, q, ic); } break;
    case 1: if (z) { B::zzadd(fold, X.data(), y.data()); B::zzmadd(fold, a.P(), a.ip, a.C(), a.ic, p, ip, q, ic); } else { B::rradd(fold, X.data(), y.data()); B::rrmadd(fold, a.P(), a.ip, a.C(), a.ic, p, ip, q, ic); } break;
    case 2: if (z) { B::zadd(fold, x, y.data()); B::zmadd(fold, x, p, ip, q, ic); } else { B::radd(fold, x[0], y.data()); B::rmadd(fold, x[0], p, ip, q, ic); } break;
    case 3: if (z) { B::zupdate(fold, x, y.data()); B::zmupdate(fold, x, p, ip, q, ic); } else { B::rupdate(fold, x[0], y.data()); B::rmupdate(fold, x[0], p, ip, q, ic); } break;
    case 4: if (z) { B::zdeposit(fold, x, y.data()); B::zmdeposit(fold, x, p, ip); } else { B::rdeposit(fold, x[0], y.data()); B::rmdeposit(fold, x[0], p, ip); } break;
    case 5: if (z) { B::zrenorm(fold, y.data()); B::zmrenorm(fold, p, ip, q, ic); } else { B::rrenorm(fold, y.data()); B::rmrenorm(fold, p, ip, q, ic); } break;
    case 6: if (z) { B::zfrom(fold, x, y.data()); B::zmfrom(fold, x, p, ip, q, ic); } else { B::rfrom(fold, x[0], y.data()); B::rmfrom(fold, x[0], p, ip, q, ic); } break;
    case 7: if (z) { B::zto(fold, X.data(), o1); B::zmto(fold, a.P(), a.ip, a.C(), a.ic, o2); } else { o1[0] = B::rto(fold, X.data()); o2[0] = B::rmto(fold, a.P(), a.ip, a.C(), a.ic); } break;
    case 8: B::zrset(fold, X.data(), y.data()); B::zrmset(fold, a.P(), a.ip, a.C(), a.ic, p, ip, q, ic); break;
    case 9: if (z) { B::zneg(fold, y.data()); B::zmneg(fold, p, ip, q, ic); } else { B::rneg(fold, y.data()); B::rmneg(fold, p, ip, q, ic); } break;
    case 10: if (z) { B::zsetzero(fold, y.data()); B::zmsetzero(fold, p, ip, q, ic); } else { B::rsetzero(fold, y.data()); B::rmsetzero(fold, p, ip, q, ic); } break;
    case 11: ra = B::addsq(fold, sx, X.data(), sy, y.data()); rb = B::maddsq(fold, sx, a.P(), a.ip, a.C(), a.ic, sy, p, ip, q, ic); break;
    case 12: if (z) { B::zrescale(fold, s2, s1, y.data(), 1, y.data() + fold * w, 1); B::zrescale(fold, s2, s1, p, ip, q, ic); } else { B::rrescale(fold, s2, s1, y.data(), 1, y.data() + fold * w, 1); B::rrescale(fold, s2, s1, p, ip, q, ic); } break;
    default: B::zrupdate(fold, x[0], y.data()); B::zrmupdate(fold, x[0], p, ip, q, ic);
  }
  b.get(got); rep.count("placements"); rep.count(key); bool ok = samebits(ra, rb) && samebits(o1[0], o2[0]) && samebits(o1[1], o2[1]);
  for (int i = 0; i < n; i++) ok &= samebits(got[i], y[i]);
  if (!ok) rep.viol("fields:" + key, ds + " differs from the packed form");
  if (!a.untouched(true) || memcmp(X.data(), xin.data(), X.size() * sizeof(T))) rep.viol("input:" + key, ds + " changed its input");
  if (!b.untouched(false)) rep.viol("gap:" + key, ds + " wrote outside the addressed fields");
  rep.eval(hashbytes(y.data(), y.size() * sizeof(T), hashbytes(X.data(), X.size() * sizeof(T), op)), X[0] != 0 || Y[0] != 0); if (op == 1) rep.sample(ds);
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) { if (i & 1) place<float>(rep, r); else place<double>(rep, r); });
  rep.finish(); return 0;
}
