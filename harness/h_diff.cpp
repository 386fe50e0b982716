// One digest per generated call, for comparing builds of the library that must agree bit for bit.
#define RB_BLAS
#include "l1.hpp"
template <class T> uint64_t dig(const std::vector<T> &v, uint64_t h) { for (T x : v) { if (x != x) x = std::numeric_limits<T>::quiet_NaN(), x = std::fabs(x); h = hashbytes(&x, sizeof x, h); } return h; }
// an accumulator: all fields, or when it is special just the special value
template <class T> uint64_t digacc(int f, int w, const T *a, uint64_t h) { for (int q = 0; q < w; q++) { std::vector<T> u; T p = a[q]; if (p != p || std::isinf(p)) u = {p}; else for (int j = 0; j < f; j++) { u.push_back(a[j * w + q]); u.push_back(a[(f + j) * w + q]); } h = dig(u, h); } return h; }
static void say(Rep &rep, uint64_t h, const std::string &nm) { printf("DIG %ld %016llx %s\n", rep.cur, (unsigned long long)h, nm.c_str()); rep.count(nm); }

template <class T> void l1(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = r.below(5); if (l.kind == DOTC && !l.z) l.kind = DOT; int fold = pick_fold<T>(r); fill_l1<T>(r, l, r.chance(1, 10) ? 2 : 1); int P = l.parts(); auto X = l.X(), Y = l.Y(); uint64_t h = 1;
  std::vector<T> o(2, (T)0); l.plain(fold, X.data(), Y.data(), o.data()); h = dig(o, h);
  std::vector<T> a((size_t)2 * fold * P, (T)0); T pre = rnd_mant<T>(r, r.range(-10, 10)); bool prior = r.chance(1, 3) && l.kind != SSQ;
  if (prior) { T z2[2] = {pre, -pre}; if (P == 2) B::zadd(fold, z2, a.data()); else B::radd(fold, pre, a.data()); }
  if (l.kind == SSQ) { T s = l.z ? B::bzssq(fold, l.N, X.data(), l.ix, 0, a.data()) : B::bssq(fold, l.N, X.data(), l.ix, 0, a.data()); bool fin = true; for (T x : l.x) if (!(std::fabs(x) <= std::numeric_limits<T>::max())) fin = false; if (fin) h = dig(std::vector<T>{s}, h); if (fold > 6) { rep.count("large-fold-squares"); } else h = digacc(fold, P, a.data(), h); }
  else { l.packed(fold, X.data(), Y.data(), a.data()); h = digacc(fold, P, a.data(), h); }
  if (r.chance(1, 4)) { std::vector<T> m(2, (T)0); bool nan = false; if (l.two()) { for (int i = 0; i < l.N; i++) l.each(i, (T)1, [&](int, T v) { if (v != v) nan = true; }); if (l.z) B::zamaxm(l.N, X.data(), l.ix, Y.data(), l.iy, m.data()); else m[0] = B::amaxm(l.N, X.data(), l.ix, Y.data(), l.iy); } else { for (T x : l.x) if (x != x) nan = true; if (l.z) B::zamax(l.N, X.data(), l.ix, m.data()); else m[0] = B::amax(l.N, X.data(), l.ix); } if (!nan) { h = dig(m, h); rep.count("maxima"); } }
  say(rep, h, l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), fold * 16 + l.kind), l.N > 1); if (l.N < 6) rep.sample(l.desc(fold));
}
template <class T> void l23(Rep &rep, Rng &r) {
  typedef Lib<T> B; bool gemm = r.chance(1, 2), z = r.chance(1, 2), binned = r.chance(1, 2), big = r.chance(1, 10); int w = z + 1, fold = r.chance(2, 3) ? r.range(2, 4) : r.range(2, 9); const char *OR = "rRcC", *TR = "nNtTcC"; char o = OR[r.below(4)], ta = TR[r.below(6)], tb = TR[r.below(6)]; bool rm = o == 'r' || o == 'R', At = ta != 'n' && ta != 'N', Bt = tb != 'n' && tb != 'N';
  int M, N, K; do { M = r.range(1, big ? 300 : 40); N = r.range(1, big ? 300 : 40); K = r.range(0, big ? 1100 : 40); if (big && r.chance(1, 2)) N = r.range(1, 5); if (!gemm) K = 1; } while ((long)M * N * K > (big ? 120000 : 16000));
  if (!gemm && big && r.chance(1, 2)) { M = r.range(1, 9); N = r.range(2000, 8300); if (r.chance(1, 2)) std::swap(M, N); }
  auto size = [&](int rows, int cols, int &ld, int ww) { int in = rm ? cols : rows, out = rm ? rows : cols; ld = std::max(1, in + (r.chance(1, 2) ? 0 : r.range(1, 4))); return in && out ? (size_t)ww * ((size_t)(out - 1) * ld + in) : (size_t)0; };
  int lda, ldb, ldc, ix = r.range(1, 3), iy = r.range(1, 3), nx = At ? M : N, ny = At ? N : M, ow = binned ? w * 2 * fold : w; std::vector<T> A, X, C;
  T al[2], be[2]; pick_coef<T>(r, al); pick_coef<T>(r, be);
  if (gemm) { A.resize(size(At ? K : M, At ? M : K, lda, w)); X.resize(size(Bt ? N : K, Bt ? K : N, ldb, w)); C.resize(size(M, N, ldc, ow)); }
  else { A.resize(size(M, N, lda, w)); X.resize((size_t)w * ((size_t)(nx - 1) * ix + 1)); C.resize((size_t)ow * ((size_t)(ny - 1) * iy + 1)); }
  for (auto *v : {&A, &X}) { if (r.chance(1, 2)) gen_vec<T>(r, G_WINDOW, *v, -20, 20); else gen_any<T>(r, *v, B::EMIN, B::EMAX / 2 - 8); } if (!binned) gen_vec<T>(r, G_WINDOW, C, -20, 20); else std::fill(C.begin(), C.end(), (T)0);
  const T *a = A.data(), *x = X.data(); T *c = C.data();
  if (gemm) { if (binned) { if (z) B::bzgemm(fold, o, ta, tb, M, N, K, al, a, lda, x, ldb, c, ldc); else B::bgemm(fold, o, ta, tb, M, N, K, al[0], a, lda, x, ldb, c, ldc); } else { if (z) B::rzgemm(fold, o, ta, tb, M, N, K, al, a, lda, x, ldb, be, c, ldc); else B::rgemm(fold, o, ta, tb, M, N, K, al[0], a, lda, x, ldb, be[0], c, ldc); } }
  else { if (binned) { if (z) B::bzgemv(fold, o, ta, M, N, al, a, lda, x, ix, c, iy); else B::bgemv(fold, o, ta, M, N, al[0], a, lda, x, ix, c, iy); } else { if (z) B::rzgemv(fold, o, ta, M, N, al, a, lda, x, ix, be, c, iy); else B::rgemv(fold, o, ta, M, N, al[0], a, lda, x, ix, be[0], c, iy); } }
  uint64_t h = 2; if (!binned) h = dig(C, h); else { size_t stride = ow; for (size_t q = 0; q + ow <= C.size(); q += stride) h = digacc(fold, w, &C[q], h); }
  say(rep, h, std::string(B::nm()) + (z ? ":z" : ":") + (gemm ? "gemm" : "gemv") + (binned ? "/binned" : "")); rep.eval(hashbytes(A.data(), A.size() * sizeof(T), M * 1000 + N), K > 0); if (M * N < 9) rep.sample(std::string(B::nm()) + (gemm ? " gemm " : " gemv ") + o + ta + tb + " fold " + std::to_string(fold) + " " + std::to_string(M) + "x" + std::to_string(N) + "x" + std::to_string(K));
}
// scalar histories: a few accumulators of one fold, everything read back at the end
template <class T> void core(Rep &rep, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r), z = r.chance(1, 2), w = z + 1; std::vector<std::vector<T>> a(3, std::vector<T>(2 * w * fold, (T)0)); uint64_t h = 3, in = fold;
  for (int k = r.range(2, 20); k--;) { std::vector<T> v(2 * r.range(1, 9)); gen_any<T>(r, v); in = hashbytes(v.data(), v.size() * sizeof(T), in); T *p = a[r.below(3)].data(), *q = a[r.below(3)].data();
    switch (r.below(7)) {
      case 0: case 1: for (size_t i = 0; i + w <= v.size(); i += w) { if (z) B::zadd(fold, &v[i], p); else B::radd(fold, v[i], p); } break;
      case 2: { T m[2] = {0, 0}; for (T x : v) m[0] = std::max(m[0], (T)std::fabs(x)); m[1] = m[0]; if (!(std::fabs(p[0]) <= std::numeric_limits<T>::max()) || !(std::fabs(p[w - 1]) <= std::numeric_limits<T>::max())) break; if (z) B::zupdate(fold, m, p); else B::rupdate(fold, m[0], p); for (size_t i = 0; i + w <= v.size(); i += w) { if (z) B::zdeposit(fold, &v[i], p); else B::rdeposit(fold, v[i], p); } if (z) B::zrenorm(fold, p); else B::rrenorm(fold, p); break; }
      case 3: case 4: if (p != q) { if (z) B::zzadd(fold, p, q); else B::rradd(fold, p, q); } break;
      case 5: if (z) B::zneg(fold, p); else B::rneg(fold, p); if (z) B::zrenorm(fold, p); else B::rrenorm(fold, p); break;
      default: { std::vector<T> o(w); if (z) B::zto(fold, p, o.data()); else o[0] = B::rto(fold, p); h = dig(o, h); h = dig(std::vector<T>{B::scale(v[0]), B::bound(fold, r.range(1, 1000), std::fabs(v[0]), v[1])}, h); break; }
    } }
  for (auto &x : a) { std::vector<T> o(w); if (z) B::zto(fold, x.data(), o.data()); else o[0] = B::rto(fold, x.data()); h = dig(o, h); h = digacc(fold, w, x.data(), h); }
  say(rep, h, std::string(B::nm()) + (z ? ":zscalar" : ":scalar")); rep.eval(in, true); rep.sample(std::string(B::nm()) + (z ? " complex" : "") + " scalar history, fold " + std::to_string(fold));
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) {
    bool f = i & 1;
    if (o.mode == "l1") f ? l1<float>(rep, r) : l1<double>(rep, r);
    else if (o.mode == "l23") f ? l23<float>(rep, r) : l23<double>(rep, r);
    else if (o.mode == "core") f ? core<float>(rep, r) : core<double>(rep, r);
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
