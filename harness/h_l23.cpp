// Matrix-vector and matrix-matrix monitors: every output element against the exact list of summands it stands for.
#define RB_BLAS
#include "model.hpp"
template <class T> T mulr(T a, T b) { volatile T p = a * b; return p; }
template <class T> T subr(T a, T b) { volatile T p = a - b; return p; }
template <class T> T addr(T a, T b) { volatile T p = a + b; return p; }
template <class T> struct C2 { T r, i; };
// alpha * x with the rounding of one multiplication (real) or of the textbook complex formula
template <class T> C2<T> scal(int z, C2<T> x, C2<T> al) { if (!z) return {mulr(x.r, al.r), 0}; return {subr(mulr(x.r, al.r), mulr(x.i, al.i)), addr(mulr(x.r, al.i), mulr(x.i, al.r))}; }
static bool one_of(char c, const char *s) { return strchr(s, c) != 0; }

// A matrix stored with a leading dimension, gaps filled with NaN
template <class T> struct Mat {
  int rows, cols, ld, w; bool rowmaj; std::vector<T> m;
  size_t at(int i, int j) const { return (size_t)w * (rowmaj ? (size_t)i * ld + j : (size_t)j * ld + i); }
  void shape(int R, int Cc, bool rm, int ww, int gap) { rows = R; cols = Cc; rowmaj = rm; w = ww; ld = std::max(1, (rm ? Cc : R) + gap); size_t outer = rm ? R : Cc, inner = rm ? Cc : R; m.assign(outer && inner ? w * ((outer - 1) * ld + inner) : 0, std::numeric_limits<T>::quiet_NaN()); }
  void put(const std::vector<T> &v) { size_t k = 0; for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) for (int q = 0; q < w; q++) m[at(i, j) + q] = v[k++]; }
  C2<T> get(int i, int j) const { size_t a = at(i, j); return {m[a], w == 2 ? m[a + 1] : (T)0}; }
  // op(A)(i, j), conjugation left to the caller
  C2<T> op(bool trans, int i, int j) const { return trans ? get(j, i) : get(i, j); }
};
// the summands one product contributes to the two parts
template <class T, class F> void product(int z, bool conj, C2<T> a, C2<T> x, F f) {
  if (!z) { f(0, mulr(a.r, x.r)); return; }
  if (!conj) { f(0, mulr(a.r, x.r)); f(0, -mulr(a.i, x.i)); f(1, mulr(a.r, x.i)); f(1, mulr(a.i, x.r)); }
  else { f(0, mulr(a.r, x.r)); f(0, mulr(a.i, x.i)); f(1, mulr(a.r, x.i)); f(1, -mulr(a.i, x.r)); }
}
template <class T> T special(Rng &r) { switch (r.below(4)) { case 0: return std::numeric_limits<T>::quiet_NaN(); case 1: return -std::numeric_limits<T>::infinity(); default: return std::numeric_limits<T>::infinity(); } }
template <class T> C2<T> pick_scalar(Rng &r, int z, bool specials) {
  typedef Lib<T> B;
  switch (r.below(z ? 9 : 7)) {
    case 0: return {0, 0}; case 1: case 2: return {1, 0}; case 3: return {-1, 0}; case 4: return {rnd_mant<T>(r, r.range(-4, 4)), z ? rnd_mant<T>(r, r.range(-4, 4)) : (T)0};
    case 5: if (specials && r.chance(1, 3)) return {special<T>(r), 0}; return {rnd_mant<T>(r, r.range(-B::EMAX / 4, B::EMAX / 4)), 0};
    case 6: return {-(T)0.0 + (T)(r.chance(1, 2) ? 2 : 0), 0}; case 7: return {0, rnd_mant<T>(r, r.range(-3, 3))}; default: return {1, rnd_mant<T>(r, r.range(-3, 3))};
  }
}
template <class T> void fill(Rng &r, std::vector<T> &v, int hi) { typedef Lib<T> B; if (r.chance(1, 5)) gen_vec<T>(r, G_SMALLINT, v, -9999, hi); else if (r.chance(1, 3)) gen_vec<T>(r, G_WINDOW, v, -20, 20); else gen_any<T>(r, v, B::EMIN, hi); }
static int pick(Rng &r, bool bg, std::initializer_list<int> big) { if (bg ? r.chance(1, 6) : r.chance(1, 2)) return r.range(1, 9); if (bg && r.chance(1, 5)) return r.range(1, 150); if (!bg) return r.range(1, 40); const int *b = big.begin(); return std::max(1, b[r.below(big.size())] + r.range(-2, 3)); }
static std::string chars(std::initializer_list<char> c) { std::string s; for (char x : c) s += x; return s; }
template <class T> std::string cs(C2<T> a) { return hexf(a.r) + "+i" + hexf(a.i); }
static char pickc(Rng &r, const char *s) { return s[r.below(strlen(s))]; }

struct Io { int fold, ofold; };
// One output element: prev contents plus products, as a model and as a scalar-route result.
template <class T> struct Elem {
  Acc<T> a[2]; int z; std::vector<T> acc[2]; bool scalar; int fold;
  Elem(int f, int zz, bool sc) : z(zz), scalar(sc), fold(f) { for (auto &x : a) x.wantexact = false; if (sc) for (auto &x : acc) x.assign(2 * f, (T)0); }
  void add(int p, T v) { a[p].add(v); if (scalar) Lib<T>::radd(fold, v, &acc[p][0]); }
};

template <class T> void run(Rep &rep, Rng &r, bool gemm, long lim) {
  typedef Lib<T> B; int z = r.chance(1, 2), w = z + 1; int fold = r.chance(2, 3) ? r.range(2, 5) : pick_fold<T>(r);
  char order = pickc(r, "rRcC"), ta = pickc(r, "nNtTcC"), tb = pickc(r, "nNtTcC"); bool rm = one_of(order, "rR"), At = !one_of(ta, "nN"), Ac = z && one_of(ta, "cC"), Bt = !one_of(tb, "nN"), Bc = z && one_of(tb, "cC");
  bool bg = lim > 10000; int m, n, k;   // output m x n, inner k (gemv: n = 1)
  do { if (gemm) { m = pick(r, bg, {32, 64, 128}); n = pick(r, bg, {32, 64, 128}); k = pick(r, bg, {256, 512, 1024}); if (bg && r.chance(1, 2)) (r.chance(1, 2) ? m : n) = r.range(1, 3); } else { m = pick(r, bg, {4, 8, 32, 64, 128, 256}); n = 1; k = pick(r, bg, {128, 256, 512, 2048, 4096, 8192}); } } while ((long)m * n * k > lim || (bg && (long)m * n * k < lim / 20));
  if (r.chance(1, 25)) m = 0; if (gemm && r.chance(1, 25)) n = 0; if (r.chance(1, 25)) k = 0;
  int which = r.below(20); bool deflt = which < 4, binned = which >= 11; if (deflt) fold = g_default[sizeof(T) == 4];    // default-fold entry, fold entry, binned entry
  bool specials = r.chance(1, 8); int hi = specials ? B::EMAX : r.chance(1, 8) ? B::EMAX / 2 : B::EMAX / 2 - 8;
  C2<T> al = pick_scalar<T>(r, z, specials), be = pick_scalar<T>(r, z, specials); if (!specials) { if (fexp(al.r) > 8) al.r = 3; }
  Mat<T> A, Bm, C; A.shape(At ? k : m, At ? m : k, rm, w, r.chance(1, 2) ? 0 : r.range(1, 5));
  { std::vector<T> v((size_t)m * k * w); fill<T>(r, v, hi); if (specials && v.size()) for (int q = r.range(0, 2); q--;) v[r.below(v.size())] = special<T>(r); A.put(v); }
  int incx = r.chance(1, 2) ? 1 : r.range(1, 4), incy = r.chance(1, 2) ? 1 : r.range(1, 4); std::vector<T> v((size_t)k * n * w); fill<T>(r, v, hi); if (specials && v.size() && r.chance(1, 2)) v[r.below(v.size())] = special<T>(r);
  if (gemm) { Bm.shape(Bt ? n : k, Bt ? k : n, rm, w, r.chance(1, 2) ? 0 : r.range(1, 5)); std::vector<T> u = v; Bm.put(u); }
  else { Bm.shape(k, 1, true, w, incx - 1); Bm.put(v); }                   // a strided vector is a k x 1 matrix with leading dimension incX
  int num = w * 2 * fold, ow = binned ? num : w;                            // fields per output element
  if (gemm) C.shape(m, n, rm, ow, r.chance(1, 2) ? 0 : r.range(1, 4)); else C.shape(m, 1, true, ow, incy - 1);
  const T sent = (T)-7.25e30; for (auto &x : C.m) x = sent;
  size_t nout = (size_t)m * n; std::vector<Elem<T> *> dummy; std::vector<T> prev(nout * ow);
  std::vector<std::vector<T>> pv(binned ? nout : 0);
  if (binned) { for (size_t e = 0; e < nout; e++) { T *p = &prev[e * ow]; if (r.chance(1, 2)) for (int q = r.range(0, 3); q--;) { std::vector<T> u(w); gen_any<T>(r, u, B::EMIN, hi); pv[e].insert(pv[e].end(), u.begin(), u.end()); if (z) B::zadd(fold, &u[0], p); else B::radd(fold, u[0], p); } } }
  else { fill<T>(r, prev, hi); if (specials && prev.size() && r.chance(1, 2)) prev[r.below(prev.size())] = special<T>(r); }
  // inputs may share memory: the second operand lies over the first, alpha in it
  bool shared = r.chance(1, 12) && Bm.m.size() <= A.m.size() && A.m.size() >= 2, inside = z && r.chance(1, 20) && A.m.size() >= 2 && A.m[0] == A.m[0] && A.m[1] == A.m[1];
  if (shared) { std::copy(A.m.begin(), A.m.begin() + Bm.m.size(), Bm.m.begin()); rep.count("aliased-operands"); }
  if (inside) { al.r = A.m[0]; al.i = A.m[1]; rep.count("aliased-operands"); }
  C.put(prev); Mat<T> A0 = A, B0 = Bm, C0 = C; C2<T> al0 = al, be0 = be;
  std::string nm = std::string(B::nm()) + (z ? ":z" : ":") + (gemm ? "gemm" : "gemv") + (binned ? "/binned" : deflt ? "/default" : "/fold");
  std::string ds = nm + " fold=" + std::to_string(fold) + " order/trans=" + (gemm ? chars({order, ta, tb}) : chars({order, ta})) + " m=" + std::to_string(m) + " n=" + std::to_string(n) + " k=" + std::to_string(k) + " lda=" + std::to_string(A.ld) + (gemm ? " ldb=" + std::to_string(Bm.ld) + " ldc=" + std::to_string(C.ld) : " inc=" + std::to_string(incx) + "," + std::to_string(incy)) + (shared ? " second operand over the first" : "") + " alpha=" + cs(al) + (binned ? "" : " beta=" + cs(be));
  T *a = A.m.data(), *b = Bm.m.data(), *c = C.m.data(); const T *alp = &al.r, *bep = &be.r; if (shared) b = a; if (inside) alp = a;
  if (gemm) {
    if (binned) { if (z) B::bzgemm(fold, order, ta, tb, m, n, k, alp, a, A.ld, b, Bm.ld, c, C.ld); else B::bgemm(fold, order, ta, tb, m, n, k, al.r, a, A.ld, b, Bm.ld, c, C.ld); }
    else if (deflt) { if (z) B::dzgemm(order, ta, tb, m, n, k, alp, a, A.ld, b, Bm.ld, bep, c, C.ld); else B::dgemm(order, ta, tb, m, n, k, al.r, a, A.ld, b, Bm.ld, be.r, c, C.ld); }
    else { if (z) B::rzgemm(fold, order, ta, tb, m, n, k, alp, a, A.ld, b, Bm.ld, bep, c, C.ld); else B::rgemm(fold, order, ta, tb, m, n, k, al.r, a, A.ld, b, Bm.ld, be.r, c, C.ld); }
  } else {
    int M = At ? k : m, N = At ? m : k;
    if (binned) { if (z) B::bzgemv(fold, order, ta, M, N, alp, a, A.ld, b, incx, c, incy); else B::bgemv(fold, order, ta, M, N, al.r, a, A.ld, b, incx, c, incy); }
    else if (deflt) { if (z) B::dzgemv(order, ta, M, N, alp, a, A.ld, b, incx, bep, c, incy); else B::dgemv(order, ta, M, N, al.r, a, A.ld, b, incx, be.r, c, incy); }
    else { if (z) B::rzgemv(fold, order, ta, M, N, alp, a, A.ld, b, incx, bep, c, incy); else B::rgemv(fold, order, ta, M, N, al.r, a, A.ld, b, incx, be.r, c, incy); }
  }
  auto eqv = [](const std::vector<T> &x, const std::vector<T> &y) { return x.size() == y.size() && !memcmp(x.data(), y.data(), x.size() * sizeof(T)); };
  if (!eqv(A0.m, A.m) || !eqv(B0.m, Bm.m) || memcmp(&al, &al0, sizeof al) || memcmp(&be, &be0, sizeof be)) rep.viol("input:" + nm, ds + " modified an input");
  rep.count(nm); if ((long)m * n * k > 40000) rep.count("large-shapes"); if (!gemm && m > 256 && k > 256) rep.count("beyond-one-block"); if (gemm && (m > 128 || n > 128) && k > 512) rep.count("beyond-one-block");
  bool aone = al.r == 1 && al.i == 0, azero = al.r == 0 && al.i == 0, bone = be.r == 1 && be.i == 0, bzero = be.r == 0 && be.i == 0;
  bool untouched = m == 0 || (gemm ? n == 0 : k == 0), noprod = azero || k == 0;
  // scaled copies (gemv scales the vector, gemm the elements of A)
  for (size_t e = 0; e < nout && !untouched; e++) {
    int i = gemm ? (int)(e / n) : (int)e, j = gemm ? (int)(e % n) : 0; Elem<T> el(fold, z, !binned);
    if (binned) for (size_t q = 0; q < pv[e].size(); q++) el.add(q % w, pv[e][q]);
    else if (!bzero) { C2<T> y = C0.get(i, j); if (!bone) y = scal(z, y, be); el.add(0, y.r); if (z) el.add(1, y.i); }
    if (!noprod) for (int q = 0; q < k; q++) {
      auto f = [&](int p, T x) { el.add(p, x); }; C2<T> x = A0.op(At, i, q), y = gemm ? B0.op(Bt, q, j) : B0.get(q, 0);
      if (gemm) { if (Ac) x.i = -x.i; if (!aone) x = scal(z, x, al); product(z, Bc, y, x, f); }
      else { if (!aone) y = scal(z, y, al); product(z, Ac, x, y, f); }
    }
    const T *o = &C.m[C.at(i, j)];
    for (int p = 0; p < w; p++) {
      rep.count("outputs-checked");
      if (binned) { State<T> s = read_state<T>(fold, o + p, w, o + w * fold + p, w); std::string why; if (!state_matches(s, el.a[p], fold, why)) { rep.viol("state:" + nm, ds + " output " + std::to_string(i) + "," + std::to_string(j) + " part " + std::to_string(p) + ": " + why + " | state " + state_str(s) + " | model " + el.a[p].str(fold)); return; } if (el.a[p].special()) rep.count("special-outputs"); }
      else { T want = B::rto(fold, &el.acc[p][0]); if (want != want) rep.count("special-outputs"); if (!samebits(want, o[p]) && !(want == 0 && o[p] == 0)) { rep.viol("value:" + nm, ds + " output " + std::to_string(i) + "," + std::to_string(j) + " part " + std::to_string(p) + " is " + hexf(o[p]) + " expected " + hexf(want)); return; }
        if (el.a[p].special() && !(want != want) && !std::isinf(want)) { rep.viol("special:" + nm, ds); return; } }
    }
    for (int q = 0; q < ow; q++) C0.m[C0.at(i, j) + q] = o[q];
  }
  if (!eqv(C0.m, C.m)) rep.viol("outside:" + nm, ds + (untouched ? " changed the output of an empty product" : " wrote outside the output elements"));
  if (untouched) rep.count("empty-products");
  uint64_t h = hashbytes(A.m.data(), A.m.size() * sizeof(T), hashbytes(ds.data(), ds.size())); rep.eval(h, nout > 0 && k > 0 && !azero); if (nout && nout * k < 30) rep.sample(ds);
}

int main(int c, char **v) {
  Opt o(c, v); Rep rep; long lim = o.thorough ? 600000 : 140000;
  for_cases(o, rep, [&](Rng &r, long i) { bool g = o.mode == "gemm"; long l = r.chance(1, 10) ? lim : 6000; if (i & 1) run<float>(rep, r, g, l); else run<double>(rep, r, g, l); });
  rep.finish();
  return 0;
}
