// Sums that fit the format come out exactly: data are integers times one unit, the oracle is 128-bit integer arithmetic alone.
#define RB_BLAS
#include "l1.hpp"
typedef __int128 Z;
static Z zabs(Z a) { return a < 0 ? -a : a; }
static std::string zs(Z v) { bool n = v < 0; v = zabs(v); std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return n ? "-" + s : s; }
template <class T> int top_fold(Rng &r) { typedef Lib<T> B; return r.chance(1, 2) ? r.range(2, 4) : r.chance(2, 3) ? r.range(5, 8) : r.range(2, B::MAXINDEX + 1); }
// bits one summand may have so that nothing falls below the last bin: its leading bit may be half a unit of the first bin
template <class T> int bits_of_fold(int f) { typedef Lib<T> B; return std::min(B::MANT, B::W * (f - 1)); }
// an integer of at most b bits whose size does not exceed left
static long whole(Rng &r, int b, Z left, int shape) {
  if (b < 1) return 0;
  int k = shape == 0 ? b : shape == 1 ? r.range(1, b) : r.chance(1, 20) ? b : r.range(1, std::max(1, b / 2)); unsigned long v = r.next() & ((1ul << k) - 1);
  if (r.chance(1, 12)) v = (1ul << k) - 1; else if (r.chance(1, 12)) v = 1ul << (k - 1); else if (r.chance(1, 30)) v = 0;
  if ((Z)v > left) v = left > 0 ? (unsigned long)(r.next() % (uint64_t)std::min<Z>(left, (Z)1 << 62)) : 0;
  return shape == 3 || r.chance(1, 2) ? (long)v : -(long)v;
}
// the exponent of the unit: nothing falls below the least bin and nothing overflows
template <class T> int pick_unit(Rng &r, int bits) { typedef Lib<T> B; int lo = std::max(unit_exp<T>(B::MAXINDEX), B::EMIN), hi = B::EMAX - bits; return r.chance(1, 8) ? lo + r.range(0, 3) : r.chance(1, 8) ? hi - r.range(0, 3) : r.chance(1, 2) ? r.range(-40, 40) : r.range(lo, hi); }

template <class T> void check(Rep &rep, const std::string &sig, const std::string &d, Z want, int e, T got) {
  rep.count("results-compared");
  if (!(got == (T)std::ldexp((double)(long)want, e))) rep.viol(sig, d + " gave " + hexf(got) + ", exactly " + zs(want) + " times 2^" + std::to_string(e));
}

// ------------------------------------------------------------------ vector reductions
template <class T> void sums(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = r.below(4); if (!l.z && l.kind == DOTC) l.kind = DOT; int w = l.z + 1;
  l.N = pick_n(r, 5000); l.ix = r.chance(3, 5) ? 1 : r.range(1, 4); l.iy = r.chance(3, 5) ? l.ix : r.range(1, 4);
  int fold = r.chance(1, 4) ? 0 : top_fold<T>(r), f = fold ? fold : g_default[sizeof(T) == 4], b = bits_of_fold<T>(f), shape = r.below(4), bx = b, by = 0; if (r.chance(1, 4)) b = bx = r.range(1, b);
  if (l.two()) { by = r.range(0, b - 1); bx = b - by; }
  Z cap = (Z)1 << B::MANT, sum[2] = {0, 0}, ab = 0; std::vector<long> x((size_t)l.N * w), y(l.two() ? x.size() : 0);
  for (int i = 0; i < l.N; i++) {
    long p[2] = {0, 0}, q[2] = {0, 0}; Z t[2] = {0, 0}, a = 0; Z left = cap - ab;
    for (int c = 0; c < w; c++) { if (l.two()) { q[c] = by ? whole(r, by, cap, shape) : r.chance(1, 2) ? 1 : -1; p[c] = whole(r, bx, cap, shape); } else p[c] = whole(r, bx, left / w, shape); }
    switch (l.kind) { case SUM: t[0] = p[0]; t[1] = p[1]; a = zabs(p[0]) + zabs(p[1]); break; case ASUM: t[0] = a = zabs(p[0]) + zabs(p[1]); break;
      default: { Z s = l.kind == DOTC ? -1 : 1; t[0] = (Z)p[0] * q[0] - s * (Z)p[1] * q[1]; t[1] = (Z)p[0] * q[1] + s * (Z)p[1] * q[0]; a = (zabs(p[0]) + zabs(p[1])) * (zabs(q[0]) + zabs(q[1])); } }
    if (a > left) { p[0] = p[1] = 0; t[0] = t[1] = a = 0; }
    ab += a; sum[0] += t[0]; sum[1] += t[1]; for (int c = 0; c < w; c++) { x[(size_t)i * w + c] = p[c]; if (l.two()) y[(size_t)i * w + c] = q[c]; }
  }
  int bits = 1; while (((Z)1 << bits) < ab + 1) bits++;
  int e = pick_unit<T>(r, std::max(bits, std::max(bx, by))), ey = 0;
  if (l.two()) { int lo = std::max(B::EMIN, e - (B::EMAX - bx - 2)), hi = std::min(B::EMAX - by - 2, e - B::EMIN); ey = r.chance(1, 2) && lo <= 0 && hi >= 0 ? 0 : r.range(lo, hi); }
  int ex = e - ey; l.x.resize(x.size()); l.y.resize(y.size()); for (size_t i = 0; i < x.size(); i++) l.x[i] = (T)std::ldexp((double)x[i], ex); for (size_t i = 0; i < y.size(); i++) l.y[i] = (T)std::ldexp((double)y[i], ey);
  std::vector<T> X = l.X(), Y = l.Y(); T o[2]; l.plain(fold, X.data(), Y.data(), o);
  std::string d = l.desc(f) + (fold ? "" : " (default fold)");
  for (int p = 0; p < l.parts(); p++) check<T>(rep, "sum:" + l.name(), d + (p ? " imaginary part" : ""), sum[p], e, o[p]);
  rep.count(l.name()); if (bits > B::MANT - 2) rep.count("full-width-sums"); if (zabs(sum[0]) * 64 < ab) rep.count("cancelling-sums"); if (l.N > (int)(1u << (B::MANT - B::W - 2))) rep.count("beyond-endurance"); if (b > B::W + 1) rep.count("several-bins");
  uint64_t h = hashbytes(l.x.data(), l.x.size() * sizeof(T), hashbytes(d.data(), d.size())); rep.eval(h, ab > 0 && l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(d + " gave " + hexf(o[0]));
}

// ------------------------------------------------------------------ scalar operations
template <class T> void scalars(Rep &rep, Rng &r) {
  typedef Lib<T> B; int z = r.chance(1, 2), w = z + 1, f = top_fold<T>(r), b = bits_of_fold<T>(f), n = r.range(1, 4), sz = 2 * f * w, e = pick_unit<T>(r, B::MANT), shape = r.below(4); if (r.chance(1, 3)) b = r.range(1, b);
  Z cap = (Z)1 << B::MANT; std::vector<std::vector<T>> a(n, std::vector<T>(sz, (T)0)); std::vector<std::array<Z, 2>> v(n, {0, 0}); std::vector<Z> ab(n, 0); std::string d = std::string(B::nm()) + (z ? ":z" : ":") + " fold=" + std::to_string(f) + " unit 2^" + std::to_string(e) + ":"; long ops = 0;
  auto val = [&](Z m) { return (T)std::ldexp((double)(long)m, e); };
  auto look = [&](int i) { T o[2]; if (z) B::zto(f, a[i].data(), o); else o[0] = B::rto(f, a[i].data()); for (int p = 0; p < w; p++) check<T>(rep, std::string("scalar:") + B::nm() + (z ? ":z" : ""), d, v[i][p], e, o[p]); };
  for (int k = r.range(1, 24); k--; ops++) {
    int i = r.below(n), j = r.below(n); long x[2] = {whole(r, b, (cap - ab[i]) / w, shape), z ? whole(r, b, (cap - ab[i]) / w, shape) : 0}; T t[2] = {val(x[0]), val(x[1])}; Z s = zabs(x[0]) + zabs(x[1]); std::string si = std::to_string(i);
    switch (r.below(9)) {
      case 0: if (z) B::zfrom(f, t, a[i].data()); else B::rfrom(f, t[0], a[i].data()); v[i] = {x[0], x[1]}; ab[i] = s; d += " " + si + "=" + std::to_string(x[0]) + "," + std::to_string(x[1]); rep.count("round-trips"); break;
      case 1: case 2: case 3: { int q = r.chance(1, 10) ? r.range(2, 3000) : 1, m = 0; for (; m < q && ab[i] + s <= cap; m++) { if (z) B::zadd(f, t, a[i].data()); else B::radd(f, t[0], a[i].data()); v[i][0] += x[0]; v[i][1] += x[1]; ab[i] += s; } d += " " + si + "+=" + std::to_string(m) + "*(" + std::to_string(x[0]) + "," + std::to_string(x[1]) + ")"; rep.count("adds", m); break; }
      case 4: { int q = r.range(1, 1 << (B::MANT - B::W - 2)), m = 0; if (z) B::zupdate(f, t, a[i].data()); else B::rupdate(f, t[0], a[i].data()); for (; m < q && ab[i] + s <= cap; m++) { if (z) B::zdeposit(f, t, a[i].data()); else B::rdeposit(f, t[0], a[i].data()); v[i][0] += x[0]; v[i][1] += x[1]; ab[i] += s; }
        if (z) B::zrenorm(f, a[i].data()); else B::rrenorm(f, a[i].data()); d += " " + si + "+=" + std::to_string(m) + " deposits of (" + std::to_string(x[0]) + "," + std::to_string(x[1]) + ")"; rep.count("deposits", m); break; }
      case 5: case 6: if (i != j && ab[i] + ab[j] <= cap) { if (z) B::zzadd(f, a[j].data(), a[i].data()); else B::rradd(f, a[j].data(), a[i].data()); for (int p = 0; p < 2; p++) v[i][p] += v[j][p]; ab[i] += ab[j]; d += " " + si + "+=acc" + std::to_string(j); rep.count("merges"); } break;
      case 7: if (z) B::zneg(f, a[i].data()); else B::rneg(f, a[i].data()); v[i][0] = -v[i][0]; v[i][1] = -v[i][1]; d += " neg" + si; rep.count("negations"); break;
      default: if (i != j) { if (z) B::zset(f, a[j].data(), a[i].data()); else B::rset(f, a[j].data(), a[i].data()); v[i] = v[j]; ab[i] = ab[j]; d += " " + si + "=acc" + std::to_string(j); }
    }
    look(i);
  }
  uint64_t h = hashbytes(d.data(), d.size()); rep.eval(h, ops > 1); if (d.size() < 160) rep.sample(d);
}

// ------------------------------------------------------------------ norms that are whole
template <class T> void norms(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = SSQ; int w = l.z + 1; l.ix = r.chance(3, 5) ? 1 : r.range(1, 4); l.iy = 1; l.N = pick_n(r, 5000); if (l.N < 1) l.N = 1;
  int fold = r.chance(1, 4) ? 0 : top_fold<T>(r), f = fold ? fold : g_default[sizeof(T) == 4], half = std::min(bits_of_fold<T>(f), B::MANT - 1) / 2 - 1; size_t n = (size_t)l.N * w; std::vector<long> x(n, 0); long m = 0;
  auto place = [&](std::vector<long> v) { for (long &q : v) if (r.chance(1, 2)) q = -q; for (size_t k = v.size(); k > 1; k--) std::swap(v[k - 1], v[r.below(k)]); std::vector<size_t> at(n); for (size_t k = 0; k < n; k++) at[k] = k; for (size_t k = 0; k < v.size(); k++) { std::swap(at[k], at[k + r.below(n - k)]); x[at[k]] = v[k]; } };
  int how = r.below(4); if (n < 4 || half < 3) how = 3;
  if (how == 0) { long lim = 1l << ((half - 1) / 2), a = r.below(lim), b = r.below(lim), c = r.below(lim), q = r.below(lim); m = a * a + b * b + c * c + q * q; place({a * a + b * b - c * c - q * q, 2 * (a * c + b * q), 2 * (b * c - a * q)}); }          // a quaternion's rotation
  else if (how == 1) { long s = 1; while ((s + 1) * (s + 1) <= (long)n && s + 1 < (1l << (half - 1)) && r.chance(9, 10)) s++; long v = 1 + r.below(std::max(1l, (1l << (half - 1)) / s)); m = s * v; place(std::vector<long>(s * s, v)); }   // s*s equal ones
  else if (how == 2) { long k = 1 + r.below(1l << std::max(0, half - 4)); m = 5 * k; place({3 * k, 4 * k}); }
  else { m = (long)(r.next() & ((1ul << std::max(1, half)) - 1)); place({m}); }
  int e = r.chance(1, 2) ? r.range(-40, 40) : r.range(B::ENORM + 2, B::EMAX - half - 3); l.x.resize(n); for (size_t i = 0; i < n; i++) l.x[i] = (T)std::ldexp((double)x[i], e);
  std::vector<T> X = l.X(); T o[2]; l.plain(fold, X.data(), 0, o); std::string d = l.desc(f) + (fold ? "" : " (default fold)"); check<T>(rep, "norm:" + l.name(), d, m, e, o[0]); rep.count(l.name());
  uint64_t h = hashbytes(l.x.data(), n * sizeof(T), hashbytes(d.data(), d.size())); rep.eval(h, m > 0); if (n < 8) rep.sample(d + " gave " + hexf(o[0]));
}

// ------------------------------------------------------------------ matrices of whole numbers
struct G { long r, i; };
static void mac(Z *s, G a, G b) { s[0] += (Z)a.r * b.r - (Z)a.i * b.i; s[1] += (Z)a.r * b.i + (Z)a.i * b.r; }
static bool one_of(char c, const char *s) { return strchr(s, c) != 0; }
template <class T> void mats(Rep &rep, Rng &r, bool big) {
  typedef Lib<T> B; bool gemm = r.chance(1, 2); int z = r.chance(1, 2), w = z + 1, fold = r.chance(1, 4) ? 0 : top_fold<T>(r), f = fold ? fold : g_default[sizeof(T) == 4], b = bits_of_fold<T>(f); bool binned = fold && r.chance(1, 3);
  char o = "rRcC"[r.below(4)], ta = "nNtTcC"[r.below(6)], tb = "nNtTcC"[r.below(6)]; bool rm = one_of(o, "rR"), At = !one_of(ta, "nN"), Bt = !one_of(tb, "nN"), Ac = z && one_of(ta, "cC"), Bc = z && one_of(tb, "cC");
  int m = r.range(1, big ? 90 : 9), n = gemm ? r.range(1, big ? 40 : 9) : 1, k = r.range(1, big ? (gemm ? 700 : 1500) : 12), lk = 0; while ((1 << lk) < k) lk++; if (big && r.chance(1, 2)) (r.chance(1, 2) ? m : n) = 1; if (!gemm) n = 1;
  // |alpha| and |beta| take two bits, a complex product two more
  int tot = std::min(b - 2 * z - 3, B::MANT - 1 - lk - 2 * z - 3); if (tot < 2) { rep.count("too-narrow"); return; }
  int ba = r.range(1, tot - 1), bx = r.range(1, tot - ba), by = std::min(b - 4 - 2 * z, B::MANT - 6 - 2 * z), sh = r.below(4); if (by < 1) by = 1;
  int spanA = ba + 4 + z, spanX = bx + 4 + z, e = pick_unit<T>(r, B::MANT), lo = std::max(B::EMIN, e - (B::EMAX - spanA - 2)), hi = std::min(B::EMAX - spanX - 2, e - B::EMIN), ex = r.chance(1, 2) && lo <= 0 && hi >= 0 ? 0 : r.range(lo, hi), ea = e - ex;
  Z cap = (Z)1 << 62; auto gen = [&](size_t c, int bits) { std::vector<G> v(c); for (G &g : v) { g.r = whole(r, bits, cap, sh); g.i = z ? whole(r, bits, cap, sh) : 0; } return v; };
  static const long co[] = {1, 1, 1, 0, -1, 2, 3, -2, -3}; G al{co[r.below(9)], 0}, be{co[r.below(9)], 0}; if (z && r.chance(1, 2)) al.i = co[r.below(9)]; if (z && r.chance(1, 2)) be.i = co[r.below(9)]; if (binned) be = {1, 0};
  std::vector<G> A = gen((size_t)m * k, ba), X = gen((size_t)k * n, bx), Y = gen((size_t)m * n, by);       // op(A) row by row, op(B) row by row, C row by row
  auto store = [&](std::vector<T> &s, const std::vector<G> &v, int R, int C, bool tr, bool cj, bool rowmaj, int ld, int ee) { s.assign((size_t)w * ((rowmaj != tr ? R : C) * (size_t)ld), std::numeric_limits<T>::quiet_NaN()); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) { size_t at = (size_t)w * ((rowmaj != tr) ? (size_t)i * ld + j : (size_t)j * ld + i); const G &g = v[(size_t)i * C + j]; s[at] = (T)std::ldexp((double)g.r, ee); if (z) s[at + 1] = (T)std::ldexp((double)(cj ? -g.i : g.i), ee); } };
  int lda = (rm != At ? k : m) + r.below(3), ldb = (rm != Bt ? n : k) + r.below(3), ldc = (rm ? n : m) + r.below(3), ix = r.range(1, 3), iy = r.range(1, 3);
  std::vector<T> a, x, y; store(a, A, m, k, At, Ac, rm, lda, ea); if (gemm) { store(x, X, k, n, Bt, Bc, rm, ldb, ex); store(y, Y, m, n, false, false, rm, ldc, e); } else { store(x, X, k, 1, false, false, true, ix, ex); store(y, Y, m, 1, false, false, true, iy, e); }
  T alp[2] = {(T)al.r, (T)al.i}, bep[2] = {(T)be.r, (T)be.i}; int M = At ? k : m, N = At ? m : k, num = 2 * f * w; std::vector<T> acc;
  std::string nm = std::string(B::nm()) + (z ? ":z" : ":") + (gemm ? "gemm" : "gemv") + (binned ? "/binned" : fold ? "/fold" : "/default"), d = nm + " fold=" + std::to_string(f) + " " + std::string(1, o) + ta + (gemm ? std::string(1, tb) : "") + " m=" + std::to_string(m) + " n=" + std::to_string(n) + " k=" + std::to_string(k) + " alpha=" + std::to_string(al.r) + "," + std::to_string(al.i) + " beta=" + std::to_string(be.r) + "," + std::to_string(be.i) + " bits " + std::to_string(ba) + "+" + std::to_string(bx) + " exponents " + std::to_string(ea) + "," + std::to_string(ex);
  if (binned) { acc.assign(y.size() / w * num, (T)0); for (size_t i = 0; i < y.size() / w; i++) if (y[i * w] == y[i * w]) { if (z) B::zfrom(f, &y[i * w], &acc[i * num]); else B::rfrom(f, y[i], &acc[i * num]); }
    if (gemm) { if (z) B::bzgemm(f, o, ta, tb, m, n, k, alp, a.data(), lda, x.data(), ldb, acc.data(), ldc); else B::bgemm(f, o, ta, tb, m, n, k, alp[0], a.data(), lda, x.data(), ldb, acc.data(), ldc); }
    else { if (z) B::bzgemv(f, o, ta, M, N, alp, a.data(), lda, x.data(), ix, acc.data(), iy); else B::bgemv(f, o, ta, M, N, alp[0], a.data(), lda, x.data(), ix, acc.data(), iy); }
    for (size_t i = 0; i < y.size() / w; i++) if (y[i * w] == y[i * w]) { if (z) B::zto(f, &acc[i * num], &y[i * w]); else y[i] = B::rto(f, &acc[i * num]); } }
  else if (gemm) { if (fold) { if (z) B::rzgemm(f, o, ta, tb, m, n, k, alp, a.data(), lda, x.data(), ldb, bep, y.data(), ldc); else B::rgemm(f, o, ta, tb, m, n, k, alp[0], a.data(), lda, x.data(), ldb, bep[0], y.data(), ldc); }
    else { if (z) B::dzgemm(o, ta, tb, m, n, k, alp, a.data(), lda, x.data(), ldb, bep, y.data(), ldc); else B::dgemm(o, ta, tb, m, n, k, alp[0], a.data(), lda, x.data(), ldb, bep[0], y.data(), ldc); } }
  else { if (fold) { if (z) B::rzgemv(f, o, ta, M, N, alp, a.data(), lda, x.data(), ix, bep, y.data(), iy); else B::rgemv(f, o, ta, M, N, alp[0], a.data(), lda, x.data(), ix, bep[0], y.data(), iy); }
    else { if (z) B::dzgemv(o, ta, M, N, alp, a.data(), lda, x.data(), ix, bep, y.data(), iy); else B::dgemv(o, ta, M, N, alp[0], a.data(), lda, x.data(), ix, bep[0], y.data(), iy); } }
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) {
    Z p[2] = {0, 0}, t[2] = {0, 0}; for (int q = 0; q < k; q++) mac(p, A[(size_t)i * k + q], X[(size_t)q * n + j]);
    const G &g = Y[(size_t)i * n + j]; t[0] = p[0] * al.r - p[1] * al.i + (Z)g.r * be.r - (Z)g.i * be.i; t[1] = p[0] * al.i + p[1] * al.r + (Z)g.r * be.i + (Z)g.i * be.r;
    size_t at = (size_t)w * (gemm ? (rm ? (size_t)i * ldc + j : (size_t)j * ldc + i) : (size_t)i * iy);
    for (int c = 0; c < w; c++) check<T>(rep, "matrix:" + nm, d + " output " + std::to_string(i) + "," + std::to_string(j) + (c ? " imaginary part" : ""), t[c], e, y[at + c]);
  }
  rep.count(nm); if ((long)m * n * k > 30000) rep.count("large-shapes"); uint64_t h = hashbytes(a.data(), a.size() * sizeof(T), hashbytes(d.data(), d.size())); rep.eval(h, true); if (m * k < 6) rep.sample(d);
}

int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) {
    bool f = i & 1;
    if (o.mode == "sums") f ? sums<float>(rep, r) : sums<double>(rep, r);
    else if (o.mode == "scalar") f ? scalars<float>(rep, r) : scalars<double>(rep, r);
    else if (o.mode == "norm") f ? norms<float>(rep, r) : norms<double>(rep, r);
    else if (o.mode == "matrix") { bool g = r.chance(1, 20); f ? mats<float>(rep, r, g) : mats<double>(rep, r, g); }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
