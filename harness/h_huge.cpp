// Operands that span more than 2^31 elements (sparse mappings): increments and leading dimensions far apart must address exactly the elements the compact
// operands hold, so every result is bit for bit that of the compact call.
#define RB_BLAS
#include "l1.hpp"
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
template <class T> struct Span {       // a sparse mapping of n elements, freed at the end of the case
  size_t bytes; T *p;
  explicit Span(size_t n) : bytes(n * sizeof(T) + 8192) { void *m = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); p = m == MAP_FAILED ? nullptr : (T *)m; }
  Span(const Span &) = delete;
  ~Span() { if (p) munmap(p, bytes); }
};
static const double LIMIT = 26e9;      // bytes of address space one operand may span
template <class T> int pick_inc(Rng &r, int n, int w) {      // an increment that often takes n elements beyond 2^31
  double most = n > 1 ? LIMIT / sizeof(T) / w / (n - 1) : 2147483647.0; most = std::min(most, 2147483647.0); double want = 2147483648.0 / w / std::max(1, n - 1);
  int k = r.below(6); double v = k < 3 ? std::min(most, want * (1 + r.below(1000) / 400.0)) : k == 3 ? most : k == 4 ? r.range(1, 9) : want / 2;
  return (int)std::max(1.0, std::min(v, most));
}
template <class T> void vec(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = r.below(5); if (l.kind == DOTC && !l.z) l.kind = DOT; int fold = pick_fold<T>(r);
  fill_l1<T>(r, l, r.chance(1, 12) ? 2 : 1, r.chance(1, 12) ? 700 : 40); int w = l.z + 1, P = l.parts(), N = l.N, am = r.chance(1, 4) && (l.kind == SUM || l.kind == DOT); l.ix = l.iy = 1;
  int ix = pick_inc<T>(r, N, w), iy = pick_inc<T>(r, N, w); bool two = l.two(); size_t nx = (size_t)std::max(N, 1) * ix * w, ny = (size_t)std::max(N, 1) * iy * w;
  if (N <= 1) nx = ny = 64; if (!two) ny = 64;
  Span<T> X(nx + 64), Y(ny + 64); if (!X.p || !Y.p) { rep.count("no-address-space"); return; }
  for (int i = 0; i < N; i++) for (int q = 0; q < w; q++) { X.p[(size_t)i * ix * w + q] = l.x[i * w + q]; if (two) Y.p[(size_t)i * iy * w + q] = l.y[i * w + q]; }
  L1<T> h = l; h.ix = ix; h.iy = iy; bool far = (double)(N - 1) * ix * w >= 2147483648.0, fary = two && (double)(N - 1) * iy * w >= 2147483648.0;
  T a[2] = {0, 0}, b[2] = {0, 0}; bool ok; std::string nm = l.name();
  if (am) {
    nm = std::string(B::nm()) + (l.z ? ":z" : ":") + (two ? "amaxm" : "amax"); bool nan = false; for (T v : l.x) nan |= v != v || std::isinf(v); for (T v : l.y) nan |= v != v || std::isinf(v); if (nan) return;
    if (!l.z) { a[0] = two ? B::amaxm(N, l.x.data(), 1, l.y.data(), 1) : B::amax(N, l.x.data(), 1); b[0] = two ? B::amaxm(N, X.p, ix, Y.p, iy) : B::amax(N, X.p, ix); }
    else { if (two) { B::zamaxm(N, l.x.data(), 1, l.y.data(), 1, a); B::zamaxm(N, X.p, ix, Y.p, iy, b); } else { B::zamax(N, l.x.data(), 1, a); B::zamax(N, X.p, ix, b); } }
    ok = sameval(a[0], b[0]) && sameval(a[1], b[1]);
  } else {
    l.plain(fold, l.x.data(), l.y.data(), a); h.plain(fold, X.p, Y.p, b); ok = sameval(a[0], b[0]) && sameval(a[1], b[1]);
    if (l.kind != SSQ && ok) { std::vector<T> s((size_t)2 * fold * P, (T)0), t(s); l.packed(fold, l.x.data(), l.y.data(), s.data()); h.packed(fold, X.p, Y.p, t.data()); bool sp = false; for (T v : s) sp |= v != v || std::isinf(v); ok = sp || !memcmp(s.data(), t.data(), s.size() * sizeof(T)); }
  }
  rep.count("spans-compared"); rep.count("far:" + nm, far || fary); if (far || fary) rep.count("beyond-2^31");
  if (!ok) rep.viol("far:" + nm, h.desc(fold) + " gave " + hexf(b[0]) + "," + hexf(b[1]) + " compact " + hexf(a[0]) + "," + hexf(a[1]));
  rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), ix * 31 + iy), far || fary); if (N > 1 && N < 5) rep.sample(nm + " " + h.desc(fold));
}
template <class T> void mat(Rep &rep, Rng &r, int gm) {
  typedef Lib<T> B; int z = r.chance(1, 2), w = z + 1, fold = r.chance(1, 3) ? 3 : r.range(2, 4); bool col = r.chance(1, 2); char O = col ? 'C' : 'R';
  int sz = r.chance(1, 6) ? 70 : 9, M = r.range(1, sz), N = r.range(1, sz), K = r.range(1, sz); static const char L[] = "NTCntc"; char ta = L[r.below(6)], tb = L[r.below(6)]; bool at = (ta | 32) != 'n', bt = (tb | 32) != 'n';
  auto fill = [&](std::vector<T> &v, size_t n) { v.resize(n * w); for (T &x : v) x = (T)r.range(-1000, 1000) * (T)std::ldexp(1.0, r.range(-20, 20)); };
  // stored shape: `maj` lines of `min` elements each, ld apart
  struct Mx { int maj, min, ld; std::vector<T> v; std::unique_ptr<Span<T>> s; };
  auto make = [&](Mx &m, int rows, int cols) { m.maj = col ? cols : rows; m.min = col ? rows : cols; m.ld = std::max(m.min, pick_inc<T>(r, m.maj, w)); fill(m.v, (size_t)m.maj * m.min);
    m.s.reset(new Span<T>((size_t)m.maj * m.ld * w + 64)); if (!m.s->p) return false; for (int i = 0; i < m.maj; i++) memcpy(m.s->p + (size_t)i * m.ld * w, &m.v[(size_t)i * m.min * w], m.min * w * sizeof(T)); return true; };
  auto far = [&](Mx &m) { return (double)(m.maj - 1) * m.ld * w >= 2147483648.0; };
  T al[2] = {(T)(r.chance(1, 2) ? 1 : 1.25), (T)(r.chance(1, 2) ? 0 : -3)}, be[2] = {(T)(r.chance(1, 2) ? 1 : r.chance(1, 2) ? 0 : -0.5), 0}; if (!z) al[1] = 0;
  std::string nm = std::string(B::nm()) + (z ? ":zgem" : ":gem") + (gm ? "m" : "v"), ds; bool ok = true, isfar; T *got = nullptr; std::vector<T> want; T ga = 0, wa = 0;
  if (gm) {
    Mx a, b, c; if (!make(a, at ? K : M, at ? M : K) || !make(b, bt ? N : K, bt ? K : N) || !make(c, M, N)) { rep.count("no-address-space"); return; }
    ds = nm + " " + O + ta + tb + " M,N,K=" + std::to_string(M) + "," + std::to_string(N) + "," + std::to_string(K) + " ld " + std::to_string(a.ld) + "," + std::to_string(b.ld) + "," + std::to_string(c.ld) + " fold=" + std::to_string(fold);
    want = c.v; if (z) { B::rzgemm(fold, O, ta, tb, M, N, K, al, a.v.data(), a.min, b.v.data(), b.min, be, want.data(), c.min); B::rzgemm(fold, O, ta, tb, M, N, K, al, a.s->p, a.ld, b.s->p, b.ld, be, c.s->p, c.ld); }
    else { B::rgemm(fold, O, ta, tb, M, N, K, al[0], a.v.data(), a.min, b.v.data(), b.min, be[0], want.data(), c.min); B::rgemm(fold, O, ta, tb, M, N, K, al[0], a.s->p, a.ld, b.s->p, b.ld, be[0], c.s->p, c.ld); }
    for (int i = 0; i < c.maj && ok; i++) for (int j = 0; j < c.min * w; j++) { got = &c.s->p[(size_t)i * c.ld * w + j]; if (!samebits(*got, want[(size_t)i * c.min * w + j])) { ok = false; ga = *got; wa = want[(size_t)i * c.min * w + j]; break; } }
    isfar = far(a) || far(b) || far(c); rep.eval(hashbytes(want.data(), want.size() * sizeof(T), a.ld), isfar);
  } else {
    Mx a; int nx = at ? M : N, ny = at ? N : M; std::vector<T> x, y; fill(x, nx); fill(y, ny); int ix = pick_inc<T>(r, nx, w), iy = pick_inc<T>(r, ny, w); Span<T> X((size_t)nx * ix * w + 64), Y((size_t)ny * iy * w + 64); if (!make(a, M, N) || !X.p || !Y.p) { rep.count("no-address-space"); return; }
    ds = nm + " " + O + ta + " M,N=" + std::to_string(M) + "," + std::to_string(N) + " lda=" + std::to_string(a.ld) + " inc " + std::to_string(ix) + "," + std::to_string(iy) + " fold=" + std::to_string(fold);
    for (int i = 0; i < nx; i++) for (int q = 0; q < w; q++) X.p[(size_t)i * ix * w + q] = x[i * w + q]; for (int i = 0; i < ny; i++) for (int q = 0; q < w; q++) Y.p[(size_t)i * iy * w + q] = y[i * w + q];
    if (z) { B::rzgemv(fold, O, ta, M, N, al, a.v.data(), a.min, x.data(), 1, be, y.data(), 1); B::rzgemv(fold, O, ta, M, N, al, a.s->p, a.ld, X.p, ix, be, Y.p, iy); }
    else { B::rgemv(fold, O, ta, M, N, al[0], a.v.data(), a.min, x.data(), 1, be[0], y.data(), 1); B::rgemv(fold, O, ta, M, N, al[0], a.s->p, a.ld, X.p, ix, be[0], Y.p, iy); }
    for (int i = 0; i < ny * w && ok; i++) { T g = Y.p[(size_t)(i / w) * iy * w + i % w]; if (!samebits(g, y[i])) { ok = false; ga = g; wa = y[i]; } }
    isfar = far(a) || (double)(nx - 1) * ix * w >= 2147483648.0 || (double)(ny - 1) * iy * w >= 2147483648.0; rep.eval(hashbytes(y.data(), y.size() * sizeof(T), a.ld), isfar);
  }
  rep.count("spans-compared"); rep.count("far:" + nm, isfar); if (isfar) rep.count("beyond-2^31");
  if (!ok) rep.viol("far:" + nm, ds + " gave " + hexf(ga) + " compact " + hexf(wa)); else rep.sample(ds);
}
// A vector of very many elements: one block of content mapped again and again, and a last block of its own.
template <class T> struct Tiled {
  static constexpr size_t BYTES = 2u << 20; size_t tot = 0; T *p = nullptr;
  Tiled(size_t n, const std::vector<T> &block, const std::vector<T> &last) {
    int fd = memfd_create("tile", 0); if (fd < 0) return; if (ftruncate(fd, 2 * BYTES)) { close(fd); return; }
    size_t tiles = (n * sizeof(T) + BYTES - 1) / BYTES; tot = tiles * BYTES + 4096; void *m = mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { close(fd); return; }
    bool ok = pwrite(fd, block.data(), BYTES, 0) == (ssize_t)BYTES && pwrite(fd, last.data(), BYTES, BYTES) == (ssize_t)BYTES;
    for (size_t i = 0; i < tiles && ok; i++) ok = mmap((char *)m + i * BYTES, BYTES, PROT_READ, MAP_SHARED | MAP_FIXED, fd, i + 1 == tiles ? BYTES : 0) != MAP_FAILED;
    close(fd); if (ok) p = (T *)m; else munmap(m, tot);
  }
  Tiled(const Tiled &) = delete;
  ~Tiled() { if (p) munmap(p, tot); }
};
template <class T> void len(Rep &rep, Rng &r, long i, bool maxima) {
  typedef Lib<T> B; const int P = (int)(Tiled<T>::BYTES / sizeof(T)); L1<T> l, e; int k = maxima ? (int)(i / 2 % 4) : r.below(10); bool giant = maxima || i % 4 < 2;
  if (maxima) { l.z = k & 1; l.kind = k & 2 ? DOT : SUM; } else { l.z = k & 1; l.kind = k / 2; if (l.kind == DOTC && !l.z) l.kind = DOT; }
  int w = l.z + 1, fold = r.chance(1, 2) ? 3 : r.range(2, 4); bool two = l.two(); l.N = giant ? 2147483647 - (r.chance(1, 2) ? (int)r.below(3) : (int)r.below(70)) : r.range(1 << 18, 1 << 23); l.ix = giant || r.chance(1, 2) ? 1 : r.range(1, 4); l.iy = giant || r.chance(1, 2) ? 1 : r.range(1, 4);
  e = l; e.N = 1; e.x.resize(2); e.y.resize(2); int N = l.N; size_t nx = ((size_t)(N - 1) * l.ix + 1) * w, ny = two ? ((size_t)(N - 1) * l.iy + 1) * w : 64;
  std::vector<T> bx(P), tx(P), by(P), ty(P); int lo = -9999, hi = 9999; if (two) { lo = B::EMIN; hi = B::EMAX / 2 - 1; } bool ints = l.kind == SSQ && !maxima;
  for (auto *v : {&bx, &tx, &by, &ty}) { if (ints) for (T &q : *v) q = (T)r.range(-60, 60); else gen_any<T>(r, *v, lo, hi); }
  Tiled<T> X(nx, bx, tx), Y(ny, by, ty); if (!X.p || !Y.p) { rep.count("no-address-space"); return; }
  std::string nm = std::string(B::nm()) + (l.z ? ":z" : ":") + (maxima ? (two ? "amaxm" : "amax") : kind_name(l.kind, 0)), ds = "long:" + nm + " fold=" + std::to_string(fold) + " N=" + std::to_string(N) + " inc=" + std::to_string(l.ix) + "," + std::to_string(l.iy);
  // elements before i0 repeat with period `per` (a power of two divides both blocks evenly unless an increment is odd: then the block's own length serves)
  size_t perx = P / w, per = perx, lastx = (X.tot - 4096) / Tiled<T>::BYTES - 1, lasty = (Y.tot - 4096) / Tiled<T>::BYTES - 1; size_t i0 = lastx * perx / l.ix; if (two) i0 = std::min(i0, lasty * perx / l.iy); i0 = std::min(i0, (size_t)N); size_t q = i0 / per;
  auto at = [&](size_t j) { for (int c = 0; c < w; c++) { e.x[c] = X.p[j * l.ix * w + c]; if (two) e.y[c] = Y.p[j * l.iy * w + c]; } };
  T a[2] = {0, 0}; bool bad = false; std::string why;
  if (maxima) {
    T want[2] = {0, 0}; auto see = [&](size_t j) { at(j); for (int c = 0; c < w; c++) { if (!two) want[c] = std::max(want[c], std::fabs(e.x[c])); else if (!l.z) want[0] = std::max(want[0], std::fabs(mulr(e.x[0], e.y[0]))); else { int d = 1 - c; want[0] = std::max(want[0], std::fabs(mulr(e.x[c], e.y[c]))); want[1] = std::max(want[1], std::fabs(mulr(e.x[c], e.y[d]))); } } };
    for (size_t j = 0; j < per && q; j++) see(j); for (size_t j = q * per; j < (size_t)N; j++) see(j);
    if (!l.z) a[0] = two ? B::amaxm(N, X.p, l.ix, Y.p, l.iy) : B::amax(N, X.p, l.ix); else if (two) B::zamaxm(N, X.p, l.ix, Y.p, l.iy, a); else B::zamax(N, X.p, l.ix, a);
    for (int c = 0; c < w; c++) if (!sameval(a[c], want[c])) { bad = true; why = "gave " + hexf(a[0]) + "," + hexf(a[1]) + " expected " + hexf(want[0]) + "," + hexf(want[1]); }
  } else if (ints) {
    __int128 S = 0, h = 0; for (size_t j = 0; j < per && q; j++) { at(j); for (int c = 0; c < w; c++) h += (long)e.x[c] * (long)e.x[c]; } S = h * q; for (size_t j = q * per; j < (size_t)N; j++) { at(j); for (int c = 0; c < w; c++) S += (long)e.x[c] * (long)e.x[c]; }
    l.plain(fold, X.p, Y.p, a); long double want = sqrtl((long double)S); if (!(fabsl(a[0] - want) <= 4 * want * ldexpl(1, -B::MANT))) { bad = true; why = "gave " + hexf(a[0]) + " expected " + hexf(want); }
  } else {
    Acc<T> A[2], H[2]; for (auto &x : A) x.wantexact = false; for (auto &x : H) x.wantexact = false; auto add = [&](Acc<T> *t, size_t j) { at(j); e.each(0, (T)1, [&](int p, T v) { t[p].add(v); }); };
    for (size_t j = 0; j < per && q; j++) add(H, j); for (size_t j = q * per; j < (size_t)N; j++) add(A, j);
    int Pt = l.parts(); for (int p = 0; p < Pt && q; p++) { for (auto &s : H[p].S) s *= q; H[p].n *= q; H[p].nz *= q; H[p].nnan *= q; H[p].npinf *= q; H[p].nninf *= q; A[p].merge(H[p]); }
    std::vector<T> z((size_t)2 * fold * Pt, (T)0); l.packed(fold, X.p, Y.p, z.data());
    for (int p = 0; p < Pt && !bad; p++) { State<T> s = read_state<T>(fold, &z[p], Pt, &z[Pt * fold + p], Pt); if (!state_matches(s, A[p], fold, why)) bad = true; }
    if (!bad && r.chance(1, 3)) { l.plain(fold, X.p, Y.p, a); rep.count("plain-compared"); for (int p = 0; p < Pt; p++) { std::vector<T> y(2 * fold); for (int f = 0; f < fold; f++) { y[f] = z[f * Pt + p]; y[fold + f] = z[Pt * (fold + f) + p]; } T wv = B::rto(fold, y.data()); if (!sameval(wv, a[p])) { bad = true; why = "plain " + hexf(a[p]) + " accumulator converts to " + hexf(wv); } } }
  }
  rep.count("long-compared"); rep.count("long:" + nm); if (giant) rep.count("near-int-max");
  if (bad) rep.viol("long:" + nm, ds + ": " + why); else rep.sample(ds); rep.eval(hashbytes(bx.data(), 4096, N), true);
}
// Products with an inner dimension near INT_MAX: one or two output elements, operands tiled.
template <class T> void longmat(Rep &rep, Rng &r, bool gm) {
  typedef Lib<T> B; const int P = (int)(Tiled<T>::BYTES / sizeof(T)); int z = r.chance(1, 2), w = z + 1, fold = r.chance(1, 2) ? 3 : r.range(2, 4), K = 2147483647 - (r.chance(1, 2) ? (int)r.below(8) : (int)r.below(5000)); bool col = r.chance(1, 2); char O = col ? (r.chance(1, 2) ? 'C' : 'c') : (r.chance(1, 2) ? 'R' : 'r');
  static const char L[] = "NTCntc"; char ta = L[r.below(6)], tb = L[r.below(6)]; bool at = (ta | 32) != 'n', bt = (tb | 32) != 'n', ac = z && (ta | 32) == 'c', bc = gm && z && (tb | 32) == 'c'; bool wide = sizeof(T) * w < 16; int m = 1 + (wide && r.chance(1, 2)), n = gm ? 1 + (wide && m == 1 && r.chance(1, 2)) : 1;
  // element (a, k) of op(A) lies at a * sa + k * ka, element (k, b) of op(B) at b * sb + k * kb
  size_t sa, ka, sb = 0, kb = 1; int lda, ldb = 1; if (at == col) { lda = K; sa = K; ka = 1; } else { lda = m + (m == 1 && wide && r.chance(1, 2)); sa = 1; ka = lda; }
  if (gm) { if (bt == col) { ldb = n + (n == 1 && wide && r.chance(1, 2)); sb = 1; kb = ldb; } else { ldb = K; sb = K; kb = 1; } }
  std::vector<T> ba(P), bb(P); gen_any<T>(r, ba, B::EMIN, B::EMAX / 2 - 2); gen_any<T>(r, bb, B::EMIN, B::EMAX / 2 - 2);
  Tiled<T> A(((size_t)(m - 1) * sa + (size_t)(K - 1) * ka + 1) * w, ba, ba), X(((size_t)(n - 1) * sb + (size_t)(K - 1) * kb + 1) * w, bb, bb); if (!A.p || !X.p) { rep.count("no-address-space"); return; }
  std::string nm = std::string(B::nm()) + (z ? ":zgem" : ":gem") + (gm ? "m" : "v"), ds = nm + " " + O + ta + (gm ? std::string(1, tb) : "") + " " + std::to_string(m) + "x" + std::to_string(n) + " K=" + std::to_string(K) + " ld " + std::to_string(lda) + "," + std::to_string(ldb) + " fold=" + std::to_string(fold); rep.sample(ds);
  T one[2] = {1, 0}; int num = 2 * fold * w; std::vector<T> y((size_t)m * n * num, (T)0); int ldc = col ? m : n;
  if (gm) { if (z) B::bzgemm(fold, O, ta, tb, m, n, K, one, A.p, lda, X.p, ldb, y.data(), ldc); else B::bgemm(fold, O, ta, tb, m, n, K, one[0], A.p, lda, X.p, ldb, y.data(), ldc); }
  else { int M = at ? K : m, N = at ? m : K; if (z) B::bzgemv(fold, O, ta, M, N, one, A.p, lda, X.p, 1, y.data(), 1); else B::bgemv(fold, O, ta, M, N, one[0], A.p, lda, X.p, 1, y.data(), 1); }
  size_t per = P / w, q = (size_t)K / per;
  for (int a = 0; a < m; a++) for (int b = 0; b < n; b++) {
    Acc<T> S[2], H[2]; for (int c = 0; c < 2; c++) S[c].wantexact = H[c].wantexact = false;
    auto add = [&](Acc<T> *t, size_t k) { const T *p = A.p + (a * sa + k * ka) * w, *v = X.p + (b * sb + k * kb) * w; if (!z) { t[0].add(mulr(p[0], v[0])); return; } T pi = ac ? -p[1] : p[1], vi = bc ? -v[1] : v[1]; t[0].add(mulr(p[0], v[0])); t[0].add(-mulr(pi, vi)); t[1].add(mulr(p[0], vi)); t[1].add(mulr(pi, v[0])); };
    for (size_t k = 0; k < per; k++) add(H, k); for (size_t k = q * per; k < (size_t)K; k++) add(S, k);
    T *o = &y[(size_t)(gm ? (col ? b * ldc + a : a * ldc + b) : a) * num];
    for (int p = 0; p < w; p++) { for (auto &s : H[p].S) s *= q; H[p].n *= q; H[p].nz *= q; S[p].merge(H[p]); State<T> s = read_state<T>(fold, o + p, w, o + w * fold + p, w); std::string why;
      if (!state_matches(s, S[p], fold, why)) { rep.viol("long:" + nm, ds + " output " + std::to_string(a) + "," + std::to_string(b) + " part " + std::to_string(p) + ": " + why); return; } }
  }
  rep.count("long-compared"); rep.count("near-int-max"); rep.count("long:" + nm); rep.eval(hashbytes(ba.data(), 4096, K), true);
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) { if (o.mode == "len" || o.mode == "maxlen") { case_timer(600); bool m = o.mode[0] == 'm'; if (i & 1) len<float>(rep, r, i, m); else len<double>(rep, r, i, m); } else if (o.mode == "longgemv" || o.mode == "longgemm") { case_timer(600); bool g = o.mode == "longgemm"; if (i & 1) longmat<float>(rep, r, g); else longmat<double>(rep, r, g); } else if (o.mode != "vec") { int gm = o.mode == "gemm"; if (i & 1) mat<float>(rep, r, gm); else mat<double>(rep, r, gm); } else { if (i & 1) vec<float>(rep, r); else vec<double>(rep, r); } });
  rep.finish();
  return 0;
}
