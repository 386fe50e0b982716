// BLAS-1 monitors.
#define RB_BLAS
#include "l1.hpp"

template <class T> L1<T> pick(Rng &r, bool ssq = false) { L1<T> l; l.z = r.chance(1, 2); l.kind = ssq ? r.below(5) : r.below(4); if (l.kind == DOTC && !l.z) l.kind = DOT; return l; }
template <class T> bool same2(const T *a, const T *b) { return samebits(a[0], b[0]) && samebits(a[1], b[1]); }
static int NBIG = 5000;

// C01: permutations
template <class T> void perm(Rep &rep, Rng &r) {
  L1<T> l = pick<T>(r, true); int fold = pick_fold<T>(r); int cat = fill_l1<T>(r, l, r.chance(1, 6) ? 2 : 1, NBIG);
  T ref[2]; { auto X = l.X(), Y = l.Y(); l.plain(fold, X.data(), Y.data(), ref); }
  uint64_t h = hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold); L1<T> base = l;
  int k = r.range(2, 5);
  for (int i = 0; i < k; i++) {
    l.permute(r); if (r.chance(1, 2)) { l.ix = r.range(1, 4); l.iy = r.range(1, 4); }
    T o[2]; auto X = l.X(), Y = l.Y(); l.plain(fold, X.data(), Y.data(), o); rep.count("orders-compared");
    if (!same2(o, ref)) { rep.viol("perm:" + l.name(), base.desc(fold) + " gave " + hexf(ref[0]) + "," + hexf(ref[1]) + " reordered " + hexf(o[0]) + "," + hexf(o[1]) + " " + gen_name[cat]); break; }
  }
  rep.count(l.name()); rep.eval(h, l.N > 1); if (ref[0] != ref[0] || std::isinf(ref[0])) rep.count("special-results");
  if (l.N < 6 && l.N > 1) rep.sample(base.desc(fold));
}

// C03 / C05 / C06: exact contents of the accumulator after a vector routine, starting from any accumulator
// dense: more elements than may go in between renormalisations, each filling its bin as fast as possible
template <class T> void fill_dense(Rng &r, L1<T> &l) {
  typedef Lib<T> B; l.N = r.chance(1, 3) ? r.range(B::ENDURANCE / 4, B::ENDURANCE + 40) : r.range(B::ENDURANCE, 3 * B::ENDURANCE); l.ix = r.chance(2, 3) ? 1 : r.range(1, 3); l.iy = r.chance(2, 3) ? l.ix : r.range(1, 3); int w = l.z + 1; l.x.assign((size_t)l.N * w, 0); l.y.assign(l.two() ? l.x.size() : 0, 0);
  int e = B::EMAX - r.range(1, B::MAXINDEX - 2) * B::W, sg = r.below(4), ey = l.two() ? r.range(-8, 8) : 0; if (e < B::ENORM + 12) e = 0; auto top = [&](int q) { return (T)ldexp((double)(((uint64_t)1 << B::MANT) - 1 - (r.chance(1, 2) ? 0 : r.below(64))), q - B::MANT); };
  T a = top(e - ey), b = l.two() && r.chance(1, 2) ? (T)ldexp(1.0, ey) : top(ey); bool alt = r.chance(1, 5), half = r.chance(1, 5);
  for (int i = 0; i < l.N * w; i++) { int k = i / w; bool neg = alt ? k & 1 : half ? k >= l.N / 2 : false; l.x[i] = neg ? -a : a; if (l.two()) l.y[i] = b; if (l.z && (i & 1)) { if (sg & 1) l.x[i] = -l.x[i]; if (l.two() && (sg & 2)) l.y[i] = -l.y[i]; } }
  if (!l.two()) for (int k = r.below(3); k--;) { int j = r.below(l.N * w); l.x[j] = (T)ldexp((double)a, (r.chance(1, 2) ? 1 : -1) * r.range(0, B::W)); if (std::isinf(l.x[j])) l.x[j] = a; }
}
template <class T> void exact(Rep &rep, Rng &r, int special, bool dense = false) {
  typedef Lib<T> B; L1<T> l = pick<T>(r); int fold = pick_fold<T>(r); if (dense) { fill_dense<T>(r, l); rep.count("dense:" + l.name()); } else fill_l1<T>(r, l, special, NBIG); int P = l.parts();
  Acc<T> a[2]; int ip = 1, ic = 1; bool pk = r.chance(1, 2); if (!pk) { ip = r.range(1, 3); ic = r.range(1, 3); }
  std::vector<T> pri((size_t)fold * P * ip + 8, (T)-5e30), car((size_t)fold * P * ic + 8, (T)-6e30), Z((size_t)2 * fold * P, (T)0);
  // previous contents
  std::vector<T> prev[2]; for (int p = 0; p < 2; p++) { prev[p].assign(2 * fold, (T)0); }
  if (r.chance(1, 2)) for (int p = 0; p < P; p++) { std::vector<T> v(r.range(1, 5)); gen_any<T>(r, v); if (special == 2 && r.chance(1, 3)) v[0] = r.chance(1, 4) ? std::numeric_limits<T>::quiet_NaN() : (r.chance(1, 2) ? 1 : -1) * std::numeric_limits<T>::infinity(); for (T x : v) { B::radd(fold, x, &prev[p][0]); a[p].add(x); } }
  for (int p = 0; p < P; p++) for (int j = 0; j < fold; j++) { Z[P * j + p] = prev[p][j]; Z[P * fold + P * j + p] = prev[p][fold + j]; pri[(size_t)P * j * ip + p] = prev[p][j]; car[(size_t)P * j * ic + p] = prev[p][fold + j]; }
  auto X = l.X(), Y = l.Y(); auto X0 = X, Y0 = Y;
  if (pk) l.packed(fold, X.data(), Y.data(), Z.data()); else l.manual(fold, X.data(), Y.data(), pri.data(), ip, car.data(), ic);
  bool anyspecial = false;
  l.model(a); for (int p = 0; p < P; p++) {
    State<T> s = pk ? read_state<T>(fold, &Z[p], P, &Z[P * fold + p], P) : read_state<T>(fold, &pri[p], P * ip, &car[p], P * ic); std::string why;
    rep.count("states-read"); if (a[p].special()) { rep.count("special-states"); anyspecial = true; }
    if (!state_matches(s, a[p], fold, why)) { rep.viol((special == 2 ? "special:" : "state:") + l.name(), l.desc(fold) + (pk ? " packed" : " manual") + " part " + std::to_string(p) + ": " + why + " | state " + state_str(s) + " | model " + a[p].str(fold)); return; }
  }
  // a fresh plain result equals the conversion of summands added one at a time
  std::vector<T> acc[2]; if (l.N <= 1200 || r.chance(1, 6)) { scalar_ref(l, fold, acc); T o[2], w[2] = {0, 0}; l.plain(fold, X.data(), Y.data(), o); for (int p = 0; p < P; p++) w[p] = B::rto(fold, &acc[p][0]); rep.count("plain-vs-scalar");
    if (!same2(o, w)) rep.viol("plain:" + l.name(), l.desc(fold) + " gave " + hexf(o[0]) + "," + hexf(o[1]) + " scalar route " + hexf(w[0]) + "," + hexf(w[1])); }
  if (memcmp(X0.data(), X.data(), X.size() * sizeof(T)) || memcmp(Y0.data(), Y.data(), Y.size() * sizeof(T))) rep.viol("input:" + l.name(), l.desc(fold) + " modified its input");
  if (!pk) for (size_t i = 0; i < pri.size(); i++) { bool u = i / (P * ip) < (size_t)fold && i % (P * ip) < (size_t)P; if (!u && pri[i] != (T)-5e30) { rep.viol("gap:" + l.name(), l.desc(fold) + " wrote outside the addressed primary fields"); break; } }
  if (!pk) for (size_t i = 0; i < car.size(); i++) { bool u = i / (P * ic) < (size_t)fold && i % (P * ic) < (size_t)P; if (!u && car[i] != (T)-6e30) { rep.viol("gap:" + l.name(), l.desc(fold) + " wrote outside the addressed carry fields"); break; } }
  rep.count(l.name()); if (l.N > B::ENDURANCE / 2) rep.count("beyond-endurance"); rep.count("summands", (uint64_t)l.N);
  rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), special == 2 ? anyspecial : l.N > 0);
  if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold) + " state " + a[0].str(fold));
}

// C02: chunks of a vector go to several accumulators by several routes, which are merged in any order
template <class T> void split(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l = pick<T>(r); int fold = pick_fold<T>(r); int cat = fill_l1<T>(r, l, r.chance(1, 10) ? 2 : 1, NBIG); int P = l.parts(), w = l.z + 1; size_t num = (size_t)2 * fold * P;
  auto X = l.X(), Y = l.Y(); std::vector<T> one(num, (T)0), img; l.packed(fold, X.data(), Y.data(), one.data()); T o[2] = {0, 0}, v[2];
  auto value = [&](std::vector<T> &a, T *t) { t[1] = 0; if (P == 2) B::zto(fold, a.data(), t); else t[0] = B::rto(fold, a.data()); }; value(one, o);
  bool sp = false; for (T t : one) sp |= t != t || std::isinf(t);
  for (int way = r.range(1, 3); way--;) {
    int k = r.range(1, 5); std::vector<std::vector<T>> acc(k, std::vector<T>(num, (T)0)); std::string how; int i = 0; long m = 0;
    while (i < l.N) {
      int n = r.chance(1, 2) ? r.range(1, 9) : r.range(1, std::max(1, l.N)); n = std::min(n, l.N - i); L1<T> c = l; c.N = n; T *a = acc[r.below(k)].data(); int route = r.below(n < 300 ? 5 : 3);
      const T *cx = X.data() + (size_t)i * w * l.ix, *cy = l.two() ? Y.data() + (size_t)i * w * l.iy : nullptr; if (how.size() < 200) how += std::to_string(n) + "r" + std::to_string(route) + " ";
      if (route == 0) c.manual(fold, cx, cy, a, 1, a + fold * P, 1);
      else if (route < 3) c.packed(fold, cx, cy, a);
      else { std::vector<T> rev(l.x.begin() + (size_t)i * w, l.x.begin() + (size_t)(i + n) * w); L1<T> e = l; e.N = n; e.x = rev; if (l.two()) e.y.assign(l.y.begin() + (size_t)i * w, l.y.begin() + (size_t)(i + n) * w);
        for (int j = n; j--;) { T z[2] = {0, 0}; std::vector<T> q[2]; e.each(j, (T)1, [&](int p, T t) { q[p].push_back(t); });
          for (size_t u = 0; u < q[0].size(); u++) { z[0] = q[0][u]; if (P == 2) { z[1] = q[1][u]; if (route == 3) B::zadd(fold, z, a); else { std::vector<T> b(num); B::zfrom(fold, z, b.data()); B::zzadd(fold, b.data(), a); } }
            else if (route == 3) B::radd(fold, z[0], a); else { std::vector<T> b(num); B::rfrom(fold, z[0], b.data()); B::rradd(fold, b.data(), a); } } } }
      i += n; m++;
    }
    while (acc.size() > 1) { size_t x = r.below(acc.size()), y = r.below(acc.size()); if (x == y) continue; auto before = acc[x]; if (P == 2) B::zzadd(fold, acc[x].data(), acc[y].data()); else B::rradd(fold, acc[x].data(), acc[y].data());
      if (memcmp(before.data(), acc[x].data(), num * sizeof(T))) { rep.viol("split:source:" + l.name(), l.desc(fold) + " merging changed the source"); return; } acc.erase(acc.begin() + x); }
    rep.count("splits-compared"); rep.count("chunks", m); value(acc[0], v); bool same = same2(o, v);
    // an accumulator of zeros only need not have bins
    if (!sp) for (int p = 0; p < P; p++) { if (one[p] == 0 || acc[0][p] == 0) continue; for (int j = 0; j < 2 * fold; j++) same &= one[(size_t)P * j + p] == acc[0][(size_t)P * j + p]; }
    if (!same) { rep.viol("split:" + l.name(), l.desc(fold) + " chunks " + how + ": " + hexf(v[0]) + "," + hexf(v[1]) + " in one call " + hexf(o[0]) + "," + hexf(o[1]) + " " + gen_name[cat]); return; }
  }
  rep.count(l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold));
}

// data that reaches the documented bound: the largest summand at the lower edge of its bin, and cancelled, and all others
// just under half a unit of the last kept bin and of one sign, so that all of them are lost
template <class T> bool fill_worst(Rng &r, L1<T> &l, int fold) {
  typedef Lib<T> B; if ((l.kind != SUM && l.kind != DOT) || l.N < 8 || fold - 1 > B::MAXINDEX) return false;
  int w = l.z + 1, i = r.range(0, B::MAXINDEX - fold + 1), u = unit_exp<T>(i + fold - 1); if (u - 1 <= B::ENORM + B::MANT) return false;
  T big = std::ldexp((T)1, unit_exp<T>(i) - 1), half = std::ldexp((T)1, u - 1); bool neg = r.chance(1, 2);
  int a = r.below(l.N), b; do b = r.below(l.N); while (b == a); int spare = r.chance(1, 3) ? r.below(4) : 0;
  for (int k = 0; k < l.N; k++) for (int p = 0; p < w; p++) {
    T v = k == a ? big : k == b ? -big : std::nextafter(half, (T)0); if (k != a && k != b) { if (spare && r.chance(1, 3)) v = spare == 1 ? half * (T)0.75 : spare == 2 ? std::nextafter(half, big) : half; if (neg) v = -v; }
    l.x[k * w + p] = v;
  }
  if (l.two()) for (int k = 0; k < l.N; k++) { l.y[k * w] = 1; if (l.z) l.y[k * w + 1] = 0; }
  return true;
}

// C04: error of the plain result against the exact sum
template <class T> void bound(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l = pick<T>(r); int fold = pick_fold<T>(r); fill_l1<T>(r, l, 0, NBIG);
  if (r.chance(1, 4) && fill_worst<T>(r, l, fold)) rep.count("worst-case");
  Acc<T> a[2]; l.model(a); auto X = l.X(), Y = l.Y(); T o[2]; l.plain(fold, X.data(), Y.data(), o);
  for (int p = 0; p < l.parts(); p++) {
    if (a[p].special()) continue;
    if (a[p].n == 0) { if (o[p] != 0) rep.viol("empty:" + l.name(), l.desc(fold)); continue; }
    if (std::isinf(o[p]) || o[p] != o[p]) { BigFix e = a[p].exact; if (o[p] != o[p] || e.msb() < B::EMAX - 1) rep.viol("range:" + l.name(), l.desc(fold) + " gave " + hexf(o[p]) + " exact " + hexf(e.approx())); rep.count("overflowing"); continue; }
    BigFix d = a[p].exact; d.sub((double)o[p]);
    // documented bound, recomputed: N * max|x| * 2^((1-fold)*W) + c * |S|; nothing below the least bin is kept, so each summand can lose half of that
    double c = 7.0 * (sizeof(T) == 8 ? 0x1p-52 : 0x1p-23) * (1 + 1e-3); BigFix lim; { int e; double f = frexp((double)a[p].maxabs, &e); __int128 m = (__int128)(int64_t)ldexp(f, 53) * (__int128)a[p].n; int ee = e - 53 + (1 - fold) * B::W; if (ee < -2300) { m = 1; ee = -1100; } lim.add128(m, ee); } lim.add128(a[p].n, unit_exp<T>(B::MAXINDEX) - 1); lim.addscaled(std::fabs((double)o[p]) * c, 0); lim.add(1, B::EMIN);
    rep.count("results-compared");
    if (cmpabs(d, lim) > 0) { rep.viol("error:" + l.name(), l.desc(fold) + " gave " + hexf(o[p]) + " exact " + hexf(a[p].exact.approx()) + " error " + hexf(d.approx()) + " allowed " + hexf(lim.approx())); return; }
    // and against the bound the library itself reports
    T lb = B::bound(fold, (int)a[p].n, a[p].maxabs, o[p]); BigFix L; if (std::isinf(lb)) { rep.count("bound-overflow"); continue; } L.addscaled((double)lb, 0);
    if (!(lb >= 0) || cmpabs(d, L) > 0) { rep.viol(std::string("bound:") + B::nm(), l.desc(fold) + " gave " + hexf(o[p]) + " exact " + hexf(a[p].exact.approx()) + " error " + hexf(d.approx()) + " reported bound " + hexf(lb)); return; }
    // the reported bound is not vacuous: at most twice the documented one
    BigFix L2 = lim; L2.add(lim); L2.add(4 * (long)a[p].n, B::EMIN); { int ee = B::ENORM + 1 + (1 - fold) * B::W; if (ee > -2300) L2.add128((long)a[p].n, ee); }   // the documented formula does not go below the least normal number
    if (cmpabs(L, L2) > 0) { rep.viol(std::string("bound-loose:") + B::nm(), l.desc(fold) + " reported bound " + hexf(lb) + " documented " + hexf(lim.approx())); return; }
    if (d.sign()) rep.count("inexact-results"); { BigFix d4 = d; d4.add(d); if (cmpabs(d4, lim) > 0) rep.count("beyond-half-the-bound"); }
  }
  rep.count(l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold));
}

// ---- layout: the same vector placed anywhere gives the same bits
template <class T> struct Placed { std::vector<T> buf; T *p; size_t off;
  Placed(const std::vector<T> &v, Rng &r) { buf.assign(v.size() + 48, std::numeric_limits<T>::quiet_NaN()); size_t a = ((uintptr_t)&buf[0] / sizeof(T)) % 16; off = (16 - a) % 16 + r.below(17); std::copy(v.begin(), v.end(), buf.begin() + off); p = &buf[off]; } };
template <class T> void layout(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l = pick<T>(r, true); int fold = pick_fold<T>(r); fill_l1<T>(r, l, r.chance(1, 10) ? 2 : 1, r.chance(1, 4) ? NBIG : 300); l.ix = l.iy = 1; int P = l.parts(), w = l.z + 1;
  T ref[2]; l.plain(fold, l.x.data(), l.y.data(), ref); std::vector<T> state; T sc0 = 0; bool sp = false;
  int k = r.range(3, 6);
  for (int i = 0; i < k; i++) {
    l.ix = r.chance(1, 3) ? 1 : r.range(1, 9); l.iy = r.chance(1, 3) ? l.ix : r.range(1, 9);
    if (l.N && l.N < 20 && r.chance(1, 40)) l.ix = r.range(100, 5000);
    auto sx = L1<T>::spread(l.x, l.N, w, l.ix, std::numeric_limits<T>::quiet_NaN()), sy = l.two() ? L1<T>::spread(l.y, l.N, w, l.iy, std::numeric_limits<T>::quiet_NaN()) : std::vector<T>();
    Placed<T> X(sx, r), Y(sy, r); auto bx = X.buf, by = Y.buf; T o[2]; l.plain(fold, X.p, Y.p, o); rep.count("placements");
    std::string how = " inc " + std::to_string(l.ix) + "," + std::to_string(l.iy) + " offsets " + std::to_string(X.off) + "," + std::to_string(Y.off);
    if (!same2(o, ref)) { rep.viol("layout:" + l.name(), l.desc(fold) + how + " gave " + hexf(o[0]) + "," + hexf(o[1]) + " contiguous " + hexf(ref[0]) + "," + hexf(ref[1])); return; }
    // binned forms: packed or strided fields, same contents
    int ip = 1, ic = 1; bool pk = r.chance(1, 3); if (!pk) { ip = r.range(1, 5); ic = r.range(1, 5); } T sent = (T)-7e30; std::vector<T> pri((size_t)fold * P * (pk ? 2 : ip) + 40, sent), car((size_t)fold * P * ic + 40, sent); size_t o1 = r.below(17), o2 = r.below(17); T *p = &pri[o1], *c = pk ? p + P * fold : &car[o2], sc = 0;
    for (int j = 0; j < fold; j++) for (int q = 0; q < P; q++) { p[(size_t)P * j * ip + q] = 0; c[(size_t)P * j * ic + q] = 0; }
    if (l.kind == SSQ) { if (pk && r.chance(1, 2)) sc = l.z ? B::bzssq(fold, l.N, X.p, l.ix, 0, p) : B::bssq(fold, l.N, X.p, l.ix, 0, p); else sc = l.z ? B::mzssq(fold, l.N, X.p, l.ix, 0, p, ip, c, ic) : B::mssq(fold, l.N, X.p, l.ix, 0, p, ip, c, ic); }
    else if (pk && r.chance(1, 2)) l.packed(fold, X.p, Y.p, p); else l.manual(fold, X.p, Y.p, p, ip, c, ic);
    std::vector<T> st; for (int j = 0; j < fold; j++) for (int q = 0; q < P; q++) st.push_back(p[(size_t)P * j * ip + q]); for (int j = 0; j < fold; j++) for (int q = 0; q < P; q++) st.push_back(c[(size_t)P * j * ic + q]);
    for (int q = 0; q < P; q++) if (st[q] != st[q] || std::isinf(st[q])) sp = true;
    if (i && (sc != sc0 && !sp)) { rep.viol("layout:scale:" + l.name(), l.desc(fold) + how); return; }
    if (i && !sp && memcmp(&st[0], &state[0], st.size() * sizeof(T))) { rep.viol("layout:state:" + l.name(), l.desc(fold) + how + (pk ? " packed" : " manual " + std::to_string(ip) + "," + std::to_string(ic)) + " accumulator differs with placement"); return; }
    if (!i) { state = st; sc0 = sc; } rep.count("states-compared");
    for (int j = 0; j < fold; j++) for (int q = 0; q < P; q++) { p[(size_t)P * j * ip + q] = sent; c[(size_t)P * j * ic + q] = sent; }
    for (T v : pri) if (v != sent) { rep.viol("layout:gap:" + l.name(), l.desc(fold) + how + " wrote outside the accumulator's fields"); return; }
    for (T v : car) if (v != sent) { rep.viol("layout:gap:" + l.name(), l.desc(fold) + how + " wrote outside the accumulator's fields"); return; }
    if (memcmp(&bx[0], &X.buf[0], bx.size() * sizeof(T)) || memcmp(&by[0], &Y.buf[0], by.size() * sizeof(T))) { rep.viol("layout:input:" + l.name(), l.desc(fold) + how + " modified its input"); return; }
  }
  rep.count(l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold));
}

// ---- no side effects: floating point environment, repeated calls, calls in between
#include <xmmintrin.h>
#include <fenv.h>
#include <errno.h>
static const unsigned CTRL = ~0x3fu;     // everything in MXCSR but the sticky flags
template <class T> void effects(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l = pick<T>(r, true); int fold = pick_fold<T>(r); fill_l1<T>(r, l, r.chance(1, 8) ? 2 : 1, r.chance(1, 3) ? NBIG : 300);
  auto X = l.X(), Y = l.Y(); auto X0 = X, Y0 = Y; unsigned start = _mm_getcsr(); unsigned mode = start; T ref[2], o[2]; l.plain(fold, X.data(), Y.data(), ref);
  if (r.chance(1, 3)) { mode = (start & ~0x8040u) | (r.chance(1, 2) ? 0x8000 : 0) | (r.chance(1, 2) ? 0x40 : 0); }   // a caller may run with flush-to-zero on
  if (r.chance(1, 6)) mode = (mode & ~0x6000u) | (r.below(4) << 13);                                                   // or another rounding mode
  _mm_setcsr(mode & ~0x3fu); unsigned short cw0, cw1; __asm__ volatile("fnstcw %0" : "=m"(cw0)); int e0 = errno;
  int P = l.parts(); std::vector<T> Z((size_t)4 * fold, (T)0); int how = r.below(3);
  if (how == 0) l.plain(fold, X.data(), Y.data(), o); else if (how == 1) l.plain(0, X.data(), Y.data(), o); else if (l.kind == SSQ) { if (l.z) B::bzssq(fold, l.N, X.data(), l.ix, 0, Z.data()); else B::bssq(fold, l.N, X.data(), l.ix, 0, Z.data()); } else l.packed(fold, X.data(), Y.data(), Z.data());
  unsigned after = _mm_getcsr(); __asm__ volatile("fnstcw %0" : "=m"(cw1)); _mm_setcsr(start); (void)e0; (void)P;
  rep.count("calls-observed"); if (mode != start) rep.count("foreign-modes");
  if ((after & CTRL) != (mode & CTRL) || cw0 != cw1) { char b[96]; snprintf(b, sizeof b, " floating point control went from %04x to %04x", mode & CTRL, after & CTRL); rep.viol("fpenv:" + l.name(), l.desc(fold) + b); return; }
  if (memcmp(X0.data(), X.data(), X.size() * sizeof(T)) || memcmp(Y0.data(), Y.data(), Y.size() * sizeof(T))) { rep.viol("input:" + l.name(), l.desc(fold) + " modified its input"); return; }
  // anything in between changes nothing
  { L1<T> m = pick<T>(r, true); fill_l1<T>(r, m, 1, 300); auto U = m.X(), V = m.Y(); T t[2]; m.plain(pick_fold<T>(r), U.data(), V.data(), t); }
  l.plain(fold, X.data(), Y.data(), o); rep.count("repeats-compared");
  if (!same2(o, ref)) { rep.viol("repeat:" + l.name(), l.desc(fold) + " gave " + hexf(ref[0]) + "," + hexf(ref[1]) + " then " + hexf(o[0]) + "," + hexf(o[1])); return; }
  // same storage for both operands
  if (l.two()) { L1<T> m = l; m.iy = m.ix; m.y = m.x; auto A = m.X(), C = m.Y(); T u[2], v[2]; m.plain(fold, A.data(), A.data(), u); auto D = A; for (size_t i = 0; i < D.size(); i++) D[i] = A[i]; m.plain(fold, A.data(), D.data(), v); rep.count("aliased-operands"); if (!same2(u, v)) { rep.viol("alias:" + l.name(), m.desc(fold) + " with itself " + hexf(u[0]) + "," + hexf(u[1]) + " with a copy " + hexf(v[0]) + "," + hexf(v[1])); return; } }
  rep.count(l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold));
}

// ---- relations between routines
template <class T> void algebra(Rep &rep, Rng &r, bool deflt) {
  typedef Lib<T> B; L1<T> l = pick<T>(r, true); int fold = pick_fold<T>(r); if (deflt) fold = g_default[sizeof(T) == 4]; fill_l1<T>(r, l, r.chance(1, 10) ? 2 : 1, r.chance(1, 4) ? NBIG : 300);
  auto X = l.X(), Y = l.Y(); T o[2], v[2] = {0, 0}; l.plain(fold, X.data(), Y.data(), o); auto bad = [&](const char *s) { rep.viol(std::string(s) + ":" + l.name(), l.desc(fold) + " gave " + hexf(o[0]) + "," + hexf(o[1]) + " against " + hexf(v[0]) + "," + hexf(v[1])); };
  if (deflt) { l.plain(0, X.data(), Y.data(), v); rep.count("defaults-compared"); if (!same2(o, v)) bad("default"); }
  else {
    if (l.kind != ASUM && l.kind != SSQ) {      // negating the data negates the result
      L1<T> m = l; bool second = l.two() && r.chance(1, 2); for (auto &t : second ? m.y : m.x) t = -t;
      auto U = m.X(), V = m.Y(); m.plain(fold, U.data(), V.data(), v); bool ok = true;
      // equal but for the rounding of the conversion: a bin on the edge of its window splits otherwise between primary and carry
      for (int q = 0; q < l.parts(); q++) { v[q] = -v[q]; if (o[q] != o[q] || v[q] != v[q] || std::isinf(o[q]) || std::isinf(v[q])) { double big = (double)std::numeric_limits<T>::max() * (1 - 8 * std::numeric_limits<T>::epsilon());
          ok &= sameval(o[q], v[q]) || ((double)o[q] >= big && (double)v[q] >= big) || ((double)o[q] <= -big && (double)v[q] <= -big); }
        else ok &= std::fabs(o[q] / 2 - v[q] / 2) <= 8 * std::numeric_limits<T>::epsilon() * std::fabs(o[q]) + std::numeric_limits<T>::denorm_min(); }
      rep.count("negations-compared"); if (!ok) { bad("negated"); return; } v[0] = v[1] = 0;
    }
    int N = l.N; std::vector<T> re, im; if (l.z) for (int i = 0; i < N; i++) { re.push_back(l.x[2 * i]); im.push_back(l.x[2 * i + 1]); }
    auto both = [&](const std::vector<T> &u, int k) { L1<T> m; m.kind = k; m.z = 0; m.N = (int)u.size(); m.ix = m.iy = 1; m.x = u; T t[2]; m.plain(fold, m.x.data(), nullptr, t); return t[0]; };
    if (l.z && l.kind == SUM) { v[0] = both(re, SUM); v[1] = both(im, SUM); rep.count("parts-compared"); if (!same2(o, v)) bad("parts"); }
    else if (l.z && (l.kind == ASUM || l.kind == SSQ)) { v[0] = both(l.x, l.kind); rep.count("parts-compared"); if (!same2(o, v)) bad("interleaved"); }
    else if (l.kind == ASUM) { auto u = l.x; for (auto &t : u) t = std::fabs(t); v[0] = both(u, SUM); rep.count("absolute-compared"); if (!same2(o, v)) bad("abs"); }
    else if (l.kind == SUM) { L1<T> m = l; m.kind = DOT; m.y.assign(m.x.size(), (T)1); auto U = m.Y(); m.plain(fold, X.data(), U.data(), v); rep.count("ones-compared"); if (!same2(o, v)) bad("ones"); }
    else if (l.kind == SSQ) { L1<T> m = l; for (auto &t : m.x) if (r.chance(1, 2)) t = -t; auto U = m.X(); m.plain(fold, U.data(), nullptr, v); rep.count("signs-compared"); if (!same2(o, v)) bad("signs"); }
    else {      // dot products: operands swap; complex ones are four real ones
      L1<T> m = l; std::swap(m.x, m.y); std::swap(m.ix, m.iy); auto U = m.X(), V = m.Y(); if (l.kind == DOT) { m.plain(fold, U.data(), V.data(), v); rep.count("swaps-compared"); if (!same2(o, v)) bad("swap"); }
      if (l.z) {
        L1<T> d; d.z = 0; d.kind = DOT; d.ix = d.iy = 1; d.N = 2 * N; T t[2]; std::vector<T> xr, yr, xi, yi; T s = l.kind == DOTC ? 1 : -1;
        for (int i = 0; i < N; i++) { T a = l.x[2 * i], b = l.x[2 * i + 1], c = l.y[2 * i], e = l.y[2 * i + 1]; xr.push_back(a); yr.push_back(c); xr.push_back(s * b); yr.push_back(e); xi.push_back(a); yi.push_back(e); xi.push_back(-s * b); yi.push_back(c); }
        d.x = xr; d.y = yr; d.plain(fold, d.x.data(), d.y.data(), t); v[0] = t[0]; d.x = xi; d.y = yi; d.plain(fold, d.x.data(), d.y.data(), t); v[1] = t[0]; rep.count("parts-compared"); if (!same2(o, v)) bad("four-reals");
        if (l.kind == DOTC && l.N) { m = l; m.y = m.x; auto W = m.X(), W2 = m.Y(); T q[2]; m.plain(fold, W.data(), W2.data(), q); rep.count("self-conjugate"); if (!(q[1] == 0 || q[1] != q[1] || std::isinf(q[0]) || q[0] != q[0])) { v[0] = q[0]; v[1] = q[1]; bad("self-conjugate"); } }
      }
    }
  }
  rep.count(l.name()); rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), l.kind * 77 + fold), l.N > 1); if (l.N < 6 && l.N > 1) rep.sample(l.desc(fold));
}

int main(int c, char **v) {
  Opt o(c, v); Rep rep; if (o.thorough) NBIG = 20000;
  for_cases(o, rep, [&](Rng &r, long i) {
    bool f = i & 1;
    if (o.mode == "perm") f ? perm<float>(rep, r) : perm<double>(rep, r);
    else if (o.mode == "split") f ? split<float>(rep, r) : split<double>(rep, r);
    else if (o.mode == "exact") f ? exact<float>(rep, r, r.chance(1, 4)) : exact<double>(rep, r, r.chance(1, 4));
    else if (o.mode == "dense") f || r.chance(1, 2) ? exact<float>(rep, r, 0, true) : exact<double>(rep, r, 0, true);
    else if (o.mode == "special") f ? exact<float>(rep, r, 2) : exact<double>(rep, r, 2);
    else if (o.mode == "bound") f ? bound<float>(rep, r) : bound<double>(rep, r);
    else if (o.mode == "layout") f ? layout<float>(rep, r) : layout<double>(rep, r);
    else if (o.mode == "effects") f ? effects<float>(rep, r) : effects<double>(rep, r);
    else if (o.mode == "algebra") f ? algebra<float>(rep, r, false) : algebra<double>(rep, r, false);
    else if (o.mode == "default") f ? algebra<float>(rep, r, true) : algebra<double>(rep, r, true);
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
