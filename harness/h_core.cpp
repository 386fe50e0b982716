// Histories of scalar binned operations (libbinned only): every accumulator is shadowed by the exact model.
#include "model.hpp"

// An accumulator under observation, placed with arbitrary strides inside a sentinel-filled block.
template <class T> struct Cell {
  typedef Lib<T> B;
  int fold, z, ip, ic; bool packed; std::vector<T> mem, shadow; size_t p0, c0;
  Acc<T> a[2]; int forced = 1000; bool loose = false;   // loose: negated and not renormalized since
  static T sentinel() { return (T)-7.25e30; }
  Cell(int f, int zz, Rng &r) : fold(f), z(zz) {
    packed = r.chance(2, 5);
    ip = packed ? 1 : (r.chance(1, 2) ? 1 : r.range(1, 4)); ic = packed ? 1 : (r.chance(1, 2) ? ip : r.range(1, 4));
    size_t w = z ? 2 : 1, lp = w * ((size_t)(fold - 1) * ip + 1), lc = w * ((size_t)(fold - 1) * ic + 1);
    size_t g = 4;
    if (packed) { p0 = g; c0 = g + w * fold; mem.assign(g + 2 * w * fold + g, sentinel()); }
    else if (r.chance(1, 2)) { p0 = g; c0 = p0 + lp + g; mem.assign(c0 + lc + g, sentinel()); }
    else { c0 = g; p0 = c0 + lc + g; mem.assign(p0 + lp + g, sentinel()); }
    zero();
    for (auto &x : a) x = Acc<T>();
  }
  T *P() { return &mem[p0]; }
  T *C() { return &mem[c0]; }
  T *Y() { return &mem[p0]; }
  void zero() { if (packed) { if (z) B::zsetzero(fold, Y()); else B::rsetzero(fold, Y()); } else { if (z) B::zmsetzero(fold, P(), ip, C(), ic); else B::rmsetzero(fold, P(), ip, C(), ic); } }
  // sentinel check: only addressed fields may differ from the fill
  bool gaps(std::string &why) {
    std::vector<char> used(mem.size(), 0); int w = z ? 2 : 1;
    for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) { used[p0 + (size_t)j * ip * w + q] = 1; used[c0 + (size_t)j * ic * w + q] = 1; }
    for (size_t i = 0; i < mem.size(); i++) if (!used[i] && mem[i] != sentinel()) { why = "wrote outside the addressed fields at offset " + std::to_string((long)i - (long)p0); return false; }
    return true;
  }
  State<T> st(int part, int norm = 1) { int w = z ? 2 : 1; return read_state<T>(fold, P() + part, ip * w, C() + part, ic * w, norm); }
  void raw(std::vector<T> &o) { int w = z ? 2 : 1; o.clear(); for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) o.push_back(P()[j * ip * w + q]); for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) o.push_back(C()[j * ic * w + q]); }
  void put(const std::vector<T> &o) { int w = z ? 2 : 1; size_t k = 0; for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) P()[j * ip * w + q] = o[k++]; for (int j = 0; j < fold; j++) for (int q = 0; q < w; q++) C()[j * ic * w + q] = o[k++]; }
};

template <class T> struct Hist {
  typedef Lib<T> B; Rep &rep; Rng &r; int fold, z; std::vector<Cell<T>> cells; std::string log; long ops = 0; bool bad = false; int specials, emph;
  int lo, hi; std::vector<int> fforced;
  Hist(Rep &rp, Rng &rr, int emph_) : rep(rp), r(rr), emph(emph_) {
    fold = pick_fold<T>(r); z = r.chance(1, 3);
    specials = emph == 2 ? r.range(1, 6) : (emph == 0 && r.chance(1, 12));
    int k = r.range(2, 5); for (int i = 0; i < k; i++) cells.emplace_back(fold, z, r);
    if (r.chance(1, 3)) { lo = -9999; hi = 9999; } else { int c = r.range(B::EMIN + 1, B::EMAX), w = r.range(1, 3 * B::W); lo = std::max(B::EMIN + 1, c - w); hi = std::min(B::EMAX, c + w); }
  }
  void say(const std::string &s) { if (log.size() < 3000) log += s + "; "; }
  T val() {
    if (specials && r.chance(specials, 40)) { switch (r.below(4)) { case 0: return std::numeric_limits<T>::infinity(); case 1: return -std::numeric_limits<T>::infinity(); case 2: return std::numeric_limits<T>::quiet_NaN(); default: return std::numeric_limits<T>::max(); } }
    std::vector<T> v(1); gen_any<T>(r, v, lo, hi); return v[0];
  }
  std::string ctx(const char *op) { return std::string(B::nm()) + " fold=" + std::to_string(fold) + (z ? " complex" : " real") + " op=" + op + " history: " + log; }
  bool check(Cell<T> &c, const char *op, int norm = 1) { if (norm == 1 && c.loose) norm = 2;
    std::string why;
    for (int q = 0; q <= z; q++) {
      State<T> s = c.st(q, norm);
      rep.count("states-read");
      if (!state_matches(s, c.a[q], fold, why, c.forced)) {
        rep.viol(std::string(op) + ":state", ctx(op) + " part " + std::to_string(q) + ": " + why + " | state " + state_str(s) + " | model " + c.a[q].str(fold)); bad = true; return false; }
    }
    if (!c.gaps(why)) { rep.viol(std::string(op) + ":gap", ctx(op) + why); bad = true; return false; }
    return true;
  }
  void convcheck(Cell<T> &c) {
    T o[2] = {0, 0}; const char *op;
    if (c.packed && r.chance(1, 2)) { op = "conv"; if (z) B::zto(fold, c.Y(), o); else o[0] = B::rto(fold, c.Y()); }
    else { op = "mconv"; if (z) B::zmto(fold, c.P(), c.ip, c.C(), c.ic, o); else o[0] = B::rmto(fold, c.P(), c.ip, c.C(), c.ic); }
    rep.count("conversions");
    for (int q = 0; q <= z; q++) {
      Acc<T> &a = c.a[q];
      if (a.special()) { if (!sameval(o[q], a.special_value())) { rep.viol(std::string(op) + ":special", ctx(op) + " gave " + hexf(o[q])); bad = true; } continue; }
      int first = std::min(a.nz ? a.top : 1000, c.forced);
      BigFix h = first <= B::MAXINDEX ? a.held(fold, first) : BigFix();
      BigFix d = h; double hm = std::fabs(h.approx());
      if (std::isinf(o[q]) || o[q] != o[q]) {      // only when the held value is outside the range
        if (o[q] != o[q] || h.msb() < B::EMAX - 1 || (h.sign() > 0) != (o[q] > 0)) { rep.viol(std::string(op) + ":range", ctx(op) + " gave " + hexf(o[q]) + " for " + hexf(hm)); bad = true; }
        continue;
      }
      d.sub((double)o[q]);
      BigFix lim; double eps = sizeof(T) == 8 ? 0x1p-52 : 0x1p-23; double lm = std::fabs((double)o[q]);
      lim.addscaled(lm * (7 * eps * (1 + 1e-6)), 0); lim.add(1, B::EMIN);      // |conv - held| <= 7 eps |conv| + one subnormal unit
      if (cmpabs(d, lim) > 0) { rep.viol(std::string(op) + ":value", ctx(op) + " gave " + hexf(o[q]) + " but the bins hold " + hexf(hm) + " difference " + hexf(d.approx())); bad = true; }
    }
  }
  // deposit a batch with at most ENDURANCE deposits between renormalisations
  void batch(Cell<T> &c) {
    int n = emph == 1 ? (r.chance(1, 2) ? B::ENDURANCE : r.range(1, B::ENDURANCE)) : r.range(1, 40);
    std::vector<T> v(n * (z + 1));
    if (emph == 1 && r.chance(2, 3)) gen_vec<T>(r, r.chance(2, 3) ? G_TOPBIN : G_BOUNDARY, v, lo, hi); else gen_any<T>(r, v, lo, hi);
    if (specials && r.chance(1, 4)) v[r.below(v.size())] = val();
    T m = 0; bool nan = false; for (T x : v) { if (x != x) nan = true; else if (std::fabs(x) > m) m = std::fabs(x); }
    if (nan || std::isinf(m)) m = std::numeric_limits<T>::max();
    if (r.chance(1, 3)) { T e = std::fabs(val()); if (e == e && !std::isinf(e) && e > m) m = e; }
    T mm[2] = {m, m};
    bool pk = c.packed && r.chance(1, 2);
    // the bins must be those of the largest summand: note what was asked for. (A special accumulator has no bins.)
    for (int q = 0; q <= z; q++) if (c.a[q].special()) { return; }
    say("batch n=" + std::to_string(n) + " first=" + hexf(v[0]) + " update=" + hexf(m) + (pk ? " packed" : ""));
    if (z) { if (r.chance(1, 2)) { if (pk) B::zupdate(fold, mm, c.Y()); else B::zmupdate(fold, mm, c.P(), c.ip, c.C(), c.ic); } else { if (pk) B::zrupdate(fold, m, c.Y()); else B::zrmupdate(fold, m, c.P(), c.ip, c.C(), c.ic); } }
    else { if (pk) B::rupdate(fold, m, c.Y()); else B::rmupdate(fold, m, c.P(), c.ip, c.C(), c.ic); }
    int idx = model_index(m); c.forced = std::min(c.forced, idx);
    if (!check(c, "update")) return;
    for (int i = 0; i < n; i++) {
      if (z) { if (pk) B::zdeposit(fold, &v[2 * i], c.Y()); else B::zmdeposit(fold, &v[2 * i], c.P(), c.ip); c.a[0].add(v[2 * i]); c.a[1].add(v[2 * i + 1]); }
      else { if (pk) B::rdeposit(fold, v[i], c.Y()); else B::rmdeposit(fold, v[i], c.P(), c.ip); c.a[0].add(v[i]); }
      if (i == n - 1 || r.chance(1, 64)) { bool sp = false; for (int q = 0; q <= z; q++) sp |= c.a[q].special(); if (!sp) { if (!check(c, "deposit", 0)) return; } }
    }
    rep.count("deposits", n); if (n == B::ENDURANCE) rep.count("full-endurance-batches");
    if (z) { if (pk) B::zrenorm(fold, c.Y()); else B::zmrenorm(fold, c.P(), c.ip, c.C(), c.ic); }
    else { if (pk) B::rrenorm(fold, c.Y()); else B::rmrenorm(fold, c.P(), c.ip, c.C(), c.ic); }
    c.loose = false; check(c, "renorm");
  }
  bool room(const Cell<T> &x, const Cell<T> &y) { for (int q = 0; q <= z; q++) if (x.a[q].n + y.a[q].n > (long double)B::capacity()) return false; return true; }
  void merge(Cell<T> &x, Cell<T> &y) {       // y += x
    if (!room(x, y)) return;
    std::vector<T> before; x.raw(before);
    bool pk = x.packed && y.packed && r.chance(2, 3);
    const char *op = pk ? "badd" : "madd";
    say(std::string(op) + " " + std::to_string(&x - &cells[0]) + "->" + std::to_string(&y - &cells[0]));
    if (z) { if (pk) B::zzadd(fold, x.Y(), y.Y()); else B::zzmadd(fold, x.P(), x.ip, x.C(), x.ic, y.P(), y.ip, y.C(), y.ic); }
    else { if (pk) B::rradd(fold, x.Y(), y.Y()); else B::rrmadd(fold, x.P(), x.ip, x.C(), x.ic, y.P(), y.ip, y.C(), y.ic); }
    for (int q = 0; q <= z; q++) y.a[q].merge(x.a[q]);
    y.forced = std::min(y.forced, x.forced); y.loose = (y.loose && x.st(0).first < 0) || (y.loose && z) || x.loose;
    rep.count("merges");
    check(y, op);
    std::vector<T> after; x.raw(after);
    if (memcmp(&before[0], &after[0], before.size() * sizeof(T))) { rep.viol(std::string(op) + ":source", ctx(op) + " changed its input accumulator"); bad = true; }
  }
  // accumulate to the documented capacity: a few values near the top of their bins, doubled and topped up from the powers kept on the way
  void capacity(Cell<T> &c, Cell<T> &t) {
    say("capacity"); c.zero(); for (auto &x : c.a) x = Acc<T>(); c.forced = 1000; c.loose = false;
    int k = r.range(1, 3), n = r.chance(1, 2) ? B::ENDURANCE : r.range(1, B::ENDURANCE); std::vector<T> v(k * (z + 1)); gen_vec<T>(r, r.chance(2, 3) ? G_TOPBIN : G_BOUNDARY, v, lo, hi);
    if (r.chance(3, 4)) for (T &x : v) x = r.chance(1, 8) ? x : std::fabs(x);
    for (int i = 0; i < n; i++) { T *x = &v[(i % k) * (z + 1)];
      if (z) B::zmadd(fold, x, c.P(), c.ip, c.C(), c.ic); else B::rmadd(fold, x[0], c.P(), c.ip, c.C(), c.ic);
      for (int q = 0; q <= z; q++) c.a[q].add(x[q]); }
    if (!check(c, "add")) return;
    std::vector<std::pair<std::vector<T>, std::array<Acc<T>, 2>>> kept;
    auto put = [&](size_t i) { t.put(kept[i].first); for (int q = 0; q <= z; q++) t.a[q] = kept[i].second[q]; t.forced = 1000; t.loose = false; };
    while (!bad) { std::vector<T> u; c.raw(u); kept.push_back({u, {c.a[0], c.a[z]}}); put(kept.size() - 1); if (!room(t, c)) break; merge(t, c); }
    for (size_t i = kept.size(); i-- && !bad;) { put(i); if (room(t, c)) merge(t, c); }
    if (!bad) { if (c.a[0].n + n <= (long double)B::capacity() && kept.size() > 1) abort(); rep.count("capacity-reached"); convcheck(c); }
  }
  void step() {
    int k = r.below(cells.size()); Cell<T> &c = cells[k]; ops++;
    int w = r.below(emph == 1 ? 60 : 100);
    if (emph == 1 && cells.size() > 1 && r.chance(1, 40)) { capacity(c, cells[(k + 1) % cells.size()]); return; }
    if (emph == 1 && w < 40) { batch(c); return; }
    if (w < 34) {
      T x[2] = {val(), val()}; bool pk = c.packed && r.chance(1, 2);
      if (c.a[0].n + 1 > B::capacity()) return;
      say("add[" + std::to_string(k) + "] " + hexf(x[0]) + (z ? "," + hexf(x[1]) : ""));
      if (z) { if (pk) B::zadd(fold, x, c.Y()); else B::zmadd(fold, x, c.P(), c.ip, c.C(), c.ic); }
      else { if (pk) B::radd(fold, x[0], c.Y()); else B::rmadd(fold, x[0], c.P(), c.ip, c.C(), c.ic); }
      for (int q = 0; q <= z; q++) c.a[q].add(x[q]);
      c.loose = false; rep.count("adds"); check(c, "add");
    } else if (w < 46) batch(c);
    else if (w < 64) { int j = r.below(cells.size()); if (j != k) merge(cells[j], c); }
    else if (w < 70) {     // set a copy of another
      int j = r.below(cells.size()); if (j == k) return; Cell<T> &x = cells[j]; bool pk = x.packed && c.packed && r.chance(2, 3);
      say("set " + std::to_string(j) + "->" + std::to_string(k));
      if (z) { if (pk) B::zset(fold, x.Y(), c.Y()); else B::zmset(fold, x.P(), x.ip, x.C(), x.ic, c.P(), c.ip, c.C(), c.ic); }
      else { if (pk) B::rset(fold, x.Y(), c.Y()); else B::rmset(fold, x.P(), x.ip, x.C(), x.ic, c.P(), c.ip, c.C(), c.ic); }
      for (int q = 0; q <= z; q++) c.a[q] = x.a[q]; c.forced = x.forced; c.loose = x.loose;
      std::vector<T> u, v; x.raw(u); c.raw(v); bool sp = c.a[0].special() || c.a[1].special();
      if (!sp && memcmp(&u[0], &v[0], u.size() * sizeof(T))) { rep.viol("set:copy", ctx("set") + " copy differs"); bad = true; }
      rep.count("sets"); check(c, "set");
    } else if (w < 76) {
      bool pk = c.packed && r.chance(1, 2); say("neg " + std::to_string(k));
      if (z) { if (pk) B::zneg(fold, c.Y()); else B::zmneg(fold, c.P(), c.ip, c.C(), c.ic); } else { if (pk) B::rneg(fold, c.Y()); else B::rmneg(fold, c.P(), c.ip, c.C(), c.ic); }
      for (int q = 0; q <= z; q++) c.a[q].negate();
      c.loose = true; rep.count("negations"); check(c, "negate");
    } else if (w < 79) { say("zero " + std::to_string(k)); c.zero(); for (auto &x : c.a) x = Acc<T>(); c.forced = 1000; c.loose = false; check(c, "setzero");
      std::vector<T> u; c.raw(u); for (T x : u) if (x != 0) { rep.viol("setzero:fields", ctx("setzero")); bad = true; break; }
    } else if (w < 84) {   // convert from a value
      T x[2] = {val(), val()}; bool pk = c.packed && r.chance(1, 2); say("conv[" + std::to_string(k) + "]=" + hexf(x[0]));
      std::vector<T> junk((z + 1) * 2 * fold); for (auto &j : junk) j = (T)r.range(-9, 9); c.put(junk);     // must not depend on what was there
      if (z) { if (pk) B::zfrom(fold, x, c.Y()); else B::zmfrom(fold, x, c.P(), c.ip, c.C(), c.ic); } else { if (pk) B::rfrom(fold, x[0], c.Y()); else B::rmfrom(fold, x[0], c.P(), c.ip, c.C(), c.ic); }
      for (int q = 0; q <= z; q++) { c.a[q] = Acc<T>(); c.a[q].add(x[q]); } c.forced = 1000; c.loose = false; rep.count("from-value"); check(c, "from");
    } else if (w < 90) convcheck(c);
    else if (w < 92) {     // index of the accumulator as reported
      if (z || c.a[0].special() || !c.a[0].nz) return;
      int i = B::mindex(c.P()), want = std::min(c.a[0].top, c.forced); if (i != want || (B::mindex0(c.P()) != 0) != (want == 0)) { rep.viol("mindex", ctx("mindex") + " reported " + std::to_string(i) + " expected " + std::to_string(want)); bad = true; }
      rep.count("index-reads");
    } else if (w < 94 && emph != 2) {      // doubling: reach summand counts no loop could
      int d = r.range(1, 24); int j = r.below(cells.size()); if (j == k) return; say("double x" + std::to_string(d));
      Cell<T> &t = cells[j];
      for (int i = 0; i < d && !bad; i++) { std::vector<T> u; c.raw(u); t.put(u); for (int q = 0; q <= z; q++) t.a[q] = c.a[q]; t.forced = c.forced; t.loose = c.loose; if (!room(t, c)) break; merge(t, c); rep.count("doublings"); }
    } else if (w < 97) {   // repeated renorm is a no-op on a normalized accumulator
      std::vector<T> u, v; c.raw(u); if (z) B::zmrenorm(fold, c.P(), c.ip, c.C(), c.ic); else B::rmrenorm(fold, c.P(), c.ip, c.C(), c.ic);
      c.raw(v); if (memcmp(&u[0], &v[0], u.size() * sizeof(T)) && !c.loose && !c.a[0].special() && !c.a[1].special()) { rep.viol("renorm:idempotent", ctx("renorm") + " changed a normalized accumulator"); bad = true; }
      c.loose = false; check(c, "renorm");
    } else if (!z || r.chance(1, 2)) {       // vectors of accumulators
      vecadd();
    } else {               // a real accumulator set into a complex one
      zr(c);
    }
  }
  void zr(Cell<T> &c) {
    Cell<T> x(fold, 0, r); int n = r.range(0, 5); for (int i = 0; i < n; i++) { T v = val(); B::rmadd(fold, v, x.P(), x.ip, x.C(), x.ic); x.a[0].add(v); }
    bool pk = x.packed && c.packed; say("real->complex set");
    if (pk) B::zrset(fold, x.Y(), c.Y()); else B::zrmset(fold, x.P(), x.ip, x.C(), x.ic, c.P(), c.ip, c.C(), c.ic);
    c.a[0] = x.a[0]; c.a[1] = Acc<T>(); c.forced = 1000; c.loose = false; rep.count("real-to-complex"); check(c, "zdset");
    State<T> s = c.st(1); if (s.first >= 0 || s.special) { rep.viol("zdset:imag", ctx("zdset") + " imaginary part not zero: " + state_str(s)); bad = true; }
  }
  void vecadd() {
    int N = r.range(0, 5), ix = r.range(1, 3), iy = r.range(1, 3), w = z + 1; size_t num = 2 * fold * w;
    std::vector<T> X((size_t)(std::max(N, 1) - 1) * ix * num + num, Cell<T>::sentinel()), Y((size_t)(std::max(N, 1) - 1) * iy * num + num, Cell<T>::sentinel()); std::vector<Acc<T>> ax(N * w), ay(N * w);
    auto fill = [&](T *p, Acc<T> *a) { if (z) B::zsetzero(fold, p); else B::rsetzero(fold, p);
      for (int k = r.range(0, 4); k--;) { T v[2] = {val(), val()}; if (z && r.chance(1, 5)) v[r.below(2)] = 0; if (z) B::zadd(fold, v, p); else B::radd(fold, v[0], p); for (int q = 0; q < w; q++) a[q].add(v[q]); } };
    for (int i = 0; i < N; i++) { fill(&X[(size_t)i * ix * num], &ax[i * w]); fill(&Y[(size_t)i * iy * num], &ay[i * w]); }
    std::vector<T> X0 = X, Y0 = Y; if (z) B::zzaddv(fold, N, &X[0], ix, &Y[0], iy); else B::rraddv(fold, N, &X[0], ix, &Y[0], iy);
    say("addv N=" + std::to_string(N) + " incs " + std::to_string(ix) + "," + std::to_string(iy)); rep.count(z ? "complex-vector-merges" : "vector-merges");
    for (int i = 0; i < N; i++) {
      T *y = &Y[(size_t)i * iy * num];
      for (int q = 0; q < w; q++) { Acc<T> &a = ay[i * w + q]; a.merge(ax[i * w + q]); State<T> s = read_state<T>(fold, y + q, w, y + w * fold + q, w); std::string why;
        if (!state_matches(s, a, fold, why)) { rep.viol("addv:state", ctx("addv") + " element " + std::to_string(i) + " part " + std::to_string(q) + ": " + why); bad = true; } }
      memcpy(&Y0[(size_t)i * iy * num], y, num * sizeof(T));
    }
    if (memcmp(&X0[0], &X[0], X.size() * sizeof(T))) { rep.viol("addv:source", ctx("addv")); bad = true; }
    if (memcmp(&Y0[0], &Y[0], Y.size() * sizeof(T))) { rep.viol("addv:gap", ctx("addv") + " wrote between accumulators"); bad = true; }
  }
  void run() {
    int n = emph == 1 ? r.range(2, 10) : r.range(10, 60);
    for (int i = 0; i < n && !bad; i++) step();
    for (auto &c : cells) if (!bad) convcheck(c);
    rep.count("operations", ops);
    rep.eval(hashbytes(log.data(), log.size()), ops > 1);
    rep.sample(ctx("-"));
  }
};

// One multiset of summands, split and merged in several ways: all accumulators must end bit-identical.
template <class T> void trees(Rep &rep, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r); int n = r.range(1, r.chance(1, 4) ? 700 : 60); std::vector<T> v(n); int cat = gen_any<T>(r, v);
  bool sp = r.chance(1, 10); if (sp) for (int k = r.range(1, 3); k--;) v[r.below(n)] = r.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
  size_t num = 2 * fold; std::vector<T> ref; bool refspecial = false; T refv = 0; bool zero = true; for (T x : v) if (x != 0) zero = false;
  int ways = r.range(3, 6);
  for (int w = 0; w < ways; w++) {
    std::vector<T> u = v; if (w) r.shuffle(u);
    int parts = w == 0 ? 1 : r.range(1, std::min(n, 9)); std::vector<std::vector<T>> acc(parts, std::vector<T>(num, (T)0)); std::vector<int> cut(parts + 1); cut[0] = 0; cut[parts] = n; for (int i = 1; i < parts; i++) cut[i] = r.range(0, n); std::sort(cut.begin(), cut.end());
    std::string how;
    for (int p = 0; p < parts; p++) {
      T *y = &acc[p][0]; int route = w == 0 ? 0 : r.below(3); int i = cut[p]; how += "[" + std::to_string(cut[p + 1] - cut[p]) + "/r" + std::to_string(route) + "]";
      if (route == 0) for (; i < cut[p + 1]; i++) B::radd(fold, u[i], y);
      else while (i < cut[p + 1]) {
        int m = std::min(cut[p + 1] - i, r.range(1, B::ENDURANCE)); bool fin = true; T mx = 0; for (int k = 0; k < m; k++) { if (!(std::fabs(u[i + k]) <= std::numeric_limits<T>::max())) fin = false; else mx = std::max(mx, (T)std::fabs(u[i + k])); }
        if (!fin || route == 2) { for (int k = 0; k < m; k++) { std::vector<T> t(num); B::rfrom(fold, u[i + k], &t[0]); B::rradd(fold, &t[0], y); } }
        else { B::rupdate(fold, mx, y); for (int k = 0; k < m; k++) B::rdeposit(fold, u[i + k], y); B::rrenorm(fold, y); }
        i += m;
      }
    }
    while (acc.size() > 1) { size_t i = r.below(acc.size()), j = r.below(acc.size()); if (i == j) continue; B::rradd(fold, &acc[i][0], &acc[j][0]); acc.erase(acc.begin() + i); rep.count("merges"); }
    T out = B::rto(fold, &acc[0][0]); rep.count("orders-compared");
    if (w == 0) { ref = acc[0]; refv = out; refspecial = out != out || std::isinf(acc[0][0]); continue; }
    bool same = samebits(out, refv); if (!refspecial && !zero && memcmp(&ref[0], &acc[0][0], num * sizeof(T))) same = false;
    if (!same) { std::string d; for (int i = 0; i < std::min(n, 12); i++) d += hexf(v[i]) + " "; rep.viol("tree", std::string(B::nm()) + " fold=" + std::to_string(fold) + " n=" + std::to_string(n) + " " + gen_name[cat] + " way " + how + ": " + hexf(out) + " vs " + hexf(refv) + " data " + d); return; }
  }
  rep.eval(hashbytes(&v[0], n * sizeof(T), fold), n > 1);
  if (n < 6) rep.sample(std::string(B::nm()) + " fold " + std::to_string(fold) + " n " + std::to_string(n) + " " + gen_name[cat]);
}

int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) {
    if (o.mode == "hist" || o.mode == "endur" || o.mode == "special") { int e = o.mode == "hist" ? 0 : o.mode == "endur" ? 1 : 2; if (i & 1) { Hist<float> h(rep, r, e); h.run(); } else { Hist<double> h(rep, r, e); h.run(); } }
    else if (o.mode == "trees") { if (i & 1) trees<float>(rep, r); else trees<double>(rep, r); }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
