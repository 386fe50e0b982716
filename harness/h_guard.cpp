// Memory discipline of the shipped build: operands end (or begin) flush at an inaccessible page, inputs are read-only pages,
// and the heap must be as full after a call as before it.
#define RB_BLAS
#include "l1.hpp"
#include <sys/mman.h>
#include <malloc.h>
#include <map>
// LINK: -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=memalign,--wrap=posix_memalign
// The library's own heap requests: counted, filled with a pattern, and (rarely, in the shipped build) flush with a guard page.
extern "C" { void *__real_malloc(size_t); void __real_free(void *); }
struct HeapMon { long live = 0, blocks = 0, guarded = 0, unknown = 0; bool on = false, guard = false, start = false; unsigned char fill = 0; std::map<void *, std::pair<char *, size_t>> own; };
static HeapMon &hm() { static HeapMon *h = new HeapMon; return *h; }
extern "C" void *__wrap_malloc(size_t n) {
  HeapMon &h = hm(); if (!h.on) return __real_malloc(n);
  h.on = false; void *p; char *b = 0; size_t len = (n + 4095) / 4096 * 4096, tot = len + 8192;
  if (h.guard) { b = (char *)mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED || (len && mprotect(b + 4096, len, PROT_READ | PROT_WRITE))) { fprintf(stderr, "no guard pages\n"); exit(3); } p = h.start ? b + 4096 : b + 4096 + (len - n) / 16 * 16; h.guarded++; }
  else p = __real_malloc(n);
  if (p) memset(p, h.fill, n); h.own[p] = {b, n}; h.live++; h.blocks++; h.on = true; return p;
}
extern "C" void __wrap_free(void *p) {
  HeapMon &h = hm(); if (!p) return; if (!h.on && h.own.empty()) return __real_free(p);
  bool on = h.on; h.on = false; auto it = h.own.find(p); if (it == h.own.end()) { if (on) h.unknown++; __real_free(p); } else { if (it->second.first) munmap(it->second.first, (it->second.second + 4095) / 4096 * 4096 + 8192); else __real_free(p); h.own.erase(it); h.live--; } h.on = on;
}
extern "C" void *__wrap_calloc(size_t a, size_t b) { void *p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern "C" { void *__real_aligned_alloc(size_t, size_t); void *__real_memalign(size_t, size_t); int __real_posix_memalign(void **, size_t, size_t); }
static void *aligned(size_t a, size_t n) { HeapMon &h = hm(); h.on = false; void *p = __real_memalign(a, n); if (p) { memset(p, h.fill, n); h.own[p] = {nullptr, n}; h.live++; h.blocks++; } h.on = true; return p; }
extern "C" void *__wrap_aligned_alloc(size_t a, size_t n) { return hm().on ? aligned(a, n) : __real_aligned_alloc(a, n); }
extern "C" void *__wrap_memalign(size_t a, size_t n) { return hm().on ? aligned(a, n) : __real_memalign(a, n); }
extern "C" int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (!hm().on) return __real_posix_memalign(p, a, n); *p = aligned(a, n); return *p ? 0 : 12; }
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__wrap_realloc(void *p, size_t n) { HeapMon &h = hm(); if (!h.on) return __real_realloc(p, n); void *q = __wrap_malloc(n); if (p) { size_t m = h.own.count(p) ? h.own[p].second : n; memcpy(q, p, m < n ? m : n); __wrap_free(p); } return q; }
struct Slot {           // data pages between two inaccessible ones
  char *base; size_t len; char *mem = 0; size_t used = 0;
  explicit Slot(size_t bytes) { size_t pg = 4096; len = (bytes + pg - 1) / pg * pg; base = (char *)mmap(0, len + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED || mprotect(base + pg, len, PROT_READ | PROT_WRITE)) { fprintf(stderr, "no guard pages\n"); exit(3); } base += pg; }
  bool atend = true; size_t map = 0;
  template <class T> T *put(const std::vector<T> &v, bool end) {     // flush with the end or the start of the accessible pages
    size_t n = v.size() * sizeof(T); if (n > len) { fprintf(stderr, "slot too small\n"); exit(3); }
    used = n; atend = end; mem = end ? base + len - n : base; memcpy(mem, v.data(), n); return (T *)mem;
  }
  void protect() { mprotect(base, len, PROT_READ); }
  void open() { mprotect(base, len, PROT_READ | PROT_WRITE); }
  template <class T> std::vector<T> get() { T *p = (T *)mem; return std::vector<T>(p, p + used / sizeof(T)); }
};
static const size_t BIG = 12u << 20, SMALL = 1u << 20;
template <class T> bool eqv(const std::vector<T> &x, const std::vector<T> &y) { return x.size() == y.size() && !memcmp(x.data(), y.data(), x.size() * sizeof(T)); }
// equal up to the sign and payload of NaN
template <class T> bool eqn(const std::vector<T> &x, const std::vector<T> &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!samebits(x[i], y[i])) return false; return true; }

static inline unsigned sse_word() { unsigned v; asm volatile("stmxcsr %0" : "=m"(v)); return v & ~0x3fu; }   // without the sticky flags
static inline unsigned x87_word() { unsigned short v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
struct Mon {
  Rep &rep; Slot a{BIG}, b{BIG}, c{BIG}, d{SMALL}; bool armed;
  Mon(Rep &r) : rep(r) { armed = !__sanitizer_set_death_callback; }
  // Runs f(in1, in2, out1, out2): first on ordinary memory, then on guarded memory; results must agree.
  template <class T, class F> void guarded(Rng &r, const std::string &nm, const std::string &ds, const std::vector<T> &i1, const std::vector<T> &i2, const std::vector<T> &o1, const std::vector<T> &o2, F f) {
    std::vector<T> u1 = i1, u2 = i2, w1 = o1, w2 = o2; bool e = r.chance(3, 4);
    HeapMon &h = hm(); h.fill = 0; h.guard = false; h.on = true; long l0 = h.live, b0 = h.blocks; unsigned s0 = sse_word(), k0 = x87_word(); f(u1.data(), u2.data(), w1.data(), w2.data()); h.on = false; unsigned s1 = sse_word(), k1 = x87_word();
    rep.count("control-words-compared"); if (s0 != s1 || k0 != k1) { rep.viol("control:" + nm, ds + " changed the floating-point control words"); asm volatile("ldmxcsr %0" :: "m"(s0)); unsigned short k = k0; asm volatile("fldcw %0" :: "m"(k)); }
    if (h.live != l0) { rep.viol("leak:" + nm, ds + " left " + std::to_string(h.live - l0) + " heap blocks allocated"); h.own.clear(); h.live = 0; }
    if (h.unknown) { rep.viol("free:" + nm, ds + " released memory it did not allocate"); h.unknown = 0; }
    rep.count("heap-blocks", h.blocks - b0);
    T *p1 = a.put(i1, e), *p2 = b.put(i2, e), *q1 = c.put(o1, e), *q2 = d.put(o2, e); a.protect(); b.protect();
    h.fill = 0xff; h.guard = armed && h.blocks - b0 < 50; h.start = r.chance(1, 4); h.on = true; long g0 = h.guarded; f(p1, p2, q1, q2); h.on = false; a.open(); b.open(); rep.count("guarded-blocks", h.guarded - g0);
    rep.count("guarded-calls"); rep.count(e ? "flush-with-end" : "flush-with-start"); rep.count(nm);
    if (!eqn(c.get<T>(), w1) || !eqn(d.get<T>(), w2)) rep.viol("placement:" + nm, ds + " gave different results on guarded memory");
    if (!eqv(u1, i1) || !eqv(u2, i2)) rep.viol("input:" + nm, ds + " modified its input");
    rep.eval(hashbytes(i1.data(), i1.size() * sizeof(T), hashbytes(nm.data(), nm.size(), i1.size())), i1.size() > 1 || o1.size() > 1); if (i1.size() < 8) rep.sample(ds);
  }
};
template <class T> void l1(Mon &m, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = r.below(5); if (l.kind == DOTC && !l.z) l.kind = DOT; int fold = pick_fold<T>(r); fill_l1<T>(r, l, 1, r.chance(1, 6) ? 5000 : 260); int P = l.parts(); auto X = l.X(), Y = l.Y();
  int how = r.below(5); std::vector<T> o1, o2; int ip = 1, ic = 1;
  if (how == 0) o1.assign(2, 0);
  else if (how == 1) o1.assign(2, 0);
  else if (how == 2) o1.assign((size_t)2 * fold * P, 0);
  else if (how == 3) { ip = r.range(1, 4); ic = r.range(1, 4); o1.assign((size_t)P * ((fold - 1) * ip + 1), 0); o2.assign((size_t)P * ((fold - 1) * ic + 1), 0); }
  else { o1.assign(2, 0); }
  std::string nm = l.name() + (how == 0 ? "/plain" : how == 1 ? "/default" : how == 2 ? "/binned" : how == 3 ? "/manual" : "/amax"), ds = l.desc(fold);
  m.guarded<T>(r, nm, ds, X, Y, o1, o2, [&](T *x, T *y, T *p, T *q) {
    if (how == 0) l.plain(fold, x, y, p); else if (how == 1) l.plain(0, x, y, p);
    else if (how == 2) { if (l.kind == SSQ) { if (l.z) B::bzssq(fold, l.N, x, l.ix, 0, p); else B::bssq(fold, l.N, x, l.ix, 0, p); } else l.packed(fold, x, y, p); }
    else if (how == 3) { if (l.kind == SSQ) { if (l.z) B::mzssq(fold, l.N, x, l.ix, 0, p, ip, q, ic); else B::mssq(fold, l.N, x, l.ix, 0, p, ip, q, ic); } else l.manual(fold, x, y, p, ip, q, ic); }
    else if (l.two()) { if (l.z) B::zamaxm(l.N, x, l.ix, y, l.iy, p); else p[0] = B::amaxm(l.N, x, l.ix, y, l.iy); }
    else { if (l.z) B::zamax(l.N, x, l.ix, p); else p[0] = B::amax(l.N, x, l.ix); }
  });
}
template <class T> void l23(Mon &m, Rng &r) {
  typedef Lib<T> B; bool gemm = r.chance(1, 2), z = r.chance(1, 2), binned = r.chance(1, 2), big = r.chance(1, 12); int w = z + 1, fold = big ? r.range(2, 3) : r.range(2, 6); const char *OR = "rRcC", *TR = "nNtTcC"; char o = OR[r.below(4)], ta = TR[r.below(6)], tb = TR[r.below(6)]; bool rm = o == 'r' || o == 'R', At = ta != 'n' && ta != 'N', Bt = tb != 'n' && tb != 'N';
  int M, N, K; do { M = r.range(0, big ? 300 : 40); N = r.range(0, big ? 300 : 40); K = r.range(0, big ? 1100 : 40); if (big && r.chance(1, 2)) N = r.range(1, 5); if (!gemm) K = 1; } while ((long)M * N * K > (big ? 150000 : 20000));
  if (!gemm && big && r.chance(1, 2)) { if (r.chance(1, 2)) { M = r.range(1, 9); N = r.range(2000, 8300); } else { N = r.range(1, 9); M = r.range(2000, 8300); } }
  auto size = [&](int rows, int cols, int &ld, int ww) { int in = rm ? cols : rows, out = rm ? rows : cols; ld = std::max(1, in + (r.chance(1, 2) ? 0 : r.range(1, 4))); return in && out ? (size_t)ww * ((size_t)(out - 1) * ld + in) : (size_t)0; };
  int lda, ldb, ldc, ix = r.range(1, 3), iy = r.range(1, 3); int ow = binned ? w * 2 * fold : w; T al[2], be[2]; pick_coef<T>(r, al); pick_coef<T>(r, be);
  std::vector<T> A, X, C;
  if (gemm) { A.resize(size(At ? K : M, At ? M : K, lda, w)); X.resize(size(Bt ? N : K, Bt ? K : N, ldb, w)); C.resize(size(M, N, ldc, ow)); }
  else { A.resize(size(M, N, lda, w)); int nx = At ? M : N, ny = At ? N : M; X.resize(nx ? (size_t)w * ((size_t)(nx - 1) * ix + 1) : 0); C.resize(ny ? (size_t)ow * ((size_t)(ny - 1) * iy + 1) : 0); if (ny == 0 || nx == 0) { if (ny) C.resize((size_t)ow * ((size_t)(ny - 1) * iy + 1)); } }
  gen_vec<T>(r, G_WINDOW, A, -20, 20); gen_vec<T>(r, G_WINDOW, X, -20, 20); if (!binned) gen_vec<T>(r, G_WINDOW, C, -20, 20); else std::fill(C.begin(), C.end(), (T)0);
  std::string nm = std::string(B::nm()) + (z ? ":z" : ":") + (gemm ? "gemm" : "gemv") + (binned ? "/binned" : "/plain"), ds = nm + " fold=" + std::to_string(fold) + " " + o + ta + tb + " M=" + std::to_string(M) + " N=" + std::to_string(N) + " K=" + std::to_string(K);
  if (A.size() * sizeof(T) > BIG || C.size() * sizeof(T) > BIG) return;
  m.guarded<T>(r, nm, ds, A, X, C, {}, [&](T *a, T *x, T *c, T *) {
    if (gemm) { if (binned) { if (z) B::bzgemm(fold, o, ta, tb, M, N, K, al, a, lda, x, ldb, c, ldc); else B::bgemm(fold, o, ta, tb, M, N, K, al[0], a, lda, x, ldb, c, ldc); } else { if (z) B::rzgemm(fold, o, ta, tb, M, N, K, al, a, lda, x, ldb, be, c, ldc); else B::rgemm(fold, o, ta, tb, M, N, K, al[0], a, lda, x, ldb, be[0], c, ldc); } }
    else { if (binned) { if (z) B::bzgemv(fold, o, ta, M, N, al, a, lda, x, ix, c, iy); else B::bgemv(fold, o, ta, M, N, al[0], a, lda, x, ix, c, iy); } else { if (z) B::rzgemv(fold, o, ta, M, N, al, a, lda, x, ix, be, c, iy); else B::rgemv(fold, o, ta, M, N, al[0], a, lda, x, ix, be[0], c, iy); } }
  });
}
// scalar operations: one accumulator read, one written
template <class T> void scalar(Mon &m, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r), z = r.chance(1, 2), w = z + 1, ip = r.range(1, 3), ic = r.range(1, 3), op = r.below(18); bool pk = r.chance(1, 2); if (pk) ip = ic = 1;
  size_t np = pk ? 2 * w * fold : (size_t)w * ((fold - 1) * ip + 1), nc = pk ? 0 : (size_t)w * ((fold - 1) * ic + 1); std::vector<T> i1(np, (T)9e9), i2(nc, (T)9e9), o1(np, (T)9e9), o2(nc, (T)9e9), v(6 * w); gen_any<T>(r, v);
  auto C = [&](T *p, T *q) { return pk ? p + w * fold : q; };
  auto build = [&](T *p, T *q, int k, int n) { if (z) B::zmsetzero(fold, p, ip, C(p, q), ic); else B::rmsetzero(fold, p, ip, C(p, q), ic); for (; n--; k++) if (z) B::zmadd(fold, &v[2 * k], p, ip, C(p, q), ic); else B::rmadd(fold, v[k], p, ip, C(p, q), ic); };
  build(i1.data(), i2.data(), 0, r.range(0, 3)); build(o1.data(), o2.data(), 3, r.range(0, 3)); if (op == 8) z = 0, z = w - 1;
  static const char *nmz[] = {"set", "madd", "add", "update", "deposit", "renorm", "from", "to", "zrset", "negate", "setzero", "addsq", "index", "denorm", "rescale", "addv", "rupdate", "alloc"};
  std::string nm = std::string(B::nm()) + (z ? ":z" : ":") + nmz[op]; T sink = 0; std::vector<T> xx(v.begin(), v.begin() + w);
  if (op == 4) { T mx = 0; for (int q = 0; q < w; q++) mx = std::max(mx, (T)std::fabs(v[q])); if (z) B::zrmupdate(fold, mx, o1.data(), ip, C(o1.data(), o2.data()), ic); else B::rmupdate(fold, mx, o1.data(), ip, C(o1.data(), o2.data()), ic); }
  if (op == 2 || op == 3 || op == 4 || op == 6 || op == 16) { i1 = xx; i2.clear(); }
  if (op == 7) { o1.assign(w, 0); o2.clear(); }
  if (op == 8 && z) { if (pk) { i1.resize(2 * fold); B::rfrom(fold, v[0], i1.data()); i2.clear(); } else { i1.assign((fold - 1) * ip + 1, 0); i2.assign((fold - 1) * ic + 1, 0); B::rmfrom(fold, v[0], i1.data(), ip, i2.data(), ic); } }
  if (op == 8 && !z) return;
  if (op == 11 && z) return;
  int nv = r.range(1, 4); bool up = r.chance(1, 2);
  if (op == 15) { size_t num = 2 * w * fold; i1.assign(num * ((size_t)(nv - 1) * ip + 1), 0); o1.assign(num * ((size_t)(nv - 1) * ic + 1), 0); i2.clear(); o2.clear(); for (int k = 0; k < nv; k++) { T *p = &i1[num * k * ip], *q = &o1[num * k * ic]; if (z) { B::zfrom(fold, &v[0], p); B::zfrom(fold, &v[2], q); } else { B::rfrom(fold, v[k % 6], p); B::rfrom(fold, v[(k + 1) % 6], q); } } }
  if (op == 16 && !z) return;
  m.guarded<T>(r, nm, nm + " fold=" + std::to_string(fold) + (pk ? " packed" : " manual " + std::to_string(ip) + "," + std::to_string(ic)) + " data " + hexf(v[0]) + " " + hexf(v[3]), i1, i2, o1, o2, [&](T *a, T *b, T *p, T *q) {
    switch (op) {
      case 0: if (pk) { if (z) B::zset(fold, a, p); else B::rset(fold, a, p); } else { if (z) B::zmset(fold, a, ip, b, ic, p, ip, q, ic); else B::rmset(fold, a, ip, b, ic, p, ip, q, ic); } break;
      case 1: if (pk) { if (z) B::zzadd(fold, a, p); else B::rradd(fold, a, p); } else { if (z) B::zzmadd(fold, a, ip, b, ic, p, ip, q, ic); else B::rrmadd(fold, a, ip, b, ic, p, ip, q, ic); } break;
      case 2: if (pk) { if (z) B::zadd(fold, a, p); else B::radd(fold, a[0], p); } else { if (z) B::zmadd(fold, a, p, ip, q, ic); else B::rmadd(fold, a[0], p, ip, q, ic); } break;
      case 3: if (pk) { if (z) B::zupdate(fold, a, p); else B::rupdate(fold, a[0], p); } else { if (z) B::zmupdate(fold, a, p, ip, q, ic); else B::rmupdate(fold, a[0], p, ip, q, ic); } break;
      case 4: if (pk) { if (z) B::zdeposit(fold, a, p); else B::rdeposit(fold, a[0], p); } else { if (z) B::zmdeposit(fold, a, p, ip); else B::rmdeposit(fold, a[0], p, ip); } break;
      case 5: if (pk) { if (z) B::zrenorm(fold, p); else B::rrenorm(fold, p); } else { if (z) B::zmrenorm(fold, p, ip, q, ic); else B::rmrenorm(fold, p, ip, q, ic); } break;
      case 6: if (pk) { if (z) B::zfrom(fold, a, p); else B::rfrom(fold, a[0], p); } else { if (z) B::zmfrom(fold, a, p, ip, q, ic); else B::rmfrom(fold, a[0], p, ip, q, ic); } break;
      case 7: if (pk) { if (z) B::zto(fold, a, p); else p[0] = B::rto(fold, a); } else { if (z) B::zmto(fold, a, ip, b, ic, p); else p[0] = B::rmto(fold, a, ip, b, ic); } break;
      case 8: if (pk) B::zrset(fold, a, p); else B::zrmset(fold, a, ip, b, ic, p, ip, q, ic); break;
      case 9: if (pk) { if (z) B::zneg(fold, p); else B::rneg(fold, p); } else { if (z) B::zmneg(fold, p, ip, q, ic); else B::rmneg(fold, p, ip, q, ic); } break;
      case 10: if (pk) { if (z) B::zsetzero(fold, p); else B::rsetzero(fold, p); } else { if (z) B::zmsetzero(fold, p, ip, q, ic); else B::rmsetzero(fold, p, ip, q, ic); } break;
      case 11: { T s = B::scale(1), t = up ? s : s * (T)ldexp(1.0, B::W); if (pk) B::addsq(fold, s, a, t, p); else B::maddsq(fold, s, a, ip, b, ic, t, p, ip, q, ic); break; }
      case 12: sink += B::mindex(p) + B::mindex0(p); break;
      case 13: sink += z ? B::zmdenorm(fold, p) : B::rmdenorm(fold, p); break;
      case 14: if (z) B::zrescale(fold, B::scale((T)ldexp(1.0, 2 * B::W)), B::scale(1), p, ip, C(p, q), ic); else B::rrescale(fold, B::scale((T)ldexp(1.0, 2 * B::W)), B::scale(1), p, ip, C(p, q), ic); break;
      case 15: if (z) B::zzaddv(fold, nv, a, ip, p, ic); else B::rraddv(fold, nv, a, ip, p, ic); break;
      case 16: if (pk) B::zrupdate(fold, a[0], p); else B::zrmupdate(fold, a[0], p, ip, q, ic); break;
      default: { T *t = z ? B::zalloc(fold) : B::ralloc(fold); for (int k = 0; k < (z ? B::znum(fold) : B::rnum(fold)); k++) t[k] = 1; free(t); }
    }
  });
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep; Mon m(rep);
  for_cases(o, rep, [&](Rng &r, long i) {
    bool f = i & 1;
    if (o.mode == "l1") f ? l1<float>(m, r) : l1<double>(m, r);
    else if (o.mode == "l23") f ? l23<float>(m, r) : l23<double>(m, r);
    else if (o.mode == "scalar") f ? scalar<float>(m, r) : scalar<double>(m, r);
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
