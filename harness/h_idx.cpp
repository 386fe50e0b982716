// Index, bin, scale, size and maximum helpers against independent definitions.
#define RB_BLAS
#include "l1.hpp"
template <class T> bool one(Rep &rep, T x) {
  typedef Lib<T> B; bool fin = x == x && !std::isinf(x); std::string h;
  if (fin) {
    int i = B::index(x); if (i != model_index(x)) { rep.viol(std::string("index:") + B::nm(), hexf(x) + " index " + std::to_string(i) + " expected " + std::to_string(model_index(x))); return false; }
    T u = B::ufp(x), w = x == 0 ? (T)0 : (T)ldexp(0.5, fexp(x)); bool sub = x != 0 && std::fabs(x) < (T)ldexp(1.0, B::ENORM);
    if (!sub && u != w) { rep.viol(std::string("ufp:") + B::nm(), hexf(x) + " unit in the first place " + hexf(u) + " expected " + hexf(w)); return false; }
    // documented: a power 2^(W z) with Y 2^(-MANT-W-1) < |X| < Y 2^(W+2); and it grows with |X|, so that the scale of a maximum is the maximum of scales
    T s = B::scale(x), q = std::fabs(x) / s; bool norm = std::fabs(x) >= (T)ldexp(1.0, B::ENORM); int z = s > 0 && !std::isinf(s) ? ilogb((double)s) : 1;
    if (!(s > 0) || std::isinf(s) || std::isinf((T)1 / s) || s != (T)ldexp(1.0, z) || z % B::W || q >= (T)ldexp(1.0, B::W + 2) || (norm && !(q > (T)ldexp(1.0, -B::MANT - B::W - 1))) || B::scale(-x) != s) { rep.viol(std::string("scale:") + B::nm(), hexf(x) + " scale " + hexf(s)); return false; }
    T nx = std::nextafter(std::fabs(x), std::numeric_limits<T>::infinity()); if (!std::isinf(nx) && B::scale(nx) < s) { rep.viol(std::string("scale-order:") + B::nm(), hexf(x) + " scale " + hexf(s) + " but " + hexf(B::scale(nx)) + " for the next larger value"); return false; }
  }
  return true;
}
static void exhaustive(Rep &rep, Opt &o) {       // every float
  uint64_t n = 0; bool ok = true; uint64_t step = 1;
  for (uint64_t b = o.shard; b < (1ull << 32) && ok; b += (uint64_t)o.shards * step) { uint32_t u = (uint32_t)b; float x; memcpy(&x, &u, 4); n++;
    if (!(x == x) || std::isinf(x)) continue; uint32_t a = u & 0x7fffffff; int e = (a >> 23) ? (int)(a >> 23) - 126 : a ? 32 - __builtin_clz(a) - 149 : 0;   // 2^(e-1) <= |x| < 2^e
    int i = a ? (128 - e) / 13 : 20; if (i > 20) i = 20;
    if (binned_sindex(x) != i) { rep.viol("index:s", hexf(x) + " index " + std::to_string(binned_sindex(x)) + " expected " + std::to_string(i)); ok = false; }
    if (a >> 23 || !a) { uint32_t w = a & 0x7f800000; float wf; memcpy(&wf, &w, 4); if (binned_ufpf(x) != wf) { rep.viol("ufp:s", hexf(x) + " gave " + hexf(binned_ufpf(x))); ok = false; } }
    if (((u >> 4) & 0xfff) == 0 || (u & 0x7fffff) > 0x7ffff0 || (u & 0x7fffff) < 16) ok = ok && one(rep, x);
  }
  rep.evals += n; rep.count("floats-visited", n); rep.sample("float 0x1p-149 index 20");
}
template <class T> void helpers(Rep &rep, Rng &r) {
  typedef Lib<T> B; std::vector<T> v(200); gen_any<T>(r, v); for (int i = 0; i < 40; i++) { typename B::bits b = (typename B::bits)r.next(); memcpy(&v[i], &b, sizeof(T)); }
  for (int i = 40; i < 80; i++) { int e = r.range(B::EMIN, B::EMAX - 1); T p = (T)ldexp(1.0, e); v[i] = r.chance(1, 3) ? p : r.chance(1, 2) ? std::nextafter(p, (T)0) : std::nextafter(p, (T)INFINITY); if (r.chance(1, 2)) v[i] = -v[i]; }
  uint64_t h = hashbytes(v.data(), v.size() * sizeof(T)); rep.count("values", v.size());
  for (T x : v) { if (!one(rep, x)) return; if (!(x == x) || std::isinf(x)) continue;
    // an accumulator reports the index of the value it was made from, and only index 0 as such; the bins start where the index says
    int fold = pick_fold<T>(r); std::vector<T> y(2 * fold); B::rfrom(fold, x, &y[0]); int i = model_index(x); if (x == 0) continue;
    if (B::mindex(&y[0]) != i || (B::mindex0(&y[0]) != 0) != (i == 0)) { rep.viol(std::string("mindex:") + B::nm(), hexf(x) + " accumulator index " + std::to_string(B::mindex(&y[0])) + " expected " + std::to_string(i)); return; }
    const T *b = B::bins(i); for (int j = 0; j < fold; j++) { int k = std::min(i + j, (int)B::MAXINDEX); T w = (T)ldexp(1.5, k == 0 ? B::EMAX - 1 : B::EMAX + B::MANT - B::W - k * B::W); if (b[j] != w) { rep.viol(std::string("bins:") + B::nm(), "bin " + std::to_string(i) + "+" + std::to_string(j) + " is " + hexf(b[j]) + " expected " + hexf(w)); return; } }
    // "no denormal bits" is never claimed falsely: the last bin's unit is a normal number; and it is not claimed needlessly
    int last = i + fold - 1; bool den = B::rmdenorm(fold, &y[0]) != 0; int unit = (i == 0 && fold == 1) ? B::EMAX : B::EMAX + B::MANT - B::W - last * B::W - B::MANT + 1; if (last > B::MAXINDEX) unit = -100000; rep.count(den ? "denormal-answers" : "normal-answers");
    if (!den && unit < B::ENORM + 1) { rep.viol(std::string("denorm:") + B::nm(), hexf(x) + " fold " + std::to_string(fold) + " said to hold no denormal bits"); return; }
    if (den && unit > B::ENORM + 4 * B::W && i > 0) { rep.viol(std::string("denorm-loose:") + B::nm(), hexf(x) + " fold " + std::to_string(fold) + " said to hold denormal bits"); return; }
    std::vector<T> z(4 * fold); T xy[2] = {x, v[r.below(v.size())]}; if (!(xy[1] == xy[1]) || std::isinf(xy[1]) || xy[1] == 0) xy[1] = x; if (r.chance(1, 2)) std::swap(xy[0], xy[1]); B::zfrom(fold, xy, &z[0]); std::vector<T> y0(2 * fold), y1(2 * fold); B::rfrom(fold, xy[0], &y0[0]); B::rfrom(fold, xy[1], &y1[0]);
    if ((B::zmdenorm(fold, &z[0]) != 0) != (B::rmdenorm(fold, &y0[0]) || B::rmdenorm(fold, &y1[0]))) { rep.viol(std::string("denorm-complex:") + B::nm(), hexf(xy[0]) + "," + hexf(xy[1])); return; }
  }
  for (int f = 2; f <= B::MAXFOLD; f++) if (B::rsize(f) != 2 * f * sizeof(T) || B::zsize(f) != 4 * f * sizeof(T) || B::rnum(f) != 2 * f || B::znum(f) != 4 * f) { rep.viol(std::string("size:") + B::nm(), "fold " + std::to_string(f)); return; }
  { int f = r.range(2, B::MAXFOLD); T *a = B::ralloc(f), *b = B::zalloc(f); for (int k = 0; k < 2 * f; k++) a[k] = 1; for (int k = 0; k < 4 * f; k++) b[k] = 2; free(a); free(b); rep.count("allocations", 2); }
  if (B::ENDURANCE != 1 << (B::MANT - B::W - 2) || B::capacity() != B::ENDURANCE * (ldexp(1.0, B::MANT - 1) - 1.0) || B::MAXFOLD != B::MAXINDEX + 1 || B::MAXINDEX != (B::EMAX - B::ENORM - 1 + B::MANT - 1) / B::W - 1) rep.viol(std::string("constants:") + B::nm(), "limits do not follow from the format");
  rep.eval(h, true); rep.sample(std::string(B::nm()) + " " + hexf(v[100]) + " index " + std::to_string(model_index(v[100])));
}
template <class T> void amax(Rep &rep, Rng &r) {
  typedef Lib<T> B; L1<T> l; l.z = r.chance(1, 2); l.kind = r.chance(1, 2) ? DOT : SUM; fill_l1<T>(r, l, 1, r.chance(1, 4) ? 5000 : 200); int w = l.z + 1, N = l.N; bool two = l.two();
  if (N && r.chance(1, 6)) for (int k = r.range(1, 2); k--;) l.x[r.below(l.x.size())] = (r.chance(1, 2) ? 1 : -1) * std::numeric_limits<T>::infinity();
  if (N && r.chance(1, 3)) { int p = r.chance(1, 2) ? N - 1 - r.below(std::min(N, 9)) : r.below(N); l.x[p * w + r.below(w)] = rnd_mant<T>(r, r.range(two ? 0 : B::EMAX - 40, two ? B::EMAX / 2 : B::EMAX)); }   // the maximum sits in a tail position
  T m[2] = {0, 0}, o[2] = {0, 0}; bool nan = false; auto up = [&](int q, T v) { if (v != v) nan = true; v = std::fabs(v); if (v > m[q]) m[q] = v; };
  for (int i = 0; i < N; i++) if (!l.z) up(0, two ? mulr(l.x[i], l.y[i]) : l.x[i]); else { T a = l.x[2 * i], b = l.x[2 * i + 1]; if (!two) { up(0, a); up(1, b); } else { T c = l.y[2 * i], d = l.y[2 * i + 1]; up(0, mulr(a, c)); up(0, mulr(b, d)); up(1, mulr(a, d)); up(1, mulr(b, c)); } }
  if (nan) { rep.count("unspecified"); return; }
  auto sx = L1<T>::spread(l.x, N, w, l.ix, std::numeric_limits<T>::infinity()), sy = two ? L1<T>::spread(l.y, N, w, l.iy, std::numeric_limits<T>::infinity()) : std::vector<T>(); std::vector<T> bx(sx.size() + 8), by(sy.size() + 8); T *X = &bx[r.below(8)], *Y = &by[r.below(8)]; std::copy(sx.begin(), sx.end(), X); std::copy(sy.begin(), sy.end(), Y); auto b0 = bx, b1 = by;
  if (!l.z) o[0] = two ? B::amaxm(N, X, l.ix, Y, l.iy) : B::amax(N, X, l.ix); else if (two) B::zamaxm(N, X, l.ix, Y, l.iy, o); else B::zamax(N, X, l.ix, o);
  std::string nm = std::string(B::nm()) + (l.z ? ":z" : ":") + (two ? "amaxm" : "amax"); rep.count(nm); if (std::isinf(m[0]) || std::isinf(m[1])) rep.count("infinite");
  if (o[0] != m[0] || o[1] != m[1] || std::signbit(o[0]) || std::signbit(o[1])) rep.viol(nm, l.desc(0) + " gave " + hexf(o[0]) + "," + hexf(o[1]) + " expected " + hexf(m[0]) + "," + hexf(m[1]));
  if (memcmp(b0.data(), bx.data(), bx.size() * sizeof(T)) || memcmp(b1.data(), by.data(), by.size() * sizeof(T))) rep.viol("input:" + nm, l.desc(0));
  rep.eval(hashbytes(l.x.data(), l.x.size() * sizeof(T), two * 2 + l.z), N > 1); if (N < 6 && N > 1) rep.sample(nm + " " + l.desc(0));
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  if (o.mode == "floats") { watch_deaths(); exhaustive(rep, o); }
  else for_cases(o, rep, [&](Rng &r, long i) {
    if (o.mode == "helpers") { if (i & 1) helpers<float>(rep, r); else helpers<double>(rep, r); }
    else if (o.mode == "amax") { if (i & 1) amax<float>(rep, r); else amax<double>(rep, r); }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
