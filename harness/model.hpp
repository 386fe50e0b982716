// Oracle side of every monitor: deterministic generators, an exact fixed-point number, and an exact model of
// what a binned accumulator must hold. Nothing in here calls the library under test.
#pragma once
#include "rb.hpp"
#include <chrono>
#include <random>

// ---------------------------------------------------------------- random numbers
static inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
struct Rng {
  uint64_t s[2];
  Rng(uint64_t a = 1, uint64_t b = 0, uint64_t c = 0) {
    s[0] = mix64(a * 0x100000001b3ull + mix64(b) + 77);
    s[1] = mix64(mix64(c) ^ s[0]) | 1;
    for (int i = 0; i < 4; i++) next();
  }
  uint64_t next() {
    uint64_t a = s[0], b = s[1];
    s[0] = b; a ^= a << 23;
    s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return s[1] + b;
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int lo, int hi) { return lo + (int)below((uint64_t)((int64_t)hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  double unit() { return (next() >> 11) * 0x1p-53; }
  template <class V> void shuffle(V &v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]); }
};
static inline uint64_t hashbytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
  const unsigned char *c = (const unsigned char *)p;
  while (n >= 8) { uint64_t w; memcpy(&w, c, 8); h = (h ^ w) * 1099511628211ull; h ^= h >> 29; c += 8; n -= 8; }
  while (n--) h = (h ^ *c++) * 1099511628211ull;
  return h;
}

// ---------------------------------------------------------------- exact numbers
struct BigFix {                       // sum of m * 2^e, exactly; -2304 <= e, value < 2^2300
  static constexpr int LO = -2304, L = 146;
  int64_t d[L]; int pend = 0;
  BigFix() { memset(d, 0, sizeof d); }
  void add(int64_t m, int e) {
    if (!m) return;
    int pos = e - LO; int li = pos >> 5, sh = pos & 31;
    if (pos < 0 || li + 4 >= L) { fprintf(stderr, "BigFix range %d\n", e); abort(); }
    bool neg = m < 0; unsigned __int128 v = (unsigned __int128)(neg ? -(unsigned __int128)(__int128)m : (unsigned __int128)m) << sh;
    for (int k = 0; k < 4; k++) { int64_t dig = (int64_t)(uint32_t)(v >> (32 * k)); d[li + k] += neg ? -dig : dig; }
    if (++pend > (1 << 28)) norm();
  }
  void add128(__int128 m, int e) {
    bool neg = m < 0; unsigned __int128 a = neg ? -(unsigned __int128)m : (unsigned __int128)m;
    for (int k = 0; k < 3; k++) { int64_t part = (int64_t)((a >> (48 * k)) & 0xffffffffffffull); add(neg ? -part : part, e + 48 * k); }
  }
  void add(double x) { if (x == 0) return; int e; double f = frexp(x, &e); add((int64_t)ldexp(f, 53), e - 53); }
  void addscaled(double x, int k) { if (x == 0) return; int e; double f = frexp(x, &e); add((int64_t)ldexp(f, 53), e - 53 + k); }
  void sub(double x) { add(-x); }
  void add(const BigFix &o, int sign = 1) { norm(); BigFix t = o; t.norm(); for (int i = 0; i < L; i++) d[i] += sign * t.d[i]; norm(); }
  void norm() {                       // digits 0..2^32-1, the top one carries the sign
    int64_t c = 0;
    for (int i = 0; i < L - 1; i++) { int64_t v = d[i] + c; c = v >> 32; d[i] = v & 0xffffffffll; }
    d[L - 1] += c; pend = 0;
  }
  int sign() { norm(); if (d[L - 1] < 0) return -1; for (int i = L - 1; i >= 0; i--) if (d[i]) return 1; return 0; }
  void negate() { for (int i = 0; i < L; i++) d[i] = -d[i]; norm(); }
  void abs() { if (sign() < 0) negate(); }
  double approx() { BigFix t = *this; int s = t.sign(); if (!s) return 0; if (s < 0) t.negate(); double r = 0; int seen = 0;
    for (int i = L - 1; i >= 0 && seen < 4; i--) if (t.d[i] || seen) { r += ldexp((double)t.d[i], LO + 32 * i); seen++; } return s * r; }
  int msb() { BigFix t = *this; t.abs(); for (int i = L - 1; i >= 0; i--) if (t.d[i]) { int b = 63 - __builtin_clzll((unsigned long long)t.d[i]); return LO + 32 * i + b; } return -100000; }
};
static inline int cmpabs(const BigFix &a, const BigFix &b) { BigFix x = a, y = b; x.abs(); y.abs(); x.add(y, -1); return x.sign(); }

// ---------------------------------------------------------------- floating point helpers
template <class T> static inline typename Lib<T>::bits bitsof(T x) { typename Lib<T>::bits b; memcpy(&b, &x, sizeof b); return b; }
template <class T> static inline bool samebits(T a, T b) { if (a != a && b != b) return true; return bitsof(a) == bitsof(b); }
// Equal as values: all NaN alike; the sign of a zero is not part of a result (documented nowhere, and x - x may be either).
template <class T> static inline bool sameval(T a, T b) { if (a != a && b != b) return true; return a == b; }
template <class T> static inline std::string hexf(T x) { char b[64]; snprintf(b, sizeof b, "%a", (double)x); return b; }
template <class T> static inline T mk(int sign, uint64_t mant, int exp) {   // sign * mant * 2^exp, rounded into T's range by truncation
  double v = ldexp((double)mant, exp); T t = (T)v; return sign < 0 ? -t : t;
}

// exponent e with 2^(e-1) <= |x| < 2^e
template <class T> static inline int fexp(T x) { int e; frexp((double)x, &e); return e; }
template <class T> static inline int unit_exp(int i) { return Lib<T>::EMAX - Lib<T>::W + 1 - (i > Lib<T>::MAXINDEX ? Lib<T>::MAXINDEX : i) * Lib<T>::W; }
template <class T> static inline int model_index(T x) {
  if (x == 0) return Lib<T>::MAXINDEX;
  int i = (Lib<T>::EMAX - fexp(x)) / Lib<T>::W;
  return i > Lib<T>::MAXINDEX ? Lib<T>::MAXINDEX : i;
}

static inline std::string i128(__int128 v) { char b[64]; bool n = v < 0; unsigned __int128 a = n ? -(unsigned __int128)v : v; int p = 63; b[p] = 0; do { b[--p] = '0' + (int)(a % 10); a /= 10; } while (a); if (n) b[--p] = '-'; return b + p; }
// ---------------------------------------------------------------- the exact model of a sum
template <class T> struct Acc {
  typedef Lib<T> B;
  static constexpr int NB = B::MAXINDEX + B::MAXFOLD + 2;   // bins beyond the last index share its unit
  __int128 S[NB]; int top = NB; T maxabs = 0; long double n = 0, nz = 0; BigFix exact; bool wantexact = true;
  long nnan = 0, npinf = 0, nninf = 0;
  Acc() { memset(S, 0, sizeof S); }
  void add(T x) {
    n++;
    if (x != x) { nnan++; return; }
    if (std::isinf(x)) { (x > 0 ? npinf : nninf)++; return; }
    if (x == 0) return;
    nz++;
    T a = std::fabs(x); if (a > maxabs) maxabs = a;
    int e; double f = frexp((double)x, &e); int64_t m = (int64_t)ldexp(f, 53); e -= 53;
    if (wantexact) exact.add(m, e);
    int i = model_index(x); if (i < top) top = i;
    for (; i < NB && m; i++) {
      int u = unit_exp<T>(i), sh = u - e; int64_t q;
      if (sh <= 0) { q = m * ((int64_t)1 << -sh); m = 0; S[i] += q; break; }
      if (sh > 60) { if (i > B::MAXINDEX) break; continue; }
      int64_t am = m < 0 ? -m : m; q = (am + ((int64_t)1 << (sh - 1))) >> sh;
      if (m < 0) q = -q;
      m -= q * ((int64_t)1 << sh); S[i] += q;
    }
  }
  void merge(const Acc &o) {
    for (int i = 0; i < NB; i++) S[i] += o.S[i];
    if (o.top < top) top = o.top;
    if (o.maxabs > maxabs) maxabs = o.maxabs;
    n += o.n; nz += o.nz; nnan += o.nnan; npinf += o.npinf; nninf += o.nninf;
    if (wantexact) exact.add(o.exact);
  }
  void negate() { for (int i = 0; i < NB; i++) S[i] = -S[i]; std::swap(npinf, nninf); if (wantexact) exact.negate(); }
  bool special() const { return nnan || npinf || nninf; }
  // IEEE result of summing with specials present
  T special_value() const { const T inf = std::numeric_limits<T>::infinity();
    if (nnan || (npinf && nninf)) return std::numeric_limits<T>::quiet_NaN(); return npinf ? inf : -inf; }
  // Exact value held by a fold-k accumulator whose first bin is `first`
  BigFix held(int fold, int first) const { BigFix r; for (int j = 0; j < fold && first + j < NB; j++) r.add128(S[first + j], unit_exp<T>(first + j)); return r; }
  std::string str(int fold) const { std::string s = "top=" + std::to_string(top) + " S="; for (int j = 0; j < fold && top + j < NB; j++) s += i128(S[top + j]) + ","; return s; }
};

// ---------------------------------------------------------------- reading a binned accumulator
template <class T> struct State {
  int first = -1;              // index of first bin; -1: the all-zero accumulator
  bool special = false, ok = true; T sv = 0; std::string why;
  std::vector<__int128> S;
};
template <class T> State<T> read_state(int fold, const T *pri, int ip, const T *car, int ic, int normalized = 1) {
  typedef Lib<T> B; State<T> s; T p0 = pri[0];
  if (p0 != p0 || std::isinf(p0)) { s.special = true; s.sv = p0; return s; }
  if (p0 == 0) {
    for (int j = 0; j < fold; j++) if (pri[j * ip] != 0 || car[j * ic] != 0) { s.ok = false; s.why = "zero accumulator with nonzero field " + std::to_string(j); }
    return s;
  }
  int E = ilogb((double)p0), k = B::EMAX + B::MANT - B::W - E;
  if (p0 < 0) { s.ok = false; s.why = "negative primary"; return s; }
  if (E == B::EMAX - 1) s.first = 0;
  else if (k % B::W || k / B::W < 1 || k / B::W > B::MAXINDEX) { s.ok = false; s.why = "primary 0 is in no bin: " + hexf(p0); return s; }
  else s.first = k / B::W;
  for (int j = 0; j < fold; j++) {
    T p = pri[j * ip], c = car[j * ic]; int i = s.first + j > B::MAXINDEX ? B::MAXINDEX : s.first + j;
    int ee = i == 0 ? B::EMAX - 1 : B::EMAX + B::MANT - B::W - i * B::W;
    if (!(p > 0) || std::isinf(p) || ilogb((double)p) != ee) { s.ok = false; s.why = "primary " + std::to_string(j) + " out of its bin " + std::to_string(i) + ": " + hexf(p); return s; }
    if (!(c == c) || std::isinf(c) || c != std::trunc(c)) { s.ok = false; s.why = "carry " + std::to_string(j) + " not an integer: " + hexf(c); return s; }
    int64_t m = (int64_t)ldexp((double)p, B::MANT - 1 - ee), one = (int64_t)1 << (B::MANT - 1);
    if (normalized && (m < one + (normalized == 2 ? one / 4 + 1 : one / 2) || m >= one + one / 2 + one / 4)) { s.ok = false; s.why = "primary " + std::to_string(j) + " not normalized: " + hexf(p); return s; }
    s.S.push_back((__int128)m - (one + one / 2) + (__int128)(double)c * (one / 4));
  }
  return s;
}
template <class T> BigFix state_value(const State<T> &s) { BigFix r; if (s.first < 0) return r; for (size_t j = 0; j < s.S.size(); j++) r.add128(s.S[j], unit_exp<T>(s.first + (int)j)); return r; }
template <class T> std::string state_str(const State<T> &s) { if (!s.ok) return "BAD(" + s.why + ")"; if (s.special) return "special " + hexf(s.sv); if (s.first < 0) return "zero"; std::string r = "first=" + std::to_string(s.first) + " S="; for (auto v : s.S) r += i128(v) + ","; return r; }

// What the accumulator must hold: with summands, the first bin is exactly that of the largest one (or `floor_index` when the
// history asked for a lower bin); then every bin holds the sum of the slices of all summands.
template <class T> bool state_matches(const State<T> &s, const Acc<T> &a, int fold, std::string &why, int forced = 1000) {
  if (!s.ok) { why = s.why; return false; }
  if (a.special()) {
    if (!s.special) { why = "special value lost"; return false; }
    if (!sameval(s.sv, a.special_value())) { why = "special value " + hexf(s.sv) + " expected " + hexf(a.special_value()); return false; }
    return true;
  }
  if (s.special) { why = "finite summands gave " + hexf(s.sv); return false; }
  int want = std::min(a.nz ? a.top : 1000, forced);
  if (s.first < 0) { if (a.nz) { why = "zero accumulator after nonzero summands"; return false; } return true; }
  if (want == 1000) {            // only zeros so far: any empty accumulator
    for (auto v : s.S) if (v != 0) { why = "nonzero bins from zero summands"; return false; }
    return true;
  }
  if (s.first != want) { why = "first bin " + std::to_string(s.first) + " expected " + std::to_string(want); return false; }
  for (int j = 0; j < fold; j++) {
    int i = s.first + j; __int128 e = i < Acc<T>::NB ? a.S[i] : 0;
    if (s.S[j] != e) { why = "bin " + std::to_string(i) + " holds " + i128(s.S[j]) + " expected " + i128(e) + " (units)"; return false; }
  }
  return true;
}

// ---------------------------------------------------------------- generators
template <class T> T rnd_mant(Rng &r, int e) {      // random sign and mantissa with 2^(e-1) <= |x| < 2^e (flushed into range)
  typedef Lib<T> B; uint64_t m;
  switch (r.below(6)) {
    case 0: m = ((uint64_t)1 << B::MANT) - 1; break;
    case 1: m = (uint64_t)1 << (B::MANT - 1); break;
    case 2: m = ((uint64_t)1 << (B::MANT - 1)) | ((uint64_t)1 << r.below(B::MANT - 1)); break;
    case 3: m = (((uint64_t)1 << B::MANT) - 1) & ~(((uint64_t)1 << r.below(B::MANT)) - 1); m |= (uint64_t)1 << (B::MANT - 1); break;
    default: m = ((uint64_t)1 << (B::MANT - 1)) | (r.next() & (((uint64_t)1 << (B::MANT - 1)) - 1));
  }
  T v = (T)ldexp((double)m, e - B::MANT);
  return r.chance(1, 2) ? v : -v;
}
enum { G_WINDOW, G_ONEEXP, G_TOPBIN, G_BOUNDARY, G_CANCEL, G_SUBN, G_FULL, G_WAVE, G_RAMP, G_SPIKE, G_TIES, G_HUGE, G_ZERO, G_SMALLINT, G_COUNT };
static const char *gen_name[] = {"window", "one-exponent", "top-of-bin", "boundary", "cancelling", "subnormal", "full-range", "wave", "ramp", "spike", "ties", "huge", "zero", "small-int"};
// Values with exponents inside [lo, hi] (2^(e-1) <= |x| < 2^e).
template <class T> void gen_vec(Rng &r, int cat, std::vector<T> &v, int lo = -9999, int hi = 9999) {
  typedef Lib<T> B; int n = (int)v.size();
  if (lo < B::EMIN + 1) lo = B::EMIN + 1;
  if (hi > B::EMAX) hi = B::EMAX;
  if (hi < lo) hi = lo;
  int w = r.range(0, 4) == 0 ? r.range(0, 3 * B::W) : r.range(0, B::W);
  int c = r.range(lo, hi), a = std::max(lo, c - w), b = std::min(hi, c + w);
  auto pick_boundary = [&]() { int i = r.range(0, B::MAXINDEX); int e = B::EMAX - i * B::W; if (e < lo) e = lo; if (e > hi) e = hi; return e; };
  switch (cat) {
    case G_WINDOW: for (auto &x : v) x = rnd_mant<T>(r, r.range(a, b)); break;
    case G_ONEEXP: for (auto &x : v) x = rnd_mant<T>(r, c); break;
    case G_TOPBIN: { int e = pick_boundary(); T t = (T)ldexp((double)(((uint64_t)1 << B::MANT) - 1 - (r.chance(1, 2) ? 0 : r.below(64))), e - B::MANT);
      int pat = r.range(0, 3); for (int i = 0; i < n; i++) v[i] = pat == 0 ? t : pat == 1 ? -t : pat == 2 ? ((i & 1) ? t : -t) : (i < n / 2 ? t : -t); break; }
    case G_BOUNDARY: { int e0 = pick_boundary(); for (auto &x : v) { int e = e0 + (int)r.range(-1, 1) * (r.chance(1, 3) ? B::W : 1); if (e < lo) e = lo; if (e > hi) e = hi;
      uint64_t one = (uint64_t)1 << (B::MANT - 1); uint64_t m = r.chance(1, 3) ? one : r.chance(1, 2) ? 2 * one - 1 - r.below(3) : one + r.below(3);
      x = (T)ldexp((double)m, e - B::MANT); if (r.chance(1, 2)) x = -x; } break; }
    case G_CANCEL: { int i = 0; for (; i + 1 < n; i += 2) { v[i] = rnd_mant<T>(r, r.range(a, b)); v[i + 1] = -v[i]; } if (i < n) v[i] = rnd_mant<T>(r, r.range(lo, a));
      if (r.chance(1, 2) && n > 2) v[r.below(n)] = rnd_mant<T>(r, r.range(lo, a)); r.shuffle(v); break; }
    case G_SUBN: for (auto &x : v) { x = r.chance(1, 4) ? (T)0 : rnd_mant<T>(r, std::min(hi, r.range(lo, std::max(lo, B::ENORM + 2)))); } break;
    case G_FULL: for (auto &x : v) x = r.chance(1, 8) ? (r.chance(1, 2) ? (T)0 : -(T)0) : rnd_mant<T>(r, r.range(lo, hi)); break;
    case G_WAVE: { double amp = ldexp(1.0, std::min(hi - 1, std::max(lo, r.range(-4, 4)))); for (int i = 0; i < n; i++) v[i] = (T)(amp * sin(2 * M_PI * (i / (double)n - 0.5))); break; }
    case G_RAMP: { int up = r.chance(1, 2); int a2 = r.range(lo, hi), b2 = r.range(lo, hi); if (a2 > b2) std::swap(a2, b2);
      for (int i = 0; i < n; i++) { double t = n > 1 ? i / (double)(n - 1) : 0; if (!up) t = 1 - t; v[i] = rnd_mant<T>(r, a2 + (int)(t * (b2 - a2))); } break; }
    case G_SPIKE: { for (auto &x : v) x = rnd_mant<T>(r, r.range(a, b)); if (n) { int k = r.range(1, 3); while (k--) v[r.chance(1, 3) ? n - 1 : r.below(n)] = rnd_mant<T>(r, r.range(b, hi)); } break; }
    case G_TIES: { int i = r.range(0, B::MAXINDEX); int u = unit_exp<T>(i); for (auto &x : v) { int64_t k = r.range(0, 64); int e = u - 1 - (r.chance(1, 4) ? B::W : 0);
      x = (T)ldexp((double)(2 * k + 1), std::max(e, B::EMIN)); if (std::isinf(x) || fexp(x) > hi || fexp(x) < lo) x = rnd_mant<T>(r, c); if (r.chance(1, 2)) x = -x; } break; }
    case G_HUGE: for (auto &x : v) { x = rnd_mant<T>(r, hi - (int)r.below(3)); } break;
    case G_ZERO: for (auto &x : v) x = r.chance(1, 2) ? (T)0 : -(T)0; break;
    case G_SMALLINT: for (auto &x : v) { x = (T)r.range(-50, 50); if (x != 0 && (fexp(x) > hi || fexp(x) < lo)) x = rnd_mant<T>(r, c); } break;
  }
}
template <class T> int gen_any(Rng &r, std::vector<T> &v, int lo = -9999, int hi = 9999) { int c = r.below(G_COUNT); if (c == G_ZERO && !r.chance(1, 4)) c = G_FULL; gen_vec<T>(r, c, v, lo, hi); return c; }
template <class T> int pick_fold(Rng &r) {
  switch (r.below(10)) { case 0: case 1: return 2; case 2: case 3: return 3; case 4: return 4; case 5: return r.range(5, 8); case 6: return r.range(9, 16);
    case 7: return r.range(2, Lib<T>::MAXFOLD); case 8: return r.chance(1, 3) ? Lib<T>::MAXFOLD : r.range(2, 6); default: return r.range(2, 6); }
}
static inline int pick_n(Rng &r, int big = 5000) {
  switch (r.below(8)) { case 0: return r.range(0, 8); case 1: case 2: return r.range(1, 40); case 3: return r.range(1, 130); case 4: return r.range(100, 600);
    case 5: { static const int k[] = {256, 512, 1024, 2048, 4096}; return std::min(big, std::max(1, k[r.below(5)] + r.range(-3, 3))); }
    case 6: return r.range(1, big); default: return r.range(1, 64); }
}

// ---------------------------------------------------------------- reporting
struct Rep {
  std::string prop; uint64_t evals = 0, viols = 0; std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> ctr; std::map<std::string, int> sigs;
  std::vector<std::string> samples; long cur = -1; std::string cmd;
  std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  double secs() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
  static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c < 32) { r += ' '; continue; } r += c; } return r; }
  void eval(uint64_t h, bool nontrivial) { evals++; if (nontrivial) distinct.insert(h); }
  void count(const std::string &k, uint64_t n = 1) { ctr[k] += n; }
  void sample(const std::string &s) { if (samples.size() < 4) samples.push_back(s); }
  void viol(const std::string &sig, const std::string &detail) {
    viols++; if (sigs[sig]++ >= 3) return;
    printf("VIOL {\"sig\":\"%s\",\"case\":%ld,\"detail\":\"%s\"}\n", esc(sig).c_str(), cur, esc(detail).c_str()); fflush(stdout);
  }
  void finish() {
    printf("STATS {\"evals\":%llu,\"distinct\":%llu,\"viols\":%llu,\"secs\":%.2f,\"ctr\":{", (unsigned long long)evals, (unsigned long long)distinct.size(), (unsigned long long)viols, secs());
    bool f = true; for (auto &k : ctr) { printf("%s\"%s\":%llu", f ? "" : ",", esc(k.first).c_str(), (unsigned long long)k.second); f = false; }
    printf("},\"samples\":["); f = true; for (auto &s : samples) { printf("%s\"%s\"", f ? "" : ",", esc(s).c_str()); f = false; }
    printf("],\"sigs\":{"); f = true; for (auto &k : sigs) { printf("%s\"%s\":%d", f ? "" : ",", esc(k.first).c_str(), k.second); f = false; }
    printf("}}\n"); fflush(stdout);
  }
};
// A coefficient: the special ones, near misses of them (imaginary part only, real part one but imaginary not), and others of either sign.
template <class T> inline void pick_coef(Rng &r, T *c) {
  static const double v[] = {1, 1, 1, 0, -1, 0.5, 1.5, -2, 0.3, -0.7, 3};
  for (int q = 0; q < 2; q++) c[q] = r.chance(1, 4) ? rnd_mant<T>(r, r.range(-3, 3)) * (T)(r.chance(1, 2) ? 1 : -1) : (T)v[r.below(11)];
  if (r.chance(3, 5)) c[1] = 0;
}
static int g_default[2] = {3, 3};      // default folds (double, float) of the build under test
struct Opt {
  uint64_t seed = 1; int shard = 0, shards = 1; long cases = 1000, only = -1; double limit = 1e9; std::string mode, extra; bool thorough = false;
  Opt(int c, char **v) { for (int i = 1; i < c; i++) { std::string a = v[i]; auto nx = [&]() { return std::string(i + 1 < c ? v[++i] : ""); };
    if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--shard") shard = atoi(nx().c_str()); else if (a == "--shards") shards = atoi(nx().c_str());
    else if (a == "--cases") cases = atol(nx().c_str()); else if (a == "--case") only = atol(nx().c_str()); else if (a == "--limit") limit = atof(nx().c_str());
    else if (a == "--thorough") thorough = true; else if (a == "--extra") { extra = nx(); if (extra.compare(0, 6, "folds=") == 0 && sscanf(extra.c_str() + 6, "%d,%d", g_default, g_default + 1) != 2) exit(9); } else mode = a; } }
};
// When the library (or a sanitizer watching it) stops the process, say which case it was.
#include <csignal>
#include <unistd.h>
static volatile long g_case = -1;
static inline void say_case() { char b[48]; int n = snprintf(b, sizeof b, "CASE %ld\n", (long)g_case); if (write(2, b, n) < 0) {} }
static void on_death_signal(int s) { say_case(); signal(s, SIG_DFL); raise(s); }
extern "C" __attribute__((weak)) void __sanitizer_set_death_callback(void (*)(void));
static inline void watch_deaths() {
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(say_case);
  else for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, on_death_signal);
}
// A case that burns this much processor time does not end: report it instead of waiting.
#include <sys/time.h>
static const char *g_mode = "";
static inline void on_cpu_limit(int) { char b[256]; int n = snprintf(b, sizeof b, "\nVIOL {\"sig\":\"hang:%s\",\"case\":%ld,\"detail\":\"a call of this case does not return\"}\n", g_mode, (long)g_case); if (write(1, b, n) < 0) {} _exit(7); }
static inline void case_timer(int s = 100) { struct itimerval t = {{0, 0}, {s, 0}}; setitimer(ITIMER_PROF, &t, 0); }
// Runs body(rng, case) for this shard's cases, alternating precision inside body.
static inline void for_cases(Opt &o, Rep &rep, const std::function<void(Rng &, long)> &body) {
  uint64_t mh = hashbytes(o.mode.data(), o.mode.size()); watch_deaths(); g_mode = o.mode.c_str(); signal(SIGPROF, on_cpu_limit);
  for (long i = o.only >= 0 ? o.only : o.shard; o.only >= 0 ? i == o.only : i < o.cases; i += o.shards) {
    if (rep.secs() > o.limit) { rep.count("stopped-by-time-limit"); break; }
    rep.cur = i; g_case = i; if (!getenv("RV_SLOW") && (i / o.shards) % 16 == 0) case_timer(); Rng r(o.seed, mh, (uint64_t)i); body(r, i);
  }
}
