// What the print routines write: one line per bin, with the bin's exponent, contents, carry and value.
#include "model.hpp"
#include <sys/mman.h>
#include <unistd.h>
static int fd = -1;
template <class F> std::string captured(F f) { if (fd < 0) fd = memfd_create("out", 0); if (fd < 0) { fprintf(stderr, "no memfd\n"); exit(3); } fflush(stdout); int keep = dup(1); if (ftruncate(fd, 0)) exit(3); lseek(fd, 0, SEEK_SET); dup2(fd, 1); f(); fflush(stdout); dup2(keep, 1); close(keep); off_t n = lseek(fd, 0, SEEK_END); std::string s(n, 0); lseek(fd, 0, SEEK_SET); if (n && read(fd, &s[0], n) != n) exit(3); return s; }
static bool close_to(double got, double want, double unit) { if (got != got || want != want) return got != got && want != want; if (std::isinf(want) || std::isinf(got)) return got == want; return std::fabs(got - want) <= 1e-5 * std::fabs(want) + 1e-9 * unit; }
template <class T> void show(Rep &rep, Rng &r) {
  typedef Lib<T> B; int fold = pick_fold<T>(r), z = r.chance(1, 2), w = z + 1; bool pk = r.chance(1, 2); int ip = pk ? 1 : r.range(1, 4), ic = pk ? 1 : r.range(1, 4);
  std::vector<T> p(pk ? (size_t)2 * w * fold : (size_t)w * ((fold - 1) * ip + 1), (T)-9e30), c(pk ? 0 : (size_t)w * ((fold - 1) * ic + 1), (T)-8e30); T *P = p.data(), *C = pk ? P + w * fold : c.data();
  if (z) B::zmsetzero(fold, P, ip, C, ic); else B::rmsetzero(fold, P, ip, C, ic);
  int n = r.chance(1, 12) ? 0 : r.range(1, 12); std::vector<T> v((size_t)n * w); gen_any<T>(r, v); if (n && r.chance(1, 12)) v[r.below(v.size())] = r.chance(1, 2) ? std::numeric_limits<T>::quiet_NaN() : std::numeric_limits<T>::infinity();
  for (int i = 0; i < n; i++) { if (z) B::zmadd(fold, &v[i * w], P, ip, C, ic); else B::rmadd(fold, v[i], P, ip, C, ic); }
  if (r.chance(1, 3)) for (int k = r.range(1, 20); k--;) { auto p2 = p, c2 = c; T *P2 = p2.data(), *C2 = pk ? P2 + w * fold : c2.data(); if (z) B::zzmadd(fold, P2, ip, C2, ic, P, ip, C, ic); else B::rrmadd(fold, P2, ip, C2, ic, P, ip, C, ic); }
  auto p0 = p, c0 = c; std::string s = captured([&]() { if (pk) { if (z) B::zprint(fold, P); else B::rprint(fold, P); } else { if (z) B::zmprint(fold, P, ip, C, ic); else B::rmprint(fold, P, ip, C, ic); } });
  std::string nm = std::string(B::nm()) + (z ? ":z" : ":") + (pk ? "bprint" : "mprint"), ds = nm + " fold=" + std::to_string(fold) + " inc " + std::to_string(ip) + "," + std::to_string(ic) + " printed: " + s.substr(0, 300); rep.count(nm);
  if (memcmp(p0.data(), p.data(), p.size() * sizeof(T)) || (c.size() && memcmp(c0.data(), c.data(), c.size() * sizeof(T)))) rep.viol("changed:" + nm, ds);
  std::vector<std::string> lines; size_t a = 0, b; while ((b = s.find('\n', a)) != std::string::npos) { lines.push_back(s.substr(a, b - a)); a = b + 1; }
  if ((int)lines.size() != fold || a != s.size()) { rep.viol("lines:" + nm, ds + " has " + std::to_string(lines.size()) + " lines"); return; }
  for (int j = 0; j < fold; j++) { const char *t = lines[j].c_str();
    for (int q = 0; q < w; q++) { T pr = P[(size_t)j * ip * w + q], ca = C[(size_t)j * ic * w + q]; int e, used = 0; double m, k, val; if (sscanf(t, q ? "| 2^%d: %lg #%lg =%lg%n" : "(2^%d: %lg #%lg =%lg%n", &e, &m, &k, &val, &used) != 4) { rep.viol("format:" + nm, ds + " line " + std::to_string(j)); return; } t += used;
      bool sp = !(std::fabs(pr) <= std::numeric_limits<T>::max()); if (sp) { rep.count("special-bins"); continue; } if (pr == 0) { rep.count("empty-bins"); if (m != 0 || k != 0 || val != 0) { rep.viol("empty:" + nm, ds); return; } continue; }
      int E = ilogb((double)pr); double M = ldexp(1.0, E), wm = (double)pr - 1.5 * M, wv = wm + (double)ca * 0.25 * M; rep.count("bins-read");
      if (e != E + 1) { rep.viol("exponent:" + nm, ds + " line " + std::to_string(j) + " expected 2^" + std::to_string(E + 1)); return; }
      if (!close_to(m, wm, M) || !close_to(k, ca, 0)) { rep.viol("field:" + nm, ds + " line " + std::to_string(j) + " expected " + std::to_string(wm / M) + "*2^" + std::to_string(E) + " and carry " + std::to_string((double)ca)); return; }
      if (std::isfinite(wv) && E < 1023 && std::isfinite((double)(T)wv) && !close_to(val, wv, M)) { rep.viol("value:" + nm, ds + " line " + std::to_string(j) + " expected " + hexf(wv)); return; } }
    if (strcmp(t, ")")) { rep.viol("format:" + nm, ds + " line " + std::to_string(j) + " ends in " + t); return; } }
  rep.eval(hashbytes(p.data(), p.size() * sizeof(T), fold), n > 0); rep.sample(ds);
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) { if (i & 1) show<float>(rep, r); else show<double>(rep, r); });
  rep.finish();
  return 0;
}
