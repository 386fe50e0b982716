// Threads calling the library at once on shared read-only inputs and private outputs; every result must be the one a
// single thread computes. "first" does it in a fresh process, so that the very first use is a concurrent one.
#define RB_BLAS
#include "l1.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
#include <sys/wait.h>
template <class T> struct Call {
  typedef Lib<T> B; int op, fold, N; L1<T> l; std::vector<T> X, Y; const std::vector<T> *A = 0, *V = 0; char o, ta, tb; int M, K; std::string name; T scl; std::vector<T> acc0; T al[2], be[2]; bool binned;
  // everything the call produces
  std::vector<T> run() const {
    std::vector<T> r; const int z = l.z, w = z + 1;
    switch (op) {
      case 0: r.assign(2, (T)0); l.plain(fold, X.data(), Y.data(), r.data()); break;
      case 1: { int P = l.parts(); r.assign((size_t)2 * fold * P, (T)0); if (l.kind == SSQ) { T s = z ? B::bzssq(fold, l.N, X.data(), l.ix, 0, r.data()) : B::bssq(fold, l.N, X.data(), l.ix, 0, r.data()); r.push_back(s); } else l.packed(fold, X.data(), Y.data(), r.data()); break; }
      case 2: { r.assign((size_t)2 * fold * w, (T)0); for (size_t i = 0; i + w <= l.x.size() && i < 64; i += w) { if (z) B::zadd(fold, &l.x[i], r.data()); else B::radd(fold, l.x[i], r.data()); } std::vector<T> s(r.size(), (T)0); if (z) { B::zfrom(fold, &acc0[0], s.data()); B::zzadd(fold, r.data(), s.data()); B::zneg(fold, s.data()); B::zrenorm(fold, s.data()); } else { B::rfrom(fold, acc0[0], s.data()); B::rradd(fold, r.data(), s.data()); B::rneg(fold, s.data()); B::rrenorm(fold, s.data()); } r.insert(r.end(), s.begin(), s.end()); std::vector<T> o(w); if (z) B::zto(fold, s.data(), o.data()); else o[0] = B::rto(fold, s.data()); r.insert(r.end(), o.begin(), o.end()); break; }
      case 3: { for (size_t i = 0; i < l.x.size() && i < 32; i++) { T x = l.x[i]; r.push_back((T)B::index(x)); r.push_back(B::ufp(x)); if (x == x) r.push_back(B::scale(x)); r.push_back(B::bound(fold, 100, std::fabs(x), x)); } const T *b = B::bins(fold % B::MAXINDEX); r.insert(r.end(), b, b + 3); break; }
      case 4: { r.assign(binned ? (size_t)M * N * w * 2 * fold : (size_t)M * N * w, (T)!binned); bool rm = o == 'r'; int lda = (ta != 'n') == rm ? M : K, ldb = (tb != 'n') == rm ? K : N, ldc = rm ? N : M; if (binned) { if (z) B::bzgemm(fold, o, ta, tb, M, N, K, al, A->data(), lda, V->data(), ldb, r.data(), ldc); else B::bgemm(fold, o, ta, tb, M, N, K, al[0], A->data(), lda, V->data(), ldb, r.data(), ldc); } else if (z) B::rzgemm(fold, o, ta, tb, M, N, K, al, A->data(), lda, V->data(), ldb, be, r.data(), ldc); else B::rgemm(fold, o, ta, tb, M, N, K, al[0], A->data(), lda, V->data(), ldb, be[0], r.data(), ldc); break; }
      case 5: { int ny = ta == 'n' ? M : K; r.assign(binned ? (size_t)ny * w * 2 * fold : (size_t)ny * w, (T)!binned); int lda = o == 'r' ? K : M; if (binned) { if (z) B::bzgemv(fold, o, ta, M, K, al, A->data(), lda, V->data(), 1, r.data(), 1); else B::bgemv(fold, o, ta, M, K, al[0], A->data(), lda, V->data(), 1, r.data(), 1); } else if (z) B::rzgemv(fold, o, ta, M, K, al, A->data(), lda, V->data(), 1, be, r.data(), 1); else B::rgemv(fold, o, ta, M, K, al[0], A->data(), lda, V->data(), 1, be[0], r.data(), 1); break; }
      case 6: { r.assign((size_t)2 * fold, (T)0); std::vector<T> s(2 * fold, (T)0); int h = l.N / 2; T s1 = B::bssq(fold, h, X.data(), 1, 0, r.data()), s2 = B::bssq(fold, l.N - h, X.data() + h, 1, 0, s.data()); T t = B::addsq(fold, s1, r.data(), s2, s.data()); r = s; r.push_back(t); break; }
      default: { r.assign(2, (T)0); if (l.two()) { if (z) B::zamaxm(l.N, X.data(), l.ix, Y.data(), l.iy, r.data()); else r[0] = B::amaxm(l.N, X.data(), l.ix, Y.data(), l.iy); } else { if (z) B::zamax(l.N, X.data(), l.ix, r.data()); else r[0] = B::amax(l.N, X.data(), l.ix); } }
    }
    return r;
  }
};
template <class T> bool same(const std::vector<T> &x, const std::vector<T> &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (!samebits(x[i], y[i])) return false; return true; }
template <class T> bool together(Rep &rep, Rng &r, int only) {
  typedef Lib<T> B; std::vector<T> A(40000), V(40000); gen_vec<T>(r, G_WINDOW, A, -20, 20); gen_vec<T>(r, G_WINDOW, V, -20, 20); auto A0 = A, V0 = V;
  static const char *nm[] = {"plain", "binned", "scalar", "helpers", "gemm", "gemv", "squares", "amax"};
  int threads = r.range(2, 8), per = only >= 0 ? r.range(1, 2) : r.range(2, 12), kinds = r.range(1, 8); bool sharedcall = r.chance(1, 2); std::vector<std::vector<Call<T>>> c(threads); uint64_t h = threads;
  auto mk = [&](int op) { Call<T> q; q.op = op; q.l.z = r.chance(1, 2); q.l.kind = r.below(5); if (q.l.kind == DOTC && !q.l.z) q.l.kind = DOT; if (op == 6) { q.l.z = 0; q.l.kind = SSQ; } q.fold = r.chance(1, 2) ? 3 : pick_fold<T>(r); fill_l1<T>(r, q.l, op == 3 || op == 6 || op == 7 ? 0 : 1, r.chance(1, 12) ? 7000 : 600); if (op == 6) q.l.ix = 1; q.X = q.l.X(); q.Y = q.l.Y(); q.A = &A; q.V = &V; q.o = "rc"[r.below(2)]; q.ta = "ntc"[r.below(3)]; q.tb = "ntc"[r.below(3)]; pick_coef<T>(r, q.al); pick_coef<T>(r, q.be); q.binned = r.chance(1, 3); q.M = r.range(1, 20); q.N = r.range(1, 20); q.K = r.range(1, 40); if (r.chance(1, 8)) { q.M = r.range(1, 6); q.N = r.range(1, 6); q.K = r.range(1, 3000); if (r.chance(1, 2)) std::swap(q.M, r.chance(1, 2) && op == 4 ? q.N : q.K); if (q.M > 6 && op == 4) { q.K = r.range(1, 6); } } q.acc0.assign(2, (T)r.range(1, 99)); q.name = std::string(B::nm()) + (q.l.z ? ":z" : ":") + nm[op]; h = hashbytes(q.X.data(), q.X.size() * sizeof(T), h * 8 + op); return q; };
  int first = only >= 0 ? only : r.below(8);
  if (sharedcall) { std::vector<Call<T>> q; for (int k = 0; k < per; k++) q.push_back(mk((first + r.below(kinds)) % 8)); for (auto &x : c) x = q; }
  else for (auto &x : c) for (int k = 0; k < per; k++) x.push_back(mk((first + r.below(kinds)) % 8));
  std::vector<std::vector<std::vector<T>>> got(threads); for (int t = 0; t < threads; t++) got[t].resize(c[t].size()); std::vector<int> lag(threads); for (auto &x : lag) x = r.chance(1, 2) ? 0 : r.range(0, 3000);
  std::atomic<int> ready{0}, tick{0}; std::vector<std::vector<int>> order(threads); bool yields = r.chance(1, 3); std::vector<std::thread> th;
  for (int t = 0; t < threads; t++) th.emplace_back([&, t]() { ready++; while (ready < threads) if (threads > 4) sched_yield(); for (volatile int k = 0; k < lag[t]; k++) ; for (size_t k = 0; k < c[t].size(); k++) { order[t].push_back(tick++); got[t][k] = c[t][k].run(); order[t].push_back(tick++); if (yields) sched_yield(); } });
  for (auto &t : th) t.join();
  std::vector<int> who(tick); for (int t = 0; t < threads; t++) for (int x : order[t]) who[x] = t; int overlap = 0; for (size_t i = 1; i < who.size(); i++) overlap += who[i] != who[i - 1]; rep.count("switches", overlap); rep.count("threads", threads);
  for (int t = 0; t < threads; t++) for (size_t k = 0; k < c[t].size(); k++) { auto w = c[t][k].run(); rep.count("results-compared"); rep.count(c[t][k].name); if (!same(w, got[t][k])) { size_t i = 0; while (i < w.size() && samebits(w[i], got[t][k][i])) i++; rep.viol("thread:" + c[t][k].name, c[t][k].name + " among " + std::to_string(threads) + " threads gave " + hexf(got[t][k][i]) + " where one thread gives " + hexf(w[i]) + " (" + c[t][k].l.desc(c[t][k].fold) + ")"); return false; } }
  if (A != A0 || V != V0) rep.viol("thread:input", "shared input changed");
  rep.eval(hashbytes(who.data(), who.size() * sizeof(int), h), threads > 1); if (rep.samples.size() < 3) rep.sample(std::to_string(threads) + " threads, " + std::to_string(per) + " calls each starting with " + c[0][0].name + ", " + std::to_string(overlap) + " switches seen");
  return true;
}
int main(int c, char **v) {
  Opt o(c, v); Rep rep;
  for_cases(o, rep, [&](Rng &r, long i) {
    if (o.mode == "conc") { i & 1 ? together<float>(rep, r, -1) : together<double>(rep, r, -1); }
    else if (o.mode == "first") {          // each case in its own process; what it saw comes back through its exit code and a pipe
      int fd[2]; if (pipe(fd)) exit(3); fflush(stdout); fflush(stderr); pid_t p = fork(); if (p < 0) exit(3);
      if (!p) { case_timer(); Rep sub; sub.cur = i; close(fd[0]); int op = r.below(8); i & 1 ? together<float>(sub, r, op) : together<double>(sub, r, op); std::string s = std::to_string(sub.evals) + " " + std::to_string(sub.distinct.empty() ? 0 : *sub.distinct.begin()) + " " + std::to_string(sub.ctr["results-compared"]) + " " + std::to_string(sub.ctr["switches"]); if (write(fd[1], s.data(), s.size()) < 0) {} fflush(stdout); close(fd[1]); exit(sub.viols ? 9 : 0); }
      close(fd[1]); char b[256]; int n = 0, k; while ((k = read(fd[0], b + n, 255 - n)) > 0) n += k; b[n] = 0; close(fd[0]); int st; waitpid(p, &st, 0); unsigned long long e = 0, h = 0, rc = 0, sw = 0; sscanf(b, "%llu %llu %llu %llu", &e, &h, &rc, &sw); rep.eval(h, h != 0); rep.count("fresh-processes"); rep.count("first-results-compared", rc); rep.count("switches", sw);
      if (WIFSIGNALED(st)) rep.viol("first:signal" + std::to_string(WTERMSIG(st)), "threads that use the library for the first time together crash");
      else if (WEXITSTATUS(st) == 66) rep.viol("first:race", "ThreadSanitizer reported a data race at first use");
      else if (WEXITSTATUS(st) == 9) rep.viols++;
      else if (WEXITSTATUS(st)) rep.viol("first:exit" + std::to_string(WEXITSTATUS(st)), "a fresh process using the library from several threads failed");
      rep.sample("fresh process " + std::to_string(i) + ": " + std::to_string(rc) + " results, " + std::to_string(sw) + " switches");
    }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  rep.finish();
  return 0;
}
