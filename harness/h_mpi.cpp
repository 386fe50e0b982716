// Reductions across MPI processes: the library's datatypes and operators, alone (local) and inside collectives (world).
#define OMPI_SKIP_MPICXX 1
#define MPICH_SKIP_MPICXX 1
#include <mpi.h>
#define RB_BLAS
#include "l1.hpp"
extern "C" {
#include <binnedMPI.h>
}
template <class T> struct Mp;
template <> struct Mp<double> { static MPI_Op add(int f) { return binnedMPI_DBDBADD(f); } static MPI_Op zadd(int f) { return binnedMPI_ZBZBADD(f); } static MPI_Op sq(int f) { return binnedMPI_DBDBADDSQ(f); } static MPI_Datatype ty(int f) { return binnedMPI_DOUBLE_BINNED(f); } static MPI_Datatype zty(int f) { return binnedMPI_DOUBLE_COMPLEX_BINNED(f); } static MPI_Datatype sty(int f) { return binnedMPI_DOUBLE_BINNED_SCALED(f); } };
template <> struct Mp<float> { static MPI_Op add(int f) { return binnedMPI_SBSBADD(f); } static MPI_Op zadd(int f) { return binnedMPI_CBCBADD(f); } static MPI_Op sq(int f) { return binnedMPI_SBSBADDSQ(f); } static MPI_Datatype ty(int f) { return binnedMPI_FLOAT_BINNED(f); } static MPI_Datatype zty(int f) { return binnedMPI_FLOAT_COMPLEX_BINNED(f); } static MPI_Datatype sty(int f) { return binnedMPI_FLOAT_BINNED_SCALED(f); } };
enum { REAL, CPLX, SQ };
template <class T> struct Fam {
  typedef Lib<T> B; int kind, fold;
  int num() const { return kind == CPLX ? 4 * fold : kind == SQ ? 2 * fold + 1 : 2 * fold; }
  MPI_Op op() const { return kind == CPLX ? Mp<T>::zadd(fold) : kind == SQ ? Mp<T>::sq(fold) : Mp<T>::add(fold); }
  MPI_Datatype type() const { return kind == CPLX ? Mp<T>::zty(fold) : kind == SQ ? Mp<T>::sty(fold) : Mp<T>::ty(fold); }
  std::string name() const { return std::string(B::nm()) + (kind == CPLX ? ":complex" : kind == SQ ? ":squares" : ":real"); }
  void zero(T *y) const { for (int i = 0; i < num(); i++) y[i] = 0; }
  // n values (pairs when complex) into the accumulator
  void feed(T *y, const T *v, int n) const { if (!n) return; if (kind == SQ) y[0] = B::bssq(fold, n, v, 1, y[0], y + 1); else if (kind == CPLX) B::bzsum(fold, n, v, 1, y); else B::bsum(fold, n, v, 1, y); }
  void merge(const T *x, T *y) const { if (kind == SQ) y[0] = B::addsq(fold, x[0], x + 1, y[0], y + 1); else if (kind == CPLX) B::zzadd(fold, x, y); else B::rradd(fold, x, y); }
  // the same accumulator: all fields, or the same special value
  bool same(const T *a, const T *b) const { int w = kind == CPLX ? 2 : 1; if (kind == SQ) { bool sp = !(std::fabs(a[1]) <= std::numeric_limits<T>::max()); if (!sp && !samebits(a[0], b[0])) return false; a++; b++; }
    for (int q = 0; q < w; q++) { if (!(std::fabs(a[q]) <= std::numeric_limits<T>::max())) { if (!samebits(a[q], b[q])) return false; continue; } for (int j = 0; j < 2 * fold; j++) if (!samebits(a[j * w + q], b[j * w + q])) return false; } return true; }
};
template <class T> void data(Rng &r, const Fam<T> &f, std::vector<T> &v) { if (f.kind == SQ) { int c = sizeof(T) == 8 ? r.range(-900, 900) : r.range(-60, 60), h = sizeof(T) == 8 ? 150 : 14; gen_any<T>(r, v, c - h, c + h); } else gen_any<T>(r, v); if (f.kind != SQ && v.size() && r.chance(1, 10)) for (int k = r.range(1, 2); k--;) v[r.below(v.size())] = r.chance(1, 3) ? std::numeric_limits<T>::quiet_NaN() : r.chance(1, 2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity(); }

template <class T> void local(Rep &rep, Rng &r) {
  typedef Lib<T> B; Fam<T> f; f.kind = r.below(3); f.fold = r.chance(1, 2) ? r.range(2, B::MAXFOLD) : pick_fold<T>(r); int len = r.range(0, 6), num = f.num(); std::string ds = f.name() + " fold=" + std::to_string(f.fold) + " len=" + std::to_string(len); const T pad = (T)-7.25e30;
  std::vector<T> X((size_t)len * num + 3, pad), Y = X; uint64_t h = num * 7 + len; bool full = f.kind == SQ && r.chance(1, 2);
  for (int i = 0; i < len; i++) for (auto *p : {&X, &Y}) { T *y = &(*p)[(size_t)i * num]; f.zero(y); std::vector<T> v(r.chance(1, 6) ? 0 : r.range(1, 6) * 2); if (full) gen_any<T>(r, v); else data(r, f, v); h = hashbytes(v.data(), v.size() * sizeof(T), h); f.feed(y, v.data(), f.kind == CPLX ? v.size() / 2 : v.size()); }
  std::vector<T> X0 = X, W = Y; for (int i = 0; i < len; i++) f.merge(&X[(size_t)i * num], &W[(size_t)i * num]);
  MPI_Op op = f.op(); MPI_Datatype ty = f.type(); int sz = -1, com = 0; MPI_Aint lb = -1, ext = -1; MPI_Type_size(ty, &sz); MPI_Type_get_extent(ty, &lb, &ext); MPI_Op_commutative(op, &com);
  if (sz != num * (int)sizeof(T) || lb != 0 || ext != (MPI_Aint)(num * sizeof(T))) { rep.viol("type:" + f.name(), ds + ": the datatype covers " + std::to_string(sz) + " bytes, an accumulator has " + std::to_string(num * sizeof(T))); return; }
  if (f.op() != op || f.type() != ty) rep.viol("handles:" + f.name(), ds + ": asking again gives another operator or datatype");
  if (!com) rep.viol("commutative:" + f.name(), ds + ": the operator is declared not commutative");
  MPI_Reduce_local(X.data(), Y.data(), len, ty, op); rep.count("local-reductions"); rep.count(f.name()); rep.count("folds-used", f.fold > 4);
  for (int i = 0; i < len; i++) if (!f.same(&Y[(size_t)i * num], &W[(size_t)i * num])) { rep.viol("local:" + f.name(), ds + ": element " + std::to_string(i) + " of the reduction is not the merge of the two accumulators: field 0 " + hexf(Y[(size_t)i * num]) + " expected " + hexf(W[(size_t)i * num])); return; }
  if (memcmp(X.data(), X0.data(), X.size() * sizeof(T))) rep.viol("local-input:" + f.name(), ds + ": the reduction changed its input");
  for (int k = 0; k < 3; k++) if (Y[(size_t)len * num + k] != pad) rep.viol("local-beyond:" + f.name(), ds + ": wrote beyond the last accumulator");
  rep.eval(h, len > 0); if (len && len < 3) rep.sample(ds);
}
static int me, np;
template <class T> void world(Rep &rep, Rng &r) {
  typedef Lib<T> B; Fam<T> f; f.kind = r.below(3); f.fold = f.kind == SQ ? r.range(2, 5) : r.chance(1, 3) ? r.range(2, B::MAXFOLD) : r.range(2, 6); int len = r.chance(1, 6) ? r.range(100, 900) : r.range(1, 12), num = f.num(), w = f.kind == CPLX ? 2 : 1, per = len > 50 ? 12 : 60;
  std::vector<T> mine((size_t)len * num), want((size_t)len * num); uint64_t h = num * 100 + np; std::string ds = f.name() + " fold=" + std::to_string(f.fold) + " len=" + std::to_string(len) + " over " + std::to_string(np) + " processes";
  for (int i = 0; i < len; i++) { T *y = &mine[(size_t)i * num], *a = &want[(size_t)i * num]; f.zero(y); f.zero(a); int n = r.range(0, per); std::vector<T> v((size_t)n * w); data(r, f, v); f.feed(a, v.data(), n); h = hashbytes(v.data(), v.size() * sizeof(T), h); int pat = r.below(3); int cut0 = 0;
    for (int k = 0; k < n; k++) { int who = pat == 0 ? r.below(np) : pat == 1 ? (int)((long)k * np / n) : 0; if (who == me) f.feed(y, &v[(size_t)k * w], 1); } }
  int how = r.below(7), root = r.below(np); MPI_Op op = f.op(); MPI_Datatype ty = f.type(); std::vector<T> got((size_t)len * num, (T)-1), keep = mine; int have = 1; MPI_Request q; int lag = r.range(0, 1) ? 0 : (int)(mix64(h + me) % 20000); for (volatile int k = 0; k < lag; k++) ;
  static const char *hn[] = {"Reduce", "Allreduce", "Iallreduce", "Ireduce", "Allreduce-in-place", "Reduce_scatter_block", "Scan"};
  switch (how) {
    case 0: MPI_Reduce(mine.data(), got.data(), len, ty, op, root, MPI_COMM_WORLD); have = me == root; break;
    case 1: MPI_Allreduce(mine.data(), got.data(), len, ty, op, MPI_COMM_WORLD); break;
    case 2: MPI_Iallreduce(mine.data(), got.data(), len, ty, op, MPI_COMM_WORLD, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); break;
    case 3: MPI_Ireduce(mine.data(), got.data(), len, ty, op, root, MPI_COMM_WORLD, &q); MPI_Wait(&q, MPI_STATUS_IGNORE); have = me == root; break;
    case 4: got = mine; MPI_Allreduce(MPI_IN_PLACE, got.data(), len, ty, op, MPI_COMM_WORLD); break;
    case 5: { int b = len / np; if (!b) { MPI_Allreduce(mine.data(), got.data(), len, ty, op, MPI_COMM_WORLD); how = 1; break; } std::vector<T> part((size_t)b * num); MPI_Reduce_scatter_block(mine.data(), part.data(), b, ty, op, MPI_COMM_WORLD); got = want; memcpy(&got[(size_t)me * b * num], part.data(), part.size() * sizeof(T)); break; }
    default: MPI_Scan(mine.data(), got.data(), len, ty, op, MPI_COMM_WORLD); have = me == np - 1;
  }
  int bad = -1; if (have) for (int i = 0; i < len && bad < 0; i++) if (!f.same(&want[(size_t)i * num], &got[(size_t)i * num])) bad = i; if (keep.size() && memcmp(keep.data(), mine.data(), mine.size() * sizeof(T))) bad = len;
  int worst; MPI_Allreduce(&bad, &worst, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (worst >= 0 && me == 0) rep.viol(std::string("world:") + hn[how] + ":" + f.name(), ds + " " + hn[how] + (worst == len ? ": send buffer changed" : ": element " + std::to_string(worst) + " is not the accumulator one process computes from all the data"));
  rep.count(std::string("collective-") + hn[how]); rep.count("elements-compared", len); rep.count("np-" + std::to_string(np)); rep.eval(h, np > 1); rep.sample(ds + " by " + hn[how]);
}
int main(int c, char **v) {
  MPI_Init(&c, &v); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); fprintf(stderr, "RV-READY\n");
  Opt o(c, v); Rep rep; bool w = o.mode == "world"; double lim = o.limit; if (w) o.limit = 1e9; bool stop = false; std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
  for_cases(o, rep, [&](Rng &r, long i) {
    if (stop) return;
    if (o.mode == "local") { if (i & 1) local<float>(rep, r); else local<double>(rep, r); }
    else if (w) { if (i % 50 == 0) { int s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > lim; MPI_Bcast(&s, 1, MPI_INT, 0, MPI_COMM_WORLD); if (s) { stop = true; rep.count("stopped-by-time-limit"); return; } } if (i & 1) world<float>(rep, r); else world<double>(rep, r); }
    else { fprintf(stderr, "mode?\n"); exit(3); }
  });
  if (me == 0) rep.finish();
  MPI_Finalize(); return 0;
}
