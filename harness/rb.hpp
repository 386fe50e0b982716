// Names of the library under test, uniform over precision, plus traits.
#pragma once
#include <complex.h>
#undef complex
#undef I
extern "C" {
#include <binned.h>
}
#ifdef RB_BLAS
// reproBLAS.h includes <complex.h> (already included above, outside extern "C").
extern "C" {
#include <binnedBLAS.h>
#include <reproBLAS.h>
}
#endif
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <limits>
#include <functional>
#include <cfloat>
#ifdef I
#undef I
#endif

template <class T> struct Lib;

#define RB_CORE(T, U, R, Z, SIZE)                                                                  \
  typedef T real;                                                                                  \
  typedef U bits;                                                                                  \
  static size_t rsize(int f) { return SIZE(f); }                                                   \
  static size_t zsize(int f) { return binned_##Z##bsize(f); }                                      \
  static int rnum(int f) { return binned_##R##bnum(f); }                                           \
  static int znum(int f) { return binned_##Z##bnum(f); }                                           \
  static T *ralloc(int f) { return binned_##R##balloc(f); }                                        \
  static T *zalloc(int f) { return binned_##Z##balloc(f); }                                        \
  static T bound(int f, int N, T X, T S) { return binned_##R##bbound(f, N, X, S); }                \
  static const T *bins(int i) { return binned_##R##mbins(i); }                                     \
  static int index(T x) { return binned_##R##index(x); }                                           \
  static int mindex(const T *p) { return binned_##R##mindex(p); }                                  \
  static int mindex0(const T *p) { return binned_##R##mindex0(p); }                                \
  static int rmdenorm(int f, const T *p) { return binned_##R##mdenorm(f, p); }                     \
  static int zmdenorm(int f, const T *p) { return binned_##Z##mdenorm(f, p); }                     \
  static void rprint(int f, const T *x) { binned_##R##bprint(f, x); }                              \
  static void zprint(int f, const T *x) { binned_##Z##bprint(f, x); }                              \
  static void rmprint(int f, const T *p, int ip, const T *c, int ic) { binned_##R##mprint(f, p, ip, c, ic); } \
  static void zmprint(int f, const T *p, int ip, const T *c, int ic) { binned_##Z##mprint(f, p, ip, c, ic); } \
  static void rset(int f, const T *x, T *y) { binned_##R##b##R##bset(f, x, y); }                   \
  static void zset(int f, const T *x, T *y) { binned_##Z##b##Z##bset(f, x, y); }                   \
  static void zrset(int f, const T *x, T *y) { binned_##Z##b##R##bset(f, x, y); }                  \
  static void rmset(int f, const T *px, int ipx, const T *cx, int icx, T *py, int ipy, T *cy, int icy) { binned_##R##m##R##mset(f, px, ipx, cx, icx, py, ipy, cy, icy); } \
  static void zmset(int f, const T *px, int ipx, const T *cx, int icx, T *py, int ipy, T *cy, int icy) { binned_##Z##m##Z##mset(f, px, ipx, cx, icx, py, ipy, cy, icy); } \
  static void zrmset(int f, const T *px, int ipx, const T *cx, int icx, T *py, int ipy, T *cy, int icy) { binned_##Z##m##R##mset(f, px, ipx, cx, icx, py, ipy, cy, icy); } \
  static void rsetzero(int f, T *x) { binned_##R##bsetzero(f, x); }                                \
  static void zsetzero(int f, T *x) { binned_##Z##bsetzero(f, x); }                                \
  static void rmsetzero(int f, T *p, int ip, T *c, int ic) { binned_##R##msetzero(f, p, ip, c, ic); } \
  static void zmsetzero(int f, T *p, int ip, T *c, int ic) { binned_##Z##msetzero(f, p, ip, c, ic); } \
  static void rradd(int f, const T *x, T *y) { binned_##R##b##R##badd(f, x, y); }                  \
  static void zzadd(int f, const T *x, T *y) { binned_##Z##b##Z##badd(f, x, y); }                  \
  static void rrmadd(int f, const T *px, int ipx, const T *cx, int icx, T *py, int ipy, T *cy, int icy) { binned_##R##m##R##madd(f, px, ipx, cx, icx, py, ipy, cy, icy); } \
  static void zzmadd(int f, const T *px, int ipx, const T *cx, int icx, T *py, int ipy, T *cy, int icy) { binned_##Z##m##Z##madd(f, px, ipx, cx, icx, py, ipy, cy, icy); } \
  static void rraddv(int f, int N, const T *x, int ix, T *y, int iy) { binned_##R##b##R##baddv(f, N, x, ix, y, iy); } \
  static void zzaddv(int f, int N, const T *x, int ix, T *y, int iy) { binned_##Z##b##Z##baddv(f, N, x, ix, y, iy); } \
  static void radd(int f, T x, T *y) { binned_##R##b##R##add(f, x, y); }                           \
  static void zadd(int f, const T *x, T *y) { binned_##Z##b##Z##add(f, x, y); }                    \
  static void rmadd(int f, T x, T *p, int ip, T *c, int ic) { binned_##R##m##R##add(f, x, p, ip, c, ic); } \
  static void zmadd(int f, const T *x, T *p, int ip, T *c, int ic) { binned_##Z##m##Z##add(f, x, p, ip, c, ic); } \
  static void rupdate(int f, T x, T *y) { binned_##R##b##R##update(f, x, y); }                     \
  static void zupdate(int f, const T *x, T *y) { binned_##Z##b##Z##update(f, x, y); }              \
  static void zrupdate(int f, T x, T *y) { binned_##Z##b##R##update(f, x, y); }                    \
  static void rmupdate(int f, T x, T *p, int ip, T *c, int ic) { binned_##R##m##R##update(f, x, p, ip, c, ic); } \
  static void zmupdate(int f, const T *x, T *p, int ip, T *c, int ic) { binned_##Z##m##Z##update(f, x, p, ip, c, ic); } \
  static void zrmupdate(int f, T x, T *p, int ip, T *c, int ic) { binned_##Z##m##R##update(f, x, p, ip, c, ic); } \
  static void rdeposit(int f, T x, T *y) { binned_##R##b##R##deposit(f, x, y); }                   \
  static void zdeposit(int f, const T *x, T *y) { binned_##Z##b##Z##deposit(f, x, y); }            \
  static void rmdeposit(int f, T x, T *p, int ip) { binned_##R##m##R##deposit(f, x, p, ip); }      \
  static void zmdeposit(int f, const T *x, T *p, int ip) { binned_##Z##m##Z##deposit(f, x, p, ip); } \
  static void rrenorm(int f, T *x) { binned_##R##brenorm(f, x); }                                  \
  static void zrenorm(int f, T *x) { binned_##Z##brenorm(f, x); }                                  \
  static void rmrenorm(int f, T *p, int ip, T *c, int ic) { binned_##R##mrenorm(f, p, ip, c, ic); } \
  static void zmrenorm(int f, T *p, int ip, T *c, int ic) { binned_##Z##mrenorm(f, p, ip, c, ic); } \
  static void rfrom(int f, T x, T *y) { binned_##R##b##R##conv(f, x, y); }                         \
  static void zfrom(int f, const T *x, T *y) { binned_##Z##b##Z##conv(f, x, y); }                  \
  static void rmfrom(int f, T x, T *p, int ip, T *c, int ic) { binned_##R##m##R##conv(f, x, p, ip, c, ic); } \
  static void zmfrom(int f, const T *x, T *p, int ip, T *c, int ic) { binned_##Z##m##Z##conv(f, x, p, ip, c, ic); } \
  static T rto(int f, const T *x) { return binned_##R##R##bconv(f, x); }                           \
  static T rmto(int f, const T *p, int ip, const T *c, int ic) { return binned_##R##R##mconv(f, p, ip, c, ic); } \
  static void zto(int f, const T *x, T *o) { binned_##Z##Z##bconv_sub(f, x, o); }                  \
  static void zmto(int f, const T *p, int ip, const T *c, int ic, T *o) { binned_##Z##Z##mconv_sub(f, p, ip, c, ic, o); } \
  static void rneg(int f, T *x) { binned_##R##bnegate(f, x); }                                     \
  static void zneg(int f, T *x) { binned_##Z##bnegate(f, x); }                                     \
  static void rmneg(int f, T *p, int ip, T *c, int ic) { binned_##R##mnegate(f, p, ip, c, ic); }   \
  static void zmneg(int f, T *p, int ip, T *c, int ic) { binned_##Z##mnegate(f, p, ip, c, ic); }   \
  static T scale(T x) { return binned_##R##scale(x); }                                             \
  static void rrescale(int f, T X, T s, T *p, int ip, T *c, int ic) { binned_##R##m##R##rescale(f, X, s, p, ip, c, ic); } \
  static void zrescale(int f, T X, T s, T *p, int ip, T *c, int ic) { binned_##Z##m##R##rescale(f, X, s, p, ip, c, ic); } \
  static T addsq(int f, T sx, const T *x, T sy, T *y) { return binned_##R##b##R##baddsq(f, sx, x, sy, y); } \
  static T maddsq(int f, T sx, const T *px, int ipx, const T *cx, int icx, T sy, T *py, int ipy, T *cy, int icy) { return binned_##R##m##R##maddsq(f, sx, px, ipx, cx, icx, sy, py, ipy, cy, icy); }

#ifdef RB_BLAS
#define RB_BLASFN(T, R, Z)                                                                         \
  static T amax(int N, const T *x, int ix) { return binnedBLAS_##R##amax(N, x, ix); }              \
  static void zamax(int N, const T *x, int ix, T *o) { binnedBLAS_##Z##amax_sub(N, x, ix, o); }    \
  static T amaxm(int N, const T *x, int ix, const T *y, int iy) { return binnedBLAS_##R##amaxm(N, x, ix, y, iy); } \
  static void zamaxm(int N, const T *x, int ix, const T *y, int iy, T *o) { binnedBLAS_##Z##amaxm_sub(N, x, ix, y, iy, o); } \
  static void bsum(int f, int N, const T *x, int ix, T *y) { binnedBLAS_##R##b##R##sum(f, N, x, ix, y); } \
  static void basum(int f, int N, const T *x, int ix, T *y) { binnedBLAS_##R##b##R##asum(f, N, x, ix, y); } \
  static T bssq(int f, int N, const T *x, int ix, T s, T *y) { return binnedBLAS_##R##b##R##ssq(f, N, x, ix, s, y); } \
  static void bdot(int f, int N, const T *x, int ix, const T *y, int iy, T *z) { binnedBLAS_##R##b##R##dot(f, N, x, ix, y, iy, z); } \
  static void bzsum(int f, int N, const T *x, int ix, T *y) { binnedBLAS_##Z##b##Z##sum(f, N, x, ix, y); } \
  static void bzasum(int f, int N, const T *x, int ix, T *y) { binnedBLAS_##R##b##Z##asum(f, N, x, ix, y); } \
  static T bzssq(int f, int N, const T *x, int ix, T s, T *y) { return binnedBLAS_##R##b##Z##ssq(f, N, x, ix, s, y); } \
  static void bzdotu(int f, int N, const T *x, int ix, const T *y, int iy, T *z) { binnedBLAS_##Z##b##Z##dotu(f, N, x, ix, y, iy, z); } \
  static void bzdotc(int f, int N, const T *x, int ix, const T *y, int iy, T *z) { binnedBLAS_##Z##b##Z##dotc(f, N, x, ix, y, iy, z); } \
  static void msum(int f, int N, const T *x, int ix, T *p, int ip, T *c, int ic) { binnedBLAS_##R##m##R##sum(f, N, x, ix, p, ip, c, ic); } \
  static void masum(int f, int N, const T *x, int ix, T *p, int ip, T *c, int ic) { binnedBLAS_##R##m##R##asum(f, N, x, ix, p, ip, c, ic); } \
  static T mssq(int f, int N, const T *x, int ix, T s, T *p, int ip, T *c, int ic) { return binnedBLAS_##R##m##R##ssq(f, N, x, ix, s, p, ip, c, ic); } \
  static void mdot(int f, int N, const T *x, int ix, const T *y, int iy, T *p, int ip, T *c, int ic) { binnedBLAS_##R##m##R##dot(f, N, x, ix, y, iy, p, ip, c, ic); } \
  static void mzsum(int f, int N, const T *x, int ix, T *p, int ip, T *c, int ic) { binnedBLAS_##Z##m##Z##sum(f, N, x, ix, p, ip, c, ic); } \
  static void mzasum(int f, int N, const T *x, int ix, T *p, int ip, T *c, int ic) { binnedBLAS_##R##m##Z##asum(f, N, x, ix, p, ip, c, ic); } \
  static T mzssq(int f, int N, const T *x, int ix, T s, T *p, int ip, T *c, int ic) { return binnedBLAS_##R##m##Z##ssq(f, N, x, ix, s, p, ip, c, ic); } \
  static void mzdotu(int f, int N, const T *x, int ix, const T *y, int iy, T *p, int ip, T *c, int ic) { binnedBLAS_##Z##m##Z##dotu(f, N, x, ix, y, iy, p, ip, c, ic); } \
  static void mzdotc(int f, int N, const T *x, int ix, const T *y, int iy, T *p, int ip, T *c, int ic) { binnedBLAS_##Z##m##Z##dotc(f, N, x, ix, y, iy, p, ip, c, ic); } \
  static void bgemv(int f, char o, char t, int M, int N, T al, const T *A, int lda, const T *x, int ix, T *y, int iy) { binnedBLAS_##R##b##R##gemv(f, o, t, M, N, al, A, lda, x, ix, y, iy); } \
  static void bgemm(int f, char o, char ta, char tb, int M, int N, int K, T al, const T *A, int lda, const T *B, int ldb, T *C, int ldc) { binnedBLAS_##R##b##R##gemm(f, o, ta, tb, M, N, K, al, A, lda, B, ldb, C, ldc); } \
  static void bzgemv(int f, char o, char t, int M, int N, const T *al, const T *A, int lda, const T *x, int ix, T *y, int iy) { binnedBLAS_##Z##b##Z##gemv(f, o, t, M, N, al, A, lda, x, ix, y, iy); } \
  static void bzgemm(int f, char o, char ta, char tb, int M, int N, int K, const T *al, const T *A, int lda, const T *B, int ldb, T *C, int ldc) { binnedBLAS_##Z##b##Z##gemm(f, o, ta, tb, M, N, K, al, A, lda, B, ldb, C, ldc); } \
  static T rsum(int f, int N, const T *x, int ix) { return reproBLAS_r##R##sum(f, N, x, ix); }     \
  static T rasum(int f, int N, const T *x, int ix) { return reproBLAS_r##R##asum(f, N, x, ix); }   \
  static T rnrm2(int f, int N, const T *x, int ix) { return reproBLAS_r##R##nrm2(f, N, x, ix); }   \
  static T rdot(int f, int N, const T *x, int ix, const T *y, int iy) { return reproBLAS_r##R##dot(f, N, x, ix, y, iy); } \
  static void rzsum(int f, int N, const T *x, int ix, T *o) { reproBLAS_r##Z##sum_sub(f, N, x, ix, o); } \
  static T rzasum(int f, int N, const T *x, int ix) { return reproBLAS_r##R##Z##asum(f, N, x, ix); } \
  static T rznrm2(int f, int N, const T *x, int ix) { return reproBLAS_r##R##Z##nrm2(f, N, x, ix); } \
  static void rzdotu(int f, int N, const T *x, int ix, const T *y, int iy, T *o) { reproBLAS_r##Z##dotu_sub(f, N, x, ix, y, iy, o); } \
  static void rzdotc(int f, int N, const T *x, int ix, const T *y, int iy, T *o) { reproBLAS_r##Z##dotc_sub(f, N, x, ix, y, iy, o); } \
  static void rgemv(int f, char o, char t, int M, int N, T al, const T *A, int lda, const T *x, int ix, T be, T *y, int iy) { reproBLAS_r##R##gemv(f, o, t, M, N, al, A, lda, x, ix, be, y, iy); } \
  static void rgemm(int f, char o, char ta, char tb, int M, int N, int K, T al, const T *A, int lda, const T *B, int ldb, T be, T *C, int ldc) { reproBLAS_r##R##gemm(f, o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
  static void rzgemv(int f, char o, char t, int M, int N, const T *al, const T *A, int lda, const T *x, int ix, const T *be, T *y, int iy) { reproBLAS_r##Z##gemv(f, o, t, M, N, al, A, lda, x, ix, be, y, iy); } \
  static void rzgemm(int f, char o, char ta, char tb, int M, int N, int K, const T *al, const T *A, int lda, const T *B, int ldb, const T *be, T *C, int ldc) { reproBLAS_r##Z##gemm(f, o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
  static T dsum(int N, const T *x, int ix) { return reproBLAS_##R##sum(N, x, ix); }                \
  static T dasum(int N, const T *x, int ix) { return reproBLAS_##R##asum(N, x, ix); }              \
  static T dnrm2(int N, const T *x, int ix) { return reproBLAS_##R##nrm2(N, x, ix); }              \
  static T ddot(int N, const T *x, int ix, const T *y, int iy) { return reproBLAS_##R##dot(N, x, ix, y, iy); } \
  static void dzsum(int N, const T *x, int ix, T *o) { reproBLAS_##Z##sum_sub(N, x, ix, o); }      \
  static T dzasum(int N, const T *x, int ix) { return reproBLAS_##R##Z##asum(N, x, ix); }          \
  static T dznrm2(int N, const T *x, int ix) { return reproBLAS_##R##Z##nrm2(N, x, ix); }          \
  static void dzdotu(int N, const T *x, int ix, const T *y, int iy, T *o) { reproBLAS_##Z##dotu_sub(N, x, ix, y, iy, o); } \
  static void dzdotc(int N, const T *x, int ix, const T *y, int iy, T *o) { reproBLAS_##Z##dotc_sub(N, x, ix, y, iy, o); } \
  static void dgemv(char o, char t, int M, int N, T al, const T *A, int lda, const T *x, int ix, T be, T *y, int iy) { reproBLAS_##R##gemv(o, t, M, N, al, A, lda, x, ix, be, y, iy); } \
  static void dgemm(char o, char ta, char tb, int M, int N, int K, T al, const T *A, int lda, const T *B, int ldb, T be, T *C, int ldc) { reproBLAS_##R##gemm(o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); } \
  static void dzgemv(char o, char t, int M, int N, const T *al, const T *A, int lda, const T *x, int ix, const T *be, T *y, int iy) { reproBLAS_##Z##gemv(o, t, M, N, al, A, lda, x, ix, be, y, iy); } \
  static void dzgemm(char o, char ta, char tb, int M, int N, int K, const T *al, const T *A, int lda, const T *B, int ldb, const T *be, T *C, int ldc) { reproBLAS_##Z##gemm(o, ta, tb, M, N, K, al, A, lda, B, ldb, be, C, ldc); }
#else
#define RB_BLASFN(T, R, Z)
#endif

template <> struct Lib<double> {
  RB_CORE(double, uint64_t, d, z, binned_dbsize)
  RB_BLASFN(double, d, z)
  static constexpr int W = DBWIDTH, MAXINDEX = binned_DBMAXINDEX, MAXFOLD = binned_DBMAXFOLD, ENDURANCE = binned_DBENDURANCE;
  static constexpr int MANT = 53, EMAX = 1024, EMIN = -1074 /* exponent of the least subnormal */, ENORM = -1022;
  static double capacity() { return binned_DBCAPACITY; }
  static double ufp(double x) { return binned_ufp(x); }
  static const char *nm() { return "d"; }
};
template <> struct Lib<float> {
  RB_CORE(float, uint32_t, s, c, binned_sbsbze)
  RB_BLASFN(float, s, c)
  static constexpr int W = SBWIDTH, MAXINDEX = binned_SBMAXINDEX, MAXFOLD = binned_SBMAXFOLD, ENDURANCE = binned_SBENDURANCE;
  static constexpr int MANT = 24, EMAX = 128, EMIN = -149, ENORM = -126;
  static double capacity() { return binned_SBCAPACITY; }
  static float ufp(float x) { return binned_ufpf(x); }
  static const char *nm() { return "s"; }
};
