// The C and CBLAS wrappers (src/tlapack_cwrappers.cpp, compiled here as the build does) on the same generated calls.
// cxx: g++
// flags: -O0
// variant: c
// variant: cblas -DBUILD_CBLAS -DCBLAS_INT=int64_t
#include <../src/tlapack_cwrappers.cpp>
#undef I
#include "blas.hpp"
using x4::I;
using x4::Lay;
using x4::Tr;
using x4::Tri;
using x4::real_t;
#ifdef BUILD_CBLAS
static CBLAS_LAYOUT lv(Lay l) { return l == x4::Col ? CblasColMajor : CblasRowMajor; }
static CBLAS_TRANSPOSE ov(Tr t) { return t == x4::N ? CblasNoTrans : t == x4::Tt ? CblasTrans : CblasConjTrans; }
static CBLAS_UPLO uv(Tri u) { return u == x4::Up ? CblasUpper : CblasLower; }
static CBLAS_SIDE sv(int s) { return s == 1 ? CblasLeft : CblasRight; }
static CBLAS_DIAG dv(int d) { return d == 1 ? CblasUnit : CblasNonUnit; }
constexpr bool gen3 = false;
#else
static Layout lv(Lay l) { return l == x4::Col ? ColMajor : RowMajor; }
static Op ov(Tr t) { return t == x4::N ? NoTrans : t == x4::Tt ? Trans : ConjTrans; }
static Uplo uv(Tri u) { return u == x4::Up ? Upper : u == x4::Lo ? Lower : General; }
static Side sv(int s) { return s == 1 ? Left : Right; }
static Diag dv(int d) { return d == 1 ? Unit : NonUnit; }
constexpr bool gen3 = true;
#endif
template <class T> struct CT { typedef T type; };
template <> struct CT<std::complex<float>> { typedef float _Complex type; };
template <> struct CT<std::complex<double>> { typedef double _Complex type; };
template <class T> auto P(const T* p) { return reinterpret_cast<const typename CT<T>::type*>(p); }
template <class T> auto P(T* p) { return reinterpret_cast<typename CT<T>::type*>(p); }
template <class T> auto S(T v) { typename CT<T>::type z; static_assert(sizeof z == sizeof v); memcpy(&z, &v, sizeof v); return z; }
template <class T, class Z> T B(Z z) { T v; static_assert(sizeof z == sizeof v); memcpy(&v, &z, sizeof v); return v; }
template <class T> struct W;
#define FN(name) BLAS_FUNCTION(name)
#define COMMON(p) \
    using R = real_t<T>; \
    static R asum(I n, const T* x, I ix) { return FN(p##asum)(n, P(x), ix); } \
    static void axpy(I n, T a, const T* x, I ix, T* y, I iy) { FN(p##axpy)(n, S(a), P(x), ix, P(y), iy); } \
    static void copy(I n, const T* x, I ix, T* y, I iy) { FN(p##copy)(n, P(x), ix, P(y), iy); } \
    static void swap(I n, T* x, I ix, T* y, I iy) { FN(p##swap)(n, P(x), ix, P(y), iy); } \
    static T dot(I n, const T* x, I ix, const T* y, I iy) { return B<T>(FN(p##dot)(n, P(x), ix, P(y), iy)); } \
    static T dotu(I n, const T* x, I ix, const T* y, I iy) { return B<T>(FN(p##dotu)(n, P(x), ix, P(y), iy)); } \
    static I iamax(I n, const T* x, I ix) { return (I)FN(i##p##amax)(n, P(x), ix); } \
    static R nrm2(I n, const T* x, I ix) { return FN(p##nrm2)(n, P(x), ix); } \
    static void scal(I n, T a, T* x, I ix) { FN(p##scal)(n, S(a), P(x), ix); } \
    static void rot(I n, T* x, I ix, T* y, I iy, R c, T s) { FN(p##rot)(n, P(x), ix, P(y), iy, c, S(s)); } \
    static void rotg(T* a, T* b, R* c, T* s) { FN(p##rotg)(P(a), P(b), c, P(s)); } \
    static void gemv(Lay l, Tr t, I m, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { FN(p##gemv)(lv(l), ov(t), m, n, S(al), P(A), lda, P(x), ix, S(be), P(y), iy); } \
    static void ger(Lay l, I m, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { FN(p##ger)(lv(l), m, n, S(al), P(x), ix, P(y), iy, P(A), lda); } \
    static void geru(Lay l, I m, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { FN(p##geru)(lv(l), m, n, S(al), P(x), ix, P(y), iy, P(A), lda); } \
    static void hemv(Lay l, Tri u, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { FN(p##hemv)(lv(l), uv(u), n, S(al), P(A), lda, P(x), ix, S(be), P(y), iy); } \
    static void symv(Lay l, Tri u, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { FN(p##symv)(lv(l), uv(u), n, S(al), P(A), lda, P(x), ix, S(be), P(y), iy); } \
    static void her(Lay l, Tri u, I n, R al, const T* x, I ix, T* A, I lda) { FN(p##her)(lv(l), uv(u), n, al, P(x), ix, P(A), lda); } \
    static void her2(Lay l, Tri u, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { FN(p##her2)(lv(l), uv(u), n, S(al), P(x), ix, P(y), iy, P(A), lda); } \
    static void syr2(Lay l, Tri u, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { FN(p##syr2)(lv(l), uv(u), n, S(al), P(x), ix, P(y), iy, P(A), lda); } \
    static void trmv(Lay l, Tri u, Tr t, int d, I n, const T* A, I lda, T* x, I ix) { FN(p##trmv)(lv(l), uv(u), ov(t), dv(d), n, P(A), lda, P(x), ix); } \
    static void trsv(Lay l, Tri u, Tr t, int d, I n, const T* A, I lda, T* x, I ix) { FN(p##trsv)(lv(l), uv(u), ov(t), dv(d), n, P(A), lda, P(x), ix); } \
    static void gemm(Lay l, Tr a, Tr b, I m, I n, I k, T al, const T* A, I lda, const T* Bp, I ldb, T be, T* C, I ldc) { FN(p##gemm)(lv(l), ov(a), ov(b), m, n, k, S(al), P(A), lda, P(Bp), ldb, S(be), P(C), ldc); } \
    static void hemm(Lay l, int s, Tri u, I m, I n, T al, const T* A, I lda, const T* Bp, I ldb, T be, T* C, I ldc) { FN(p##hemm)(lv(l), sv(s), uv(u), m, n, S(al), P(A), lda, P(Bp), ldb, S(be), P(C), ldc); } \
    static void symm(Lay l, int s, Tri u, I m, I n, T al, const T* A, I lda, const T* Bp, I ldb, T be, T* C, I ldc) { FN(p##symm)(lv(l), sv(s), uv(u), m, n, S(al), P(A), lda, P(Bp), ldb, S(be), P(C), ldc); } \
    static void herk(Lay l, Tri u, Tr t, I n, I k, R al, const T* A, I lda, R be, T* C, I ldc) { FN(p##herk)(lv(l), uv(u), ov(t), n, k, al, P(A), lda, be, P(C), ldc); } \
    static void syrk(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, T be, T* C, I ldc) { FN(p##syrk)(lv(l), uv(u), ov(t), n, k, S(al), P(A), lda, S(be), P(C), ldc); } \
    static void her2k(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, const T* Bp, I ldb, R be, T* C, I ldc) { FN(p##her2k)(lv(l), uv(u), ov(t), n, k, S(al), P(A), lda, P(Bp), ldb, be, P(C), ldc); } \
    static void syr2k(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, const T* Bp, I ldb, T be, T* C, I ldc) { FN(p##syr2k)(lv(l), uv(u), ov(t), n, k, S(al), P(A), lda, P(Bp), ldb, S(be), P(C), ldc); } \
    static void trmm(Lay l, int s, Tri u, Tr t, int d, I m, I n, T al, const T* A, I lda, T* Bp, I ldb) { FN(p##trmm)(lv(l), sv(s), uv(u), ov(t), dv(d), m, n, S(al), P(A), lda, P(Bp), ldb); } \
    static void trsm(Lay l, int s, Tri u, Tr t, int d, I m, I n, T al, const T* A, I lda, T* Bp, I ldb) { FN(p##trsm)(lv(l), sv(s), uv(u), ov(t), dv(d), m, n, S(al), P(A), lda, P(Bp), ldb); }
#define REAL(p) \
    static constexpr bool hasSymv = true, hasCsyr = true, general = gen3; \
    static void syr(Lay l, Tri u, I n, T al, const T* x, I ix, T* A, I lda) { FN(p##syr)(lv(l), uv(u), n, al, x, ix, A, lda); } \
    static void rotm(I n, T* x, I ix, T* y, I iy, const T* h) { FN(p##rotm)(n, x, ix, y, iy, h); } \
    static void rotmg(T* d1, T* d2, T* x, T y, T* h) { FN(p##rotmg)(d1, d2, x, y, h); }
#define CPLX(rt) \
    static constexpr bool hasSymv = true, hasCsyr = false, general = gen3; \
    static void rotr(I n, T* x, I ix, T* y, I iy, R c, R s) { FN(rt)(n, P(x), ix, P(y), iy, c, s); }
template <> struct W<float> { using T = float; COMMON(s) REAL(s) };
template <> struct W<double> { using T = double; COMMON(d) REAL(d) };
template <> struct W<std::complex<float>> { using T = std::complex<float>; COMMON(c) CPLX(csrot) };
template <> struct W<std::complex<double>> { using T = std::complex<double>; COMMON(z) CPLX(zdrot) };
X4REG(f, "float", float, W)
X4REG(d, "double", double, W)
X4REG(cf, "cfloat", std::complex<float>, W)
X4REG(z, "cdouble", std::complex<double>, W)
