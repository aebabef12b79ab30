// cxx: g++
// flags: -O0
// variant: size_t
// variant: int64 -DTLAPACK_SIZE_T=int64_t -DX4_INT64
#include <tlapack/legacy_api/blas.hpp>
#include "blas.hpp"
using namespace x4;
namespace L = tlapack::legacy;
static tlapack::Layout lv(Lay l) { return l == Col ? tlapack::Layout::ColMajor : l == Row ? tlapack::Layout::RowMajor : (tlapack::Layout)'?'; }
static tlapack::Op ov(Tr t) { return t == N ? tlapack::Op::NoTrans : t == Tt ? tlapack::Op::Trans : t == x4::C ? tlapack::Op::ConjTrans : (tlapack::Op)'?'; }
static tlapack::Uplo uv(Tri u) { return u == Up ? tlapack::Uplo::Upper : u == Lo ? tlapack::Uplo::Lower : u == Gen ? tlapack::Uplo::General : (tlapack::Uplo)'?'; }
static tlapack::Side sv(int s) { return s == 1 ? tlapack::Side::Left : s == 0 ? tlapack::Side::Right : (tlapack::Side)'?'; }
static tlapack::Diag dv(int d) { return d == 1 ? tlapack::Diag::Unit : d == 0 ? tlapack::Diag::NonUnit : (tlapack::Diag)'?'; }
template <class T> struct Leg {
    using R = real_t<T>;
    static constexpr bool hasSymv = true, hasCsyr = true, general = true;
    static R asum(I n, const T* x, I ix) { return L::asum(n, x, ix); }
    static void axpy(I n, T a, const T* x, I ix, T* y, I iy) { L::axpy(n, a, x, ix, y, iy); }
    static void copy(I n, const T* x, I ix, T* y, I iy) { L::copy(n, x, ix, y, iy); }
    static void swap(I n, T* x, I ix, T* y, I iy) { L::swap(n, x, ix, y, iy); }
    static T dot(I n, const T* x, I ix, const T* y, I iy) { return L::dot(n, x, ix, y, iy); }
    static T dotu(I n, const T* x, I ix, const T* y, I iy) { return L::dotu(n, x, ix, y, iy); }
    static I iamax(I n, const T* x, I ix) { return (I)L::iamax(n, x, ix); }
    static R nrm2(I n, const T* x, I ix) { return L::nrm2(n, x, ix); }
    static void scal(I n, T a, T* x, I ix) { L::scal(n, a, x, ix); }
    static void rot(I n, T* x, I ix, T* y, I iy, R c, T s) { L::rot(n, x, ix, y, iy, c, s); }
    static void rotr(I n, T* x, I ix, T* y, I iy, R c, R s) { L::rot(n, x, ix, y, iy, c, T(s)); }
    static void rotm(I n, T* x, I ix, T* y, I iy, const T* p) { L::rotm(n, x, ix, y, iy, p); }
    static void rotg(T* a, T* b, R* c, T* s) { L::rotg(a, b, c, s); }
    static void rotmg(T* d1, T* d2, T* x, T y, T* p) { L::rotmg(d1, d2, x, y, p); }
    static void gemv(Lay l, Tr t, I m, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { L::gemv(lv(l), ov(t), m, n, al, A, lda, x, ix, be, y, iy); }
    static void ger(Lay l, I m, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { L::ger(lv(l), m, n, al, x, ix, y, iy, A, lda); }
    static void geru(Lay l, I m, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { L::geru(lv(l), m, n, al, x, ix, y, iy, A, lda); }
    static void hemv(Lay l, Tri u, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { L::hemv(lv(l), uv(u), n, al, A, lda, x, ix, be, y, iy); }
    static void symv(Lay l, Tri u, I n, T al, const T* A, I lda, const T* x, I ix, T be, T* y, I iy) { L::symv(lv(l), uv(u), n, al, A, lda, x, ix, be, y, iy); }
    static void her(Lay l, Tri u, I n, R al, const T* x, I ix, T* A, I lda) { L::her(lv(l), uv(u), n, al, x, ix, A, lda); }
    static void syr(Lay l, Tri u, I n, T al, const T* x, I ix, T* A, I lda) { L::syr(lv(l), uv(u), n, al, x, ix, A, lda); }
    static void her2(Lay l, Tri u, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { L::her2(lv(l), uv(u), n, al, x, ix, y, iy, A, lda); }
    static void syr2(Lay l, Tri u, I n, T al, const T* x, I ix, const T* y, I iy, T* A, I lda) { L::syr2(lv(l), uv(u), n, al, x, ix, y, iy, A, lda); }
    static void trmv(Lay l, Tri u, Tr t, int d, I n, const T* A, I lda, T* x, I ix) { L::trmv(lv(l), uv(u), ov(t), dv(d), n, A, lda, x, ix); }
    static void trsv(Lay l, Tri u, Tr t, int d, I n, const T* A, I lda, T* x, I ix) { L::trsv(lv(l), uv(u), ov(t), dv(d), n, A, lda, x, ix); }
    static void gemm(Lay l, Tr a, Tr b, I m, I n, I k, T al, const T* A, I lda, const T* B, I ldb, T be, T* C, I ldc) { L::gemm(lv(l), ov(a), ov(b), m, n, k, al, A, lda, B, ldb, be, C, ldc); }
    static void hemm(Lay l, int s, Tri u, I m, I n, T al, const T* A, I lda, const T* B, I ldb, T be, T* C, I ldc) { L::hemm(lv(l), sv(s), uv(u), m, n, al, A, lda, B, ldb, be, C, ldc); }
    static void symm(Lay l, int s, Tri u, I m, I n, T al, const T* A, I lda, const T* B, I ldb, T be, T* C, I ldc) { L::symm(lv(l), sv(s), uv(u), m, n, al, A, lda, B, ldb, be, C, ldc); }
    static void herk(Lay l, Tri u, Tr t, I n, I k, R al, const T* A, I lda, R be, T* C, I ldc) { L::herk(lv(l), uv(u), ov(t), n, k, al, A, lda, be, C, ldc); }
    static void syrk(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, T be, T* C, I ldc) { L::syrk(lv(l), uv(u), ov(t), n, k, al, A, lda, be, C, ldc); }
    static void her2k(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, const T* B, I ldb, R be, T* C, I ldc) { L::her2k(lv(l), uv(u), ov(t), n, k, al, A, lda, B, ldb, be, C, ldc); }
    static void syr2k(Lay l, Tri u, Tr t, I n, I k, T al, const T* A, I lda, const T* B, I ldb, T be, T* C, I ldc) { L::syr2k(lv(l), uv(u), ov(t), n, k, al, A, lda, B, ldb, be, C, ldc); }
    static void trmm(Lay l, int s, Tri u, Tr t, int d, I m, I n, T al, const T* A, I lda, T* B, I ldb) { L::trmm(lv(l), sv(s), uv(u), ov(t), dv(d), m, n, al, A, lda, B, ldb); }
    static void trsm(Lay l, int s, Tri u, Tr t, int d, I m, I n, T al, const T* A, I lda, T* B, I ldb) { L::trsm(lv(l), sv(s), uv(u), ov(t), dv(d), m, n, al, A, lda, B, ldb); }
};
#ifdef X4_INT64
X4REG(d, "double", double, Leg)
X4REG(z, "cdouble", std::complex<double>, Leg)
X4BAD(d, "double", double, Leg)
X4BAD(z, "cdouble", std::complex<double>, Leg)
#else
X4REG(f, "float", float, Leg)
X4REG(cf, "cfloat", std::complex<float>, Leg)
X4BAD(f, "float", float, Leg)
X4BAD(cf, "cfloat", std::complex<float>, Leg)
#endif
