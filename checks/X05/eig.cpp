// cxx: g++
// libs: -lquadmath -lmpfr -lgmp
// variant: ld
// variant: quad -DX5_QUAD -std=gnu++20 -O0
// variant: mp -DX5_MP=256 -O0
#include "types.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/trevc3.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/ungtr.hpp"
#include "tlapack/lapack/steqr.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> Dense<T> hess(Dense<T> H)
{
    for (size_t j = 0; j < H.n; ++j) for (size_t i = j + 2; i < H.m; ++i) H(i, j) = T(real_t<T>(0));
    return H;
}
// A = Q H Q^H, then the Schur form of H, then its eigenvectors
template <class T> void tSchur(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(1, DIG > 200 ? 14 : 20);
    Dense<T> A = gen<T>(c, n, n, kind);
    bool ms = c.chance(1, 3);
    c.desc("schur", n, kind, ms ? "multishift" : "lahqr");
    GM<T> Ag(c, n, n), Qg(c, n, n), Lg(c, n, n), Rg(c, n, n);
    Ag.set(A);
    auto Av = Ag.view();
    std::vector<T> tau(n, T(R(7)));
    if (n > 1) gehrd(0, n, Av, tau);
    Dense<T> F = Ag.get(), H = hess(F);
    Qg.set(F);
    auto Qv = Qg.view();
    if (n > 1) unghr(0, n, Qv, tau);
    else Qg.set(eye<T>(1));
    Dense<T> Q0 = Qg.get();
    res(c, "hess-residual", sub(mul(mul(Q0, H), ct(Q0)), A), nrm(A), n, 20);
    unit(c, "hess-orth", Q0, 20);
    Ag.set(H);
    std::vector<complex_type<R>> w(n);
    int info;
    try {
        info = ms ? multishift_qr(true, true, 0, n, Av, w, Qv) : lahqr(true, true, 0, n, Av, w, Qv);
    }
    catch (const std::runtime_error&) { info = 1; }
    if (info != 0) {
        if (kind == "uniform") c.fail("schur/converge", "no convergence on a generic matrix, info ", info);
        throw Discard();
    }
    Dense<T> S = Ag.get(), Z = Qg.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i)
        if (S(i, j) != T(R(0)) && (i > j + 1 || cplx<T>)) c.fail("schur/shape", "entry below the Schur form at ", i, " ", j);
    res(c, "schur-residual", sub(mul(mul(Z, S), ct(Z)), A), nrm(A), n, 20);
    unit(c, "schur-orth", Z, 20);
    // eigenvalues against the diagonal blocks: sum and per 1x1 block
    for (size_t i = 0; i < n; ++i) {
        bool sub1 = !cplx<T> && ((i + 1 < n && S(i + 1, i) != T(R(0))) || (i > 0 && S(i, i - 1) != T(R(0))));
        if (!sub1) {
            double e = std::max(absr(R(w[i].real() - re(S(i, i)))), absr(R(w[i].imag() - im(S(i, i)))));
            if (e > 4 * ULP() * nrm(A)) c.fail("schur/values", "eigenvalue ", i, " is off its diagonal entry by ", e);
        }
        else if (i + 1 < n && S(i + 1, i) != T(R(0))) {
            R a = re(S(i, i)), d = re(S(i + 1, i + 1)), pr = re(S(i, i + 1)) * re(S(i + 1, i));
            R x = w[i].real() - a, y = w[i].real() - d, v = w[i].imag();
            // (w - a)(w - d) = b c
            R fr = x * y - v * v - pr, fi = v * (x + y);
            double sc = nrm(A) * nrm(A);
            if (std::max(absr(fr), absr(fi)) > 50 * ULP() * sc) c.fail("schur/pairs", "eigenvalue pair ", i, " does not satisfy the characteristic equation of its block");
        }
    }
    // eigenvectors of the quasi-triangular matrix
    auto Lv = Lg.view();
    auto Rv = Rg.view();
    Lg.set(Dense<T>(n, n));
    Rg.set(Dense<T>(n, n));
    std::vector<bool> sel(n, true);
    trevc3(Side::Both, HowMny::All, sel, Av, Lv, Rv);
    Dense<T> V = Rg.get(), U = Lg.get();
    double worst = 0;
    for (size_t j = 0; j < n; ++j) {
        bool pair = !cplx<T> && j + 1 < n && S(j + 1, j) != T(R(0));
        for (int s = 0; s < 2; ++s) {
            const Dense<T>& X = s ? U : V;
            R vn(0);
            for (size_t i = 0; i < n; ++i) for (size_t q = j; q <= j + pair; ++q) for (R v : {R(re(X(i, q))), R(im(X(i, q)))}) { if (v < R(0)) v = -v; if (!(v <= vn)) vn = v; }
            if (!(vn > R(0)) || !isfinr(vn)) c.fail("trevc/zero", "eigenvector ", j, " is zero or not finite");
            for (size_t i = 0; i < n; ++i) {
                // S x - x lambda (right) or S^H y - y conj(lambda) (left)
                T r1 = T(R(0)), r2 = T(R(0));
                for (size_t k = 0; k < n; ++k) {
                    T e = s ? cj(S(k, i)) : S(i, k);
                    r1 = T(r1 + e * X(k, j));
                    if (pair) r2 = T(r2 + e * X(k, j + 1));
                }
                if constexpr (cplx<T>) r1 = T(r1 - X(i, j) * (s ? T(w[j].real(), R(-w[j].imag())) : T(w[j].real(), w[j].imag())));
                else {
                    R p = w[j].real(), q = s ? R(-w[j].imag()) : w[j].imag();
                    if (pair) {
                        r1 = r1 - (p * X(i, j) - q * X(i, j + 1));
                        r2 = r2 - (p * X(i, j + 1) + q * X(i, j));
                    }
                    else r1 = r1 - p * X(i, j);
                }
                worst = std::max(worst, std::max(mag(T(r1 / vn)), mag(T(r2 / vn))));
            }
        }
        if (pair) ++j;
    }
    double sn = nrm(S);
    if (sn > 0) c.ratio("trevc-residual", worst / (ULP() * (double)n * sn), 40);
    c.nontrivial(n > 2);
}
// Hermitian: tridiagonal reduction and implicit QL
template <class T> void tHerm(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(1, DIG > 200 ? 14 : 20);
    Dense<T> A = gen<T>(c, n, n, kind);
    for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < j; ++i) A(j, i) = cj(A(i, j)); A(j, j) = T(re(A(j, j))); }
    Uplo u = genUplo(c);
    c.desc("herm", n, nm(u), kind);
    GM<T> Ag(c, n, n);
    Ag.set(A);
    auto Av = Ag.view();
    std::vector<T> tau(n > 1 ? n - 1 : 0, T(R(7)));
    std::vector<R> d(n), e(n > 1 ? n - 1 : 0);
    if (n > 1) hetd2(u, Av, tau);
    Dense<T> F = Ag.get();
    for (size_t i = 0; i < n; ++i) d[i] = re(F(i, i));
    for (size_t i = 0; i + 1 < n; ++i) e[i] = u == Uplo::Upper ? re(F(i, i + 1)) : re(F(i + 1, i));
    if (n > 1) ungtr(u, Av, tau);
    else Ag.set(eye<T>(1));
    Dense<T> Q = Ag.get(), Tr(n, n);
    for (size_t i = 0; i < n; ++i) Tr(i, i) = T(d[i]);
    for (size_t i = 0; i + 1 < n; ++i) Tr(i, i + 1) = Tr(i + 1, i) = T(e[i]);
    res(c, "tridiag-residual", sub(mul(mul(Q, Tr), ct(Q)), A), nrm(A), n, 20);
    unit(c, "tridiag-orth", Q, 20);
    int info = steqr(true, d, e, Av);
    if (info != 0) c.fail("steqr/converge", "info ", info);
    Dense<T> Z = Ag.get(), D(n, n);
    for (size_t i = 0; i < n; ++i) {
        D(i, i) = T(d[i]);
        if (i > 0 && d[i] < d[i - 1]) c.fail("steqr/order", "eigenvalues out of order");
    }
    res(c, "eig-residual", sub(mul(mul(Z, D), ct(Z)), A), nrm(A), n, 20);
    unit(c, "eig-orth", Z, 20);
    c.nontrivial(n > 2);
}
#ifdef X5_MP
#define C_(a, b) (a / 8), (b / 8)
#elif defined(X5_QUAD)
#define C_(a, b) (a / 2), (b / 2)
#else
#define C_(a, b) a, b
#endif
#define R5(k, T, s) \
    static Reg k##1("schur" s, C_(1000, 60000), tSchur<T>, "n > 2"); \
    static Reg k##2("herm" s, C_(1600, 60000), tHerm<T>, "n > 2");
R5(r, Rl, "/real")
R5(z, std::complex<Rl>, "/complex")
