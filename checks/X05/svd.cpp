// cxx: g++
// libs: -lquadmath -lmpfr -lgmp
// variant: ld
// variant: quad -DX5_QUAD -std=gnu++20 -O0
// variant: mp -DX5_MP=256 -O0
#include "types.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/lahqz.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> void tSvd(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t m = c.size(1, DIG > 200 ? 12 : 20), n = c.coin() ? m : c.size(1, DIG > 200 ? 12 : 20), k = std::min(m, n);
    Dense<T> A = gen<T>(c, m, n, kind);
    c.desc("svd", m, n, kind);
    GM<T> Ag(c, m, n), Ug(c, m, m), Vg(c, n, n);
    Ag.set(A);
    Ug.set(Dense<T>(m, m));
    Vg.set(Dense<T>(n, n));
    auto Av = Ag.view();
    auto Uv = Ug.view();
    auto Vv = Vg.view();
    std::vector<R> s(k);
    int info = gesvd(true, true, Av, s, Uv, Vv);
    if (info != 0) c.fail("svd/converge", "info ", info);
    Dense<T> U = Ug.get(), V = Vg.get(), S(m, n);
    for (size_t i = 0; i < k; ++i) {
        S(i, i) = T(s[i]);
        if (s[i] < R(0) || (i > 0 && s[i] > s[i - 1])) c.fail("svd/order", "singular values negative or out of order");
    }
    res(c, "svd-residual", sub(mul(mul(U, S), V), A), nrm(A), std::max(m, n), 150);
    unit(c, "svd-left", U, 20);
    unit(c, "svd-right", V, 20);
    c.nontrivial(k > 2);
}
template <class T> void tPencil(Case& c)
{
    using R = real_t<T>;
    std::string kind, kb;
    size_t n = c.size(1, DIG > 200 ? 12 : 18);
    Dense<T> A = gen<T>(c, n, n, kind), B = gen<T>(c, n, n, kb);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) B(i, j) = T(R(0));
    c.desc("pencil", n, kind, kb);
    GM<T> Ag(c, n, n), Bg(c, n, n), Qg(c, n, n), Zg(c, n, n);
    Ag.set(A);
    Bg.set(B);
    Qg.set(eye<T>(n));
    Zg.set(eye<T>(n));
    auto Av = Ag.view();
    auto Bv = Bg.view();
    auto Qv = Qg.view();
    auto Zv = Zg.view();
    if (n > 1) gghrd(true, true, 0, n, Av, Bv, Qv, Zv);
    Dense<T> H = Ag.get(), P = Bg.get(), Q = Qg.get(), Z = Zg.get();
    res(c, "gghrd-A", sub(mul(mul(Q, H), ct(Z)), A), nrm(A), n, 20);
    res(c, "gghrd-B", sub(mul(mul(Q, P), ct(Z)), B), nrm(B), n, 20);
    std::vector<complex_type<R>> al(n);
    std::vector<T> be(n);
    int info;
    try { info = lahqz(true, true, true, 0, n, Av, Bv, al, be, Qv, Zv); }
    catch (const std::runtime_error&) { info = 1; }
    if (info != 0) {
        if (kind == "uniform" && kb == "uniform") c.fail("qz/converge", "no convergence on a generic pencil, info ", info);
        throw Discard();
    }
    Dense<T> S = Ag.get(), W = Bg.get();
    Q = Qg.get();
    Z = Zg.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (W(i, j) != T(R(0))) c.fail("qz/shape-B", "entry below the diagonal at ", i, " ", j);
        if (S(i, j) != T(R(0)) && (i > j + 1 || cplx<T>)) c.fail("qz/shape-A", "entry below the Schur form at ", i, " ", j);
    }
    res(c, "qz-A", sub(mul(mul(Q, S), ct(Z)), A), nrm(A), n, 20);
    res(c, "qz-B", sub(mul(mul(Q, W), ct(Z)), B), nrm(B), n, 20);
    unit(c, "qz-Q", Q, 20);
    unit(c, "qz-Z", Z, 20);
    c.nontrivial(n > 2);
}
#ifdef X5_MP
#define C_(a, b) (a / 8), (b / 8)
#elif defined(X5_QUAD)
#define C_(a, b) (a / 2), (b / 2)
#else
#define C_(a, b) a, b
#endif
#define R5(k, T, s) \
    static Reg k##1("svd" s, C_(1200, 60000), tSvd<T>, "more than two singular values"); \
    static Reg k##2("pencil" s, C_(1000, 60000), tPencil<T>, "n > 2");
R5(r, Rl, "/real")
R5(z, std::complex<Rl>, "/complex")
