// X02: nonsymmetric eigenvalue routines, eigenvectors, column-major norms
#include "twin.hpp"
#include "form.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/infnorm_colmajor.hpp"
#include "tlapack/lapack/infnorm_hermitian_colmajor.hpp"
#include "tlapack/lapack/infnorm_symmetric_colmajor.hpp"
#include "tlapack/lapack/infnorm_triangular_colmajor.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/trevc3.hpp"
using namespace tlapack;
#define CALL(query, wcall, scall, ...) twice<T, L>(c, nmv, query, [&](auto& work) { return wcall; }, [&]() { return scall; }, __VA_ARGS__)
template <class T, Layout L> void tQr(Case& c)
{
    using CT = cplxOf<T>;
    size_t n = c.chance(1, 12) ? (size_t)c.range(40, 110) : (size_t)c.range(12, 40);
    bool wt = c.chance(3, 4), wz = c.chance(3, 4);
    size_t ilo = 0, ihi = n;
    if (c.chance(1, 3)) ilo = (size_t)c.range(0, (int64_t)n / 3), ihi = (size_t)c.range((int64_t)n / 2, (int64_t)n);
    Dense<T> A0(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < std::min(j + 2, n); ++i) if (i <= j || (j >= ilo && i < ihi)) A0(i, j) = uni<T>(c) + T(real_t<T>(i == j ? (int)(i % 5) : 0));
    if (c.chance(1, 3)) for (size_t j = 0; j + 1 < n; ++j) if (c.chance(1, 6)) A0(j + 1, j) = scaleP2(A0(j + 1, j), -(int)c.range(5, 40));
    Twin<T, L> A(c, n, n), Z(c, n, n);
    A.set(A0), Z.set(eye<T>(n));
    TwinV<CT> s(c, n);
    s.set(std::vector<CT>(n, CT(0)));
    auto a = A.a.view(), b = A.b.view(), z = Z.a.view(), y = Z.b.view();
    auto sa = s.a.view(), sb = s.b.view();
    QRIterationOpts o, o2;
    size_t nsr = (size_t)c.pick<int>({2, 4, 6, 8, 10, 3}), nw = (size_t)c.pick<int>({2, 4, 6, 8, 10, 12, 20, 30, 5});
    o.nshift_recommender = [nsr](size_t, size_t) { return nsr; };
    o.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
    o.nmin = (size_t)c.pick<int>({12, 15, 16, 20, 30, 75, 3});
    o.nibble = (size_t)c.pick<int>({14, 0, 100, 50});
    o2 = o;
    std::string nmv;
    c.desc("n", n, "ilo", ilo, ihi, "T", wt, "Z", wz, "ns", nsr, "nw", nw, "nmin", o.nmin, "nibble", o.nibble);
    switch (c.draw(5)) {
        case 0: nmv = "multishift_qr"; CALL(multishift_qr_worksize<T>(wt, wz, ilo, ihi, a, sa, z, o), multishift_qr_work(wt, wz, ilo, ihi, a, sa, z, work, o), multishift_qr(wt, wz, ilo, ihi, b, sb, y, o2), A, Z, s); break;
        case 1: nmv = "qr_iteration-multi"; CALL(qr_iteration_worksize<T>(wt, wz, ilo, ihi, a, sa, z, o), qr_iteration_work(wt, wz, ilo, ihi, a, sa, z, work, o), qr_iteration(wt, wz, ilo, ihi, b, sb, y, o2), A, Z, s); break;
        case 2: nmv = "qr_iteration-double"; o.variant = o2.variant = QRIterationVariant::DoubleShift; CALL(qr_iteration_worksize<T>(wt, wz, ilo, ihi, a, sa, z, o), qr_iteration_work(wt, wz, ilo, ihi, a, sa, z, work, o), qr_iteration(wt, wz, ilo, ihi, b, sb, y, o2), A, Z, s); break;
        case 3: {
            size_t ns = 0, nd = 0, ns2 = 0, nd2 = 0, w = (size_t)c.range(1, (int64_t)n / 2);
            ihi = std::max(ihi, ilo + 1);
            nmv = "aggressive_early_deflation";
            c.desc("nw", w);
            if (CALL(aggressive_early_deflation_worksize<T>(wt, wz, ilo, ihi, w, a, sa, z, ns, nd, o), (aggressive_early_deflation_work(wt, wz, ilo, ihi, w, a, sa, z, ns, nd, work, o), 0), (aggressive_early_deflation(wt, wz, ilo, ihi, w, b, sb, y, ns2, nd2, o2), 0), A, Z, s))
                c.check(ns == ns2 && nd == nd2, nmv + "/counts", ns, ns2, nd, nd2);
            break;
        }
        default: {
            size_t q = (size_t)c.range(1, (int64_t)n / 2) * 2;
            std::vector<CT> sh(q);
            for (size_t i = 0; i + 1 < q; i += 2) {
                CT x = uni<CT>(c);
                sh[i] = x, sh[i + 1] = cplx<T> ? uni<CT>(c) : std::conj(x);
            }
            nmv = "multishift_QR_sweep";
            c.desc("shifts", q);
            CALL(multishift_QR_sweep_worksize<T>(wt, wz, ilo, ihi, a, sh, z), (multishift_QR_sweep_work(wt, wz, ilo, ihi, a, sh, z, work), 0), (multishift_QR_sweep(wt, wz, ilo, ihi, b, sh, y), 0), A, Z);
        }
    }
}
#define REGN(name, fn, Q) \
    static pbt::Reg R##fn##1(name "/float/Col", Q, 60000, fn<float, Layout::ColMajor>, W2()); \
    static pbt::Reg R##fn##2(name "/double/Row", Q, 60000, fn<double, Layout::RowMajor>, W2()); \
    static pbt::Reg R##fn##3(name "/cfloat/Row", Q, 60000, fn<std::complex<float>, Layout::RowMajor>, W2()); \
    static pbt::Reg R##fn##4(name "/cdouble/Col", Q, 60000, fn<std::complex<double>, Layout::ColMajor>, W2());
REGN("qr", tQr, 1500)
template <class T, Layout L> void tTrevc(Case& c)
{
    size_t nb = c.chance(1, 20) ? (size_t)c.range(12, 40) : (size_t)c.size(1, 10);
    Form<T> f = genForm<T>(c, nb);
    size_t n = f.S.n;
    Side side = (Side)c.pick<char>({'L', 'R', 'B'});
    HowMny how = (HowMny)c.pick<char>({'A', 'B', 'S'});
    std::vector<bool> sel(n, true), sel2;
    size_t m = n;
    if (how == HowMny::Select) {
        m = 0;
        size_t p = 0;
        for (size_t s : f.bs) { bool in = c.coin(); for (size_t q = 0; q < s; ++q) sel[p + q] = in; if (in) m += s; p += s; }
    }
    sel2 = sel;
    Trevc3Opts o;
    o.block_size = genNb(c), o.block_size_solve = genNb(c);
    GMat<T, L> GT(c, n, n);
    GT.set(f.S);
    Twin<T, L> Vl(c, n, m), Vr(c, n, m);
    Dense<T> Q = anyMat<T>(c, n, m);
    Vl.set(Q), Vr.set(Q);
    auto S = GT.view(), a = Vl.a.view(), b = Vl.b.view(), x = Vr.a.view(), y = Vr.b.view();
    std::vector<real_t<T>> rw(n, std::numeric_limits<real_t<T>>::quiet_NaN());
    LegacyVector<real_t<T>> rwork(n, rw.data());
    std::string nmv = "trevc3";
    c.desc("n", n, "m", m, "side", (char)side, "how", (char)how, "nb", o.block_size, o.block_size_solve);
    CALL(trevc3_worksize(side, how, sel, S, a, x, o), trevc3_work(side, how, sel, S, a, x, rwork, work, o), trevc3(side, how, sel2, S, b, y, o), Vl, Vr);
}
REGN("trevc3", tTrevc, 5000)
template <class T, Layout L> void tNorm(Case& c)
{
    size_t m = dimF(c), n = dimF(c);
    int v = (int)c.draw(4);
    if (v == 1 || v == 2) n = m;
    Uplo u = genUplo(c);
    Diag d = genDiag(c);
    Twin<T, L> A(c, m, n);
    A.set(anyMat<T>(c, m, n));
    auto a = A.a.cview(), b = A.b.cview();
    std::string nmv;
    c.desc(m, n, nm(u), nm(d));
    switch (v) {
        case 0: nmv = "infnorm_colmajor"; CALL(infnorm_colmajor_worksize<T>(a), infnorm_colmajor_work(a, work), infnorm_colmajor(b), A); break;
        case 1: nmv = "infnorm_symmetric_colmajor"; CALL(infnorm_symmetric_colmajor_worksize<T>(u, a), infnorm_symmetric_colmajor_work(u, a, work), infnorm_symmetric_colmajor(u, b), A); break;
        case 2: nmv = "infnorm_hermitian_colmajor"; CALL(infnorm_hermitian_colmajor_worksize<T>(u, a), infnorm_hermitian_colmajor_work(u, a, work), infnorm_hermitian_colmajor(u, b), A); break;
        default: nmv = "infnorm_triangular_colmajor"; CALL(infnorm_triangular_colmajor_worksize<T>(u, d, a), infnorm_triangular_colmajor_work(u, d, a, work), infnorm_triangular_colmajor(u, d, b), A);
    }
}
REGN("norm", tNorm, 5000)
