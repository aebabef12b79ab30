// env: PBT_CPU_LIMIT=40
// X08: singular value routines and least squares drivers on any data
#include "wild.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/svd_qr.hpp"
#include "tlapack/lapack/tik_svd.hpp"
#include "tlapack/lapack/tik_qr.hpp"
#include "tlapack/lapack/tik_bidiag_elden.hpp"
using namespace tlapack;
template <class T, Layout L> void tSvdQr(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), ke = c.coin() ? kind : anyKind(c);
    size_t n = c.size(0, 30);
    Uplo u = c.coin() ? Uplo::Upper : Uplo::Lower;
    bool wu = c.coin(), wv = c.coin();
    std::vector<R> d = wildV<R>(c, n, kind), e = wildV<R>(c, n ? n - 1 : 0, ke);
    c.desc("svd_qr", kn(kind), kn(ke), "n", n, u == Uplo::Upper ? "upper" : "lower", "U", wu, "V", wv);
    c.label(std::string("svd_qr ") + kn(kind));
    c.nontrivial(n > 2);
    auto gu = gm<T, L>(c, eye<T>(n)), gv = gm<T, L>(c, eye<T>(n));
    auto uv = gu.view(), vv = gv.view();
    int info = 0;
    Clock t(c, "svd_qr", 10);
    if (!tries(c, [&] { info = svd_qr(u, wu, wv, d, e, uv, vv); })) info = -1;
    t.stop();
    c.label(info == 0 ? "converged" : "failure reported");
    if (kind == Generic && ke == Generic && info != 0) c.fail("svd_qr/no-convergence", "info ", info, " on a generic finite matrix");
    if (info == 0 && allFinite(d) && allFinite(e)) {
        for (size_t i = 0; i + 1 < n; ++i) {
            if (e[i] != R(0)) c.fail("svd_qr/success-without-convergence", "off-diagonal entry ", i, " is ", e[i], " though success was reported");
            if (!(d[i] >= d[i + 1])) c.fail("svd_qr/success-unsorted", "values ", i, " and ", i + 1, ": ", d[i], " ", d[i + 1]);
        }
    }
}
template <class T, Layout L> void tDrivers(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), v = (int)c.draw(4);
    size_t m = c.size(0, 14), n = c.size(0, 14);
    if (v > 0 && m < n) std::swap(m, n);
    std::string w = v == 0 ? "gesvd" : v == 1 ? "tik_svd" : v == 2 ? "tik_qr" : "tik_bidiag_elden";
    c.desc(w, kn(kind), m, n);
    c.label(w + " " + kn(kind));
    c.nontrivial(m > 1 && n > 1);
    auto a = gm<T, L>(c, wild<T>(c, m, n, kind));
    auto av = a.view();
    if (v == 0) {
        GesvdOpts o;
        o.shapethresh = c.pick<float>({1.6f, 1.0f, 100.0f});
        bool wu = c.coin(), wv = c.coin();
        auto gu = gm<T, L>(c, Dense<T>(m, m)), gv = gm<T, L>(c, Dense<T>(n, n));
        auto uv = gu.view(), vv = gv.view();
        std::vector<R> s(std::min(m, n));
        int info = 0;
        Clock t(c, w, 10);
        if (!tries(c, [&] { info = gesvd(wu, wv, av, s, uv, vv, o); })) info = -1;
        t.stop();
        c.label(info == 0 ? "converged" : "failure reported");
        if (kind == Generic && info != 0) c.fail("gesvd/no-convergence", "info ", info, " on a generic finite matrix");
    }
    else {
        size_t k = (size_t)c.range(1, 3);
        auto b = gm<T, L>(c, wild<T>(c, m, k, c.coin() ? Generic : anyKind(c)));
        auto bv = b.view();
        R lam = c.chance(1, 3) ? std::fabs(pickExtreme<R>(c)) : R(0.5);
        Clock t(c, w, 10);
        tries(c, [&] {
            if (v == 1) tik_svd(av, bv, lam);
            else if (v == 2) tik_qr(av, bv, lam);
            else tik_bidiag_elden(av, bv, lam);
        });
        t.stop();
    }
}
REG8("svd_qr", 2000, tSvdQr, "n > 2")
REG8("drivers", 1500, tDrivers, "more than one row and column")
