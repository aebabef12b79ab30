// env: PBT_CPU_LIMIT=40
// X08: factorizations and recursive kernels on any data, sizes from zero
#include "wild.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potf2.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/pttrf.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/trsm_tri.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/gghd3.hpp"
using namespace tlapack;
template <class T, Layout L> void tFact(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), v = (int)c.draw(13);
    size_t n = c.chance(1, 12) ? (size_t)c.range(20, 70) : c.size(0, 14), m = v < 4 ? c.size(0, 20) : n, k = std::min(m, n), nb = (size_t)c.range(1, 12);
    const char* nm[] = {"getrf", "geqrf-family", "geqrt3/gelqt", "gebrd", "potrf", "potri/potrs", "pbtrf", "pttrf", "trtri/lauum", "products", "gehrd", "hetd2", "gghrd"};
    if (v == 2 && m < n) std::swap(m, n), k = n;
    std::string w = nm[v];
    c.desc(w, kn(kind), m, n, "nb", nb);
    c.label(w + " " + kn(kind));
    c.nontrivial(n > 1);
    Uplo u = c.coin() ? Uplo::Upper : Uplo::Lower;
    Dense<T> A0 = wild<T>(c, m, n, kind);
    if (v >= 4 && v <= 6) {  // a Hermitian matrix, dominant when generic
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) {
            if (i < j) A0(j, i) = cj(A0(i, j));
            else A0(i, i) = T(re(A0(i, i)));
            if (i == j && kind == Generic) A0(i, i) = T(R(2 * n));
        }
    }
    if (v == 8 && kind == Generic) for (size_t j = 0; j < n; ++j) A0(j, j) = T(R(2));
    auto a = gm<T, L>(c, A0), b = gm<T, L>(c, wild<T>(c, m, n, c.coin() ? kind : Generic)), t = gm<T, L>(c, Dense<T>(m, n));
    auto A = a.view(), B = b.view(), C = t.view();
    std::vector<T> tau(k), tau2(k);
    std::vector<size_t> piv(k);
    EcOpts ec;
    ec.ec.internal = c.coin();
    int info = 0;
    bool ok = true, pd = false;
    Clock clk(c, w, 10);
    switch (v) {
        case 0: {
            GetrfOpts o;
            o.variant = c.coin() ? GetrfVariant::Recursive : GetrfVariant::Level0;
            ok = tries(c, [&] { info = getrf(A, piv, o); });
            if (ok && m == n) {
                GetriOpts gi;
                gi.variant = c.coin() ? GetriVariant::UILI : GetriVariant::UXLI;
                tries(c, [&] { getri(A, piv, gi); });
            }
            break;
        }
        case 1: switch ((int)c.draw(4)) {
            case 0: { GeqrfOpts o; o.nb = nb; ok = tries(c, [&] { info = geqrf(A, tau, o); }); break; }
            case 1: { GelqfOpts o; o.nb = nb; ok = tries(c, [&] { info = gelqf(A, tau, o); }); break; }
            case 2: { GeqlfOpts o; o.nb = nb; ok = tries(c, [&] { info = geqlf(A, tau, o); }); break; }
            default: { GerqfOpts o; o.nb = nb; ok = tries(c, [&] { info = gerqf(A, tau, o); }); break; }
        } break;
        case 2: {
            if (c.coin()) {
                auto q = gm<T, L>(c, Dense<T>(n, n));
                auto Q = q.view();
                tries(c, [&] { geqrt3(A, Q); });
            }
            else {
                auto q = gm<T, L>(c, Dense<T>(m, std::min<size_t>(nb, std::max<size_t>(1, n))));
                auto Q = q.view();
                if (n && m) tries(c, [&] { gelqt(A, Q); });
            }
            break;
        }
        case 3: { GebrdOpts o; o.nb = nb; ok = tries(c, [&] { info = gebrd(A, tau, tau2, o); }); break; }
        case 4: {
            PotrfOpts o(ec);
            o.nb = nb;
            o.variant = c.pick({PotrfVariant::Blocked, PotrfVariant::Recursive, PotrfVariant::Level2, PotrfVariant::RightLooking});
            ok = tries(c, [&] { info = potrf(u, A, o); });
            pd = true;
            break;
        }
        case 5: {
            ok = tries(c, [&] { info = potrf(u, A); });
            if (ok && info == 0) tries(c, [&] { potrs(u, A, B); });
            pd = true;
            break;
        }
        case 6: {
            size_t kd = n ? c.draw(n) : 0;
            BlockedBandedCholeskyOpts o(ec);
            o.nb = nb;
            ok = tries(c, [&] { pbtrf_with_workspace(u, A, kd, o); });
            break;
        }
        case 7: {
            std::vector<R> d = wildV<R>(c, n, kind);
            std::vector<T> e = wildV<T>(c, n ? n - 1 : 0, kind);
            if (kind == Generic) for (auto& x : d) x = 4;
            ok = tries(c, [&] { if constexpr (!cplx<T>) info = pttrf(d, e, ec); });
            if (kind == Generic && info != 0) c.fail("pttrf/no-convergence", "info ", info);
            break;
        }
        case 8: {
            EcOpts o = ec;
            if (c.coin()) ok = tries(c, [&] { info = trtri_recursive(u, c.coin() ? Diag::Unit : Diag::NonUnit, A, o); });
            else ok = tries(c, [&] { info = lauum_recursive(u, A); });
            break;
        }
        case 9: {
            T al = each<T>([&] { return c.chance(1, 4) ? pickExtreme<R>(c) : uniR<R>(c); }), be = each<T>([&] { return uniR<R>(c); });
            int r = (int)c.draw(8);
            c.label("product " + std::to_string(r));
            switch (r) {
                case 0: tries(c, [&] { mult_llh(A); }); break;
                case 1: tries(c, [&] { mult_uhu(A); }); break;
                case 2: tries(c, [&] { mult_hehe(u, al, A, B, be, C); }); break;
                case 3: tries(c, [&] { lu_mult(A); }); break;
                case 4: tries(c, [&] { ul_mult(A); }); break;
                case 5: tries(c, [&] { gemmtr(u, Op::NoTrans, Op::ConjTrans, al, A, B, be, C); }); break;
                case 6: tries(c, [&] { hemm2(c.coin() ? Side::Left : Side::Right, u, Op::NoTrans, al, A, B, be, C); }); break;
                default: tries(c, [&] { trsm_tri(c.coin() ? Side::Left : Side::Right, u, Op::NoTrans, Diag::NonUnit, al, A, B); }); break;
            }
            break;
        }
        case 10: {
            size_t ilo = 0, ihi = n;
            if (n > 1 && c.coin()) ilo = c.draw(n - 1), ihi = ilo + 1 + c.draw(n - ilo);
            if (n > 1) {
                std::vector<T> th(n - 1);
                GehrdOpts o;
                o.nb = nb;
                o.nx_switch = c.draw(n + 2);
                ok = tries(c, [&] { info = gehrd(ilo, ihi, A, th, o); });
            }
            break;
        }
        case 11: {
            std::vector<T> th(n ? n - 1 : 0);
            ok = tries(c, [&] { info = hetd2(u, A, th); });
            break;
        }
        default: {
            if (n < 2) break;
            auto q = gm<T, L>(c, eye<T>(n)), z = gm<T, L>(c, eye<T>(n));
            auto Q = q.view(), Z = z.view();
            if (c.coin()) ok = tries(c, [&] { info = gghrd(true, true, 0, n, A, B, Q, Z); });
            else {
                Gghd3Opts o;
                o.nb = nb;
                                ok = tries(c, [&] { info = gghd3(true, true, 0, n, A, B, Q, Z, o); });
            }
            break;
        }
    }
    clk.stop();
    c.label(ok && info == 0 ? "success" : "failure reported");
    if (kind == Generic && v != 6 && (!ok || info != 0)) c.fail(w + "/no-success", "info ", info, " on a generic finite matrix");
    // a factor with a NaN or nonpositive pivot is not a success
    if (pd && v == 4 && ok && info == 0)
        for (size_t j = 0; j < n; ++j) if (!(re(a.get()(j, j)) > 0)) c.fail(w + "/success-not-definite", "diagonal ", j, " of the factor is ", re(a.get()(j, j)), " though success was reported");
}
REG8("fact", 5000, tFact, "order above 1")
