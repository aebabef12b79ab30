// env: PBT_CPU_LIMIT=40
// X08: kernels with rescaling or iteration loops, on any data
#include "wild.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/blas/rotg.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/lapack/lapy2.hpp"
#include "tlapack/lapack/lapy3.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/lassq.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/rscl.hpp"
#include "tlapack/lapack/laed4.hpp"
#include "tlapack/lapack/svd22.hpp"
#include "tlapack/lapack/singularvalues22.hpp"
#include "tlapack/lapack/laev2.hpp"
#include "tlapack/lapack/lahqr_schur22.hpp"
#include "tlapack/lapack/lahqr_eig22.hpp"
#include "tlapack/lapack/lahqz_eig22.hpp"
#include "tlapack/lapack/inv_house3.hpp"
#include "tlapack/lapack/lasrt.hpp"
#include "tlapack/lapack/lamrg.hpp"
#include "tlapack/lapack/larnv.hpp"
using namespace tlapack;
template <class T, Layout L> void tKernel(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), v = (int)c.draw(12);
    size_t n = c.size(0, 20);
    const char* nm[] = {"larfg", "lascl", "rscl", "lassq/nrm2", "rotg/lapy", "ladiv", "svd22", "laev2", "schur22", "eig22", "inv_house3", "lasrt"};
    std::string w = nm[v];
    std::vector<T> x = wildV<T>(c, n, kind), y = wildV<T>(c, n, kind), s = wildV<T>(c, 16, kind);
    std::vector<R> r = wildV<R>(c, 16, kind);
    c.desc(w, kn(kind), "n", n, "x", show(colVec(x)), "s", show(colVec(s), 4), "r", show(colVec(r), 4));
    c.label(w + " " + kn(kind));
    c.nontrivial(true);
    R q1, q2, q3, q4, q5, q6;
    complex_type<R> z1, z2;
    Clock clk(c, w, 1);
    switch (v) {
        case 0: { T tau, al = s[0]; larfg(c.coin() ? StoreV::Columnwise : StoreV::Rowwise, al, x, tau); break; }
        case 1: {
            auto a = gm<T, L>(c, wild<T>(c, n, c.size(0, 6), kind));
            auto A = a.view();
            R den = r[0], num = r[1];
            if (den == R(0) || std::isnan(den)) den = R(1);
            if (std::isnan(num)) num = R(2);
            Uplo u = c.pick({Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower});
            if (c.chance(3, 4)) lascl(u, den, num, A);
            else lascl(BandAccess{n ? n - 1 : 0, a.n ? a.n - 1 : 0}, den, num, A);
            break;
        }
        case 2: if (c.coin()) rscl(s[0], x); else rscl(r[0], x); break;
        case 3: q1 = r[0], q2 = r[1]; lassq(x, q1, q2); q3 = nrm2(x); break;
        case 4: { T a = s[0], b = s[1], sn; R cs; rotg(a, b, cs, sn); q1 = lapy2(r[0], r[1]); q2 = lapy3(r[0], r[1], r[2]); break; }
        case 5: if constexpr (cplx<T>) { T q = ladiv(s[0], s[1]); z1 = q; } break;
        case 6: singularvalues22(r[0], r[1], r[2], q1, q2); svd22(r[0], r[1], r[2], q1, q2, q3, q4, q5, q6); break;
        case 7: laev2(r[0], r[1], r[2], q1, q2, q3, q4); break;
        case 8: q1 = r[0], q2 = r[1], q3 = r[2], q4 = r[3]; lahqr_schur22(q1, q2, q3, q4, z1, z2, q5, q6); lahqr_eig22(s[0], s[1], s[2], s[3], z1, z2); break;
        case 9: if constexpr (!cplx<T>) {
            auto a = gm<T, L>(c, wild<T>(c, 2, 2, kind)), b = gm<T, L>(c, wild<T>(c, 2, 2, c.coin() ? kind : Generic));
            auto A = a.view(), B = b.view();
            B(1, 0) = 0;
            lahqz_eig22(A, B, z1, z2, q1, q2);
        } break;
        case 10: {
            auto a = gm<T, L>(c, wild<T>(c, 2, 3, kind));
            auto A = a.view();
            std::vector<T> h(3);
            T tau;
            inv_house3(A, h, tau);
            break;
        }
        default: {
            size_t k = c.chance(1, 2) ? c.draw(200) : c.draw(30);
            std::vector<R> d = wildV<R>(c, k, kind);
            char id = c.pick({'I', 'D', 'i', 'd'});
            c.check(lasrt(id, k, d) == 0, "lasrt/info");
            if (allFinite(d)) for (size_t i = 0; i + 1 < k; ++i) c.check(id == 'I' || id == 'i' ? d[i] <= d[i + 1] : d[i] >= d[i + 1], "lasrt/order", "at ", i);
            break;
        }
    }
    clk.stop();
}
template <class R, Layout L> void tSecular(Case& c)
{
    size_t n = (size_t)c.range(1, 20);
    int kind = anyKind(c), kz = c.coin() ? kind : anyKind(c);
    std::vector<R> d = wildV<R>(c, n, kind), z = wildV<R>(c, n, kz), delta(n);
    if (c.chance(3, 4)) std::sort(d.begin(), d.end(), [](R a, R b) { return a < b || (std::isnan(b) && !std::isnan(a)); });
    R rho = c.coin() ? R(1) : std::fabs(pickExtreme<R>(c)), lam;
    if (rho == 0) rho = 1;
    c.desc("laed4", kn(kind), kn(kz), "n", n, "rho", rho, "d", show(colVec(d)), "z", show(colVec(z)));
    c.label(std::string("laed4 ") + kn(kind));
    c.nontrivial(n > 2);
    Clock clk(c, "laed4", 1);
    for (size_t i = 0; i < n; ++i) {
        int info = 0;
        if (!tries(c, [&] { info = laed4(n, i, d, z, delta, rho, lam); })) info = -1;
        c.label(info == 0 ? "converged" : "failure reported");
    }
    clk.stop();
}
REG8("kernel", 8000, tKernel, "always")
static pbt::Reg S1("laed4/float", 3000, 120000, tSecular<float, Layout::ColMajor>, "n > 2");
static pbt::Reg S2("laed4/double", 3000, 120000, tSecular<double, Layout::ColMajor>, "n > 2");
