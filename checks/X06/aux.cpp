// flags: -O0
// variant: d
// variant: c -DX6_C
// variant: l -DUM_LEGACY
// variant: i -DX6_I
// variant: e -DX6_E -isystem /usr/include/eigen3
#include "store.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/transpose.hpp"
#include "tlapack/lapack/conjugate.hpp"
#include "tlapack/lapack/rscl.hpp"
#include "tlapack/lapack/hasnan.hpp"
#include "tlapack/lapack/hasinf.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
#include "tlapack/lapack/pttrf.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/labrd.hpp"
#include "tlapack/lapack/lahr2.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/trge_qr2.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> void tAux(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(0, 12), n = c.size(0, 12);
    int g = (int)c.draw(9);
    if (g == 1 || g == 2) m = n;
    Uplo u = c.pick({Uplo::Lower, Uplo::Upper, Uplo::General}), u2 = genUplo(c);
    Diag d = genDiag(c);
    Norm nrm = c.pick({Norm::Max, Norm::One, Norm::Inf, Norm::Fro});
    Dense<T> A = genMat<T>(c, m, n), B = genMat<T>(c, m, n), Bt = genMat<T>(c, n, m);
    if (g == 8 && m && n && c.coin()) A(c.draw(m), c.draw(n)) = c.coin() ? nanT<T>() : T(std::numeric_limits<R>::infinity());
    TransposeOpts to;
    to.nx = (size_t)c.range(2, 6);
    T al = genMat<T>(c, 1, 1)(0, 0), be = genMat<T>(c, 1, 1)(0, 0);
    c.desc("aux", g, m, n, nm(u));
    c.nontrivial(m > 1 && n > 1);
    sweep<T>(c, "aux-" + std::to_string(g), [&](auto sa, auto sb, auto) {
        auto a = mat(c, sa, A);
        auto b = mat(c, sb, g == 5 || g == 6 ? Bt : B);
        auto&& av = a.view();
        auto&& bv = b.view();
        Out o;
        switch (g) {
            case 0: o.add("lange", std::vector<R>{lange(nrm, av)}); break;
            case 1: o.add("lanhe", std::vector<R>{lanhe(nrm, u2, av)}); o.add("lansy", std::vector<R>{lansy(nrm, u2, av)}); break;
            case 2: o.add("lantr", std::vector<R>{lantr(nrm, u2, d, av)}); break;
            case 3: lacpy(u, av, bv); break;
            case 4: laset(u, al, be, av); break;
            case 5: transpose(av, bv, to); break;
            case 6: conjtranspose(av, bv, to); break;
            case 7: lascl(u, R(3), R(2), av); break;
            default: o.num("nan", hasnan(u, av)); o.num("inf", hasinf(u, av)); break;
        }
        o.add("A", a.get());
        o.add("B", b.get());
        a.margins(c, "A"), b.margins(c, "B");
        return o;
    });
}
template <class T> void tRot(Case& c)
{
    using R = real_t<T>;
    bool three = c.coin();
    Side side = genSide(c);
    Direction dir = c.pick({Direction::Forward, Direction::Backward});
    size_t m = c.size(1, 12), n = c.size(1, 12), q = side == Side::Left ? m : n, l = c.size(1, 6);
    Dense<T> A = genMat<T>(c, m, n);
    Dense<R> C(q - 1, l);
    Dense<T> S(q - 1, l);
    for (size_t j = 0; j < l; ++j) for (size_t i = 0; i + 1 < q; ++i) { double t = 6.28 * (double)c.draw(1000) / 1000; C(i, j) = R(std::cos(t)); S(i, j) = T(R(std::sin(t))); }
    c.desc("rot", three, m, n, nm(side));
    c.nontrivial(q > 2);
    sweep<T>(c, three ? "rot_sequence3" : "rot_sequence", [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A);
        auto&& av = a.view();
        Out o;
        if (three) {
            auto x = mat(c, sb, C);
            auto y = mat(c, sd, S);
            auto&& xv = x.view();
            auto&& yv = y.view();
            rot_sequence3(side, dir, xv, yv, av);
            x.margins(c, "C"), y.margins(c, "S");
        }
        else {
            auto x = vec(c, sb, std::vector<R>(C.a.begin(), C.a.begin() + (q - 1)));
            auto y = vec(c, sd, std::vector<T>(S.a.begin(), S.a.begin() + (q - 1)));
            auto&& xv = x.view();
            auto&& yv = y.view();
            rot_sequence(side, dir, xv, yv, av);
            x.margins(c, "c"), y.margins(c, "s");
        }
        o.add("A", a.get());
        a.margins(c, "A");
        return o;
    });
}
template <class T> void tPanel(Case& c)
{
    using R = real_t<T>;
    int g = (int)c.draw(4);
    size_t n = c.size(1, 12), m = c.size(1, 12);
    if (g == 1 && m < n) std::swap(m, n);
    size_t k = std::min(m, n), nb = (size_t)c.range(1, std::max<size_t>(1, k));
    Dense<T> A(m, n), H(n, n);
    for (auto& x : A.a) x = uni<T>(c);
    for (auto& x : H.a) x = uni<T>(c);
    std::vector<R> d(n);
    std::vector<T> e(n - 1);
    for (auto& x : d) x = R(2) + R(uni<double>(c));
    for (auto& x : e) x = T(uni<T>(c) * R(0.5));
    c.desc("panel", g, m, n, nb);
    c.nontrivial(k > 2);
    if (g == 2 && n < 3) throw pbt::Discard();
    sweep<T>(c, "panel-" + std::to_string(g), [&](auto sa, auto sb, auto sd) {
        Out o;
        if (g == 0) {
            auto a = mat(c, sa, A), X = mat(c, sb, Dense<T>(m, nb)), Y = mat(c, sd, Dense<T>(n, nb));
            auto t = vec(c, sb, std::vector<T>(k)), s = vec(c, sb, std::vector<T>(k));
            auto&& av = a.view();
            auto&& Xv = X.view();
            auto&& Yv = Y.view();
            auto&& tv = t.view();
            auto&& sv = s.view();
            labrd(av, tv, sv, Xv, Yv);
            o.add("A", a.get());
            o.add("X", X.get());
            o.add("Y", Y.get());
            a.margins(c, "A"), X.margins(c, "X"), Y.margins(c, "Y"), t.margins(c, "t"), s.margins(c, "s");
        }
        else if (g == 1) {
            auto a = mat(c, sa, A);
            auto t = vec(c, sb, std::vector<T>(k));
            auto&& av = a.view();
            auto&& tv = t.view();
            trge_qr2(av, tv);
            o.add("A", a.get());
            o.add("tau", t.get());
            a.margins(c, "A"), t.margins(c, "tau");
        }
        else if (g == 2) {
            size_t b = std::min(nb, n - 2);
            auto a = mat(c, sa, H), Tm = mat(c, sb, Dense<T>(b, b)), Y = mat(c, sd, Dense<T>(n, b));
            auto t = vec(c, sb, std::vector<T>(n - 1));
            auto&& av = a.view();
            auto&& Tv = Tm.view();
            auto&& Yv = Y.view();
            auto&& tv = t.view();
            lahr2(0, b, av, tv, Tv, Yv);
            o.add("A", a.get());
            o.add("Y", Y.get());
            o.add("tau", t.get());
            a.margins(c, "A"), Tm.margins(c, "T"), Y.margins(c, "Y"), t.margins(c, "tau");
        }
        else {
            auto x = vec(c, sa, d);
            auto y = vec(c, sb, e);
            auto&& xv = x.view();
            auto&& yv = y.view();
            o.num("info", pttrf(xv, yv));
            o.add("d", x.get());
            o.add("e", y.get());
            x.margins(c, "d"), y.margins(c, "e");
        }
        return o;
    });
}
#ifdef X6_C
using XT = std::complex<float>;
#else
using XT = double;
#endif
static pbt::Reg a1("aux", 12000, 400000, tAux<XT>, "both dimensions > 1");
static pbt::Reg b1("rot", 12000, 400000, tRot<XT>, "more than one rotation");
static pbt::Reg c1("panel", 8000, 300000, tPanel<XT>, "more than two columns");
