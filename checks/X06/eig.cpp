// flags: -O0
// variant: d
// variant: c -DX6_C
// variant: l -DUM_LEGACY
// variant: i -DX6_I
// variant: e -DX6_E -isystem /usr/include/eigen3
#include "store.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/trevc3.hpp"
#include "tlapack/lapack/trevc.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/ungtr.hpp"
#include "tlapack/lapack/steqr.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> Dense<T> unif(Case& c, size_t m, size_t n)
{
    Dense<T> A(m, n);
    for (auto& x : A.a) x = uni<T>(c);
    return A;
}
template <class T> void tHess(Case& c)
{
    using R = real_t<T>;
    size_t n = c.size(1, 14), p = c.size(1, 5);
    size_t lo = c.draw(n), hi = (size_t)c.range(lo + 1, n);
    GehrdOpts w;
    w.nb = (size_t)c.range(1, 5);
    w.nx_switch = (size_t)c.range(1, 6);
    bool lev2 = c.chance(1, 3);
    Side sd_ = genSide(c);
    Op op = c.coin() ? Op::NoTrans : Op::ConjTrans;
    Dense<T> A = unif<T>(c, n, n), C = sd_ == Side::Left ? unif<T>(c, n, p) : unif<T>(c, p, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) if (j < lo || i >= hi) A(i, j) = T(R(0));
    c.desc("hess", n, lo, hi);
    c.nontrivial(hi > lo + 2);
    sweep<T>(c, "hess", [&](auto sa, auto sb, auto) {
        auto a = mat(c, sa, A), e = mat(c, sa, C);
        auto&& av = a.view();
        auto&& ev = e.view();
        auto t = vec(c, sb, std::vector<T>(n - 1, T(R(3))));
        auto&& tv = t.view();
        Out o;
        if (lev2) gehd2(lo, hi, av, tv);
        else gehrd(lo, hi, av, tv, w);
        o.add("H", a.get());
        o.add("tau", t.get());
        unmhr(sd_, op, lo, hi, av, tv, ev);
        o.add("Q applied", e.get());
        unghr(lo, hi, av, tv);
        o.add("Q", a.get());
        a.margins(c, "A"), e.margins(c, "C"), t.margins(c, "tau");
        return o;
    });
}
template <class T> void tSchur(Case& c)
{
    using R = real_t<T>;
    bool ms = c.chance(1, 4);
    size_t n = ms ? (size_t)c.range(16, 40) : c.size(1, 12);
    Dense<T> H = unif<T>(c, n, n), I = eye<T>(n);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) H(i, j) = T(R(0));
    bool wt = c.chance(3, 4);
    size_t mv0 = c.draw(n), mv1 = c.draw(n);
    bool blocked = c.coin();
    Side side = c.pick({Side::Left, Side::Right, Side::Both});
    FrancisOpts w;
    w.nmin = 15;
    w.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
    w.deflation_window_recommender = [](size_t, size_t) { return (size_t)6; };
    c.desc("schur", n, ms ? "multishift" : "lahqr");
    c.nontrivial(n > 2);
    sweep<T>(c, ms ? "multishift" : "lahqr", [&](auto sa, auto sb, auto) {
        auto a = mat(c, sa, H), z = mat(c, sa, I), l = mat(c, sa, Dense<T>(n, n)), r = mat(c, sa, Dense<T>(n, n));
        auto&& av = a.view();
        auto&& zv = z.view();
        auto&& lv = l.view();
        auto&& rv = r.view();
        auto s = vec(c, sb, std::vector<complex_type<R>>(n));
        auto&& sv = s.view();
        Out o;
        int info;
        try { info = ms ? multishift_qr(wt, true, 0, n, av, sv, zv, w) : lahqr(wt, true, 0, n, av, sv, zv); }
        catch (const std::runtime_error&) { info = -1; }
        o.num("info", info);
        if (info != 0) return o;
        if (wt) o.add("S", a.get());
        if (wt) o.add("Z", z.get());
        o.add("eigenvalues", s.get());
        if (wt && !ms) {
            std::vector<bool> sel(n, true);
            if (blocked) trevc3(side, HowMny::All, sel, av, lv, rv);
            else {
                std::vector<R> rw(n);
                std::vector<T> wk(3 * n);
                LegacyVector<R> rwv(n, rw.data());
                LegacyVector<T> wkv(3 * n, wk.data());
                trevc(side, HowMny::All, sel, av, lv, rv, rwv, wkv);
            }
            if (side != Side::Right) o.add("left vectors", l.get());
            if (side != Side::Left) o.add("right vectors", r.get());
            size_type<std::decay_t<decltype(av)>> f = mv0, t = mv1;
            o.num("move", schur_move(true, av, zv, f, t));
            o.num("from", f);
            o.num("to", t);
            o.add("S moved", a.get());
            o.add("Z moved", z.get());
        }
        a.margins(c, "A"), z.margins(c, "Z"), s.margins(c, "w"), l.margins(c, "Vl"), r.margins(c, "Vr");
        return o;
    });
}
template <class T> void tHerm(Case& c)
{
    using R = real_t<T>;
    size_t n = c.size(1, 14);
    Uplo u = genUplo(c);
    Dense<T> A = unif<T>(c, n, n);
    for (size_t i = 0; i < n; ++i) A(i, i) = T(re(A(i, i)));
    c.desc("herm", n, nm(u));
    c.nontrivial(n > 2);
    sweep<T>(c, "herm", [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A);
        auto&& av = a.view();
        auto t = vec(c, sb, std::vector<T>(n - 1, T(R(3))));
        auto&& tv = t.view();
        Out o;
        hetd2(u, av, tv);
        o.add("T", triOf(u, Diag::NonUnit, a.get()));
        o.add("tau", t.get());
        Dense<T> F = a.get();
        std::vector<R> d(n), e(n - 1);
        for (size_t i = 0; i < n; ++i) d[i] = re(F(i, i));
        for (size_t i = 0; i + 1 < n; ++i) e[i] = u == Uplo::Upper ? re(F(i, i + 1)) : re(F(i + 1, i));
        ungtr(u, av, tv);
        o.add("Q", a.get());
        auto dd = vec(c, sd, d), ee = vec(c, sd, e);
        auto&& dv = dd.view();
        auto&& ev = ee.view();
        o.num("info", steqr(true, dv, ev, av));
        o.add("d", dd.get());
        o.add("Z", a.get());
        a.margins(c, "A"), t.margins(c, "tau"), dd.margins(c, "d"), ee.margins(c, "e");
        return o;
    });
}
#ifdef X6_C
using XT = std::complex<float>;
#else
using XT = double;
#endif
static pbt::Reg a1("hess", 8000, 300000, tHess<XT>, "active block larger than two");
static pbt::Reg b1("schur", X6_HEAVY(2000), X6_HEAVY(200000), tSchur<XT>, "n > 2");
static pbt::Reg c1("herm", 6000, 300000, tHerm<XT>, "n > 2");
