// flags: -O0
// variant: d
// variant: c -DX6_C
// variant: l -DUM_LEGACY
// variant: i -DX6_I
// variant: e -DX6_E -isystem /usr/include/eigen3
#include "store.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/svd_qr.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
#include "tlapack/lapack/tik_qr.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> Dense<T> unif(Case& c, size_t m, size_t n)
{
    Dense<T> A(m, n);
    for (auto& x : A.a) x = uni<T>(c);
    return A;
}
template <class T> void tSvd(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(1, 12), n = c.size(1, 12), k = std::min(m, n);
    int g = (int)c.draw(3);
    if (g == 2 && m < n) std::swap(m, n), k = n;
    GebrdOpts w;
    w.nb = (size_t)c.range(1, 5);
    Dense<T> A = unif<T>(c, m, n), B = unif<T>(c, m, 2);
    c.desc("svd", g, m, n);
    c.nontrivial(k > 2);
    sweep<T>(c, "svd-" + std::to_string(g), [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A);
        auto&& av = a.view();
        Out o;
        if (g == 0) {
            auto t = vec(c, sb, std::vector<T>(k, T(R(3)))), s = vec(c, sb, std::vector<T>(k, T(R(3))));
            auto&& tv = t.view();
            auto&& sv = s.view();
            if (w.nb == 1) gebd2(av, tv, sv);
            else gebrd(av, tv, sv, w);
            o.add("B", a.get());
            o.add("tauq", t.get());
            auto l = mat(c, sd, blockOf(a.get(), 0, m, 0, k));
            auto&& lv = l.view();
            ungbr_q(n, lv, tv);
            o.add("Q", l.get());
            a.margins(c, "A"), t.margins(c, "tauq"), s.margins(c, "taup"), l.margins(c, "Q");
        }
        else if (g == 1) {
            auto U = mat(c, sa, Dense<T>(m, m)), V = mat(c, sa, Dense<T>(n, n));
            auto s = vec(c, sb, std::vector<R>(k));
            auto&& Uv = U.view();
            auto&& Vv = V.view();
            auto&& sv = s.view();
            o.num("info", gesvd(true, true, av, sv, Uv, Vv));
            o.add("s", s.get());
            o.add("U", U.get());
            o.add("V", V.get());
            a.margins(c, "A"), U.margins(c, "U"), V.margins(c, "V"), s.margins(c, "s");
        }
        else {
            auto b = mat(c, sb, B);
            auto&& bv = b.view();
            tik_qr(av, bv, R(0.5));
            o.add("x", b.get());
            a.margins(c, "A"), b.margins(c, "b");
        }
        return o;
    });
}
template <class T> void tPencil(Case& c)
{
    using R = real_t<T>;
    bool ms = c.chance(1, 4);
    size_t n = ms ? (size_t)c.range(16, 34) : c.size(1, 12);
    Dense<T> A = unif<T>(c, n, n), B = unif<T>(c, n, n), I = eye<T>(n);
    for (size_t j = 0; j < n; ++j) { for (size_t i = j + 1; i < n; ++i) B(i, j) = T(R(0)); B(j, j) = T(B(j, j) + T(R(2))); }
    Gghd3Opts w;
    w.nb = (size_t)c.range(1, 5);
    bool blocked = c.coin();
    size_t mv0 = c.draw(n), mv1 = c.draw(n);
    FrancisOpts fo;
    fo.nmin = 15;
    fo.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
    fo.deflation_window_recommender = [](size_t, size_t) { return (size_t)6; };
    c.desc("pencil", n, ms ? "multishift" : "lahqz");
    c.nontrivial(n > 2);
    sweep<T>(c, ms ? "multishift_qz" : "lahqz", [&](auto sa, auto sb, auto) {
        auto a = mat(c, sa, A), b = mat(c, sa, B), q = mat(c, sa, I), z = mat(c, sa, I);
        auto&& av = a.view();
        auto&& bv = b.view();
        auto&& qv = q.view();
        auto&& zv = z.view();
        Out o;
        if (n > 1) {
            if (blocked) gghd3(true, true, 0, n, av, bv, qv, zv, w);
            else gghrd(true, true, 0, n, av, bv, qv, zv);
        }
        for (auto& p : {std::make_pair("H", a.get()), {"P", b.get()}, {"Q0", q.get()}, {"Z0", z.get()}}) o.add(p.first, p.second);
        auto al = vec(c, sb, std::vector<complex_type<R>>(n));
        auto be = vec(c, sb, std::vector<T>(n));
        auto&& alv = al.view();
        auto&& bev = be.view();
        int info;
        try { info = ms ? multishift_qz(true, true, true, 0, n, av, bv, alv, bev, qv, zv, fo) : lahqz(true, true, true, 0, n, av, bv, alv, bev, qv, zv); }
        catch (const std::runtime_error&) { info = -1; }
        o.num("info", info);
        if (info != 0) return o;
        o.add("alpha", al.get());
        o.add("beta", be.get());
        for (auto& p : {std::make_pair("S", a.get()), {"T", b.get()}, {"Q", q.get()}, {"Z", z.get()}}) o.add(p.first, p.second);
        if (!ms) {
            size_type<std::decay_t<decltype(av)>> f = mv0, t = mv1;
            o.num("move", generalized_schur_move(true, true, av, bv, qv, zv, f, t));
            o.num("from", f);
            o.num("to", t);
            o.add("S moved", a.get());
            o.add("T moved", b.get());
        }
        a.margins(c, "A"), b.margins(c, "B"), q.margins(c, "Q"), z.margins(c, "Z"), al.margins(c, "alpha"), be.margins(c, "beta");
        return o;
    });
}
#ifdef X6_C
using XT = std::complex<float>;
#else
using XT = double;
#endif
static pbt::Reg a1("svd", 6000, 300000, tSvd<XT>, "more than two singular values");
static pbt::Reg b1("pencil", X6_HEAVY(1200), X6_HEAVY(200000), tPencil<XT>, "n > 2");
