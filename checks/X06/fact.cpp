// flags: -O0
// variant: d
// variant: c -DX6_C
// variant: l -DUM_LEGACY
// variant: i -DX6_I
// variant: e -DX6_E -isystem /usr/include/eigen3
#include "store.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/geqr2.hpp"
#include "tlapack/lapack/gelq2.hpp"
#include "tlapack/lapack/geql2.hpp"
#include "tlapack/lapack/gerq2.hpp"
#include "tlapack/lapack/ungqr.hpp"
#include "tlapack/lapack/unglq.hpp"
#include "tlapack/lapack/ungql.hpp"
#include "tlapack/lapack/ungrq.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/trmm_out.hpp"
using namespace tlapack;
using tlapack::real_type;
enum Fam { QR, LQ, QL, RQ };
inline bool colwise(int f) { return f == QR || f == QL; }
inline Direction dirOf(int f) { return f == QR || f == LQ ? Direction::Forward : Direction::Backward; }
inline StoreV storeOf(int f) { return colwise(f) ? StoreV::Columnwise : StoreV::Rowwise; }
template <class T> Dense<T> dom(Dense<T> A) { for (size_t i = 0; i < std::min(A.m, A.n); ++i) A(i, i) = T(real_t<T>(3) + re(A(i, i))); return A; }
template <class T> Dense<T> hpd(Case& c, size_t n)
{
    Dense<T> A = genMat<T>(c, n, n);
    for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < j; ++i) A(j, i) = cj(A(i, j)); A(j, j) = T(real_t<T>(1)); }
    for (size_t j = 0; j < n; ++j) { double q = 1; for (size_t i = 0; i < n; ++i) q += 1.5 * mag(A(i, j)); A(j, j) = T(real_t<T>(q)); }
    return A;
}
// factor, form Q, apply Q, block reflector
template <class T> void tQr(Case& c)
{
    int f = (int)c.draw(4), g = (int)c.draw(3);
    size_t m = c.size(1, 12), n = c.size(1, 12), k = std::min(m, n);
    size_t nb = (size_t)c.range(1, 6), p = c.size(1, 6);
    Side side = genSide(c);
    Op tr = c.coin() ? Op::NoTrans : Op::ConjTrans;
    bool lev2 = c.coin();
    Dense<T> A = genMat<T>(c, m, n), C = side == Side::Left ? genMat<T>(c, colwise(f) ? m : n, p) : genMat<T>(c, p, colwise(f) ? m : n);
    std::vector<T> t0(k, T(7));
    c.desc("qr", f, g, m, n, "nb", nb, nm(side), nm(tr), lev2 ? "level 2" : "blocked");
    c.nontrivial(k > 1);
    sweep<T>(c, "qr-" + std::to_string(f), [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A), e = mat(c, sd, C);
        auto t = vec(c, sb, t0);
        auto&& av = a.view();
        auto&& ev = e.view();
        auto&& tv = t.view();
        Out o;
        switch (f) {
            case QR: { GeqrfOpts w; w.nb = nb; if (lev2) geqr2(av, tv); else geqrf(av, tv, w); break; }
            case LQ: { GelqfOpts w; w.nb = nb; if (lev2) gelq2(av, tv); else gelqf(av, tv, w); break; }
            case QL: { GeqlfOpts w; w.nb = nb; if (lev2) geql2(av, tv); else geqlf(av, tv, w); break; }
            default: { GerqfOpts w; w.nb = nb; if (lev2) gerq2(av, tv); else gerqf(av, tv, w); break; }
        }
        o.add("factor", a.get());
        o.add("tau", t.get());
        // the reflectors as a block of k vectors
        std::pair<size_t, size_t> rr{0, m}, cc{0, n};
        if (f == QR) cc = {0, k};
        if (f == LQ) rr = {0, k};
        if (f == QL) cc = {n - k, n};
        if (f == RQ) rr = {m - k, m};
        auto V = slice(av, rr, cc);
        if (g == 0) {
            UnmqOpts w;
            w.nb = nb;
            if (lev2) unmq_level2(side, tr, dirOf(f), storeOf(f), V, tv, ev);
            else unmq(side, tr, dirOf(f), storeOf(f), V, tv, ev, w);
            o.add("Q applied", e.get());
        }
        else if (g == 1) {
            auto tm = mat(c, sb, Dense<T>(k, k));
            auto&& Tv = tm.view();
            larft(dirOf(f), storeOf(f), V, tv, Tv);
            larfb(side, tr, dirOf(f), storeOf(f), V, Tv, ev);
            Dense<T> F = tm.get();
            o.add("T", triOf(dirOf(f) == Direction::Forward ? Uplo::Upper : Uplo::Lower, Diag::NonUnit, F));
            tm.margins(c, "T");
            o.add("block reflector applied", e.get());
        }
        else {
            UngqOpts w;
            w.nb = nb;
            if (lev2) ungq_level2(dirOf(f), storeOf(f), V, tv);
            else ungq(dirOf(f), storeOf(f), V, tv, w);
            o.add("Q", a.get());
        }
        a.margins(c, "A"), e.margins(c, "C"), t.margins(c, "tau");
        return o;
    });
}
template <class T> void tRefl(Case& c)
{
    using R = real_t<T>;
    int g = (int)c.draw(3);
    size_t m = c.size(1, 10), n = c.size(1, 10), q = std::max(m, n), r = std::min(m, n);
    Side side = genSide(c);
    Direction d = c.pick({Direction::Forward, Direction::Backward});
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    size_t len = side == Side::Left ? m : n;
    Dense<T> C = genMat<T>(c, m, n), S = genMat<T>(c, r, q), G = genMat<T>(c, q, r);
    std::vector<T> x = genMat<T>(c, len, 1).a;
    c.desc("reflector", g, m, n, nm(side));
    c.nontrivial(m > 1 && n > 1);
    sweep<T>(c, "reflector-" + std::to_string(g), [&](auto sa, auto sb, auto sd) {
        Out o;
        if (g == 0) {
            auto v = vec(c, sa, x);
            auto&& vv = v.view();
            auto e = mat(c, sd, C);
            auto&& ev = e.view();
            T tau(0);
            larfg(d, st, vv, tau);
            o.add("v", v.get());
            o.add("tau", std::vector<T>{tau});
            larf(side, d, st, vv, tau, ev);
            o.add("C", e.get());
            v.margins(c, "v"), e.margins(c, "C");
        }
        else if (g == 1) {
            size_t nb = std::max<size_t>(1, r / 2);
            auto a = mat(c, sa, S), t = mat(c, sa, Dense<T>(r, nb));
            auto&& av = a.view();
            auto&& tv = t.view();
            gelqt(av, tv);
            o.add("gelqt", a.get());
            a.margins(c, "A"), t.margins(c, "T");
        }
        else {
            auto a = mat(c, sa, G), t = mat(c, sb, Dense<T>(r, r));
            auto&& av = a.view();
            auto&& tv = t.view();
            geqrt3(av, tv);
            o.add("geqrt3", a.get());
            o.add("T", triOf(Uplo::Upper, Diag::NonUnit, t.get()));
            a.margins(c, "A"), t.margins(c, "T");
        }
        return o;
    });
}
template <class T> void tLu(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(1, 12), n = c.coin() ? m : c.size(1, 12);
    GetrfOpts w;
    w.variant = c.coin() ? GetrfVariant::Level0 : GetrfVariant::Recursive;
    GetriOpts gi;
    gi.variant = c.coin() ? GetriVariant::UILI : GetriVariant::UXLI;
    Dense<T> A = dom(genMat<T>(c, m, n));
    c.desc("lu", m, n);
    c.nontrivial(m > 1 && n > 1);
    sweep<T>(c, "lu", [&](auto sa, auto, auto sd) {
        auto a = mat(c, sa, A);
        auto&& av = a.view();
        auto p = vec(c, sd, std::vector<size_t>(std::min(m, n)));
        auto&& pv = p.view();
        Out o;
        int info = getrf(av, pv, w);
        o.num("info", info);
        o.add("factors", a.get());
        for (size_t x : p.get()) o.num("pivot", x);
        if (m == n && info == 0) { getri(av, pv, gi); o.add("inverse", a.get()); }
        a.margins(c, "A");
        return o;
    });
}
template <class T> void tChol(Case& c)
{
    size_t n = c.size(1, 14), p = c.size(1, 5);
    Uplo u = genUplo(c);
    Dense<T> A = hpd<T>(c, n), B = genMat<T>(c, n, p), Tr = dom(genMat<T>(c, n, n)), K = genMat<T>(c, n, n), E = genMat<T>(c, n, p);
    PotrfOpts w;
    w.variant = c.pick({PotrfVariant::Blocked, PotrfVariant::Recursive, PotrfVariant::Level2, PotrfVariant::RightLooking});
    w.nb = (size_t)c.range(1, 6);
    int g = (int)c.draw(11);
    Diag d = genDiag(c);
    Op oa = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}), ob = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans});
    T al = genMat<T>(c, 1, 1)(0, 0), be = genMat<T>(c, 1, 1)(0, 0);
    c.desc("triangular", g, n, nm(u), nm(d), nm(oa), nm(ob));
    c.nontrivial(n > 1);
    sweep<T>(c, "tri-" + std::to_string(g), [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, g == 0 || g == 1 ? A : g == 9 ? A : Tr);
        auto b = mat(c, sb, g >= 7 && g <= 8 ? K : B);
        auto k = mat(c, sd, g == 9 || g == 10 ? E : K);
        auto&& av = a.view();
        auto&& bv = b.view();
        auto&& kv = k.view();
        Out o;
        switch (g) {
            case 0: o.num("info", potrf(u, av, w)); potrs(u, av, bv); break;
            case 1: potri(u, av); break;
            case 2: trtri_recursive(u, d, av); break;
            case 3: lauum_recursive(u, av); break;
            case 4: mult_llh(av); break;
            case 5: mult_uhu(av); break;
            case 6: if (d == Diag::Unit) lu_mult(av); else ul_mult(av); break;
            case 7: mult_hehe(u, al, av, bv, be, kv); break;
            case 8: gemmtr(u, oa, ob, al, av, bv, be, kv); break;
            case 9: hemm2(Side::Left, u, Op::NoTrans, al, av, bv, be, kv); break;
            default: trmm_out(Side::Left, u, Op::NoTrans, d, Op::NoTrans, al, av, bv, be, kv); break;
        }
        o.add("A", a.get());
        o.add("B", b.get());
        o.add("C", k.get());
        a.margins(c, "A"), b.margins(c, "B"), k.margins(c, "C");
        return o;
    });
}
#ifdef X6_C
using XT = std::complex<float>;
#else
using XT = double;
#endif
static pbt::Reg a1("qr", 12000, 400000, tQr<XT>, "more than one reflector");
static pbt::Reg b1("refl", 8000, 400000, tRefl<XT>, "both dimensions > 1");
static pbt::Reg c1("lu", 6000, 400000, tLu<XT>, "both dimensions > 1");
static pbt::Reg d1("tri", 12000, 400000, tChol<XT>, "n > 1");
