#include "reject.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getrf_level0.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/potf2.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrf_blocked_right_looking.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/pttrf.hpp"
#include "tlapack/lapack/tkhnv.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
using namespace tlapack;

template <class T, Layout L> void tQR(Case& c)
{
    Mut mu(c, 2);
    Wk<T> W;
    bool wv = c.coin();
    int r = (int)c.draw(10);
    size_t m = mu.small(), n = mu.small(), k = std::min(m, n);
    if (r < 8) {
        GMat<T, L> GA(c, m, n);
        GVec<T> gt(c, mu.less("tau", k));
        rnd(c, GA), rnd(c, gt);
        auto A = GA.view();
        auto tau = gt.view();
        switch (r) {
            case 0: go(c, mu, "geqr2", [&] { if (wv) geqr2_work(A, tau, W.v); else geqr2(A, tau); }, GA, gt); break;
            case 1: go(c, mu, "gelq2", [&] { if (wv) gelq2_work(A, tau, W.v); else gelq2(A, tau); }, GA, gt); break;
            case 2: go(c, mu, "geql2", [&] { if (wv) geql2_work(A, tau, W.v); else geql2(A, tau); }, GA, gt); break;
            case 3: go(c, mu, "gerq2", [&] { if (wv) gerq2_work(A, tau, W.v); else gerq2(A, tau); }, GA, gt); break;
            case 4: { GeqrfOpts o; o.nb = c.range(1, 6); go(c, mu, "geqrf", [&] { if (wv) geqrf_work(A, tau, W.v, o); else geqrf(A, tau, o); }, GA, gt); break; }
            case 5: { GelqfOpts o; o.nb = c.range(1, 6); go(c, mu, "gelqf", [&] { if (wv) gelqf_work(A, tau, W.v, o); else gelqf(A, tau, o); }, GA, gt); break; }
            case 6: { GeqlfOpts o; o.nb = c.range(1, 6); go(c, mu, "geqlf", [&] { if (wv) geqlf_work(A, tau, W.v, o); else geqlf(A, tau, o); }, GA, gt); break; }
            default: { GerqfOpts o; o.nb = c.range(1, 6); go(c, mu, "gerqf", [&] { if (wv) gerqf_work(A, tau, W.v, o); else gerqf(A, tau, o); }, GA, gt); break; }
        }
    }
    else if (r == 8) {
        GMat<T, L> GA(c, m, n);
        GVec<T> g1(c, mu.less("tauv", k)), g2(c, mu.less("tauw", k));
        rnd(c, GA), rnd(c, g1), rnd(c, g2);
        auto A = GA.view();
        auto t1 = g1.view(), t2 = g2.view();
        go(c, mu, "gebd2", [&] { if (wv) gebd2_work(A, t1, t2, W.v); else gebd2(A, t1, t2); }, GA, g1, g2);
    }
    else {
        size_t nb = (size_t)c.range(1, 4);
        GMat<T, L> GA(c, m, n), GT(c, mu.less("TT.rows", m), nb);
        rnd(c, GA), rnd(c, GT);
        auto A = GA.view(), TT = GT.view();
        go(c, mu, "gelqt", [&] { if (wv) gelqt_work(A, TT, W.v); else gelqt(A, TT); }, GA, GT);
    }
}
template <class T, Layout L> void tHess(Case& c)
{
    Mut mu(c, 4);
    Wk<T> W;
    bool wv = c.coin();
    int r = (int)c.draw(4);
    size_t n = mu.small(), ilo = n ? (size_t)c.range(0, n - 1) : 0, ihi = n ? (size_t)c.range(ilo + 1, n) : 0;
    size_t m = n;
    size_t k = n ? n - 1 : 0;
    if (r == 0) {
        m = mu.dim("A.rows", n);
        GMat<T, L> GA(c, m, n);
        GVec<T> gt(c, n ? mu.less("tau", k) : k);
        rnd(c, GA), rnd(c, gt);
        auto A = GA.view();
        auto tau = gt.view();
        go(c, mu, "gehd2", [&] { if (wv) gehd2_work(ilo, ihi, A, tau, W.v); else gehd2(ilo, ihi, A, tau); }, GA, gt);
    }
    else if (r == 1) {
        if (n) m = mu.dim("A.rows", n);
        if (n && mu.cond("ilo", true)) ilo = n + (size_t)c.range(0, 2), ihi = n;
        if (n && mu.cond("ihi", true)) ihi = n + (size_t)c.range(1, 3);
        GMat<T, L> GA(c, m, n);
        GVec<T> gt(c, n ? mu.less("tau", k) : k);
        rnd(c, GA), rnd(c, gt);
        auto A = GA.view();
        auto tau = gt.view();
        GehrdOpts o;
        o.nb = c.range(1, 4), o.nx_switch = c.range(1, 5);
        go(c, mu, "gehrd", [&] { if (wv) gehrd_work(ilo, ihi, A, tau, W.v, o); else gehrd(ilo, ihi, A, tau, o); }, GA, gt);
    }
    else if (r == 2) {
        GMat<T, L> GA(c, n, n);
        GVec<T> gt(c, mu.less("tau", k));
        rnd(c, GA), rnd(c, gt);
        auto A = GA.view();
        auto tau = gt.view();
        go(c, mu, "unghr", [&] { if (wv) unghr_work(ilo, ihi, A, tau, W.v); else unghr(ilo, ihi, A, tau); }, GA, gt);
    }
    else {
        m = mu.dim("A.rows", n);
        Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
        GMat<T, L> GA(c, m, n);
        GVec<T> gt(c, mu.less("tau", k));
        rnd(c, GA), rnd(c, gt);
        auto A = GA.view();
        auto tau = gt.view();
        go(c, mu, "hetd2", [&] { hetd2(up, A, tau); }, GA, gt);
    }
}
template <class T, Layout L> void tLU(Case& c)
{
    Mut mu(c, 2);
    Wk<T> W;
    bool wv = c.coin();
    int r = (int)c.draw(11);
    size_t m = mu.small(), n = mu.small(), k = std::min(m, n);
    EcOpts ec;
    if (r < 3) {
        GMat<T, L> GA(c, m, n);
        GVec<double> gp(c, mu.less("piv", k));
        rnd(c, GA), rnd(c, gp);
        std::vector<size_t> piv(gp.n);
        for (size_t i = 0; i < piv.size(); ++i) piv[i] = 100 + i;
        auto p0 = piv;
        auto A = GA.view();
        if (r == 0) go(c, mu, "getrf_level0", [&] { getrf_level0(A, piv); }, GA, gp);
        if (r == 1) go(c, mu, "getrf_recursive", [&] { getrf_recursive(A, piv); }, GA, gp);
        if (r == 2) {
            GetrfOpts o;
            o.variant = c.coin() ? GetrfVariant::Level0 : GetrfVariant::Recursive;
            go(c, mu, "getrf", [&] { getrf(A, piv, o); }, GA, gp);
        }
        if (mu.bad() && piv != p0) c.fail("getrf/rejected/piv-changed", "pivots written by a rejected call");
    }
    else {
        m = mu.dim("A.rows", n);
        GMat<T, L> GA(c, m, n);
        rnd(c, GA);
        auto A = GA.view();
        switch (r) {
            case 3: go(c, mu, "getri_uili", [&] { getri_uili(A); }, GA); break;
            case 4: go(c, mu, "getri_uxli", [&] { if (wv) getri_uxli_work(A, W.v); else getri_uxli(A); }, GA); break;
            case 5: go(c, mu, "lu_mult", [&] { lu_mult(A); }, GA); break;
            case 6: go(c, mu, "ul_mult", [&] { ul_mult(A); }, GA); break;
            case 7: go(c, mu, "mult_llh", [&] { mult_llh(A); }, GA); break;
            case 8: go(c, mu, "mult_uhu", [&] { mult_uhu(A); }, GA); break;
            case 9: {
                size_t nb = mu.cond("nx", !mu.bad()) ? 0 : (size_t)c.range(1, 5);
                int w = (int)c.draw(3);
                if (w == 0) { LuMultOpts o; o.nx = nb; go(c, mu, "lu_mult", [&] { lu_mult(A, o); }, GA); }
                if (w == 1) { mult_llh_Opts o; o.nx = nb; go(c, mu, "mult_llh", [&] { mult_llh(A, o); }, GA); }
                if (w == 2) { mult_uhu_Opts o; o.nx = nb; go(c, mu, "mult_uhu", [&] { mult_uhu(A, o); }, GA); }
                break;
            }
            default: {
                std::vector<size_t> piv(n);
                for (size_t i = 0; i < n; ++i) piv[i] = (size_t)c.range(i, n - 1);
                GetriOpts o;
                o.variant = c.coin() ? GetriVariant::UXLI : GetriVariant::UILI;
                go(c, mu, "getri", [&] { getri(A, piv, o); }, GA);
            }
        }
    }
}
template <class T, Layout L> void tChol(Case& c)
{
    Mut mu(c, 4);
    int r = (int)c.draw(11);
    size_t n = mu.small();
    if (r == 10) {
        using R = real_t<T>;
        size_t e = n ? n - 1 : 0;
        GVec<R> gd(c, n);
        GVec<T> ge(c, mu.dim("E", e));
        rnd(c, gd), rnd(c, ge);
        for (size_t i = 0; i < n; ++i) gd[i] = R(8);
        auto d = gd.view();
        auto e_ = ge.view();
        go(c, mu, "pttrf", [&] { pttrf(d, e_); }, gd, ge);
        return;
    }
    Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
    size_t m = mu.dim("A.rows", n);
    GMat<T, L> GA(c, m, n);
    rnd(c, GA);
    for (size_t i = 0; i < std::min(m, n); ++i) GA(i, i) = T(real_t<T>(c.chance(1, 8) ? 0.5 : 20));
    auto A = GA.view();
    switch (r) {
        case 0: go(c, mu, "potf2", [&] { potf2(up, A); }, GA); break;
        case 1: go(c, mu, "potrf2", [&] { potrf2(up, A); }, GA); break;
        case 2: { BlockedCholeskyOpts o; o.nb = c.range(1, 5); go(c, mu, "potrf_blocked", [&] { potrf_blocked(up, A, o); }, GA); break; }
        case 3: { BlockedCholeskyOpts o; o.nb = c.range(1, 5); go(c, mu, "potrf_rl", [&] { potrf_rl(up, A, o); }, GA); break; }
        case 4: {
            PotrfOpts o;
            o.nb = c.range(1, 5);
            o.variant = mu.en("variant", c.pick({PotrfVariant::Blocked, PotrfVariant::Recursive, PotrfVariant::Level2, PotrfVariant::RightLooking}), {(PotrfVariant)'?', (PotrfVariant)99});
            go(c, mu, "potrf", [&] { potrf(up, A, o); }, GA);
            break;
        }
        case 5: go(c, mu, "potri", [&] { potri(up, A); }, GA); break;
        case 6: {
            GMat<T, L> GB(c, mu.dim("B.rows", n), (size_t)c.size(0, 4));
            rnd(c, GB);
            auto B = GB.view();
            go(c, mu, "potrs", [&] { potrs(up, A, B); }, GA, GB);
            break;
        }
        case 7: {
            BlockedBandedCholeskyOpts o;
            o.nb = c.range(1, 5);
            size_t kd = n ? (size_t)c.range(0, n - 1) : 0;
            if (mu.cond("kd", n > 0)) kd = n + (size_t)c.range(0, 3);
            go(c, mu, "pbtrf_with_workspace", [&] { pbtrf_with_workspace(up, A, kd, o); }, GA);
            break;
        }
        case 8: go(c, mu, "lauum_recursive", [&] { lauum_recursive(up, A); }, GA); break;
        default: {
            Diag dg = mu.en("diag", genDg(c), BAD_DIAG);
            go(c, mu, "trtri_recursive", [&] { trtri_recursive(up, dg, A); }, GA);
        }
    }
}
template <class T, Layout L> void tOrth(Case& c)
{
    Mut mu(c, 7);
    Wk<T> W;
    bool wv = c.coin();
    int r = (int)c.draw(9);
    Direction d0 = c.coin() ? Direction::Forward : Direction::Backward;
    StoreV s0 = c.coin() ? StoreV::Columnwise : StoreV::Rowwise;
    bool cw = s0 == StoreV::Columnwise;
    if (r == 0) {  // larfg, alpha/x form
        size_t n = mu.small();
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        GVec<T> x(c, n), al(c, 2);
        rnd(c, x), rnd(c, al);
        auto X = x.view();
        go(c, mu, "larfg", [&] { larfg(sv, al[0], X, al[1]); }, x, al);
    }
    else if (r == 1) {
        size_t n = mu.small() + 1;
        Direction dr = mu.en("direction", d0, BAD_DIR);
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        GVec<T> x(c, n), al(c, 2);
        rnd(c, x), rnd(c, al);
        auto X = x.view();
        go(c, mu, "larfg-direction", [&] { larfg(dr, sv, X, al[1]); }, x, al);
    }
    else if (r == 2) {
        size_t n = mu.small(), k = std::min(n, mu.small());
        Direction dr = mu.en("direction", d0, BAD_DIR);
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        size_t kv = mu.less("V", k), tr = mu.less("T.rows", k), tc = mu.less("T.cols", k);
        GMat<T, L> GV(c, cw ? n : kv, cw ? kv : n), GT(c, tr, tc);
        if (mu.what == "storeMode") { GV = GMat<T, L>(c, std::max(n, kv), std::max(n, kv)); }
        GVec<T> gt(c, k);
        rnd(c, GV), rnd(c, GT), rnd(c, gt);
        auto V = GV.view(), Tm = GT.view();
        auto tau = gt.view();
        go(c, mu, "larft", [&] { larft(dr, sv, V, tau, Tm); }, GV, GT, gt);
    }
    else if (r == 3) {  // larf
        size_t m = mu.small(), n = mu.small();
        Side sd0 = genSide(c);
        Side sd = mu.en("side", sd0, BAD_SIDE);
        Direction dr = mu.en("direction", d0, BAD_DIR);
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        GMat<T, L> GC(c, m, n);
        GVec<T> v(c, mu.dim("v", sd0 == Side::Left ? m : n));
        rnd(c, GC), rnd(c, v);
        auto C = GC.view();
        auto V = v.view();
        T tau = uni<T>(c);
        go(c, mu, "larf", [&] { if (wv) larf_work(sd, dr, sv, V, tau, C, W.v); else larf(sd, dr, sv, V, tau, C); }, GC, v);
    }
    else if (r == 4) {  // larf with C0, C1
        size_t m = mu.small(), n = mu.small();
        Side sd0 = genSide(c);
        Side sd = mu.en("side", sd0, BAD_SIDE);
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        GMat<T, L> GC(c, m, n);
        GVec<T> v(c, mu.dim("x", sd0 == Side::Left ? m : n)), c0(c, sd0 == Side::Left ? n : m);
        rnd(c, GC), rnd(c, v), rnd(c, c0);
        auto C = GC.view();
        auto V = v.view(), C0 = c0.view();
        T tau = uni<T>(c);
        go(c, mu, "larf-split", [&] { if (wv) larf_work(sd, sv, V, tau, C0, C, W.v); else larf(sd, sv, V, tau, C0, C); }, GC, v, c0);
    }
    else if (r == 5) {
        size_t m = mu.small(), n = mu.small();
        Side sd0 = genSide(c);
        size_t q = sd0 == Side::Left ? m : n, k = std::min(q, mu.small());
        Side sd = mu.en("side", sd0, BAD_SIDE);
        Op t0 = c.coin() ? Op::NoTrans : (cplx<T> ? Op::ConjTrans : c.pick({Op::Trans, Op::ConjTrans}));
        Op t = mu.en("trans", t0, {Op::Conj, cplx<T> ? Op::Trans : Op::Conj, odd<Op>('X')});
        Direction dr = mu.en("direction", d0, BAD_DIR);
        StoreV sv = mu.en("storeMode", s0, BAD_STORE);
        size_t vk = mu.dim("V.k", k), vn = mu.dim("V.n", q), tc = mu.dim("T.cols", k);
        GMat<T, L> GV(c, cw ? vn : vk, cw ? vk : vn), GT(c, k, tc), GC(c, m, n);
        rnd(c, GV), rnd(c, GT), rnd(c, GC);
        if (mu.bad() && (m == 0 || n == 0 || k == 0)) throw pbt::Discard();  // empty problems return before any validation
        auto V = GV.view(), Tm = GT.view(), C = GC.view();
        go(c, mu, "larfb", [&] { if (wv) larfb_work(sd, t, dr, sv, V, Tm, C, W.v); else larfb(sd, t, dr, sv, V, Tm, C); }, GV, GT, GC);
    }
    else if (r <= 7) {
        bool lvl2 = r == 6;
        if (c.coin()) {
            size_t a = mu.small(), b = std::min(a, mu.small()), k = std::min(b, mu.small());
            Direction dr = mu.en("direction", d0, BAD_DIR);
            // a >= b >= k
            if (mu.cond("k > order", true)) k = b + (size_t)c.range(1, 3);
            else if (mu.cond("wrong aspect", a > b)) std::swap(a, b);
            GMat<T, L> GA(c, cw ? a : b, cw ? b : a);
            GVec<T> gt(c, k);
            if (mu.bad() && (a == 0 || b == 0)) throw pbt::Discard();
            rnd(c, GA), rnd(c, gt);
            auto A = GA.view();
            auto tau = gt.view();
            UngqOpts o;
            o.nb = c.range(1, 4);
            if (lvl2) go(c, mu, "ungq_level2", [&] { if (wv) ungq_level2_work(dr, s0, A, tau, W.v); else ungq_level2(dr, s0, A, tau); }, GA, gt);
            else go(c, mu, "ungq", [&] { if (wv) ungq_work(dr, s0, A, tau, W.v, o); else ungq(dr, s0, A, tau, o); }, GA, gt);
        }
        else {
            size_t m = mu.small(), n = mu.small();
            Side sd0 = genSide(c);
            size_t q = sd0 == Side::Left ? m : n, k = std::min(q, mu.small());
            Side sd = mu.en("side", sd0, BAD_SIDE);
            Op t0 = c.coin() ? Op::NoTrans : (cplx<T> ? Op::ConjTrans : c.pick({Op::Trans, Op::ConjTrans}));
            Op t = mu.en("trans", t0, {Op::Conj, cplx<T> ? Op::Trans : Op::Conj, odd<Op>('X')});
            Direction dr = mu.en("direction", d0, BAD_DIR);
            size_t vk = mu.dim("V.k", k), vn = mu.dim("V.n", q);
            GMat<T, L> GV(c, cw ? vn : vk, cw ? vk : vn), GC(c, m, n);
            GVec<T> gt(c, k);
            if (mu.bad() && (m == 0 || n == 0 || k == 0)) throw pbt::Discard();
            rnd(c, GV), rnd(c, GC), rnd(c, gt);
            auto V = GV.view(), C = GC.view();
            auto tau = gt.view();
            UnmqOpts o;
            o.nb = c.range(1, 4);
            if (lvl2) go(c, mu, "unmq_level2", [&] { if (wv) unmq_level2_work(sd, t, dr, s0, V, tau, C, W.v); else unmq_level2(sd, t, dr, s0, V, tau, C); }, GV, GC, gt);
            else go(c, mu, "unmq", [&] { if (wv) unmq_work(sd, t, dr, s0, V, tau, C, W.v, o); else unmq(sd, t, dr, s0, V, tau, C, o); }, GV, GC, gt);
        }
    }
    else {
        size_t n = mu.small(), m = n + mu.small();
        if (mu.cond("wide A", true)) n = m + (size_t)c.range(1, 3);
        GMat<T, L> GA(c, m, n), GB(c, std::max(m, n), 1 + (size_t)c.size(0, 3));
        rnd(c, GA), rnd(c, GB);
        auto A = GA.view(), B = GB.view();
        TikOpts o;
        o.variant = c.pick({TikVariant::QR, TikVariant::Elden, TikVariant::SVD});
        GMat<T, L> GB2(c, m, GB.n);
        rnd(c, GB2);
        auto B2 = GB2.view();
        real_t<T> lam(0.5);
        if (c.coin()) go(c, mu, "tkhnv", [&] { tkhnv(A, B2, lam, o); }, GA, GB2);
        else go(c, mu, "tik_bidiag_elden", [&] { tik_bidiag_elden(A, B2, lam); }, GA, GB2);
    }
}
static const char* R = "the call has one invalid argument";
#define ALL(nm, f, q, t) \
    static pbt::Reg nm##1(#nm "/double/C", q, t, f<D, LC>, R); \
    static pbt::Reg nm##2(#nm "/cdouble/R", q, t, f<CD, LR>, R); \
    static pbt::Reg nm##3(#nm "/float/R", q, t, f<F, LR>, R); \
    static pbt::Reg nm##4(#nm "/cfloat/C", q, t, f<CF, LC>, R);
ALL(qr, tQR, 40000, 400000)
ALL(hess, tHess, 30000, 300000)
ALL(lu, tLU, 30000, 300000)
ALL(chol, tChol, 40000, 400000)
ALL(orth, tOrth, 90000, 900000)
