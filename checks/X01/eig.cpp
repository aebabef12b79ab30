#include "reject.hpp"
#include "fact.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
#include "tlapack/lapack/lahqr_shiftcolumn.hpp"
#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
#include "tlapack/lapack/schur_swap.hpp"
#include "tlapack/lapack/generalized_schur_swap.hpp"
#include "tlapack/lapack/lasy2.hpp"
#include "tlapack/lapack/trevc.hpp"
#include "tlapack/lapack/trevc3.hpp"
using namespace tlapack;
template <class T, Layout L> void tri(GMat<T, L>& A, int sub)
{
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) if (i > j + sub) A(i, j) = T(0);
}
template <class T, Layout L> void tHG(Case& c)
{
    Mut mu(c, 10);
    bool blk = c.coin();
    size_t n = mu.small(), ilo = n ? (size_t)c.range(0, n - 1) : 0, ihi = n ? (size_t)c.range(ilo + 1, n) : 0;
    bool wq = c.coin(), wz = c.coin();
    if (mu.cond("ilo", true)) ilo = n + (size_t)c.range(0, 2), ihi = ilo + 1;
    if (mu.cond("ihi", true)) ihi = c.coin() ? n + (size_t)c.range(1, 2) : ilo;
    size_t am = mu.dim("A.rows", n), bm = mu.dim("B.rows", n), bn = mu.dim("B.cols", n), qm = mu.dim("Q.rows", n), qn = mu.dim("Q.cols", n), zm = mu.dim("Z.rows", n), zn = mu.dim("Z.cols", n);
    GMat<T, L> A(c, am, n), B(c, bm, bn), Q(c, qm, qn), Z(c, zm, zn);
    if (mu.bad() && n == 0) throw pbt::Discard();  // an empty pencil returns before any validation
    rnd(c, A), rnd(c, B), rnd(c, Q), rnd(c, Z);
    tri(B, 0);
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    Gghd3Opts o;
    o.nb = c.range(1, 4);
    if (blk) go(c, mu, "gghd3", [&] { gghd3(wq, wz, ilo, ihi, a, b, q, z, o); }, A, B, Q, Z);
    else go(c, mu, "gghrd", [&] { gghrd(wq, wz, ilo, ihi, a, b, q, z); }, A, B, Q, Z);
}
template <class T, Layout L> void tQRit(Case& c)
{
    Mut mu(c, 4);
    Wk<T> WK;
    bool wv = c.coin();
    bool ms = c.coin();
    size_t n = mu.small();
    if (ms && c.chance(1, 4)) n += 14;
    size_t ilo = n ? (size_t)c.range(0, n - 1) : 0, ihi = n ? (size_t)c.range(ilo + 1, n) : 0;
    if (!mu.c.chance(1, 4)) ilo = 0, ihi = n;
    bool wt = c.coin(), wz = c.coin();
    size_t am = mu.dim("A.rows", n), wn = mu.dim("w", n), zm = n, zn = n;
    if (wz) zm = mu.dim("Z.rows", n), zn = mu.dim("Z.cols", n);
    GMat<T, L> A(c, am, n), Z(c, zm, zn);
    GVec<std::complex<real_t<T>>> w(c, wn);
    rnd(c, A), rnd(c, Z), rnd(c, w);
    tri(A, 1);
    for (size_t k = 0; k + 1 < std::min(am, n); ++k) if (k + 1 == ilo || k + 1 == ihi) A(k + 1, k) = T(0);
    auto a = A.view(), z = Z.view();
    auto W = w.view();
    FrancisOpts o;
    o.nmin = 14;
    if (ms) go(c, mu, "multishift_qr", [&] { if (wv) multishift_qr_work(wt, wz, ilo, ihi, a, W, z, WK.v, o); else if (c.coin()) multishift_qr(wt, wz, ilo, ihi, a, W, z, o); else multishift_qr(wt, wz, ilo, ihi, a, W, z); }, A, Z, w);
    else go(c, mu, "lahqr", [&] { lahqr(wt, wz, ilo, ihi, a, W, z); }, A, Z, w);
}
template <class T, Layout L> void tQZit(Case& c)
{
    Mut mu(c, 9);
    bool ms = c.coin();
    size_t n = mu.small(), ilo = 0, ihi = n;
    bool wt = c.coin(), wq = c.coin(), wz = c.coin();
    size_t am = mu.dim("A.rows", n), bm = mu.dim("B.rows", n), bn = mu.dim("B.cols", n), wn = mu.dim("alpha", n), wb = mu.dim("beta", n), zm = n, zn = n, qm = n, qn = n;
    if (wz) zm = mu.dim("Z.rows", n), zn = mu.dim("Z.cols", n);
    if (wq) qm = mu.dim("Q.rows", n), qn = mu.dim("Q.cols", n);
    GMat<T, L> A(c, am, n), B(c, bm, bn), Q(c, qm, qn), Z(c, zm, zn);
    GVec<std::complex<real_t<T>>> al(c, wn);
    GVec<T> be(c, wb);
    rnd(c, A), rnd(c, B), rnd(c, Q), rnd(c, Z), rnd(c, al), rnd(c, be);
    tri(A, 1), tri(B, 0);
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    auto av = al.view();
    auto bv = be.view();
    FrancisOpts o;
    if (ms) go(c, mu, "multishift_qz", [&] { multishift_qz(wt, wq, wz, ilo, ihi, a, b, av, bv, q, z, o); }, A, B, Q, Z, al, be);
    else go(c, mu, "lahqz", [&] { lahqz(wt, wq, wz, ilo, ihi, a, b, av, bv, q, z); }, A, B, Q, Z, al, be);
}
template <class T, Layout L> void tShift(Case& c)
{
    Mut mu(c, 3);
    bool qz = c.coin();
    using CT = std::complex<real_t<T>>;
    size_t n = (size_t)c.range(2, 3);
    size_t hm = mu.dim("H.rows", n), vn = mu.dim("v", n);
    if (mu.cond("order", true)) n = hm = vn = c.pick<size_t>({0, 1, 4, 5});
    GMat<T, L> H(c, hm, n), B(c, hm, n);
    GVec<T> v(c, vn);
    rnd(c, H), rnd(c, B), rnd(c, v);
    auto h = H.view(), b = B.view();
    auto V = v.view();
    CT s1(mk<CT>(re(uni<T>(c)), re(uni<T>(c)))), s2(std::conj(s1));
    if (qz) {
        if constexpr (cplx<T>) go(c, mu, "lahqz_shiftcolumn", [&] { lahqz_shiftcolumn(h, b, V, s1, s2, T(1), T(2)); }, H, B, v);
        else go(c, mu, "lahqz_shiftcolumn", [&] { lahqz_shiftcolumn(h, b, V, s1, s2, T(1), T(2)); }, H, B, v);
    }
    else go(c, mu, "lahqr_shiftcolumn", [&] { if constexpr (cplx<T>) lahqr_shiftcolumn(h, V, s1, s2); else lahqr_shiftcolumn(h, V, s1, s2); }, H, v);
}
template <class T, Layout L> void tSwap(Case& c)
{
    Mut mu(c, 6);
    bool gen = c.coin();
    size_t n = 2 + mu.small(), n1 = 1, n2 = 1, j0 = (size_t)c.range(0, n - 2);
    bool wq = c.coin(), wz = c.coin();
    size_t am = mu.dim("A.rows", n), qm = mu.dim("Q.rows", n), qn = mu.dim("Q.cols", n);
    if (mu.cond("j0", true)) j0 = n - 1 + (size_t)c.range(0, 3);
    if (mu.cond("n1", true)) n1 = c.pick<size_t>({0, 3, 4});
    if (mu.cond("n2", true)) n2 = c.pick<size_t>({0, 3, 4});
    GMat<T, L> A(c, am, n), B(c, n, n), Q(c, qm, qn), Z(c, n, n);
    rnd(c, A), rnd(c, B), rnd(c, Q), rnd(c, Z);
    tri(A, 0), tri(B, 0);
    auto a = A.view(), b = B.view(), q = Q.view(), z = Z.view();
    if (gen) go(c, mu, "generalized_schur_swap", [&] { generalized_schur_swap(wq, wz, a, b, q, z, j0, n1, n2); }, A, B, Q, Z);
    else go(c, mu, "schur_swap", [&] { schur_swap(wq, a, q, j0, n1, n2); }, A, Q);
}
template <class T, Layout L> void tTrevc(Case& c)
{
    Mut mu(c, 2);
    bool blk = c.coin();
    size_t n = mu.small();
    using R = real_t<T>;
    Side sd = c.pick({Side::Left, Side::Right, Side::Both});
    HowMny hm = c.pick({HowMny::All, HowMny::Back, HowMny::Select});
    size_t m = 0;
    bool sel[64];
    for (size_t i = 0; i < n; ++i) sel[i] = c.coin(), m += sel[i];
    if (hm != HowMny::Select) m = n;
    size_t ml = m, mr = m;
    if (sd != Side::Right) ml = mu.less("Vl.cols", m);
    if (sd != Side::Left) mr = mu.less("Vr.cols", m);
    GMat<T, L> A(c, n, n), Vl(c, n, ml), Vr(c, n, mr);
    rnd(c, A), rnd(c, Vl), rnd(c, Vr);
    tri(A, 0);
    // real: trevc expects zeros below; 1-by-1 blocks only
    auto a = A.view(), vl = Vl.view(), vr = Vr.view();
    LegacyVector<bool, size_t> select(n, sel, 1);
    if (blk) {
        Trevc3Opts o;
        o.block_size = c.range(1, 4), o.block_size_solve = c.range(1, 4);
        go(c, mu, "trevc3", [&] { trevc3(sd, hm, select, a, vl, vr, o); }, A, Vl, Vr);
    }
    else {
        std::vector<T> w(3 * n + 1);
        std::vector<R> rw(n + 1);
        LegacyVector<T, size_t> work(3 * n, w.data(), 1);
        LegacyVector<R, size_t> rwork(n, rw.data(), 1);
        go(c, mu, "trevc", [&] { trevc(sd, hm, select, a, vl, vr, rwork, work); }, A, Vl, Vr);
    }
}
template <class T, Layout L> void tSylv(Case& c)
{
    Mut mu(c, 1);
    size_t m = (size_t)c.range(1, 2), n = m;
    int isgn = mu.en("isign", c.coin() ? 1 : -1, {0, 2, -2, 7});
    GMat<T, L> A(c, m, m), Bq(c, n, n), R(c, m, n), X(c, m, n);
    GVec<T> o(c, 2);
    rnd(c, A), rnd(c, Bq), rnd(c, R), rnd(c, X), rnd(c, o);
    if (m == 2) tri(A, 0), tri(Bq, 0);
    auto a = A.view(), b = Bq.view(), r = R.view(), x = X.view();
    Op tl = c.coin() ? Op::NoTrans : Op::Trans, tr = c.coin() ? Op::NoTrans : Op::Trans;
    go(c, mu, "lasy2", [&] { lasy2(tl, tr, isgn, a, b, r, o[0], x, o[1]); }, A, Bq, R, X, o);
}
static const char* R_ = "the call has one invalid argument";
#define ALL(nm, f, q, t) \
    static pbt::Reg nm##1(#nm "/double/C", q, t, f<D, LC>, R_); \
    static pbt::Reg nm##2(#nm "/cdouble/R", q, t, f<CD, LR>, R_); \
    static pbt::Reg nm##3(#nm "/float/R", q, t, f<F, LR>, R_); \
    static pbt::Reg nm##4(#nm "/cfloat/C", q, t, f<CF, LC>, R_);
ALL(gg, tHG, 24000, 320000)
ALL(qrit, tQRit, 16000, 240000)
ALL(qzit, tQZit, 20000, 320000)
ALL(swap, tSwap, 16000, 240000)
ALL(trevc, tTrevc, 12000, 160000)
static pbt::Reg s1("shift/double/C", 1500, 20000, tShift<D, LC>, R_);
static pbt::Reg s2("shift/float/R", 1500, 20000, tShift<F, LR>, R_);
static pbt::Reg ly1("lasy2/double/C", 300, 5000, tSylv<D, LC>, R_);
static pbt::Reg ly2("lasy2/float/R", 300, 5000, tSylv<F, LR>, R_);
