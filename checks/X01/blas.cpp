#include "reject.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/copy.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/dotu.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/rotm.hpp"
#include "tlapack/blas/rotmg.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/swap.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/syr2.hpp"
#include "tlapack/blas/syr2k.hpp"
#include "tlapack/blas/syrk.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/trsv.hpp"

template <class T> void tL1(Case& c)
{
    Mut mu(c, 1);
    size_t n = mu.small();
    int r = (int)c.draw(10);
    bool onlyShort = r == 0 || r == 1;
    size_t ny = onlyShort ? mu.less("y", n) : mu.dim("y", n);
    GVec<T> x(c, n), y(c, ny);
    rnd(c, x), rnd(c, y);
    auto X = x.view(), Y = y.view();
    T a = coefExact<T>(c);
    real_t<T> co(0.6), si(0.8);
    switch (r) {
        case 0: go(c, mu, "axpy", [&] { tlapack::axpy(a, X, Y); }, x, y); break;
        case 1: go(c, mu, "copy", [&] { tlapack::copy(X, Y); }, x, y); break;
        case 2: go(c, mu, "dot", [&] { tlapack::dot(X, Y); }, x, y); break;
        case 3: go(c, mu, "dotu", [&] { tlapack::dotu(X, Y); }, x, y); break;
        case 4: go(c, mu, "swap", [&] { tlapack::swap(X, Y); }, x, y); break;
        case 5: go(c, mu, "rot", [&] { tlapack::rot(X, Y, co, si); }, x, y); break;
        case 6:
            if constexpr (!cplx<T>) {
                real_t<T> h[4] = {1, 2, 3, 4};
                int flag = (int)c.range(-2, 1);
                go(c, mu, "rotm", [&] { if (flag == -2) tlapack::rotm<-2>(X, Y, h); else if (flag == -1) tlapack::rotm<-1>(X, Y, h); else if (flag == 0) tlapack::rotm<0>(X, Y, h); else tlapack::rotm<1>(X, Y, h); }, x, y);
            }
            else go(c, mu, "rot", [&] { tlapack::rot(X, Y, co, si); }, x, y);
            break;
        case 7:
            if constexpr (!cplx<T>) {
                // operands d1, d2, a, h
                GVec<T> d(c, 3), h(c, 4);
                rnd(c, d), rnd(c, h);
                Mut m2(c, 1);
                T d1 = std::abs(d[0]) + T(0.5), b = uni<T>(c);
                auto tame = [](T& x, T top) { if (!(std::abs(x) < top)) x = 2; if (std::abs(x) < 1 / top) x = 1; };  // rotmg rescales one step at a time, for ever if infinite
                tame(d1, T(1e30f)), tame(d[1], T(1e30f)), tame(d[2], T(1e15f)), tame(b, T(1e15f));
                if (m2.hit()) m2.what = "d1", d1 = c.coin() ? T(0) : -d1;
                d[0] = d1;
                go(c, m2, "rotmg", [&] { T hh[4]; for (int i = 0; i < 4; ++i) hh[i] = h[i]; T &r1 = d[0], &r2 = d[1], &ra = d[2]; struct Back { T* hh; GVec<T>& h; ~Back() { for (int i = 0; i < 4; ++i) h[i] = hh[i]; } } bk{hh, h}; tlapack::rotmg(r1, r2, ra, b, hh); }, d, h);
                break;
            }
            [[fallthrough]];
        default: {
            Mut ok(c, 1);
            ok.target = 0;
            go(c, ok, "level1-zero-dim", [&] { tlapack::asum(X); tlapack::nrm2(X); tlapack::iamax(X); tlapack::scal(a, X); }, x, y);
        }
    }
}
template <class T, Layout L> void tL2(Case& c)
{
    Mut mu(c, 6);
    int r = (int)c.draw(10);
    T a = coefExact<T>(c), b = coefExact<T>(c);
    if (r == 0) {
        size_t m = mu.small(), n = mu.small();
        Op t0 = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
        bool tr = t0 == Op::Trans || t0 == Op::ConjTrans;
        Op t = mu.en("trans", t0, BAD_OP4);
        GMat<T, L> A(c, m, n);
        GVec<T> x(c, mu.dim("x", tr ? m : n)), y(c, mu.dim("y", tr ? n : m));
        rnd(c, A), rnd(c, x), rnd(c, y);
        auto Av = A.view(); auto X = x.view(), Y = y.view();
        go(c, mu, "gemv", [&] { if (c.coin()) tlapack::gemv(t, a, Av, X, b, Y); else tlapack::gemv(t, a, Av, X, Y); }, A, x, y);
    }
    else if (r == 1) {
        size_t m = mu.small(), n = mu.small();
        GMat<T, L> A(c, m, n);
        GVec<T> x(c, mu.dim("x", m)), y(c, mu.dim("y", n));
        rnd(c, A), rnd(c, x), rnd(c, y);
        auto Av = A.view(); auto X = x.view(), Y = y.view();
        bool u = c.coin();
        go(c, mu, u ? "geru" : "ger", [&] { if (u) tlapack::geru(a, X, Y, Av); else tlapack::ger(a, X, Y, Av); }, A, x, y);
    }
    else {
        size_t n = mu.small();
        Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
        GMat<T, L> A(c, mu.dim("A.rows", n), mu.dim("A.cols", n));
        rnd(c, A);
        auto Av = A.view();
        if (r <= 3) {  // hemv/symv
            GVec<T> x(c, mu.dim("x", n)), y(c, mu.dim("y", n));
            rnd(c, x), rnd(c, y);
            auto X = x.view(), Y = y.view();
            bool nb = c.coin();
            if (r == 2) go(c, mu, "hemv", [&] { if (nb) tlapack::hemv(up, a, Av, X, b, Y); else tlapack::hemv(up, a, Av, X, Y); }, A, x, y);
            else go(c, mu, "symv", [&] { if (nb) tlapack::symv(up, a, Av, X, b, Y); else tlapack::symv(up, a, Av, X, Y); }, A, x, y);
        }
        else if (r <= 5) {
            GVec<T> x(c, mu.dim("x", n));
            rnd(c, x);
            auto X = x.view();
            real_t<T> ra = re(a);
            if (r == 4) go(c, mu, "her", [&] { tlapack::her(up, ra, X, Av); }, A, x);
            else go(c, mu, "syr", [&] { tlapack::syr(up, a, X, Av); }, A, x);
        }
        else if (r <= 7) {
            GVec<T> x(c, mu.dim("x", n)), y(c, mu.dim("y", n));
            rnd(c, x), rnd(c, y);
            auto X = x.view(), Y = y.view();
            if (r == 6) go(c, mu, "her2", [&] { tlapack::her2(up, a, X, Y, Av); }, A, x, y);
            else go(c, mu, "syr2", [&] { tlapack::syr2(up, a, X, Y, Av); }, A, x, y);
        }
        else {
            Op t = mu.en("trans", c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj}), BAD_OP4);
            Diag dg = mu.en("diag", genDg(c), BAD_DIAG);
            GVec<T> x(c, mu.dim("x", n));
            rnd(c, x);
            auto X = x.view();
            if (r == 8) go(c, mu, "trmv", [&] { tlapack::trmv(up, t, dg, Av, X); }, A, x);
            else go(c, mu, "trsv", [&] { tlapack::trsv(up, t, dg, Av, X); }, A, x);
        }
    }
}
template <class T, Layout L1, Layout L2, Layout L3> void tL3(Case& c)
{
    Mut mu(c, 8);
    int r = (int)c.draw(9);
    T a = coefExact<T>(c), b = coefExact<T>(c);
    bool nb = c.coin();
    if (r == 0) {
        size_t m = mu.small(), n = mu.small(), k = mu.small();
        Op ta = genOp3(c), tb = genOp3(c);
        bool A_t = ta != Op::NoTrans, B_t = tb != Op::NoTrans;
        Op ta2 = mu.en("transA", ta, BAD_OP3), tb2 = mu.en("transB", tb, BAD_OP3);
        size_t am = mu.dim("A.outer", m), ak = mu.dim("A.inner", k), bk = mu.dim("B.inner", k), bn = mu.dim("B.outer", n);
        GMat<T, L1> A(c, A_t ? ak : am, A_t ? am : ak);
        GMat<T, L2> B(c, B_t ? bn : bk, B_t ? bk : bn);
        GMat<T, L3> C(c, mu.dim("C.rows", m), mu.dim("C.cols", n));
        rnd(c, A), rnd(c, B), rnd(c, C);
        auto Av = A.view(); auto Bv = B.view(); auto Cv = C.view();
        go(c, mu, "gemm", [&] { if (nb) tlapack::gemm(ta2, tb2, a, Av, Bv, Cv); else tlapack::gemm(ta2, tb2, a, Av, Bv, b, Cv); }, A, B, C);
    }
    else if (r <= 2) {
        size_t m = mu.small(), n = mu.small();
        Side s0 = genSide(c);
        size_t k = s0 == Side::Left ? m : n;
        Side s = mu.en("side", s0, BAD_SIDE);
        Uplo up = mu.en("uplo", uplo3(c), BAD_UPLO_G);
        GMat<T, L1> A(c, mu.dim("A.rows", k), mu.dim("A.cols", k));
        // B alone must not be changed into another consistent shape: C keeps m x n
        GMat<T, L2> B(c, mu.dim("B.rows", m), mu.dim("B.cols", n));
        GMat<T, L3> C(c, mu.dim("C.rows", m), mu.dim("C.cols", n));
        rnd(c, A), rnd(c, B), rnd(c, C);
        auto Av = A.view(); auto Bv = B.view(); auto Cv = C.view();
        if (r == 1) go(c, mu, "hemm", [&] { if (nb) tlapack::hemm(s, up, a, Av, Bv, Cv); else tlapack::hemm(s, up, a, Av, Bv, b, Cv); }, A, B, C);
        else go(c, mu, "symm", [&] { if (nb) tlapack::symm(s, up, a, Av, Bv, Cv); else tlapack::symm(s, up, a, Av, Bv, b, Cv); }, A, B, C);
    }
    else if (r <= 6) {
        size_t n = mu.small(), k = mu.small();
        bool herm = r == 3 || r == 5, two = r >= 5;
        Op other = herm ? Op::ConjTrans : Op::Trans;
        Op t0 = c.coin() ? Op::NoTrans : other;
        bool tr = t0 != Op::NoTrans;
        Op wrong = herm ? Op::Trans : Op::ConjTrans;
        Op t = mu.en("trans", t0, {Op::Conj, wrong, odd<Op>('X')});
        Uplo up = mu.en("uplo", uplo3(c), BAD_UPLO_G);
        size_t cm = mu.dim("C.rows", n), cn = mu.dim("C.cols", n), an = mu.dim("A.outer", n);
        if (!two) {
            GMat<T, L1> A(c, tr ? k : an, tr ? an : k);
            GMat<T, L3> C(c, cm, cn);
            rnd(c, A), rnd(c, C);
            auto Av = A.view(); auto Cv = C.view();
            real_t<T> ra = re(a), rb = re(b);
            if (herm) {
                if (!cplx<T> && mu.what == "trans" && t == wrong) t = Op::Conj;  // Trans is ConjTrans for real scalars in spirit; keep to plainly invalid values
                go(c, mu, "herk", [&] { if (nb) tlapack::herk(up, t, ra, Av, Cv); else tlapack::herk(up, t, ra, Av, rb, Cv); }, A, C);
            }
            else {
                if (!cplx<T> && mu.what == "trans" && t == wrong) t = Op::Conj;
                go(c, mu, "syrk", [&] { if (nb) tlapack::syrk(up, t, a, Av, Cv); else tlapack::syrk(up, t, a, Av, b, Cv); }, A, C);
            }
        }
        else {
            size_t ak = mu.dim("A.inner", k), bn = mu.dim("B.outer", n), bk = mu.dim("B.inner", k);
            GMat<T, L1> A(c, tr ? ak : an, tr ? an : ak);
            GMat<T, L2> B(c, tr ? bk : bn, tr ? bn : bk);
            GMat<T, L3> C(c, cm, cn);
            rnd(c, A), rnd(c, B), rnd(c, C);
            auto Av = A.view(); auto Bv = B.view(); auto Cv = C.view();
            real_t<T> rb = re(b);
            if (!cplx<T> && mu.what == "trans" && t == wrong) t = Op::Conj;
            if (herm) go(c, mu, "her2k", [&] { if (nb) tlapack::her2k(up, t, a, Av, Bv, Cv); else tlapack::her2k(up, t, a, Av, Bv, rb, Cv); }, A, B, C);
            else go(c, mu, "syr2k", [&] { if (nb) tlapack::syr2k(up, t, a, Av, Bv, Cv); else tlapack::syr2k(up, t, a, Av, Bv, b, Cv); }, A, B, C);
        }
    }
    else {
        size_t m = mu.small(), n = mu.small();
        Side s0 = genSide(c);
        size_t k = s0 == Side::Left ? m : n;
        Side s = mu.en("side", s0, BAD_SIDE);
        Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
        Op t = mu.en("trans", genOp3(c), BAD_OP3);
        Diag dg = mu.en("diag", genDg(c), BAD_DIAG);
        GMat<T, L1> A(c, mu.dim("A.rows", k), mu.dim("A.cols", k));
        bool left = s0 == Side::Left;
        // only the dimension tied to A can be wrong
        size_t kb = mu.dim("B", k);
        GMat<T, L2> B(c, left ? kb : m, left ? n : kb);
        rnd(c, A), rnd(c, B);
        auto Av = A.view(); auto Bv = B.view();
        if (r == 7) go(c, mu, "trmm", [&] { tlapack::trmm(s, up, t, dg, a, Av, Bv); }, A, B);
        else go(c, mu, "trsm", [&] { tlapack::trsm(s, up, t, dg, a, Av, Bv); }, A, B);
    }
}
static const char* R = "the call has one invalid argument";
static pbt::Reg a1("blas1/double", 24000, 360000, tL1<D>, R);
static pbt::Reg a2("blas1/cfloat", 24000, 360000, tL1<CF>, R);
static pbt::Reg a3("blas1/float", 24000, 360000, tL1<F>, R);
static pbt::Reg a4("blas1/cdouble", 24000, 360000, tL1<CD>, R);
static pbt::Reg b1("blas2/double/C", 72000, 900000, tL2<D, LC>, R);
static pbt::Reg b2("blas2/cdouble/R", 72000, 900000, tL2<CD, LR>, R);
static pbt::Reg b3("blas2/float/R", 72000, 900000, tL2<F, LR>, R);
static pbt::Reg b4("blas2/cfloat/C", 72000, 900000, tL2<CF, LC>, R);
static pbt::Reg c1("blas3/double/CRC", 96000, 1200000, tL3<D, LC, LR, LC>, R);
static pbt::Reg c2("blas3/cdouble/CCC", 96000, 1200000, tL3<CD, LC, LC, LC>, R);
static pbt::Reg c3("blas3/float/RRR", 96000, 1200000, tL3<F, LR, LR, LR>, R);
static pbt::Reg c4("blas3/cfloat/RCR", 96000, 1200000, tL3<CF, LR, LC, LR>, R);
