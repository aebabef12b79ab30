#include "reject.hpp"
#include "fact.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/hasinf.hpp"
#include "tlapack/lapack/hasnan.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/infnorm_hermitian_colmajor.hpp"
#include "tlapack/lapack/infnorm_symmetric_colmajor.hpp"
#include "tlapack/lapack/infnorm_triangular_colmajor.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
#include "tlapack/lapack/transpose.hpp"
#include "tlapack/lapack/trmm_blocked_mixed.hpp"
using namespace tlapack;
template <class T, Layout L1, Layout L2, Layout L3> void tMul(Case& c)
{
    Mut mu(c, 9);
    int r = (int)c.draw(3);
    T a = coefExact<T>(c), b = coefExact<T>(c);
    if (r == 0) {
        size_t n = mu.small(), k = mu.small();
        Op ta = genOp3(c), tb = genOp3(c);
        bool A_t = ta != Op::NoTrans, B_t = tb != Op::NoTrans;
        Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
        Op ta2 = mu.en("transA", ta, BAD_OP3), tb2 = mu.en("transB", tb, BAD_OP3);
        size_t am = mu.dim("A.outer", n), ak = mu.dim("A.inner", k), bk = mu.dim("B.inner", k), bn = mu.dim("B.outer", n);
        GMat<T, L1> A(c, A_t ? ak : am, A_t ? am : ak);
        GMat<T, L2> B(c, B_t ? bn : bk, B_t ? bk : bn);
        GMat<T, L3> C(c, mu.dim("C.rows", n), mu.dim("C.cols", n));
        rnd(c, A), rnd(c, B), rnd(c, C);
        auto Av = A.view(); auto Bv = B.view(); auto Cv = C.view();
        go(c, mu, "gemmtr", [&] { gemmtr(up, ta2, tb2, a, Av, Bv, b, Cv); }, A, B, C);
    }
    else if (r == 1) {
        size_t m = mu.small(), n = mu.small();  // B is m x n, op(B) enters the product
        Op tb = genOp3(c);
        bool B_t = tb != Op::NoTrans;
        Side s0 = genSide(c);
        Side s = mu.en("side", s0, {odd<Side>('X'), odd<Side>('l')});
        Uplo up = mu.en("uplo", uplo3(c), BAD_UPLO_G);
        size_t om = B_t ? n : m, on = B_t ? m : n, k = s0 == Side::Left ? om : on;
        GMat<T, L1> A(c, mu.dim("A.rows", k), mu.dim("A.cols", k));
        GMat<T, L2> B(c, m, n);
        GMat<T, L3> C(c, mu.dim("C.rows", om), mu.dim("C.cols", on));
        rnd(c, A), rnd(c, B), rnd(c, C);
        auto Av = A.view(); auto Bv = B.view(); auto Cv = C.view();
        bool nb = c.coin();
        go(c, mu, "hemm2", [&] { if (nb) hemm2(s, up, tb, a, Av, Bv, Cv); else hemm2(s, up, tb, a, Av, Bv, b, Cv); }, A, B, C);
    }
    else {
        size_t m = mu.small(), n = mu.small();
        Side s0 = genSide(c);
        size_t k = s0 == Side::Left ? m : n;
        Side s = mu.en("side", s0, BAD_SIDE);
        Uplo up = mu.en("uplo", genUp(c), BAD_UPLO);
        Op t = mu.en("trans", genOp3(c), BAD_OP3);
        Diag dg = mu.en("diag", genDg(c), BAD_DIAG);
        GMat<T, L1> A(c, mu.dim("A.rows", k), mu.dim("A.cols", k));
        size_t kb = mu.dim("B", k);
        GMat<T, L2> B(c, s0 == Side::Left ? kb : m, s0 == Side::Left ? n : kb);
        rnd(c, A), rnd(c, B);
        auto Av = A.view(); auto Bv = B.view();
        TrmmBlockedOpts o;
        o.nb = c.range(1, 4);
        std::vector<T> w(o.nb * (std::max(B.m, B.n) + 4) + 4);
        LegacyMatrix<T> work(w.size(), 1, w.data(), w.size());
        go(c, mu, "trmm_blocked_mixed", [&] { trmm_blocked_mixed(s, up, t, dg, a, Av, Bv, work, o); }, A, B);
    }
}
template <class T, Layout L> void tNorm(Case& c)
{
    Mut mu(c, 3);
    int r = (int)c.draw(11);
    size_t m = mu.small(), n = mu.small();
    using E = std::initializer_list<Norm>;
    auto nt = [&]() { return mu.en<Norm>("normType", c.pick({Norm::Fro, Norm::Inf, Norm::Max, Norm::One}), {Norm::Two, odd<Norm>('X'), odd<Norm>('f')}); };
    auto up = [&]() { return mu.en<Uplo>("uplo", genUp(c), BAD_UPLO); };
    auto sq = [&]() { m = n; };
    bool needSq = r == 1 || r == 2 || r == 4 || r == 5;
    if (needSq) sq();
    GMat<T, L> A(c, m, n);
    rnd(c, A);
    auto a = A.view();
    switch (r) {
        case 0: { Norm t = nt(); go(c, mu, "lange", [&] { lange(t, a); }, A); break; }
        case 1: { Norm t = nt(); Uplo u = up(); go(c, mu, "lanhe", [&] { lanhe(t, u, a); }, A); break; }
        case 2: { Norm t = nt(); Uplo u = up(); go(c, mu, "lansy", [&] { lansy(t, u, a); }, A); break; }
        case 3: { Norm t = nt(); Uplo u = up(); Diag d = mu.en<Diag>("diag", genDg(c), BAD_DIAG); go(c, mu, "lantr", [&] { lantr(t, u, d, a); }, A); break; }
        case 4: { Uplo u = up(); if constexpr (L == LC) go(c, mu, "infnorm_hermitian_colmajor", [&] { infnorm_hermitian_colmajor(u, a); }, A); break; }
        case 5: { Uplo u = up(); if constexpr (L == LC) go(c, mu, "infnorm_symmetric_colmajor", [&] { infnorm_symmetric_colmajor(u, a); }, A); break; }
        case 6: { Uplo u = up(); Diag d = mu.en<Diag>("diag", genDg(c), BAD_DIAG); if constexpr (L == LC) go(c, mu, "infnorm_triangular_colmajor", [&] { infnorm_triangular_colmajor(u, d, a); }, A); break; }
        case 7:
        case 8: {
            Uplo u = mu.en<Uplo>("uplo", c.pick({Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower}), {odd<Uplo>('X'), odd<Uplo>('u'), odd<Uplo>(5)});
            if (r == 7) go(c, mu, "hasnan", [&] { hasnan(u, a); }, A);
            else go(c, mu, "hasinf", [&] { hasinf(u, a); }, A);
            break;
        }
        case 9: {
            Uplo u = mu.en<Uplo>("uplo", uplo3(c), BAD_UPLO_G);
            go(c, mu, "laset", [&] { laset(u, T(1), T(2), a); }, A);
            break;
        }
        default: {
            Uplo u = mu.en<Uplo>("uplo", uplo3(c), BAD_UPLO_G);
            GMat<T, L> B(c, m, n);
            rnd(c, B);
            auto b = B.view();
            go(c, mu, "lacpy", [&] { lacpy(u, a, b); }, A, B);
        }
    }
}
template <class T, Layout L, Layout L2> void tRest(Case& c)
{
    Mut mu(c, 5);
    using R = real_t<T>;
    int r = (int)c.draw(6);
    size_t m = mu.small(), n = mu.small();
    R nan = std::numeric_limits<R>::quiet_NaN();
    if (r <= 1) {
        GMat<T, L> A(c, m, n);
        rnd(c, A);
        auto a = A.view();
        R nu = uni<R>(c) + R(2), de = uni<R>(c) + R(3);
        if (mu.cond("b is zero", true)) de = c.coin() ? R(0) : -R(0);
        if (mu.cond("b is NaN", true)) de = nan;
        if (mu.cond("a is NaN", true)) nu = nan;
        if (r == 0) {
            Uplo u = mu.en<Uplo>("uplo", c.pick({Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower}), {odd<Uplo>('X'), odd<Uplo>('u'), odd<Uplo>(5)});
            go(c, mu, "lascl", [&] { lascl(u, de, nu, a); }, A);
        }
        else {
            size_t kl = m ? (size_t)c.range(0, m - 1) : 0, ku = n ? (size_t)c.range(0, n - 1) : 0;
            if (mu.cond("kl", true)) kl = m + (size_t)c.range(m ? 0 : 1, 2);
            if (mu.cond("ku", true)) ku = n + (size_t)c.range(n ? 0 : 1, 2);
            go(c, mu, "lascl-band", [&] { lascl(BandAccess{kl, ku}, de, nu, a); }, A);
        }
    }
    else if (r == 2) {
        Side sd = genSide(c);
        size_t q = sd == Side::Left ? m : n, k = q ? q - 1 : 0;
        GMat<T, L> A(c, m, n);
        GVec<R> cs(c, mu.dim("c", k));
        GVec<T> sn(c, mu.dim("s", k));
        rnd(c, A), rnd(c, cs), rnd(c, sn);
        auto a = A.view();
        auto C = cs.view();
        auto S = sn.view();
        Direction d = c.coin() ? Direction::Forward : Direction::Backward;
        go(c, mu, "rot_sequence", [&] { rot_sequence(sd, d, C, S, a); }, A, cs, sn);
    }
    else if (r == 3) {
        Side sd = genSide(c);
        size_t q = sd == Side::Left ? m : n, k = q ? q - 1 : 0, l = mu.small();
        GMat<T, L> A(c, m, n);
        GMat<R, L2> cs(c, mu.dim("C.rows", k), mu.dim("C.cols", l));
        GMat<T, L2> sn(c, mu.dim("S.rows", k), mu.dim("S.cols", l));
        rnd(c, A), rnd(c, cs), rnd(c, sn);
        auto a = A.view();
        auto C = cs.view();
        auto S = sn.view();
        Direction d = c.coin() ? Direction::Forward : Direction::Backward;
        go(c, mu, "rot_sequence3", [&] { rot_sequence3(sd, d, C, S, a); }, A, cs, sn);
    }
    else {
        TransposeOpts o;
        o.nx = mu.en<size_t>("nx", (size_t)c.range(2, 6), {0, 1});
        GMat<T, L> A(c, m, n);
        GMat<T, L2> B(c, mu.dim("B.rows", n), mu.dim("B.cols", m));
        rnd(c, A), rnd(c, B);
        auto a = A.view();
        auto b = B.view();
        if (r == 4) go(c, mu, "transpose", [&] { tlapack::transpose(a, b, o); }, A, B);
        else go(c, mu, "conjtranspose", [&] { conjtranspose(a, b, o); }, A, B);
    }
}
static const char* R_ = "the call has one invalid argument";
static pbt::Reg a1("mul/double/CRC", 48000, 640000, tMul<D, LC, LR, LC>, R_);
static pbt::Reg a2("mul/cdouble/RRR", 48000, 640000, tMul<CD, LR, LR, LR>, R_);
static pbt::Reg a3("mul/cfloat/CCC", 48000, 640000, tMul<CF, LC, LC, LC>, R_);
static pbt::Reg b1("norm/double/C", 32000, 400000, tNorm<D, LC>, R_);
static pbt::Reg b2("norm/cdouble/R", 32000, 400000, tNorm<CD, LR>, R_);
static pbt::Reg b3("norm/cfloat/C", 32000, 400000, tNorm<CF, LC>, R_);
static pbt::Reg c1("rest/double/CR", 32000, 400000, tRest<D, LC, LR>, R_);
static pbt::Reg c2("rest/cdouble/RR", 32000, 400000, tRest<CD, LR, LR>, R_);
static pbt::Reg c3("rest/float/RC", 32000, 400000, tRest<F, LR, LC>, R_);
