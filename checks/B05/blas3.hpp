#pragma once
#include "la.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/syr2k.hpp"
#include "tlapack/blas/syrk.hpp"
#include "blasref.hpp"
template <class TA, class TB, class TC, class TAL, class TBE, Layout L1, Layout L2, Layout L3> void tGemm(Case& c)
{
    Op ta = genOp3(c), tb = genOp3(c);
    size_t m = dim(c), n = dim(c), k = dim(c);
    TAL alpha = coefExact<TAL>(c);
    TBE beta = coefExact<TBE>(c);
    bool nobeta = c.chance(1, 5);
    bool tA = ta == Op::Trans || ta == Op::ConjTrans, tB = tb == Op::Trans || tb == Op::ConjTrans;
    GMat<TA, L1> A(c, tA ? k : m, tA ? m : k);
    GMat<TB, L2> B(c, tB ? n : k, tB ? k : n);
    GMat<TC, L3> C(c, m, n);
    Dense<TA> a = intMat<TA>(c, A.m, A.n);
    Dense<TB> b = intMat<TB>(c, B.m, B.n);
    Dense<TC> cc = intMat<TC>(c, m, n);
    if (nobeta && c.coin()) for (auto& x : cc.a) x = nanT<TC>();
    A.set(a), B.set(b), C.set(cc);
    A.snapshot(), B.snapshot(), C.snapshot();
    c.desc("gemm", nm(ta), nm(tb), "m", m, "n", n, "k", k, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), nobeta ? "nobeta" : "");
    c.nontrivial(m >= 2 && n >= 2 && k >= 2 && (alpha != TAL(0) || beta != TBE(0)));
    c.label(std::string("gemm ") + nm(ta) + nm(tb));
    auto Av = A.view();
    auto Bv = B.view();
    auto Cv = C.view();
    Dense<CW> P = mul(opM(ta, widenM<CW>(a)), opM(tb, widenM<CW>(b)));
    if (nobeta) {
        tlapack::gemm(ta, tb, alpha, Av, Bv, Cv);
        expectEqual(c, "gemm-nobeta", C.get(), axpby(widen<CW>(alpha), P, 0, Dense<CW>(m, n)));
    }
    else {
        tlapack::gemm(ta, tb, alpha, Av, Bv, beta, Cv);
        expectEqual(c, "gemm", C.get(), axpby(widen<CW>(alpha), P, widen<CW>(beta), widenM<CW>(cc)));
    }
    A.unchanged(c, "gemm/A"), B.unchanged(c, "gemm/B"), C.margins(c, "gemm/C");
}

template <bool HERM, class TA, class TB, class TC, class TAL, class TBE, Layout L1, Layout L2, Layout L3> void tHemm(Case& c)
{
    Side side = genSide(c);
    Uplo uplo = uplo3(c);
    size_t m = dim(c), n = dim(c), k = side == Side::Left ? m : n;
    TAL alpha = coefExact<TAL>(c);
    TBE beta = coefExact<TBE>(c);
    bool nobeta = c.chance(1, 5);
    GMat<TA, L1> A(c, k, k);
    GMat<TB, L2> B(c, m, n);
    GMat<TC, L3> C(c, m, n);
    Dense<TA> a = intMat<TA>(c, k, k);
    poison(c, a, uplo, HERM);
    Dense<TB> b = intMat<TB>(c, m, n);
    Dense<TC> cc = intMat<TC>(c, m, n);
    Dense<CW> af = symOf(upOf(uplo), HERM, widenM<CW>(a));
    A.set(a), B.set(b), C.set(cc);
    A.snapshot(), B.snapshot(), C.snapshot();
    std::string w = HERM ? "hemm" : "symm";
    c.desc(w, nm(side), nm(uplo), "m", m, "n", n, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), nobeta ? "nobeta" : "");
    c.nontrivial(m >= 2 && n >= 2 && (alpha != TAL(0) || beta != TBE(0)));
    c.label(w + " " + nm(side) + nm(uplo));
    auto Av = A.view();
    auto Bv = B.view();
    auto Cv = C.view();
    if (nobeta) {
        if constexpr (HERM) tlapack::hemm(side, uplo, alpha, Av, Bv, Cv);
        else tlapack::symm(side, uplo, alpha, Av, Bv, Cv);
        beta = TBE(0);
    }
    else if constexpr (HERM) tlapack::hemm(side, uplo, alpha, Av, Bv, beta, Cv);
    else tlapack::symm(side, uplo, alpha, Av, Bv, beta, Cv);
    Dense<CW> P = side == Side::Left ? mul(af, widenM<CW>(b)) : mul(widenM<CW>(b), af);
    expectEqual(c, w, C.get(), axpby(widen<CW>(alpha), P, widen<CW>(beta), widenM<CW>(cc)));
    A.unchanged(c, w + "/A"), B.unchanged(c, w + "/B"), C.margins(c, w + "/C");
}

// rank-k (R2=false) and rank-2k updates
template <bool HERM, bool R2, class TA, class TB, class TC, class TAL, class TBE, Layout L1, Layout L2, Layout L3> void tRank(Case& c)
{
    Uplo uplo = uplo3(c);
    Op op = c.coin() ? (HERM ? Op::ConjTrans : Op::Trans) : Op::NoTrans;
    bool nt = op == Op::NoTrans;
    size_t n = dim(c), k = dim(c);
    TAL alpha = coefExact<TAL>(c);
    TBE beta = coefExact<TBE>(c);
    bool nobeta = c.chance(1, 5);
    GMat<TA, L1> A(c, nt ? n : k, nt ? k : n);
    GMat<TB, L2> B(c, nt ? n : k, nt ? k : n);
    GMat<TC, L3> C(c, n, n);
    Dense<TA> a = intMat<TA>(c, A.m, A.n);
    Dense<TB> b = R2 ? intMat<TB>(c, B.m, B.n) : Dense<TB>(B.m, B.n);
    Dense<TC> cc = intMat<TC>(c, n, n);
    poison(c, cc, uplo, HERM);
    Dense<CW> cf = symOf(upOf(uplo), HERM, widenM<CW>(cc));
    A.set(a), B.set(b), C.set(cc);
    A.snapshot(), B.snapshot(), C.snapshot();
    std::string w = std::string(HERM ? "he" : "sy") + (R2 ? "r2k" : "rk");
    c.desc(w, nm(uplo), nm(op), "n", n, "k", k, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), nobeta ? "nobeta" : "");
    c.nontrivial(n >= 2 && k >= 2 && (alpha != TAL(0) || beta != TBE(0)));
    c.label(w + " " + nm(uplo) + nm(op));
    auto Av = A.view();
    auto Bv = B.view();
    auto Cv = C.view();
    if constexpr (!R2) {
        if constexpr (HERM) {
            if (nobeta) tlapack::herk(uplo, op, alpha, Av, Cv);
            else tlapack::herk(uplo, op, alpha, Av, beta, Cv);
        }
        else {
            if (nobeta) tlapack::syrk(uplo, op, alpha, Av, Cv);
            else tlapack::syrk(uplo, op, alpha, Av, beta, Cv);
        }
    }
    else {
        if constexpr (HERM) {
            if (nobeta) tlapack::her2k(uplo, op, alpha, Av, Bv, Cv);
            else tlapack::her2k(uplo, op, alpha, Av, Bv, beta, Cv);
        }
        else {
            if (nobeta) tlapack::syr2k(uplo, op, alpha, Av, Bv, Cv);
            else tlapack::syr2k(uplo, op, alpha, Av, Bv, beta, Cv);
        }
    }
    if (nobeta) beta = TBE(0);
    Op other = HERM ? Op::ConjTrans : Op::Trans;
    Dense<CW> aw = widenM<CW>(a), bw = widenM<CW>(b), P;
    CW al = widen<CW>(alpha), al2 = HERM ? std::conj(al) : al;
    if (!R2) P = axpby(al, nt ? mul(aw, opM(other, aw)) : mul(opM(other, aw), aw), 0, Dense<CW>(n, n));
    else {
        Dense<CW> P1 = nt ? mul(aw, opM(other, bw)) : mul(opM(other, aw), bw);
        Dense<CW> P2 = nt ? mul(bw, opM(other, aw)) : mul(opM(other, bw), aw);
        P = axpby(al, P1, al2, P2);
    }
    Dense<CW> R = axpby(1, P, widen<CW>(beta), cf);
    expectEqual(c, w, C.get(), R, [&](size_t i, size_t j) { return inTri(uplo, i, j); });
    A.unchanged(c, w + "/A"), B.unchanged(c, w + "/B");
    C.onlyChanged(c, w + "/C", [&](size_t i, size_t j) { return inTri(uplo, i, j); });
}
