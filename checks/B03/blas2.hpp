#pragma once
#include "blasref.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/syr2.hpp"
constexpr Direction DF = Direction::Forward, DB = Direction::Backward;
inline const char* RULE2() { return "all dimensions at least 2 and a nonzero coefficient"; }

template <class TA, class TX, class TY, class TAL, class TBE, Layout L, Direction DX, Direction DY> void tGemv(Case& c)
{
    Op op = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    bool t = op == Op::Trans || op == Op::ConjTrans;
    size_t m = dim(c), n = dim(c);
    TAL alpha = coefExact<TAL>(c);
    TBE beta = coefExact<TBE>(c);
    bool nobeta = c.chance(1, 5);
    GMat<TA, L> A(c, m, n);
    GVec<TX, DX> x(c, t ? m : n);
    GVec<TY, DY> y(c, t ? n : m);
    Dense<TA> a = intMat<TA>(c, m, n);
    auto xv = intVec<TX>(c, x.n);
    auto yv = intVec<TY>(c, y.n);
    if (nobeta && c.coin()) for (auto& v : yv) v = nanT<TY>();
    A.set(a), x.set(xv), y.set(yv);
    A.snapshot(), x.snapshot(), y.snapshot();
    c.desc("gemv", nm(op), "m", m, "n", n, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), nobeta ? "nobeta" : "", "incx", x.inc, "incy", y.inc);
    c.nontrivial(m >= 2 && n >= 2 && (alpha != TAL(0) || beta != TBE(0)));
    c.label(std::string("gemv ") + nm(op));
    auto Av = A.view();
    auto Xv = x.view();
    auto Yv = y.view();
    Dense<CW> P = mul(opM(op, widenM<CW>(a)), widenM<CW>(colVec(xv))), Y0 = widenM<CW>(colVec(yv));
    if (nobeta) {
        tlapack::gemv(op, alpha, Av, Xv, Yv);
        Y0 = Dense<CW>(y.n, 1);
    }
    else tlapack::gemv(op, alpha, Av, Xv, beta, Yv);
    // as in the reference BLAS, y may be left alone when the inner dimension is zero
    if (x.n > 0) expectEqual(c, "gemv", colVec(y.get()), axpby(widen<CW>(alpha), P, widen<CW>(beta), Y0));
    A.unchanged(c, "gemv/A"), x.unchanged(c, "gemv/x"), y.margins(c, "gemv/y");
}
template <bool HERM, class TA, class TX, class TY, class TAL, class TBE, Layout L, Direction DX, Direction DY> void tHemv(Case& c)
{
    Uplo uplo = genUplo(c);
    size_t n = dim(c);
    TAL alpha = coefExact<TAL>(c);
    TBE beta = coefExact<TBE>(c);
    bool nobeta = c.chance(1, 5);
    GMat<TA, L> A(c, n, n);
    GVec<TX, DX> x(c, n);
    GVec<TY, DY> y(c, n);
    Dense<TA> a = intMat<TA>(c, n, n);
    poison(c, a, uplo, HERM);
    auto xv = intVec<TX>(c, n);
    auto yv = intVec<TY>(c, n);
    A.set(a), x.set(xv), y.set(yv);
    A.snapshot(), x.snapshot(), y.snapshot();
    std::string w = HERM ? "hemv" : "symv";
    c.desc(w, nm(uplo), "n", n, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), nobeta ? "nobeta" : "", "incx", x.inc, "incy", y.inc);
    c.nontrivial(n >= 2 && (alpha != TAL(0) || beta != TBE(0)));
    c.label(w + " " + nm(uplo));
    auto Av = A.view();
    auto Xv = x.view();
    auto Yv = y.view();
    Dense<CW> P = mul(symOf(uplo, HERM, widenM<CW>(a)), widenM<CW>(colVec(xv))), Y0 = widenM<CW>(colVec(yv));
    if (nobeta) {
        if constexpr (HERM) tlapack::hemv(uplo, alpha, Av, Xv, Yv);
        else tlapack::symv(uplo, alpha, Av, Xv, Yv);
        Y0 = Dense<CW>(n, 1);
    }
    else if constexpr (HERM) tlapack::hemv(uplo, alpha, Av, Xv, beta, Yv);
    else tlapack::symv(uplo, alpha, Av, Xv, beta, Yv);
    expectEqual(c, w, colVec(y.get()), axpby(widen<CW>(alpha), P, widen<CW>(beta), Y0));
    A.unchanged(c, w + "/A"), x.unchanged(c, w + "/x"), y.margins(c, w + "/y");
}
// general rank-1 update
template <class TX, class TY, class TA, class TAL, Layout L, Direction DX, Direction DY> void tGer(Case& c)
{
    bool conjy = c.coin();
    size_t m = dim(c), n = dim(c);
    TAL alpha = coefExact<TAL>(c);
    GMat<TA, L> A(c, m, n);
    GVec<TX, DX> x(c, m);
    GVec<TY, DY> y(c, n);
    Dense<TA> a = intMat<TA>(c, m, n);
    auto xv = intVec<TX>(c, m);
    auto yv = intVec<TY>(c, n);
    A.set(a), x.set(xv), y.set(yv);
    A.snapshot(), x.snapshot(), y.snapshot();
    std::string w = conjy ? "ger" : "geru";
    c.desc(w, "m", m, "n", n, "alpha", widen<CW>(alpha), "incx", x.inc, "incy", y.inc);
    c.nontrivial(m >= 2 && n >= 2 && alpha != TAL(0));
    c.label(w);
    auto Av = A.view();
    auto Xv = x.view();
    auto Yv = y.view();
    if (conjy) tlapack::ger(alpha, Xv, Yv, Av);
    else tlapack::geru(alpha, Xv, Yv, Av);
    Dense<CW> P = mul(widenM<CW>(colVec(xv)), opM(conjy ? Op::ConjTrans : Op::Trans, widenM<CW>(colVec(yv))));
    expectEqual(c, w, A.get(), axpby(widen<CW>(alpha), P, 1, widenM<CW>(a)));
    x.unchanged(c, w + "/x"), y.unchanged(c, w + "/y"), A.margins(c, w + "/A");
}
// her, her2, syr, syr2
template <bool HERM, bool R2, class TX, class TY, class TA, class TAL, Layout L, Direction DX, Direction DY> void tHer(Case& c)
{
    Uplo uplo = genUplo(c);
    size_t n = dim(c);
    TAL alpha = coefExact<TAL>(c);
    GMat<TA, L> A(c, n, n);
    GVec<TX, DX> x(c, n);
    GVec<TY, DY> y(c, n);
    Dense<TA> a = intMat<TA>(c, n, n);
    poison(c, a, uplo, HERM);
    auto xv = intVec<TX>(c, n);
    auto yv = intVec<TY>(c, n);
    A.set(a), x.set(xv), y.set(yv);
    A.snapshot(), x.snapshot(), y.snapshot();
    std::string w = std::string(HERM ? "her" : "syr") + (R2 ? "2" : "");
    c.desc(w, nm(uplo), "n", n, "alpha", widen<CW>(alpha), "incx", x.inc, "incy", y.inc);
    c.nontrivial(n >= 2 && alpha != TAL(0));
    c.label(w + " " + nm(uplo));
    auto Av = A.view();
    auto Xv = x.view();
    auto Yv = y.view();
    if constexpr (R2) {
        if constexpr (HERM) tlapack::her2(uplo, alpha, Xv, Yv, Av);
        else tlapack::syr2(uplo, alpha, Xv, Yv, Av);
    }
    else {
        if constexpr (HERM) tlapack::her(uplo, alpha, Xv, Av);
        else tlapack::syr(uplo, alpha, Xv, Av);
    }
    Op o = HERM ? Op::ConjTrans : Op::Trans;
    Dense<CW> X = widenM<CW>(colVec(xv)), Y = widenM<CW>(colVec(yv)), P;
    CW al = widen<CW>(alpha);
    if (R2) P = axpby(al, mul(X, opM(o, Y)), HERM ? std::conj(al) : al, mul(Y, opM(o, X)));
    else P = axpby(al, mul(X, opM(o, X)), 0, Dense<CW>(n, n));
    expectEqual(c, w, A.get(), axpby(1, P, 1, symOf(uplo, HERM, widenM<CW>(a))), [&](size_t i, size_t j) { return inTri(uplo, i, j); });
    x.unchanged(c, w + "/x"), y.unchanged(c, w + "/y");
    A.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return inTri(uplo, i, j); });
}
