#pragma once
#include "blasref.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/trsv.hpp"
constexpr Direction DF = Direction::Forward, DB = Direction::Backward;

// a triangular operand: integer entries, diagonal a power of two times a unit (so that solves are exact)
template <class T> Dense<T> triInt(Case& c, size_t n, Uplo u, Diag d)
{
    Dense<T> A = intMat<T>(c, n, n, 2);
    bool nanp = c.coin();
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (!inTri(u, i, j)) A(i, j) = nanp ? nanT<T>() : mk<T>(real_t<T>(99), real_t<T>(-98));
        if (i == j) {
            if (d == Diag::Unit) A(i, j) = nanp ? nanT<T>() : mk<T>(real_t<T>(97), real_t<T>(96));
            else {
                int k = (int)c.draw(6);
                real_t<T> v = real_t<T>(k % 3 == 0 ? 1 : k % 3 == 1 ? 2 : 0.5);
                if (k >= 3) v = -v;
                A(i, j) = T(v);
                if constexpr (cplx<T>) if (c.coin()) A(i, j) = T(real_t<T>(0), v);
            }
        }
    }
    return A;
}
// a general real-valued triangular operand (possibly ill conditioned)
template <class T> Dense<T> triReal(Case& c, size_t n, Uplo u, Diag d)
{
    Dense<T> A(n, n);
    bool small = c.coin();
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (!inTri(u, i, j) || (i == j && d == Diag::Unit)) A(i, j) = nanT<T>();
        else {
            A(i, j) = scaleP2(uni<T>(c), (int)c.range(-3, 3));
            if (i == j) {
                if (small && c.chance(1, 4)) A(i, j) = scaleP2(A(i, j), -(int)c.range(0, 12));
                if (A(i, j) == T(0)) A(i, j) = T(1);
            }
        }
    }
    return A;
}
inline Op genOp4(Case& c) { return c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj}); }

template <class TA, class TX, Layout L, Direction DX> void tTrmv(Case& c)
{
    Uplo u = genUplo(c);
    Op op = genOp4(c);
    Diag d = genDiag(c);
    size_t n = dim(c);
    GMat<TA, L> A(c, n, n);
    GVec<TX, DX> x(c, n);
    Dense<TA> a = triInt<TA>(c, n, u, d);
    auto xv = intVec<TX>(c, n);
    A.set(a), x.set(xv);
    A.snapshot();
    c.desc("trmv", nm(u), nm(op), nm(d), "n", n, "inc", x.inc);
    c.nontrivial(n >= 2);
    c.label(std::string("trmv ") + nm(u) + nm(op) + nm(d));
    auto Av = A.view();
    auto Xv = x.view();
    Dense<CW> T = opM(op, triOf(u, d, widenM<CW>(a)));
    Dense<CW> X = widenM<CW>(colVec(xv)), Y = mul(T, X);
    tlapack::trmv(u, op, d, Av, Xv);
    expectEqual(c, "trmv", colVec(x.get()), Y);
    tlapack::trsv(u, op, d, Av, Xv);
    expectEqual(c, "trsv", colVec(x.get()), X);
    A.unchanged(c, "trmv/A"), x.margins(c, "trmv/x");
}
template <class TA, class TB, class TAL, Layout L1, Layout L2> void tTrmm(Case& c)
{
    Side s = genSide(c);
    Uplo u = genUplo(c);
    Op op = genOp3(c);
    Diag d = genDiag(c);
    size_t m = dim(c), n = dim(c), k = s == Side::Left ? m : n;
    TAL alpha = coefExact<TAL>(c), alpha2 = coefExact<TAL>(c);
    GMat<TA, L1> A(c, k, k);
    GMat<TB, L2> B(c, m, n);
    Dense<TA> a = triInt<TA>(c, k, u, d);
    Dense<TB> b = intMat<TB>(c, m, n);
    A.set(a), B.set(b);
    A.snapshot();
    c.desc("trmm/trsm", nm(s), nm(u), nm(op), nm(d), "m", m, "n", n, "alpha", widen<CW>(alpha), widen<CW>(alpha2));
    c.nontrivial(m >= 2 && n >= 2 && alpha != TAL(0));
    c.label(std::string("trmm ") + nm(s) + nm(u) + nm(op) + nm(d));
    auto Av = A.view();
    auto Bv = B.view();
    Dense<CW> T = opM(op, triOf(u, d, widenM<CW>(a))), X = widenM<CW>(b);
    Dense<CW> P = s == Side::Left ? mul(T, X) : mul(X, T), Z(m, n);
    tlapack::trmm(s, u, op, d, alpha, Av, Bv);
    Dense<CW> aP = axpby(widen<CW>(alpha), P, 0, Z);
    expectEqual(c, "trmm", B.get(), aP);
    // solving gives back alpha2 * alpha * X
    tlapack::trsm(s, u, op, d, alpha2, Av, Bv);
    expectEqual(c, "trsm", B.get(), axpby(widen<CW>(alpha) * widen<CW>(alpha2), X, 0, Z));
    A.unchanged(c, "trmm/A"), B.margins(c, "trmm/B");
}
// componentwise backward error on general data; VEC selects trsv/trmv
template <class T, Layout L1, Layout L2> void tTriReal(Case& c)
{
    using W = wide<T>;
    bool vec = c.chance(1, 3);
    Side s = vec ? Side::Left : genSide(c);
    Uplo u = genUplo(c);
    Op op = vec ? genOp4(c) : genOp3(c);
    Diag d = genDiag(c);
    size_t m = dim(c), n = vec ? 1 : dim(c), k = s == Side::Left ? m : n;
    T alpha = vec ? T(1) : scaleP2(uni<T>(c), (int)c.range(-2, 2));
    GMat<T, L1> A(c, k, k);
    GMat<T, L2> B(c, m, n);
    Dense<T> a = triReal<T>(c, k, u, d), b(m, n);
    for (auto& x : b.a) x = uni<T>(c);
    A.set(a), B.set(b);
    A.snapshot();
    bool solve = c.coin();
    c.desc(solve ? "solve" : "multiply", nm(s), nm(u), nm(op), nm(d), "m", m, "n", n, vec ? "vector" : "matrix");
    c.nontrivial(m >= 2 && (vec || n >= 2));
    c.label(std::string(solve ? "solve " : "multiply ") + nm(op) + (vec ? " vec" : ""));
    auto Av = A.view();
    auto Bv = B.view();
    if (vec) {
        if (m == 0) return;
        auto x = tlapack::col(Bv, 0);
        if (solve) tlapack::trsv(u, op, d, Av, x);
        else tlapack::trmv(u, op, d, Av, x);
    }
    else {
        if (solve) tlapack::trsm(s, u, op, d, alpha, Av, Bv);
        else tlapack::trmm(s, u, op, d, alpha, Av, Bv);
    }
    Dense<T> got = B.get();
    Dense<W> Tw = opM(op, triOf(u, d, widenM<W>(a)));
    Dense<W> left = widenM<W>(solve ? got : b), right = widenM<W>(solve ? b : got);
    W al = widen<W>(alpha);
    // solve: T X = alpha B ; multiply: alpha T X = B
    Dense<W> P = s == Side::Left ? mul(Tw, left) : mul(left, Tw);
    double worst = 0;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
        double bound = 0;
        for (size_t l = 0; l < k; ++l) bound += s == Side::Left ? mag(Tw(i, l)) * mag(left(l, j)) : mag(left(i, l)) * mag(Tw(l, j));
        W lhs = solve ? P(i, j) : P(i, j) * al, rhs = solve ? right(i, j) * al : right(i, j);
        if (!solve) bound *= mag(al);
        else bound += mag(rhs);
        double e = mag(W(lhs - rhs));
        if (!(bound < 1e30)) continue;
        double r = e / ((bound + (double)std::numeric_limits<real_t<T>>::min() * 64) * eps<T>() * (k + 4));
        if (!(r <= worst)) worst = r;
    }
    c.ratio(solve ? "solve-backward-error" : "multiply-error", worst, 3);
    A.unchanged(c, "tri/A"), B.margins(c, "tri/B");
}
inline const char* RULET() { return "all dimensions at least 2 and (for products) alpha nonzero"; }
