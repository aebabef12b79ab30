// NaN propagation and strong zeros in level 1 and level 2 operations, and the StrongZero type itself.
#include "blasref.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/syr2.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsv.hpp"
#include "mask.hpp"
template <class T, Layout L> void tNan2(Case& c)
{
    constexpr bool Z = cplx<T>;
    using R = real_t<T>;
    int op = (int)c.draw(13);
    const char* names[] = {"gemv", "hemv", "symv", "ger", "geru", "her", "syr", "her2", "syr2", "trmv", "trsv", "axpy", "scal"};
    std::string w = names[op];
    bool herm = op == 1 || op == 5 || op == 7, tri = op == 9 || op == 10, sy = op == 1 || op == 2, upd = op >= 5 && op <= 8, g = op == 3 || op == 4;
    Op ta = op == 0 || tri ? c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj}) : Op::NoTrans;
    bool t = ta == Op::Trans || ta == Op::ConjTrans;
    Uplo uplo = genUplo(c);
    Diag diag = genDiag(c);
    size_t m = (size_t)c.range(1, 7), n = op == 0 || g ? (size_t)c.range(1, 7) : m;
    size_t nx = op == 0 ? (t ? m : n) : m, ny = op == 0 ? (t ? n : m) : n;
    int mode = op <= 2 ? (int)c.draw(3) : (op >= 11 ? (int)c.draw(2) : 0);
    T alpha = c.coin() ? T(0) : coefExact<T>(c), beta = c.coin() ? T(0) : coefExact<T>(c);
    if (op == 5) alpha = T(re(alpha));
    bool coefNan = c.chance(1, 12) && !(op >= 11 && mode == 1);
    GMat<T, L> A(c, m, n);
    GVec<T> x(c, nx), y(c, ny);
    Dense<T> a = intMat<T>(c, m, n), xv(nx, 1), yv(ny, 1);
    for (auto& v : xv.a) v = smallInt<T>(c);
    for (auto& v : yv.a) v = smallInt<T>(c);
    if (tri) for (size_t i = 0; i < m; ++i) a(i, i) = T(R(c.pick({1, 2, -1})));
    int where = (int)c.draw(4);
    plant(c, a, where == 0 || where == 3);
    plant(c, xv, where == 1 || where == 3);
    plant(c, yv, where == 2 || where == 3);
    auto garb = [&](Dense<T>& X) { for (auto& v : X.a) v = c.coin() ? oneNan<T>(c) : T(std::numeric_limits<R>::infinity()); };
    if (mode && op <= 2) garb(yv);
    if (mode && op >= 11) garb(xv);
    if ((sy || upd) && uplo == Uplo::General) a = symOf(Uplo::Upper, herm, a);
    Mask Ma = nanMask(a), Mx = nanMask(xv), My = nanMask(yv), W;
    if (coefNan) { alpha = (op == 5) ? T(nanT<R>()) : nanT<T>(); if (op <= 2) beta = nanT<T>(); }
    c.desc(w, nm(ta), nm(uplo), nm(diag), "m", m, "n", n, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), "mode", mode, "A", show(a), "x", show(xv), "y", show(yv));
    c.label(w + " mode" + std::to_string(mode));
    c.nontrivial(true);
    auto hermDiag = [&](Mask M) { if (herm && uplo != Uplo::General) for (size_t i = 0; i < n; ++i) M(i, i) = isnanr(re(a(i, i))); return M; };
    if (op == 0) W = prodMask(t ? tr(Ma) : Ma, Mx);
    if (sy) W = prodMask(symMask(uplo, hermDiag(Ma)), Mx);
    if (op <= 2 && mode == 0) W = orM(W, My);
    if (g) W = orM(prodMask(Mx, tr(My)), Ma);
    if (op == 5 || op == 6) W = orM(prodMask(Mx, tr(Mx)), symMask(uplo, hermDiag(Ma)));
    if (op == 7 || op == 8) W = orM(orM(prodMask(Mx, tr(My)), prodMask(My, tr(Mx))), symMask(uplo, hermDiag(Ma)));
    if (tri) {
        Mask T_(m, m);
        for (size_t j = 0; j < m; ++j) for (size_t i = 0; i < m; ++i) if (inTri(uplo, i, j) && !(i == j && diag == Diag::Unit)) T_(i, j) = Ma(i, j);
        bool lower = (uplo == Uplo::Lower) != t;
        if (t) T_ = tr(T_);
        W = Mask(m, 1);
        for (size_t q = 0; q < m; ++q) {
            size_t i = lower ? q : m - 1 - q;
            int v = Mx(i, 0);
            for (size_t l = 0; l < m; ++l) if (lower ? l <= i : l >= i) v |= T_(i, l) | (op == 9 ? Mx(l, 0) : (l == i ? 0 : W(l, 0)));
            W(i, 0) = v;
        }
    }
    if (op == 11) W = mode ? My : orM(Mx, My);
    if (op == 12) W = mode ? Mask(m, 1) : Mx;
    if (coefNan && !tri) for (auto& v : W.a) v = 1;
    A.set(a), x.set(xv.a), y.set(yv.a);
    auto Av = A.view();
    auto xx = x.view();
    auto yy = y.view();
    StrongZero z;
    switch (op) {
        case 0: mode == 0 ? tlapack::gemv(ta, alpha, Av, xx, beta, yy) : mode == 1 ? tlapack::gemv(ta, alpha, Av, xx, z, yy) : tlapack::gemv(ta, alpha, Av, xx, yy); break;
        case 1: mode == 0 ? tlapack::hemv(uplo, alpha, Av, xx, beta, yy) : mode == 1 ? tlapack::hemv(uplo, alpha, Av, xx, z, yy) : tlapack::hemv(uplo, alpha, Av, xx, yy); break;
        case 2: mode == 0 ? tlapack::symv(uplo, alpha, Av, xx, beta, yy) : mode == 1 ? tlapack::symv(uplo, alpha, Av, xx, z, yy) : tlapack::symv(uplo, alpha, Av, xx, yy); break;
        case 3: tlapack::ger(alpha, xx, yy, Av); break;
        case 4: tlapack::geru(alpha, xx, yy, Av); break;
        case 5: tlapack::her(uplo, re(alpha), xx, Av); break;
        case 6: tlapack::syr(uplo, alpha, xx, Av); break;
        case 7: tlapack::her2(uplo, alpha, xx, yy, Av); break;
        case 8: tlapack::syr2(uplo, alpha, xx, yy, Av); break;
        case 9: tlapack::trmv(uplo, ta, diag, Av, xx); break;
        case 10: tlapack::trsv(uplo, ta, diag, Av, xx); break;
        case 11: if (mode) tlapack::axpy(z, xx, yy); else tlapack::axpy(alpha, xx, yy); break;
        case 12: if (mode) tlapack::scal(z, xx); else tlapack::scal(alpha, xx); break;
    }
    auto judge = [&](size_t i, size_t j, const T& v, bool dep) {
        bool nan = isnanT(v);
        if (dep && !nan) c.fail(w + "/nan-lost", "entry (", i, ",", j, ") does not show the NaN it depends on");
        if (!dep && !isfin(v)) c.fail(w + (mode ? "/discarded-operand-leaks" : "/nan-invented"), "entry (", i, ",", j, ") is not finite but depends on finite data only");
        if (op == 12 && mode && !(v == T(0))) c.fail("scal/strong-zero-not-zero", "entry ", i);
    };
    if (op <= 2 || op == 11) for (size_t i = 0; i < ny; ++i) judge(i, 0, y[i], W(i, 0));
    else if (tri || op == 12) for (size_t i = 0; i < nx; ++i) judge(i, 0, x[i], W(i, 0));
    else
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (g || inTri(uplo, i, j)) judge(i, j, A(i, j), W(i, j));
}
static const char* RULE = "a NaN is planted in an operand, a coefficient or the discarded output";
static pbt::Reg r1("nan2/double", 60000, 900000, tNan2<D, LC>, RULE);
static pbt::Reg r2("nan2/cdouble", 60000, 900000, tNan2<CD, LR>, RULE);
static pbt::Reg r3("nan2/float", 40000, 900000, tNan2<F, LR>, RULE);
static pbt::Reg r4("nan2/cfloat", 40000, 900000, tNan2<CF, LC>, RULE);

// documented arithmetic of the strong zero with any scalar
template <class T> void tArith(Case& c)
{
    using R = real_t<T>;
    using L = std::numeric_limits<R>;
    auto any = [&]() -> R {
        switch (c.draw(8)) {
            case 0: return R(0);
            case 1: return -R(0);
            case 2: return L::infinity();
            case 3: return L::quiet_NaN();
            case 4: return L::max();
            case 5: return L::denorm_min();
            case 6: return -L::infinity();
            default: return uniR<R>(c);
        }
    };
    R p = any(), q = any();
    T x = mk<T>(p, q), x0 = x;
    StrongZero z;
    int op = (int)c.draw(16);
    c.desc("op", op, "x", p, q);
    c.label("op" + std::to_string(op));
    c.nontrivial(!(x == T(0)));
    T r;
    switch (op) {
        case 0: r = x; r += z; c.check(same(r, x0), "x+=z"); break;
        case 1: r = x; r -= z; c.check(same(r, x0), "x-=z"); break;
        case 2: r = x; r *= z; c.check(r == T(0), "x*=z"); break;
        case 3: r = x; r /= z; c.check(same(r, T(L::infinity())), "x/=z"); break;
        case 4: r = x + z; c.check(same(r, x0), "x+z"); break;
        case 5: r = z + x; c.check(same(r, x0), "z+x"); break;
        case 6: r = x - z; c.check(same(r, x0), "x-z"); break;
        case 7: r = z - x; c.check(same(r, T(-x0)), "z-x"); break;
        case 8: r = T(x * z); c.check(r == T(0), "x*z"); break;
        case 9: r = T(z * x); c.check(r == T(0), "z*x"); break;
        case 10: r = T(z / x); c.check(r == T(0), "z/x"); break;
        case 11: r = x / z; c.check(same(r, T(L::infinity())), "x/z"); break;
        case 12: r = x; r = r + z * x; r = r - x * z; r += -z; c.check(same(r, x0), "x+z*x-x*z"); break;
        case 13: c.check(z <= z && z >= z && pow(3, z) == 1 && log2(z) == -std::numeric_limits<float>::infinity() && T(ceil(z)) == T(0) && T(floor(z)) == T(0), "z functions"); break;
        case 14: { StrongZero a(T(0)), b(R(0), -R(0)); r = x; r += a; r -= b; c.check(same(r, x0), "z from 0"); break; }
        default: c.check(T(z) == T(0) && z == z && !(z != z) && !(z < z) && !(z > z) && !isnan(z) && !isinf(z) && T(abs(z)) == T(0) && T(sqrt(z)) == T(0) && T(z + z) == T(0) && T(z - z) == T(0), "z alone"); break;
    }
}
static const char* RA = "the other operand is not zero";
static pbt::Reg z1("strongzero/float", 8000, 100000, tArith<F>, RA);
static pbt::Reg z2("strongzero/double", 8000, 100000, tArith<D>, RA);
static pbt::Reg z3("strongzero/cfloat", 8000, 100000, tArith<CF>, RA);
static pbt::Reg z4("strongzero/cdouble", 8000, 100000, tArith<CD>, RA);
static pbt::Reg z5("strongzero/longdouble", 8000, 100000, tArith<long double>, RA);
