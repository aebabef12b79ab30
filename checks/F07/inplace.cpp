#include "fact.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/lapack/trmm_out.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/trsm_tri.hpp"
#include "tlapack/lapack/ul_mult.hpp"
using namespace tlapack;
static const char* RP = "order at least 2";
enum R { Lauum, Llh, Uhu, Lu, Ul };
template <class T> Dense<T> gen(Case& c, size_t n, bool exact)
{
    Dense<T> A(n, n);
    for (auto& x : A.a) x = exact ? smallInt<T>(c, 3) : uni<T>(c);
    if (!exact && c.chance(1, 4)) { int s = (int)c.range(-20, 20); for (auto& x : A.a) x = scaleP2(x, s); }
    return A;
}
template <class T> Dense<double> absD(const Dense<T>& A) { Dense<double> B(A.m, A.n); for (size_t i = 0; i < A.a.size(); ++i) B.a[i] = mag(A.a[i]); return B; }
template <class T, Layout L> void tInPlace(Case& c)
{
    using W = wide<T>;
    int r = (int)c.draw(5);
    Uplo u = r == Llh ? Uplo::Lower : r == Uhu ? Uplo::Upper : genUplo(c);
    bool exact = c.coin(), full = r == Lu || r == Ul;
    size_t n = dimF(c), nx = (size_t)c.pick<int>({1, 1, 2, 3, 4, 8, 100});
    const char* names[] = {"lauum_recursive", "mult_llh", "mult_uhu", "lu_mult", "ul_mult"};
    std::string w = std::string(names[r]) + (r == Lauum ? std::string(" ") + nm(u) : "");
    Dense<T> A0 = gen<T>(c, n, exact);
    c.desc(w, "n", n, "nx", nx, exact ? "exact" : "float", show(A0, 6));
    c.label(w);
    c.nontrivial(n >= 2);
    GMat<T, L> G(c, n, n);
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = full || inTri(u, i, j) ? A0(i, j) : junk;
    G.snapshot();
    auto A = G.view();
    if (r == Lauum) { int info = lauum_recursive(u, A); c.check(info == 0, w + "/info", info); }
    if (r == Llh) { mult_llh_Opts o; o.nx = nx; if (c.coin()) mult_llh(A, o); else mult_llh(A); }
    if (r == Uhu) { mult_uhu_Opts o; o.nx = nx; if (c.coin()) mult_uhu(A, o); else mult_uhu(A); }
    if (r == Lu) { LuMultOpts o; o.nx = nx; if (c.coin()) lu_mult(A, o); else lu_mult(A); }
    if (r == Ul) { int info = ul_mult(A); c.check(info == 0, w + "/info", info); }
    G.onlyChanged(c, w, [&](size_t i, size_t j) { return full || inTri(u, i, j); });
    Dense<W> Aw = widenM<W>(A0), X, Y, up = triOf(Uplo::Upper, Diag::NonUnit, Aw), lo = triOf(Uplo::Lower, full ? Diag::Unit : Diag::NonUnit, Aw);
    if (r == Lauum) { if (u == Uplo::Lower) X = ct(lo), Y = lo; else X = up, Y = ct(up); }
    if (r == Llh) X = lo, Y = ct(lo);
    if (r == Uhu) X = ct(up), Y = up;
    if (r == Lu) X = lo, Y = up;
    if (r == Ul) X = up, Y = lo;
    Dense<W> P = mul(X, Y), got = G.template getW<W>();
    Dense<double> S = mul(absD(X), absD(Y));
    double worst = 0;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (!full && !inTri(u, i, j)) continue;
        if (!full && i == j) c.check(im(got(i, i)) == 0, w + "/diagonal-not-real", i);
        if (exact) c.check(same(got(i, j), P(i, j)), w + "/value", "entry (", i, ",", j, ") got ", show(blockOf(got, i, i + 1, j, j + 1)), " want ", show(blockOf(P, i, i + 1, j, j + 1)));
        double q = mag(got(i, j) - P(i, j));
        q = q == 0 ? 0 : q / (S(i, j) + tinyOf<T>());
        if (!(q <= worst)) worst = q;
    }
    if (!exact) c.ratio(w + "/error", worst, (6 + 3.0 * n) * eps<T>());
}
// op(A) X = alpha B or X op(A) = alpha B, everything triangular
template <class T, Layout LA, Layout LB, class TAL> void tTrsmTri(Case& c)
{
    using W = wide<T>;
    Side s = genSide(c);
    Uplo u = genUplo(c);
    Op op = genOp3(c);
    Diag d = genDiag(c);
    bool exact = c.coin();
    size_t n = exact ? (c.chance(1, 10) ? (size_t)c.range(10, 30) : (size_t)c.size(0, 9)) : dimF(c);
    Uplo ua = op == Op::NoTrans ? u : u == Uplo::Upper ? Uplo::Lower : Uplo::Upper;
    std::string w = std::string("trsm_tri ") + nm(s) + " " + nm(u) + " " + nm(op) + " " + nm(d);
    // A: small off-diagonal entries keep the solution bounded
    Dense<T> A(n, n), X(n, n), B(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (i == j) A(i, j) = exact ? scaleP2(T(real_t<T>(c.coin() ? 1 : -1)) * (cplx<T> && c.coin() ? mk<T>(0, 1) : T(1)), (int)c.range(-1, 1)) : [&] { T x = uni<T>(c); return mag(x) < 0.3 ? T(x + mk<T>(1, 0)) : x; }();
        else if (inTri(ua, i, j)) A(i, j) = exact ? (c.chance(1, 3) ? smallInt<T>(c, 1) : T(0)) : uni<T>(c) * real_t<T>(std::min(1.0, 4.0 / (n + 1)));
        if (inTri(u, i, j)) X(i, j) = exact ? smallInt<T>(c, 2) : uni<T>(c);
    }
    Dense<T> At = opM(op, triOf(ua, d, A));
    TAL alpha = exact ? TAL(std::ldexp(real_t<T>(1), (int)c.range(-1, 2)) * real_t<T>(c.coin() ? 1 : -1)) : uni<TAL>(c);
    if (exact) {
        B = s == Side::Left ? mul(At, X) : mul(X, At);
        for (auto& x : B.a) x = x / T(alpha);
    }
    else B = triOf(u, Diag::NonUnit, X);
    c.desc(w, "n", n, exact ? "exact" : "float", "alpha", show(Dense<TAL>(1, 1, alpha)), show(A, 5), show(B, 5));
    c.label(w);
    c.nontrivial(n >= 2);
    GMat<T, LA> GA(c, n, n);
    GMat<T, LB> GB(c, n, n);
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        GA(i, j) = inTri(ua, i, j) && !(i == j && d == Diag::Unit) ? A(i, j) : junk;
        GB(i, j) = inTri(u, i, j) ? B(i, j) : junk;
    }
    GA.snapshot(), GB.snapshot();
    const auto Av = GA.cview();
    auto Bv = GB.view();
    trsm_tri(s, u, op, d, alpha, Av, Bv);
    GA.unchanged(c, w + "/A");
    GB.onlyChanged(c, w, [&](size_t i, size_t j) { return inTri(u, i, j); });
    Dense<T> got = GB.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (!inTri(u, i, j)) got(i, j) = T(0);
    if (exact) {
        double bound = (normMax(At) + 1) * 16 * (n + 1) * 8;
        if (bound > 1 / eps<T>()) throw pbt::Discard();
        expectEqual(c, w, got, widenM<W>(X));
        return;
    }
    Dense<W> Gw = widenM<W>(got), Aw = widenM<W>(At), Rw = s == Side::Left ? mul(Aw, Gw) : mul(Gw, Aw);
    Dense<double> S = s == Side::Left ? mul(absD(Aw), absD(Gw)) : mul(absD(Gw), absD(Aw));
    double worst = 0;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (!inTri(u, i, j)) continue;
        W b = widen<W>(B(i, j));
        b *= widen<W>(T(alpha));
        double q = mag(Rw(i, j) - b);
        q = q == 0 ? 0 : q / (S(i, j) + mag(b) + tinyOf<T>());
        if (!(q <= worst)) worst = q;
    }
    c.ratio("trsm_tri/residual", worst, (12 + 4.0 * n) * eps<T>());
}
static pbt::Reg a1("inplace/float/Col", 25000, 300000, tInPlace<F, LC>, RP);
static pbt::Reg a2("inplace/double/Row", 25000, 300000, tInPlace<D, LR>, RP);
static pbt::Reg a3("inplace/cfloat/Row", 25000, 300000, tInPlace<CF, LR>, RP);
static pbt::Reg a4("inplace/cdouble/Col", 25000, 300000, tInPlace<CD, LC>, RP);
static pbt::Reg b1("trsm_tri/float/RC", 15000, 200000, tTrsmTri<F, LR, LC, F>, RP);
static pbt::Reg b2("trsm_tri/double/CC", 15000, 200000, tTrsmTri<D, LC, LC, D>, RP);
static pbt::Reg b3("trsm_tri/cfloat/RR", 15000, 200000, tTrsmTri<CF, LR, LR, CF>, RP);
static pbt::Reg b4("trsm_tri/cdouble/CR", 15000, 200000, tTrsmTri<CD, LC, LR, D>, RP);
