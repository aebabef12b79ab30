#include "fact.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/trmm_blocked_mixed.hpp"
#include "tlapack/lapack/trmm_out.hpp"
using namespace tlapack;
static const char* RO = "all dimensions at least 2";
using CW = std::complex<double>;
template <class T> Dense<CW> cw(const Dense<T>& A) { return widenM<CW>(A); }
template <class T> CW cw1(const T& x) { return CW((double)re(x), (double)im(x)); }
template <class T, Layout L> struct Op1 {  // operand with junk in its unreferenced part
    GMat<T, L> G;
    template <class Fs> Op1(Case& c, const Dense<T>& A, Fs&& sel) : G(c, A.m, A.n)
    {
        T junk = c.coin() ? nanT<T>() : mk<T>(real_t<T>(77), real_t<T>(-55));
        for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) G(i, j) = sel(i, j) ? A(i, j) : junk;
        G.snapshot();
    }
};
static auto ALL = [](size_t, size_t) { return true; };
// beta: absent (C starts as NaN) or a number
template <class T, class TB, Layout LA, Layout LB, Layout LCc> void tHemm2(Case& c)
{
    Side s = genSide(c);
    Uplo u = genUplo(c);
    Op op = genOp3(c);
    size_t na = dimF(c), o = dimF(c);
    bool nobeta = c.chance(1, 3);
    // op(B) is na x o on the left, o x na on the right
    size_t rows = s == Side::Left ? na : o, cols = s == Side::Left ? o : na;
    Dense<T> A = intMat<T>(c, na, na), B = op == Op::NoTrans ? intMat<T>(c, rows, cols) : intMat<T>(c, cols, rows), C = intMat<T>(c, rows, cols);
    T alpha = coefExact<T>(c);
    TB beta = coefExact<TB>(c);
    std::string w = std::string("hemm2 ") + nm(s) + " " + nm(u) + " " + nm(op) + (nobeta ? " nobeta" : "");
    c.desc(w, show(A, 5), show(B, 5), "alpha", show(Dense<T>(1, 1, alpha)), "beta", show(Dense<TB>(1, 1, beta)));
    c.label(w);
    c.nontrivial(na >= 2 && o >= 2);
    Op1<T, LA> GA(c, A, [&](size_t i, size_t j) { return inTri(u, i, j); });
    if (cplx<T>) { for (size_t i = 0; i < na; ++i) if (c.coin()) GA.G(i, i) = mk<T>(re(A(i, i)), std::numeric_limits<real_t<T>>::quiet_NaN()); GA.G.snapshot(); }
    Op1<T, LB> GB(c, B, ALL);
    GMat<T, LCc> GC(c, rows, cols);
    if (nobeta) GC.fill(nanT<T>()); else GC.set(C);
    const auto a = GA.G.cview();
    const auto b = GB.G.cview();
    auto cc = GC.view();
    if (nobeta) hemm2(s, u, op, alpha, a, b, cc);
    else hemm2(s, u, op, alpha, a, b, beta, cc);
    GA.G.unchanged(c, w + "/A"), GB.G.unchanged(c, w + "/B"), GC.margins(c, w + "/C");
    Dense<CW> H = symOf(u, true, cw(A)), Bo = opM(op, cw(B));
    Dense<CW> P = s == Side::Left ? mul(H, Bo) : mul(Bo, H);
    expectEqual(c, w, GC.get(), axpby(cw1(alpha), P, nobeta ? CW(0) : cw1(beta), cw(C)));
}
template <class T, class TB, Layout LA, Layout LB, Layout LCc> void tHehe(Case& c)
{
    Uplo u = genUplo(c);
    size_t n = dimF(c);
    bool nobeta = c.chance(1, 3);
    Dense<T> A = intMat<T>(c, n, n), B = intMat<T>(c, n, n), C = intMat<T>(c, n, n);
    T alpha = coefExact<T>(c);
    TB beta = coefExact<TB>(c);
    std::string w = std::string("mult_hehe ") + nm(u) + (nobeta ? " nobeta" : "");
    c.desc(w, show(A, 5), show(B, 5), "alpha", show(Dense<T>(1, 1, alpha)), "beta", show(Dense<TB>(1, 1, beta)));
    c.label(w);
    c.nontrivial(n >= 2);
    Op1<T, LA> GA(c, A, [&](size_t i, size_t j) { return inTri(u, i, j); });
    Op1<T, LB> GB(c, B, [&](size_t i, size_t j) { return inTri(u, i, j); });
    GMat<T, LCc> GC(c, n, n);
    if (nobeta) GC.fill(nanT<T>()); else GC.set(C);
    auto a = GA.G.view();
    auto b = GB.G.view();
    auto cc = GC.view();
    if (nobeta) mult_hehe(u, alpha, a, b, cc);
    else mult_hehe(u, alpha, a, b, beta, cc);
    GA.G.unchanged(c, w + "/A"), GB.G.unchanged(c, w + "/B"), GC.margins(c, w + "/C");
    expectEqual(c, w, GC.get(), axpby(cw1(alpha), mul(symOf(u, true, cw(A)), symOf(u, true, cw(B))), nobeta ? CW(0) : cw1(beta), cw(C)));
}
template <class T, class TB, Layout LA, Layout LB, Layout LCc> void tGemmtr(Case& c)
{
    Uplo u = genUplo(c);
    Op ta = genOp3(c), tb = genOp3(c);
    size_t n = dimF(c), k = dimF(c);
    bool nobeta = c.chance(1, 3);
    Dense<T> A = ta == Op::NoTrans ? intMat<T>(c, n, k) : intMat<T>(c, k, n), B = tb == Op::NoTrans ? intMat<T>(c, k, n) : intMat<T>(c, n, k), C = intMat<T>(c, n, n);
    T alpha = coefExact<T>(c);
    TB beta = coefExact<TB>(c);
    std::string w = std::string("gemmtr ") + nm(u) + " " + nm(ta) + nm(tb) + (nobeta ? " nobeta" : "");
    c.desc(w, show(A, 5), show(B, 5), "alpha", show(Dense<T>(1, 1, alpha)), "beta", show(Dense<TB>(1, 1, beta)));
    c.label(w);
    c.nontrivial(n >= 2 && k >= 2);
    Op1<T, LA> GA(c, A, ALL);
    Op1<T, LB> GB(c, B, ALL);
    Op1<T, LCc> GC(c, C, [&](size_t i, size_t j) { return !nobeta && inTri(u, i, j); });
    const auto a = GA.G.cview();
    const auto b = GB.G.cview();
    auto cc = GC.G.view();
    if (nobeta) gemmtr(u, ta, tb, alpha, a, b, StrongZero(), cc);
    else gemmtr(u, ta, tb, alpha, a, b, beta, cc);
    GA.G.unchanged(c, w + "/A"), GB.G.unchanged(c, w + "/B");
    auto in = [&](size_t i, size_t j) { return inTri(u, i, j); };
    GC.G.onlyChanged(c, w, in);
    expectEqual(c, w, GC.G.get(), axpby(cw1(alpha), mul(opM(ta, cw(A)), opM(tb, cw(B))), nobeta ? CW(0) : cw1(beta), cw(C)), in);
}
template <class T, class TB, Layout LA, Layout LB, Layout LCc> void tTrmmOut(Case& c)
{
    Side s = genSide(c);
    Uplo u = genUplo(c);
    Diag d = genDiag(c);
    Op op = genOp3(c);
    size_t rows = dimF(c), cols = dimF(c), na = s == Side::Left ? rows : cols;  // op(B), C: rows x cols
    Dense<T> A = intMat<T>(c, na, na), B = op == Op::NoTrans ? intMat<T>(c, rows, cols) : intMat<T>(c, cols, rows), C = intMat<T>(c, rows, cols);
    T alpha = coefExact<T>(c);
    TB beta = coefExact<TB>(c);
    std::string w = std::string("trmm_out ") + nm(s) + " " + nm(u) + " " + nm(d) + " " + nm(op);
    c.desc(w, show(A, 5), show(B, 5), "alpha", show(Dense<T>(1, 1, alpha)), "beta", show(Dense<TB>(1, 1, beta)));
    c.label(w);
    c.nontrivial(rows >= 2 && cols >= 2);
    Op1<T, LA> GA(c, A, [&](size_t i, size_t j) { return inTri(u, i, j) && !(i == j && d == Diag::Unit); });
    Op1<T, LB> GB(c, B, ALL);
    GMat<T, LCc> GC(c, rows, cols);
    GC.set(C);
    const auto a = GA.G.cview();
    const auto b = GB.G.cview();
    auto cc = GC.view();
    trmm_out(s, u, Op::NoTrans, d, op, alpha, a, b, beta, cc);
    GA.G.unchanged(c, w + "/A"), GB.G.unchanged(c, w + "/B"), GC.margins(c, w + "/C");
    Dense<CW> At = triOf(u, d, cw(A)), Bo = opM(op, cw(B));
    expectEqual(c, w, GC.get(), axpby(cw1(alpha), s == Side::Left ? mul(At, Bo) : mul(Bo, At), cw1(beta), cw(C)));
}
// supported combination: Left, Upper, NoTrans.  TW: precision of the workspace (and of the off-diagonal products)
template <class TA, class T, class TW, Layout LA, Layout LB> void tMixed(Case& c)
{
    using S = scalar_type<TA, T>;
    Diag d = genDiag(c);
    size_t m = dimF(c), n = dimF(c), nb = genNb(c);
    bool one = c.chance(1, 4);  // a single block: nothing may be rounded to the workspace precision
    if (one) nb = m + (size_t)c.draw(3);
    if (nb == 0) nb = 1;
    Dense<TA> A = intMat<TA>(c, m, m);
    Dense<T> B = intMat<T>(c, m, n);
    bool big = one && sizeof(real_t<T>) > sizeof(real_t<TW>);
    if (big) for (auto& x : B.a) x = T(real_t<T>((1 << 26) + 1)) * x;
    S alpha = coefExact<S>(c);
    std::string w = std::string("trmm_blocked_mixed ") + nm(d);
    c.desc(w, "nb", nb, show(A, 5), show(B, 5), "alpha", show(Dense<S>(1, 1, alpha)));
    c.label(one ? "single block" : "several blocks");
    c.nontrivial(m >= 2 && n >= 2);
    Op1<TA, LA> GA(c, A, [&](size_t i, size_t j) { return i <= j && !(i == j && d == Diag::Unit); });
    GMat<T, LB> GB(c, m, n);
    GB.set(B);
    size_t wr = std::min(nb, m);
    Dirty<TW> Wk(c, WorkInfo(wr, n));
    auto work = Wk.view();
    const auto a = GA.G.cview();
    auto b = GB.view();
    TrmmBlockedOpts o;
    o.nb = nb;
    trmm_blocked_mixed(Side::Left, Uplo::Upper, Op::NoTrans, d, alpha, a, b, work, o);
    Wk.done(c, w);
    GA.G.unchanged(c, w + "/A"), GB.margins(c, w + "/B");
    expectEqual(c, w, GB.get(), axpby(cw1(alpha), mul(triOf(Uplo::Upper, d, cw(A)), cw(B)), CW(0), cw(B)));
}
static pbt::Reg h1("hemm2/float/RCC", 15000, 200000, tHemm2<F, F, LR, LC, LC>, RO);
static pbt::Reg h2("hemm2/cdouble/CRR", 15000, 200000, tHemm2<CD, CD, LC, LR, LR>, RO);
static pbt::Reg h3("hemm2/cfloat/CCC", 15000, 200000, tHemm2<CF, F, LC, LC, LC>, RO);
static pbt::Reg e1("hehe/double/CCR", 15000, 200000, tHehe<D, D, LC, LC, LR>, RO);
static pbt::Reg e2("hehe/cfloat/RCC", 15000, 200000, tHehe<CF, CF, LR, LC, LC>, RO);
static pbt::Reg e3("hehe/cdouble/CRC", 15000, 200000, tHehe<CD, D, LC, LR, LC>, RO);
static pbt::Reg g1("gemmtr/float/CCC", 15000, 200000, tGemmtr<F, F, LC, LC, LC>, RO);
static pbt::Reg g2("gemmtr/cdouble/RRC", 15000, 200000, tGemmtr<CD, CD, LR, LR, LC>, RO);
static pbt::Reg g3("gemmtr/cfloat/CRR", 15000, 200000, tGemmtr<CF, F, LC, LR, LR>, RO);
static pbt::Reg t1("trmm_out/double/CCC", 15000, 200000, tTrmmOut<D, D, LC, LC, LC>, RO);
static pbt::Reg t2("trmm_out/cfloat/RCR", 15000, 200000, tTrmmOut<CF, F, LR, LC, LR>, RO);
static pbt::Reg t3("trmm_out/cdouble/CRC", 15000, 200000, tTrmmOut<CD, CD, LC, LR, LC>, RO);
static pbt::Reg m1("mixed/double-float", 15000, 200000, tMixed<D, D, F, LC, LC>, RO);
static pbt::Reg m2("mixed/cdouble", 15000, 200000, tMixed<CD, CD, CD, LR, LC>, RO);
static pbt::Reg m3("mixed/float-double-float", 15000, 200000, tMixed<F, D, F, LC, LR>, RO);
static pbt::Reg m4("mixed/double", 15000, 200000, tMixed<D, D, D, LR, LR>, RO);
