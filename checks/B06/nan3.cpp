// flags: -DTLAPACK_CHECK_INPUT
// Plain coefficients let NaN through; strong zeros and missing coefficients discard it (matrix results).
#include "../B05/blas3.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "mask.hpp"
// beta modes: 0 plain, 1 strong zero, 2 omitted
template <class T, Layout LA_, Layout LB_, Layout LC_> void tNan3(Case& c)
{
    constexpr bool Z = cplx<T>;
    using R = real_t<T>;
    int op = (int)c.draw(11);
    const char* names[] = {"gemm", "hemm", "symm", "herk", "syrk", "her2k", "syr2k", "trmm", "trsm", "hemm2", "mult_hehe"};
    std::string w = names[op];
    bool herm = op == 1 || op == 3 || op == 5 || op >= 9;
    bool sq = op >= 3 && op <= 6, tri = op == 7 || op == 8;
    Op ta = genOp3(c), tb = genOp3(c);
    Side side = genSide(c);
    Uplo uplo = tri ? genUplo(c) : uplo3(c);
    Diag diag = genDiag(c);
    size_t m = (size_t)c.range(1, 7), n = (size_t)c.range(1, 7), k = (size_t)c.range(1, 7);
    if (op == 9) uplo = genUplo(c);
    if (op == 10) n = m, uplo = genUplo(c);
    if (sq) ta = c.coin() ? (herm ? Op::ConjTrans : Op::Trans) : Op::NoTrans;
    bool tA = ta != Op::NoTrans, tB = tb != Op::NoTrans;
    int mode = tri ? 0 : (int)c.draw(3);
    if (op >= 9) mode = mode == 1 ? 0 : mode;
    // plain coefficients, often zero
    bool rc = op == 3 || op == 5;  // beta real; herk: alpha real
    T alpha = op == 3 ? T(R(c.pick({0, 0, 1, -2}))) : (c.coin() ? T(0) : coefExact<T>(c));
    R betar = R(c.pick({0, 0, 1, -2}));
    T beta = rc ? T(betar) : (c.coin() ? T(0) : coefExact<T>(c));
    bool coefNan = c.chance(1, 12);
    size_t am, an, bm, bn;
    if (op == 0) am = tA ? k : m, an = tA ? m : k, bm = tB ? n : k, bn = tB ? k : n;
    else if (op == 1 || op == 2 || tri) am = an = side == Side::Left ? m : n, bm = m, bn = n;
    else if (op == 9) am = an = side == Side::Left ? m : n, bm = tB ? n : m, bn = tB ? m : n;
    else if (op == 10) am = an = bm = bn = m;
    else am = bm = tA ? k : m, an = bn = tA ? m : k, n = m;
    GMat<T, LA_> A(c, am, an);
    GMat<T, LB_> B(c, bm, bn);
    GMat<T, LC_> C(c, m, n);
    Dense<T> a = intMat<T>(c, am, an), b = intMat<T>(c, bm, bn), cc = intMat<T>(c, m, n);
    if (tri) for (size_t i = 0; i < am; ++i) a(i, i) = T(R(c.pick({1, 2, -1})));
    int where = (int)c.draw(4);
    plant(c, a, where == 0 || where == 3);
    plant(c, b, where == 1 || where == 3);
    if (mode == 0 && (where == 2 || where == 3)) plant(c, cc, 1);
    bool garbage = mode != 0;
    if (garbage)
        for (auto& x : cc.a) x = c.coin() ? oneNan<T>(c) : T(std::numeric_limits<R>::infinity());
    // structure of symmetric/Hermitian operands given as General
    auto full = [&](Dense<T>& X) { if (uplo == Uplo::General) X = symOf(Uplo::Upper, herm, X); };
    if (op == 1 || op == 2) full(a);
    if (sq) full(cc);
    Mask Ma = nanMask(a), Mb = nanMask(b), Mc = nanMask(cc), W(m, n);
    if (coefNan) { if (op == 3 || rc) betar = nanT<R>(), beta = T(betar); if (op != 3 || !Z) alpha = nanT<T>(); else alpha = T(nanT<R>()); }
    c.desc(w, nm(ta), nm(tb), nm(side), nm(uplo), nm(diag), "m", m, "n", n, "k", k, "alpha", widen<CW>(alpha), "beta", widen<CW>(beta), "betamode", mode, "A", show(a), "B", show(b), "C", show(cc));
    c.label(w + " beta" + std::to_string(mode));
    c.nontrivial(true);
    // Hermitian diagonals are read as real numbers
    auto hermDiag = [&](const Dense<T>& X, Mask M) { if (herm && uplo != Uplo::General) for (size_t i = 0; i < X.n; ++i) M(i, i) = isnanr(re(X(i, i))); return M; };
    Mask P;
    bool allOp = false;
    switch (op) {
        case 0: P = prodMask(tA ? tr(Ma) : Ma, tB ? tr(Mb) : Mb); break;
        case 1: case 2: { Mask S = symMask(uplo, hermDiag(a, Ma)); P = side == Side::Left ? prodMask(S, Mb) : prodMask(Mb, S); break; }
        case 9: { Mask S = symMask(uplo, hermDiag(a, Ma)); Mask X = tB ? tr(Mb) : Mb; P = side == Side::Left ? prodMask(S, X) : prodMask(X, S); break; }
        case 10: { Mask S = symMask(uplo, hermDiag(a, Ma)), X = symMask(uplo, hermDiag(b, Mb)); P = prodMask(S, X); break; }
        case 3: case 4: P = tA ? prodMask(tr(Ma), Ma) : prodMask(Ma, tr(Ma)); break;
        case 5: case 6: P = tA ? orM(prodMask(tr(Ma), Mb), prodMask(tr(Mb), Ma)) : orM(prodMask(Ma, tr(Mb)), prodMask(Mb, tr(Ma))); break;
        default: {
            // dependency on the triangular operand, computed by propagation
            Mask T_(am, am);
            for (size_t j = 0; j < am; ++j) for (size_t i = 0; i < am; ++i) if (inTri(uplo, i, j) && !(i == j && diag == Diag::Unit)) T_(i, j) = Ma(i, j);
            bool lower = (uplo == Uplo::Lower) != tA;
            if (tA) T_ = tr(T_);
            Mask X = Mb;
            bool left = side == Side::Left;
            if (!left) X = tr(X), T_ = tr(T_), lower = !lower;
            P = Mask(X.m, X.n);
            for (size_t j = 0; j < X.n; ++j)
                for (size_t q = 0; q < am; ++q) {
                    size_t i = lower ? q : am - 1 - q;
                    int v = X(i, j);
                    for (size_t l = 0; l < am; ++l) if (lower ? l <= i : l >= i) v |= T_(i, l) | (op == 7 ? X(l, j) : (l == i ? 0 : P(l, j)));
                    P(i, j) = v;
                }
            if (!left) P = tr(P);
        }
    }
    (void)allOp;
    W = P;
    if (mode == 0 && !tri) W = orM(W, sq ? symMask(uplo, hermDiag(cc, Mc)) : Mc);
    if (coefNan) for (auto& x : W.a) x = 1;
    A.set(a), B.set(b), C.set(cc);
    A.snapshot(), B.snapshot(), C.snapshot();
    auto Av = A.view();
    auto Bv = B.view();
    auto Cv = C.view();
    StrongZero z;
    auto call = [&](auto bt) {
        switch (op) {
            case 0: tlapack::gemm(ta, tb, alpha, Av, Bv, bt, Cv); break;
            case 1: tlapack::hemm(side, uplo, alpha, Av, Bv, bt, Cv); break;
            case 2: tlapack::symm(side, uplo, alpha, Av, Bv, bt, Cv); break;
            case 4: tlapack::syrk(uplo, ta, alpha, Av, bt, Cv); break;
            case 6: tlapack::syr2k(uplo, ta, alpha, Av, Bv, bt, Cv); break;
        }
    };
    auto callR = [&](auto bt) {
        if (op == 3) tlapack::herk(uplo, ta, re(alpha), Av, bt, Cv);
        if (op == 5) tlapack::her2k(uplo, ta, alpha, Av, Bv, bt, Cv);
    };
    if (op == 7) tlapack::trmm(side, uplo, ta, diag, alpha, Av, Bv);
    else if (op == 8) tlapack::trsm(side, uplo, ta, diag, alpha, Av, Bv);
    else if (op == 9) { if (mode == 2) tlapack::hemm2(side, uplo, tb, alpha, Av, Bv, Cv); else tlapack::hemm2(side, uplo, tb, alpha, Av, Bv, beta, Cv); }
    else if (op == 10) { if (mode == 2) tlapack::mult_hehe(uplo, alpha, Av, Bv, Cv); else tlapack::mult_hehe(uplo, alpha, Av, Bv, beta, Cv); }
    else if (mode == 0) { if (rc) callR(betar); else call(beta); }
    else if (mode == 1) { if (rc) callR(z); else call(z); }
    else switch (op) {
        case 0: tlapack::gemm(ta, tb, alpha, Av, Bv, Cv); break;
        case 1: tlapack::hemm(side, uplo, alpha, Av, Bv, Cv); break;
        case 2: tlapack::symm(side, uplo, alpha, Av, Bv, Cv); break;
        case 3: tlapack::herk(uplo, ta, re(alpha), Av, Cv); break;
        case 4: tlapack::syrk(uplo, ta, alpha, Av, Cv); break;
        case 5: tlapack::her2k(uplo, ta, alpha, Av, Bv, Cv); break;
        case 6: tlapack::syr2k(uplo, ta, alpha, Av, Bv, Cv); break;
    }
    Dense<T> G = tri ? B.get() : C.get();
    for (size_t j = 0; j < G.n; ++j) for (size_t i = 0; i < G.m; ++i) {
        if (sq && !inTri(uplo, i, j)) continue;
        bool nan = isnanT(G(i, j));
        if (W(i, j) && !nan) c.fail(w + "/nan-lost", "entry (", i, ",", j, ") does not show the NaN it depends on");
        if (!W(i, j) && !isfin(G(i, j))) c.fail(w + (mode ? "/discarded-operand-leaks" : "/nan-invented"), "entry (", i, ",", j, ") is not finite but depends on finite data only");
    }
}
static const char* RULE = "a NaN is planted in an operand, a coefficient or the discarded output";
static pbt::Reg r1("nan3/double", 60000, 900000, tNan3<D, LC, LC, LC>, RULE);
static pbt::Reg r2("nan3/cdouble", 60000, 900000, tNan3<CD, LC, LR, LC>, RULE);
static pbt::Reg r3("nan3/float", 40000, 900000, tNan3<F, LR, LR, LR>, RULE);
static pbt::Reg r4("nan3/cfloat", 40000, 900000, tNan3<CF, LR, LC, LR>, RULE);
