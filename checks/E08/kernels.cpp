#include "qz.hpp"
#include "tlapack/lapack/lahqz_eig22.hpp"
#include "tlapack/lapack/lahqz_schur22.hpp"
#include "tlapack/lapack/lahqz_shiftcolumn.hpp"
template <class T> void gen22(Case& c, Dense<T>& A, Dense<T>& B)
{
    int dg = std::numeric_limits<real_t<T>>::digits;
    A = Dense<T>(2, 2), B = Dense<T>(2, 2);
    auto fill = [&](Dense<T>& M, const char* nm) {
        int k = (int)c.draw(6), lim = (int)c.range(1, 2 * dg);
        for (auto& x : M.a) {
            x = k == 1 || k == 4 ? smallInt<T>(c, 2) : uni<T>(c);
            if (k == 2) x = scaleP2(x, -(int)c.range(0, lim));
            if (k == 3 && c.coin()) x = T(0);
            if (k == 5 && c.coin()) x = scaleP2(x, -lim);
        }
        if (k == 4) M(1, 1) = M(0, 0);
        c.desc(nm, k);
    };
    fill(A, "kind A"), fill(B, "kind B");
    B(1, 0) = T(0);
    switch (c.draw(8)) {
        case 1: B = eye<T>(2); break;
        case 2: B(c.draw(2), 1) = T(0); break;
        case 3: B(0, 0) = T(0); break;
        case 4: A(1, 0) = T(0); break;
        case 5: A(0, 1) = T(0); break;
        case 6: {  // A close to a multiple of B
            T f = uni<T>(c);
            for (size_t i = 0; i < 4; ++i) A.a[i] = f * B.a[i] + scaleP2(uni<T>(c), -(int)c.range(0, 2 * dg));
            if (c.coin()) A(0, 1) = f * B(0, 1);
            break;
        }
        default:;
    }
    if (c.chance(1, 3)) {
        int m = sizeof(real_t<T>) == 4 ? 30 : 240, s = (int)c.range(-m, m), t = (int)c.range(-m, m);
        for (auto& x : A.a) x = scaleP2(x, s);
        for (auto& x : B.a) x = scaleP2(x, t);
    }
}
template <class T> void showPair(Case& c, const std::string& w, const Dense<T>& A, const Dense<T>& B) { c.desc(w, "A", show(A), "B", show(B)); }
template <class T, Layout L> void tEig(Case& c)
{
    using CT = cplxOf<T>;
    Dense<T> A0, B0;
    gen22(c, A0, B0);
    std::string w = "lahqz_eig22";
    showPair(c, w, A0, B0), c.label(w);
    GMat<T, L> GA(c, 2, 2), GB(c, 2, 2);
    GA.set(A0), GB.set(B0), GA.snapshot(), GB.snapshot();
    GVec<CT> al(c, 2);
    GVec<T> be(c, 2);
    for (size_t i = 0; i < 2; ++i) al[i] = nanT<CT>(), be[i] = nanT<T>();
    al.snapshot(), be.snapshot();
    c.nontrivial(A0(1, 0) != T(0) && A0(0, 1) != T(0));
    lahqz_eig22(GA.cview(), GB.cview(), al[0], al[1], be[0], be[1]);
    GA.unchanged(c, w + "/A"), GB.unchanged(c, w + "/B");
    auto av = al.get();
    auto bv = be.get();
    for (auto& b : bv) c.check(im(b) == 0, w + "/beta-not-real", "beta ", re(b), " ", im(b));
    checkPairs(c, w, A0, B0, 0, 2, av, bv);
    if constexpr (!cplx<T>) c.check((im(av[0]) == 0) == (im(av[1]) == 0), w + "/conjugate-pair", "one complex eigenvalue");
    if (im(av[0]) != 0) c.label("complex pair");
    if (bv[0] == T(0) || bv[1] == T(0)) c.label("infinite");
}
static const char* R2 = "both off-diagonal entries of A nonzero";
static pbt::Reg a1("eig22/float", 30000, 900000, tEig<F, LC>, R2);
static pbt::Reg a2("eig22/double", 30000, 900000, tEig<D, LR>, R2);
static pbt::Reg a3("eig22/cfloat", 20000, 600000, tEig<CF, LR>, R2);
static pbt::Reg a4("eig22/cdouble", 20000, 600000, tEig<CD, LC>, R2);
template <class T, Layout L> void tSchur(Case& c)
{
    using CT = cplxOf<T>;
    using R = real_t<T>;
    using W = wide<T>;
    Dense<T> A0, B0;
    gen22(c, A0, B0);
    std::string w = "lahqz_schur22";
    showPair(c, w, A0, B0), c.label(w);
    GMat<T, L> GA(c, 2, 2), GB(c, 2, 2);
    GA.set(A0), GB.set(B0), GA.snapshot(), GB.snapshot();
    std::vector<CT> av(2, nanT<CT>());
    std::vector<R> bv(2, nanT<R>());
    R cl = nanT<R>(), cr = nanT<R>();
    T sl = nanT<T>(), sr = nanT<T>(), s0 = nanT<T>(), s1 = nanT<T>();
    c.nontrivial(A0(1, 0) != T(0) && A0(0, 1) != T(0));
    auto A = GA.view(), B = GB.view();
    lahqz_schur22(A, B, av[0], av[1], bv[0], bv[1], cl, sl, cr, sr, s0, s1);
    GA.margins(c, w + "/A"), GB.margins(c, w + "/B");
    Dense<T> S = GA.get(), P = GB.get();
    c.check(allFinite(S) && allFinite(P), w + "/finite", show(S), " ", show(P));
    double e = eps<T>();
    c.check(std::fabs(mag(widen<W>(s0)) - 1) <= 8 * e && std::fabs(mag(widen<W>(s1)) - 1) <= 8 * e, w + "/scal", "scal0 ", s0, " scal1 ", s1);
    // Q = [cl, -sl; conj(sl), cl], Z = [cr, -conj(sr); sr, cr] diag(scal0, scal1)
    Dense<T> Q(2, 2), Z(2, 2), I = eye<T>(2);
    Q(0, 0) = cl, Q(0, 1) = -sl, Q(1, 0) = cj(sl), Q(1, 1) = cl;
    Z(0, 0) = s0 * cr, Z(0, 1) = -cj(sr) * s1, Z(1, 0) = sr * s0, Z(1, 1) = s1 * cr;
    auto off = [&](const Dense<T>& M) { for (auto& x : M.a) if (!isfin(x)) c.fail(w + "/finite", "rotation not finite"); };
    off(Q), off(Z);
    checkPair(c, w, A0, B0, S, P, true, true, I, Q, I, Z, 2);
    for (size_t i = 0; i < 2; ++i) c.check(re(P(i, i)) >= 0 && im(P(i, i)) == 0, w + "/diagonal-of-T", "entry ", P(i, i));
    std::vector<T> bt{T(bv[0]), T(bv[1])};
    checkForm(c, w, S, P, av, bt, 0, 2);
    checkPairs(c, w, A0, B0, 0, 2, av, bt);
    if (S(1, 0) != T(0)) c.label("complex pair"), c.check(P(0, 1) == T(0) && re(P(0, 0)) > 0 && re(P(1, 1)) > 0, w + "/block-B", show(P));
}
static pbt::Reg b1("schur22/float", 30000, 900000, tSchur<F, LR>, R2);
static pbt::Reg b2("schur22/double", 30000, 900000, tSchur<D, LC>, R2);
static pbt::Reg b3("schur22/cfloat", 20000, 600000, tSchur<CF, LC>, R2);
static pbt::Reg b4("schur22/cdouble", 20000, 600000, tSchur<CD, LR>, R2);
// first column of the double-shift polynomial (b2 A - s2 B) B^-1 (b1 A - s1 B)
template <class T, Layout L> void tShift(Case& c)
{
    using CT = cplxOf<T>;
    using R = real_t<T>;
    using CW = std::complex<real_t<wide<T>>>;
    size_t n = c.chance(1, 4) ? 2 : 3;
    Dense<T> A0(n, n), B0(n, n);
    int k = (int)c.draw(3), sa = 0, sb = 0;
    int m = sizeof(R) == 4 ? 20 : 160, dg = std::numeric_limits<R>::digits;
    if (c.chance(1, 3)) sa = (int)c.range(-m, m), sb = (int)c.range(-m, m);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= std::min(j + 1, n - 1); ++i) {
        T x = k == 1 ? smallInt<T>(c, 3) : uni<T>(c), y = k == 1 ? smallInt<T>(c, 3) : uni<T>(c);
        if (k == 2) x = scaleP2(x, -(int)c.range(0, dg)), y = scaleP2(y, -(int)c.range(0, dg));
        if (i == j && y == T(0)) y = T(1);
        A0(i, j) = scaleP2(x, sa);
        if (i <= j) B0(i, j) = scaleP2(y, sb);
    }
    CT s1, s2;
    T b1, b2;
    if constexpr (cplx<T>) s1 = uni<T>(c), s2 = uni<T>(c), b1 = T(std::fabs(uni<R>(c))), b2 = T(std::fabs(uni<R>(c)));
    else {
        s1 = CT(uni<R>(c), 0), s2 = CT(uni<R>(c), 0), b1 = std::fabs(uni<R>(c)), b2 = std::fabs(uni<R>(c));
        if (n == 3 && c.coin()) s1.imag(uni<R>(c)), s2 = std::conj(s1), b2 = b1, c.label("conjugate shifts");
    }
    switch (c.draw(6)) {
        case 1: s2 = s1, b2 = b1; if constexpr (!cplx<T>) s1.imag(0), s2.imag(0); break;
        case 2: s1 = s2 = CT(0); break;
        case 3: b1 = T(0), b2 = T(0); break;
        case 4: s1 = CT(re(A0(0, 0)) * std::ldexp(R(1), -sa), 0), b1 = T(re(B0(0, 0)) * std::ldexp(R(1), -sb)), s2 = s1, b2 = b1; break;  // an exact eigenvalue when A(1,0) is zero
        default:;
    }
    if (sa != sb) s1 = scaleP2(s1, sa - sb), s2 = scaleP2(s2, sa - sb);
    std::string w = "lahqz_shiftcolumn/" + std::to_string(n);
    c.desc(w, "A", show(A0), "B", show(B0), "s1", re(s1), im(s1), "s2", re(s2), im(s2), "b1", b1, "b2", b2);
    c.label(w);
    GMat<T, L> GA(c, n, n), GB(c, n, n);
    GA.set(A0), GB.set(B0), GA.snapshot(), GB.snapshot();
    GVec<T> gv(c, n);
    for (size_t i = 0; i < n; ++i) gv[i] = nanT<T>();
    gv.snapshot();
    auto v = gv.view();
    auto A = GA.view(), B = GB.view();
    int info = lahqz_shiftcolumn(A, B, v, s1, s2, b1, b2);
    c.check(info == 0, w + "/info", info);
    GA.unchanged(c, w + "/A"), GB.unchanged(c, w + "/B"), gv.margins(c, w + "/v");
    auto X = [&](const T& x) { return widen<CW>(x); };
    CW S1 = widen<CW>(s1), S2 = widen<CW>(s2), B1 = X(b1), B2 = X(b2);
    std::vector<CW> u(n);
    std::vector<double> ub(n);  // the same with absolute values
    CW w1 = B1 * X(A0(0, 0)) - S1 * X(B0(0, 0)), w2 = B1 * X(A0(1, 0));
    double a1 = mag(b1) * mag(A0(0, 0)) + mag(s1) * mag(B0(0, 0)), a2 = mag(b1) * mag(A0(1, 0));
    if (n == 2) u[0] = w1, u[1] = w2, ub[0] = a1, ub[1] = a2;
    else {
        w2 = w2 / X(B0(1, 1)), w1 = (w1 - X(B0(0, 1)) * w2) / X(B0(0, 0));
        a2 = a2 / mag(B0(1, 1)), a1 = (a1 + mag(B0(0, 1)) * a2) / mag(B0(0, 0));
        for (size_t i = 0; i < 3; ++i) {
            u[i] = (B2 * X(A0(i, 0)) - S2 * X(B0(i, 0))) * w1 + (B2 * X(A0(i, 1)) - S2 * X(B0(i, 1))) * w2;
            ub[i] = (mag(b2) * mag(A0(i, 0)) + mag(s2) * mag(B0(i, 0))) * a1 + (mag(b2) * mag(A0(i, 1)) + mag(s2) * mag(B0(i, 1))) * a2;
        }
    }
    double e = eps<T>();
    for (size_t i = 0; i < n; ++i) c.check(isfin(gv[i]), w + "/finite", "v[", i, "] = ", gv[i]);
    // v is a multiple of u
    size_t p = 0;
    for (size_t i = 1; i < n; ++i) if (mag(u[i]) * ub[p] > mag(u[p]) * ub[i]) p = i;
    if (!(mag(u[p]) > 1e3 * e * ub[p])) { c.label("shift column cancels"); return; }
    c.nontrivial(n == 3 && mag(u[p]) > 0);
    CW lam = X(gv[p]) / u[p];
    c.check(mag(lam) > 0, w + "/zero", "the computed column is zero");
    for (size_t i = 0; i < n; ++i) {
        double err = mag(X(gv[i]) - lam * u[i]), tol = 32 * e * mag(lam) * (ub[i] + mag(u[i]) * ub[p] / mag(u[p]));
        if (tol == 0) c.check(err == 0, w + "/column", "v[", i, "] = ", gv[i], " must be zero");
        else c.ratio(w + "/column", err, tol);
    }
    // real matrices: the multiple is positive
    if constexpr (!cplx<T>) c.check(re(lam) > 0 && std::fabs(im(lam)) <= 64 * e * mag(lam) * ub[p] / mag(u[p]), w + "/multiple-real", "multiple ", re(lam), " ", im(lam));
}
static const char* RC = "order 3 and the column not zero";
static pbt::Reg c1("shiftcolumn/float", 20000, 600000, tShift<F, LC>, RC);
static pbt::Reg c2("shiftcolumn/double", 20000, 600000, tShift<D, LR>, RC);
static pbt::Reg c3("shiftcolumn/cfloat", 10000, 300000, tShift<CF, LR>, RC);
static pbt::Reg c4("shiftcolumn/cdouble", 10000, 300000, tShift<CD, LC>, RC);
