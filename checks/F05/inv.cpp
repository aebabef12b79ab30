// variant: throwing
// variant: codes -DTLAPACK_NDEBUG
#include "fact.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
using namespace tlapack;
#ifdef TLAPACK_NDEBUG
static const bool THROWS = false;
#else
static const bool THROWS = true;
#endif
static const char* RI = "order at least 2";
// exact-friendly triangle: power-of-two diagonal (or unit), few small off-diagonal entries
template <class T> Dense<T> exactTri(Case& c, Uplo u, Diag d, size_t n)
{
    Dense<T> A(n, n);
    int pr = (int)c.range(1, 4);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (i == j) A(i, j) = d == Diag::Unit ? T(1) : scaleP2(cplx<T> && c.coin() ? mk<T>(0, c.coin() ? 1 : -1) : T(real_t<T>(c.coin() ? 1 : -1)), (int)c.range(-1, 1));
        else if (inTri(u, i, j) && c.chance(1, pr * 2)) A(i, j) = smallInt<T>(c, 1);
    }
    return A;
}
template <class T> Dense<T> floatTri(Case& c, Uplo u, Diag d, size_t n, double off)
{
    Dense<T> A(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (i == j) A(i, j) = d == Diag::Unit ? T(1) : [&] { T x = uni<T>(c); return mag(x) < 0.3 ? T(x + mk<T>(1, 0)) : x; }();
        else if (inTri(u, i, j)) A(i, j) = uni<T>(c) * real_t<T>(off);
    }
    return A;
}
template <class W> Dense<W> invTri(Uplo u, const Dense<W>& A)  // explicit triangle, reference
{
    size_t n = A.m;
    Dense<W> X(n, n);
    for (size_t j = 0; j < n; ++j) {
        if (u == Uplo::Lower)
            for (size_t i = j; i < n; ++i) {
                W s = i == j ? W(1) : W(0);
                for (size_t l = j; l < i; ++l) s -= A(i, l) * X(l, j);
                X(i, j) = s / A(i, i);
            }
        else
            for (size_t i = j + 1; i-- > 0;) {
                W s = i == j ? W(1) : W(0);
                for (size_t l = i + 1; l <= j; ++l) s -= A(i, l) * X(l, j);
                X(i, j) = s / A(i, i);
            }
    }
    return X;
}
template <class W> double exactLim(const Dense<W>& X, const Dense<W>& A) { return (normMax(X) + 1) * (normMax(A) + 1) * 64 * (A.n + 1); }
template <class W> Dense<double> absM(const Dense<W>& A) { Dense<double> B(A.m, A.n); for (size_t i = 0; i < A.a.size(); ++i) B.a[i] = mag(A.a[i]); return B; }
// runs a call that reports through its return value or, with checks on, through std::runtime_error("[info] ...")
template <class F> int reported(Case& c, const std::string& w, bool mayThrow, F&& f)
{
    try { return f(); }
    catch (std::runtime_error& e) {
        c.check(mayThrow, w + "/unexpected-throw", e.what());
        int info = 0;
        c.check(sscanf(e.what(), "[%d]", &info) == 1, w + "/message", e.what());
        return info;
    }
}
template <class T, Layout L> void tTrtri(Case& c)
{
    using W = wide<T>;
    Uplo u = genUplo(c);
    Diag d = genDiag(c);
    bool exact = c.coin(), sing = c.chance(1, 6), quiet = c.coin();
    size_t n = exact ? (c.chance(1, 10) ? (size_t)c.range(10, 30) : (size_t)c.size(0, 9)) : dimF(c);
    std::string w = std::string("trtri ") + nm(u) + " " + nm(d);
    Dense<T> A0 = exact ? exactTri<T>(c, u, d, n) : floatTri<T>(c, u, d, n, std::min(1.0, 3.0 / (n + 1)));
    size_t q = n;
    if (sing && n > 0 && d == Diag::NonUnit) {
        for (int r = 0, R = (int)c.range(1, 2); r < R; ++r) { size_t z = (size_t)c.range(0, (int64_t)n - 1); A0(z, z) = T(0); q = std::min(q, z); }
    }
    c.desc(w, "n", n, exact ? "exact" : "float", q < n ? "singular" : "", show(A0, 5));
    c.label(w);
    c.nontrivial(n >= 2);
    GMat<T, L> G(c, n, n);
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = inTri(u, i, j) && !(i == j && d == Diag::Unit) ? A0(i, j) : junk;
    G.snapshot();
    auto A = G.view();
    EcOpts o;
    o.ec.internal = !quiet;
    int info = reported(c, w, THROWS && !quiet && q < n, [&] { return trtri_recursive(u, d, A, o); });
    c.check(info == (q < n ? (int)q + 1 : 0), w + "/info", "returned ", info, " first zero at ", q);
    G.onlyChanged(c, w, [&](size_t i, size_t j) { return inTri(u, i, j) && !(i == j && d == Diag::Unit); });
    if (q < n) { c.label("singular"); return; }
    Dense<W> Aw = widenM<W>(A0), X = invTri(u, Aw), Gw = G.template getW<W>();
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (!inTri(u, i, j)) Gw(i, j) = W(0); else if (i == j && d == Diag::Unit) Gw(i, j) = W(1);
    if (exact) {
        if (exactLim(X, Aw) * normMax(X) > 1 / eps<T>()) throw pbt::Discard();
        expectEqual(c, w, Gw, X);
    }
    else {
        Dense<double> x = absM(X), a = absM(Aw);
        c.ratio(w + "/forward", normF(sub(Gw, X)), (8 + 4.0 * n) * eps<T>() * normF(mul(mul(mul(mul(x, a), x), a), x)));
    }
}
template <class T, Layout L> void tGetri(Case& c)
{
    using W = wide<T>;
    bool exact = c.coin(), sing = c.chance(1, 6);
    int v = (int)c.draw(3);  // driver UILI, driver UXLI, driver with workspace (either)
    bool uxli = c.coin(), work = v == 2, direct = v == 1;
    size_t n = exact ? (c.chance(1, 10) ? (size_t)c.range(9, 24) : (size_t)c.size(0, 8)) : dimF(c);
    std::string w = std::string(direct ? "getri_" : work ? "getri_work " : "getri ") + (uxli ? "uxli" : "uili");
    double off = std::min(1.0, 3.0 / (n + 1));
    Dense<T> Lo = exact ? exactTri<T>(c, Uplo::Lower, Diag::Unit, n) : floatTri<T>(c, Uplo::Lower, Diag::Unit, n, off);
    Dense<T> U = exact ? exactTri<T>(c, Uplo::Upper, Diag::NonUnit, n) : floatTri<T>(c, Uplo::Upper, Diag::NonUnit, n, off);
    std::vector<size_t> zs;
    if (sing && n > 0)
        for (int r = 0, R = (int)c.range(1, 2); r < R; ++r) { size_t z = (size_t)c.range(0, (int64_t)n - 1); U(z, z) = T(0); zs.push_back(z); }
    std::vector<size_t> piv(n);
    for (size_t j = 0; j < n; ++j) piv[j] = c.coin() ? j : (size_t)c.range((int64_t)j, (int64_t)n - 1);
    c.desc(w, "n", n, exact ? "exact" : "float", zs.size() ? "singular" : "", show(Lo, 4), show(U, 4));
    c.label(w);
    c.nontrivial(n >= 2);
    GMat<T, L> G(c, n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = i <= j ? U(i, j) : Lo(i, j);
    auto A = G.view();
    GetriOpts o;
    o.variant = uxli ? GetriVariant::UXLI : GetriVariant::UILI;
    auto pv = piv;
    int info = reported(c, w, THROWS && !zs.empty(), [&] {
        if (direct) {
            if (!uxli) return getri_uili(A);
            Dirty<T> dw(c, getri_uxli_worksize<T>(A));
            auto wk = dw.view();
            int r = getri_uxli_work(A, wk);
            dw.done(c, w);
            return r;
        }
        if (!work) return getri(A, piv, o);
        Dirty<T> dw(c, getri_worksize<T>(A, piv, o));
        auto wk = dw.view();
        int r = getri_work(A, piv, wk, o);
        dw.done(c, w);
        return r;
    });
    G.margins(c, w), c.check(pv == piv, w + "/piv-changed");
    if (!zs.empty()) {
        c.label("singular");
        c.check(info > 0 && info <= (int)n && U(info - 1, info - 1) == T(0), w + "/info", "returned ", info);
        return;
    }
    c.check(info == 0, w + "/info", "returned ", info);
    Dense<W> Lw = widenM<W>(Lo), Uw = widenM<W>(U), Li = invTri(Uplo::Lower, Lw), Ui = invTri(Uplo::Upper, Uw), X = mul(Ui, Li);
    if (!direct)
        for (size_t j = n; j-- > 0;) if (piv[j] != j) for (size_t i = 0; i < n; ++i) std::swap(X(i, j), X(i, piv[j]));
    Dense<double> P = mul(absM(Ui), absM(Li)), K = mul(absM(Lw), absM(Uw));
    Dense<W> got = G.template getW<W>();
    if (exact) {
        if (normMax(mul(mul(P, K), P)) * 64 > 1 / eps<T>()) throw pbt::Discard();
        expectEqual(c, w, got, X);
    }
    else c.ratio(w + "/forward", normF(sub(got, X)), (8 + 4.0 * n) * eps<T>() * normF(mul(mul(mul(mul(P, K), P), K), P)));
}
template <class T, Layout L> void tPotri(Case& c)
{
    using W = wide<T>;
    Uplo u = genUplo(c);
    bool exact = c.coin();
    size_t n = exact ? (c.chance(1, 10) ? (size_t)c.range(9, 20) : (size_t)c.size(0, 8)) : dimF(c);
    std::string w = std::string("potri ") + nm(u);
    Dense<T> Lo = exact ? exactTri<T>(c, Uplo::Lower, Diag::NonUnit, n) : floatTri<T>(c, Uplo::Lower, Diag::NonUnit, n, std::min(1.0, 3.0 / (n + 1)));
    for (size_t i = 0; i < n; ++i) Lo(i, i) = T(real_t<T>(mag(Lo(i, i))));
    Dense<W> Lw = widenM<W>(Lo), A0 = mul(Lw, ct(Lw));
    c.desc(w, "n", n, exact ? "exact" : "float", show(Lo, 5));
    c.label(w);
    c.nontrivial(n >= 2);
    GMat<T, L> G(c, n, n);
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
    Dense<W> Aw(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        T x = mk<T>((real_t<T>)re(A0(i, j)), i == j ? real_t<T>(0) : (real_t<T>)im(A0(i, j)));
        G(i, j) = inTri(u, i, j) ? x : junk;
        if (u == Uplo::Lower ? i >= j : i <= j) Aw(i, j) = widen<W>(x), Aw(j, i) = cj(widen<W>(x));
    }
    G.snapshot();
    auto A = G.view();
    potri(u, A);
    G.onlyChanged(c, w, [&](size_t i, size_t j) { return inTri(u, i, j); });
    Dense<W> Li = invTri(Uplo::Lower, Lw), X = mul(ct(Li), Li), got(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) got(i, j) = inTri(u, i, j) ? widen<W>(G(i, j)) : X(i, j);
    if (exact) {
        if (normMax(mul(mul(absM(X), absM(A0)), absM(X))) * 64 > 1 / eps<T>()) throw pbt::Discard();
        expectEqual(c, w, got, X);
    }
    else {
        Dense<double> P = mul(absM(ct(Li)), absM(Li)), K = mul(absM(Lw), absM(ct(Lw)));
        c.ratio(w + "/forward", normF(sub(got, X)), (8 + 4.0 * n) * eps<T>() * normF(mul(mul(mul(mul(P, K), P), K), P)));
    }
}
static pbt::Reg a1("trtri/float/Col", 15000, 200000, tTrtri<F, LC>, RI);
static pbt::Reg a2("trtri/double/Row", 15000, 200000, tTrtri<D, LR>, RI);
static pbt::Reg a3("trtri/cfloat/Row", 15000, 200000, tTrtri<CF, LR>, RI);
static pbt::Reg a4("trtri/cdouble/Col", 15000, 200000, tTrtri<CD, LC>, RI);
static pbt::Reg b1("getri/float/Row", 12000, 200000, tGetri<F, LR>, RI);
static pbt::Reg b2("getri/double/Col", 12000, 200000, tGetri<D, LC>, RI);
static pbt::Reg b3("getri/cfloat/Col", 12000, 200000, tGetri<CF, LC>, RI);
static pbt::Reg b4("getri/cdouble/Row", 12000, 200000, tGetri<CD, LR>, RI);
static pbt::Reg p1("potri/double/Col", 12000, 200000, tPotri<D, LC>, RI);
static pbt::Reg p2("potri/cfloat/Row", 12000, 200000, tPotri<CF, LR>, RI);
static pbt::Reg p3("potri/cdouble/Col", 12000, 200000, tPotri<CD, LC>, RI);
