#include "fact.hpp"
#include "tlapack/lapack/getrf.hpp"
using namespace tlapack;
enum V { Driver0, DriverR, Level0, Recursive };
static const char* vn[] = {"getrf(Level0)", "getrf(Recursive)", "getrf_level0", "getrf_recursive"};
template <class M, class P> int lu(int v, M& A, P& piv)
{
    GetrfOpts o;
    if (v == Driver0) { o.variant = GetrfVariant::Level0; return getrf(A, piv, o); }
    if (v == DriverR) { o.variant = GetrfVariant::Recursive; return getrf(A, piv, o); }
    if (v == Level0) return getrf_level0(A, piv);
    return getrf_recursive(A, piv);
}
template <class T, Layout L> struct Out {
    Dense<T> A;
    std::vector<size_t> piv;
    int info;
};
template <class T, Layout L> Out<T, L> run(Case& c, int v, const Dense<T>& A0)
{
    size_t m = A0.m, n = A0.n, k = std::min(m, n);
    GMat<T, L> G(c, m, n);
    G.set(A0);
    size_t extra = (size_t)c.draw(3);
    std::vector<size_t> piv(k + extra, 987654);
    auto A = G.view();
    Out<T, L> o;
    o.info = lu(v, A, piv);
    G.margins(c, std::string(vn[v]) + "/A");
    for (size_t i = k; i < piv.size(); ++i) c.check(piv[i] == 987654, std::string(vn[v]) + "/piv-overrun");
    o.A = G.get();
    o.piv.assign(piv.begin(), piv.begin() + k);
    return o;
}
template <class W, class T> void verify(Case& c, const std::string& w, const Dense<T>& A0, const Dense<T>& F, const std::vector<size_t>& piv, int info, double slack, bool level0)
{
    size_t m = A0.m, n = A0.n, k = std::min(m, n);
    double e = eps<T>();
    c.check(info >= 0 && info <= (int)k, w + "/info-range", "returned ", info);
    size_t done = info == 0 ? k : (size_t)info - 1;
    for (size_t j = 0; j < done; ++j) c.check(F(j, j) != T(0), w + "/zero-pivot-missed", "U(", j, ",", j, ") is zero but info is ", info);
    if (info > 0) {
        c.label("zero pivot");
        c.check(F(done, done) == T(0), w + "/info-not-zero-pivot", "info ", info, " but U(", done, ",", done, ") = ", show(blockOf(F, done, done + 1, done, done + 1)));
        return;
    }
    Dense<W> P = widenM<W>(A0), Lf(m, k), U(k, n);
    for (size_t j = 0; j < k; ++j) {
        c.check(piv[j] >= j && piv[j] < m, w + "/pivot-range", "piv[", j, "] = ", piv[j]);
        if (piv[j] != j) for (size_t q = 0; q < n; ++q) std::swap(P(j, q), P(piv[j], q));
    }
    double bound = (cplx<T> && level0 ? std::sqrt(2.0) : 1.0) * (1 + 10 * e);
    for (size_t j = 0; j < k; ++j) for (size_t i = 0; i < m; ++i) {
        Lf(i, j) = i == j ? W(1) : i > j ? widen<W>(F(i, j)) : W(0);
        if (i > j) c.check(mag(F(i, j)) <= bound, w + "/multiplier", "|L(", i, ",", j, ")| = ", mag(F(i, j)));
    }
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k && i <= j; ++i) U(i, j) = widen<W>(F(i, j));
    Dense<W> R = sub(mul(Lf, U), P);
    double worst = 0;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
        double s = 0, r = mag(R(i, j));
        for (size_t l = 0; l < k && l <= i && l <= j; ++l) s += mag(Lf(i, l)) * mag(U(l, j));
        double q = r == 0 ? 0 : r / (s + slack);
        if (!(q <= worst)) worst = q;
    }
    c.ratio(w + "/residual", worst, (12 + 4.0 * k) * e);
}
static const char* RL = "at least a 2 by 2 matrix that is not zero";
template <class T, Layout L> void tGeneral(Case& c)
{
    using W = wide<T>;
    size_t m = dimF(c), n = c.coin() ? m : dimF(c), k = std::min(m, n);
    int v = (int)c.draw(4);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, bigScale<T>() / 2, &kind);
    c.desc(vn[v], "m", m, "n", n, kind, show(A0, 5));
    c.label(vn[v]), c.label(kind);
    c.nontrivial(m >= 2 && n >= 2 && normMax(A0) > 0);
    auto o = run<T, L>(c, v, A0);
    verify<W>(c, vn[v], A0, o.A, o.piv, o.info, (k + 1) * tinyOf<T>(), v == Driver0 || v == Level0);
}
// A = P L U with strict pivots and dyadic entries: every variant must return exactly P, L, U; singular at a chosen column
template <class T, Layout L> void tExact(Case& c)
{
    size_t m = c.chance(1, 12) ? (size_t)c.range(13, 40) : (size_t)c.size(0, 9), n = c.coin() ? m : (size_t)c.size(0, 9), k = std::min(m, n);
    using LM = std::numeric_limits<real_t<T>>;
    int sh = (int)c.range(-20, 20);
    if (c.chance(1, 4)) sh = c.coin() ? LM::min_exponent + 3 * (int)k + 8 : LM::max_exponent - 12;
    // subnormal pivots, whose reciprocal overflows
    if (m <= 9 && c.chance(1, 6)) sh = LM::min_exponent - LM::digits + 2 * (int)k + 3, c.label("subnormal pivots");
    Dense<T> Lf(m, k), U(k, n);
    // few nonzero multipliers, so that everything stays exactly representable
    for (size_t j = 0; j < k; ++j) {
        Lf(j, j) = T(1);
        for (size_t i = j + 1; i < m; ++i)
            if (c.chance(1, 2)) Lf(i, j) = scaleP2(cplx<T> && c.coin() ? mk<T>(0, c.coin() ? 1 : -1) : T(real_t<T>(c.coin() ? 1 : -1)), -(int)c.range(1, 2));
    }
    bool sing = k > 0 && c.chance(1, 2);
    size_t q = sing ? (size_t)c.range(0, (int64_t)k - 1) : k;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k && i <= j; ++i) {
        if (i == j) U(i, j) = i == q ? T(0) : scaleP2(cplx<T> && c.coin() ? mk<T>(0, 1) : T(real_t<T>(c.coin() ? 1 : -1)), (int)c.range(0, 1) + sh);
        else U(i, j) = scaleP2(smallInt<T>(c, 1), sh);
    }
    if (sing) for (size_t i = q + 1; i < m; ++i) Lf(i, q) = T(0);
    using W = std::conditional_t<cplx<T>, std::complex<long double>, long double>;
    Dense<W> Aw = mul(widenM<W>(Lf), widenM<W>(U));
    // every exact entry of the Schur complements has to fit: bounded by sum of |L||U|, lowest bit 2^(-2k)
    double lim = std::ldexp(1.0, std::numeric_limits<real_t<T>>::digits - 2);
    if (2.0 * k + std::log2(3.0 * (k + 1)) > std::log2(lim)) {
        // too deep for exactness with dense multipliers: keep only a band of multipliers of the first columns
        for (size_t j = 3; j < k; ++j) for (size_t i = j + 1; i < m; ++i) Lf(i, j) = T(0);
        Aw = mul(widenM<W>(Lf), widenM<W>(U));
    }
    // random interchanges
    std::vector<size_t> want(k);
    for (size_t j = 0; j < k; ++j) want[j] = c.coin() ? j : (size_t)c.range((int64_t)j, (int64_t)m - 1);
    for (size_t j = k; j-- > 0;)
        if (want[j] != j) for (size_t l = 0; l < n; ++l) std::swap(Aw(j, l), Aw(want[j], l));
    Dense<T> A0(m, n);
    for (size_t i = 0; i < A0.a.size(); ++i) {
        if constexpr (cplx<T>) A0.a[i] = T((real_t<T>)Aw.a[i].real(), (real_t<T>)Aw.a[i].imag());
        else A0.a[i] = T(Aw.a[i]);
    }
    c.check(sub(widenM<W>(A0), Aw).a == Dense<W>(m, n).a, "harness-inexact");
    c.desc("LU exact", "m", m, "n", n, sing ? "singular at" : "", sing ? std::to_string(q) : "", show(A0, 6));
    c.nontrivial(m >= 2 && n >= 2);
    c.label(sing ? "singular" : "regular");
    for (int v = 0; v < 4; ++v) {
        auto o = run<T, L>(c, v, A0);
        std::string w = vn[v];
        c.check(o.info == (sing ? (int)q + 1 : 0), w + "/info", "returned ", o.info, " expected ", sing ? (int)q + 1 : 0);
        if (sing) continue;
        // the permutation is unique except where a whole column below the diagonal is eliminated with zero multipliers
        for (size_t j = 0; j < k; ++j) c.check(o.piv[j] == want[j], w + "/piv", "piv[", j, "] = ", o.piv[j], " expected ", want[j]);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
            T x = i > j ? Lf(i, j) : U(i, j);
            c.check(o.A(i, j) == x, w + "/factor", "entry (", i, ",", j, ") ", show(blockOf(o.A, i, i + 1, j, j + 1)), " expected ", show(Dense<T>(1, 1, x)));
        }
    }
}
// ties: equal magnitudes everywhere
template <class T, Layout L> void tTies(Case& c)
{
    using W = wide<T>;
    size_t m = (size_t)c.size(0, 12), n = c.coin() ? m : (size_t)c.size(0, 12);
    int v = (int)c.draw(4);
    Dense<T> A0(m, n);
    bool zeros = c.coin();
    for (auto& x : A0.a) x = zeros ? T(real_t<T>((int)c.draw(3) - 1)) : cplx<T> && c.coin() ? mk<T>(0, c.coin() ? 1 : -1) : T(real_t<T>(c.coin() ? 1 : -1));
    c.desc(vn[v], "ties", "m", m, "n", n, show(A0, 7));
    c.nontrivial(m >= 2 && n >= 2);
    auto o = run<T, L>(c, v, A0);
    verify<W>(c, vn[v], A0, o.A, o.piv, o.info, 0, v == Driver0 || v == Level0);
    if (m > 0 && n > 0) {
        // the first column is still untouched when its pivot is chosen: zero exactly when info is 1
        bool z = true;
        for (size_t i = 0; i < m; ++i) z &= A0(i, 0) == T(0);
        c.check(z == (o.info == 1), std::string(vn[v]) + "/first-column", "info ", o.info);
    }
}
static pbt::Reg a1("general/float/Col", 30000, 500000, tGeneral<F, LC>, RL);
static pbt::Reg a2("general/double/Row", 30000, 500000, tGeneral<D, LR>, RL);
static pbt::Reg a3("general/cfloat/Row", 30000, 500000, tGeneral<CF, LR>, RL);
static pbt::Reg a4("general/cdouble/Col", 30000, 500000, tGeneral<CD, LC>, RL);
static pbt::Reg b1("exact/float/Row", 12000, 200000, tExact<F, LR>, RL);
static pbt::Reg b2("exact/double/Col", 12000, 200000, tExact<D, LC>, RL);
static pbt::Reg b3("exact/cfloat/Col", 12000, 200000, tExact<CF, LC>, RL);
static pbt::Reg b4("exact/cdouble/Row", 12000, 200000, tExact<CD, LR>, RL);
static pbt::Reg t1("ties/float/Col", 15000, 200000, tTies<F, LC>, RL);
static pbt::Reg t2("ties/cdouble/Row", 15000, 200000, tTies<CD, LR>, RL);
