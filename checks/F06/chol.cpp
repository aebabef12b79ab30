// variant: throwing
// variant: codes -DTLAPACK_NDEBUG
#include "fact.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrf_blocked_right_looking.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/pttrf.hpp"
using namespace tlapack;
#ifdef TLAPACK_NDEBUG
static const bool THROWS = false;
#else
static const bool THROWS = true;
#endif
static const char* RC = "order at least 2";
enum V { DrvB, DrvR, Drv2, DrvRL, Pf2, Prf2, Blk, RL };
static const char* vn[] = {"potrf(Blocked)", "potrf(Recursive)", "potrf(Level2)", "potrf(RightLooking)", "potf2", "potrf2", "potrf_blocked", "potrf_rl"};
template <class M> int chol(int v, Uplo u, M& A, size_t nb, bool ec)
{
    PotrfOpts o;
    o.nb = nb;
    o.ec.internal = ec;
    BlockedCholeskyOpts b;
    b.nb = nb;
    b.ec.internal = ec;
    switch (v) {
        case DrvB: o.variant = PotrfVariant::Blocked; return potrf(u, A, o);
        case DrvR: o.variant = PotrfVariant::Recursive; return potrf(u, A, o);
        case Drv2: o.variant = PotrfVariant::Level2; return potrf(u, A, o);
        case DrvRL: o.variant = PotrfVariant::RightLooking; return potrf(u, A, o);
        case Pf2: return potf2(u, A);
        case Prf2: return potrf2(u, A, b);
        case Blk: return potrf_blocked(u, A, b);
        default: return potrf_rl(u, A, b);
    }
}
// failure is reported through the return value or, with checks on, by std::runtime_error("[info] ...")
template <class Fn> int reported(Case& c, const std::string& w, bool mayThrow, Fn&& f)
{
    try { return f(); }
    catch (std::runtime_error& e) {
        c.check(mayThrow, w + "/unexpected-throw", e.what());
        int info = 0;
        c.check(sscanf(e.what(), "[%d]", &info) == 1 && info > 0, w + "/message", e.what());
        return info;
    }
}
template <class T> T narrow1(const wide<T>& x) { return mk<T>((real_t<T>)re(x), (real_t<T>)im(x)); }
template <class T> T unitP2(Case& c) { return cplx<T> && c.coin() ? mk<T>(0, c.coin() ? 1 : -1) : T(real_t<T>(c.coin() ? 1 : -1)); }
// lower triangle with power-of-two diagonal and few small entries; bandwidth kd
template <class T> Dense<T> exactL(Case& c, size_t n, size_t kd)
{
    Dense<T> A(n, n);
    int pr = (int)c.range(1, 4);
    for (size_t j = 0; j < n; ++j) for (size_t i = j; i < n && i <= j + kd; ++i) {
        if (i == j) A(i, j) = T(std::ldexp(real_t<T>(1), (int)c.range(-1, 2)));
        else if (c.chance(1, pr)) A(i, j) = smallInt<T>(c, 1);
    }
    return A;
}
// stored factor as a lower triangle
template <class W, class T> Dense<W> lowOf(Uplo u, const Dense<T>& G)
{
    size_t n = G.n;
    Dense<W> X(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = j; i < n; ++i) X(i, j) = u == Uplo::Lower ? widen<W>(G(i, j)) : cj(widen<W>(G(j, i)));
    return X;
}
// L L^H == A within tol * |L||L^H| componentwise, real positive diagonal
template <class W> double residual(const Dense<W>& Lo, const Dense<W>& A, size_t k, double slack)
{
    Dense<W> B = blockOf(Lo, 0, k, 0, k), R = sub(mul(B, ct(B)), blockOf(A, 0, k, 0, k));
    double worst = 0;
    for (size_t j = 0; j < k; ++j) for (size_t i = j; i < k; ++i) {
        double s = 0, r = mag(R(i, j));
        for (size_t l = 0; l <= j; ++l) s += mag(B(i, l)) * mag(B(j, l));
        double q = r == 0 ? 0 : r / (s + slack);
        if (!(q <= worst)) worst = q;
    }
    return worst;
}
template <class T, Layout L> struct In {
    GMat<T, L> G;
    Uplo u;
    In(Case& c, Uplo u, const Dense<T>& A0) : G(c, A0.n, A0.n), u(u)
    {
        T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
        for (size_t j = 0; j < A0.n; ++j) for (size_t i = 0; i < A0.n; ++i) G(i, j) = inTri(u, i, j) ? A0(i, j) : junk;
        G.snapshot();
    }
};
template <class T, Layout L> void tExact(Case& c)
{
    using W = wide<T>;
    Uplo u = genUplo(c);
    size_t n = c.chance(1, 10) ? (size_t)c.range(10, 40) : (size_t)c.size(0, 10), nb = genNb(c);
    bool ec = c.coin();
    int v = (int)c.draw(8);
    Dense<T> Lo = exactL<T>(c, n, n > 12 ? 4 : n);
    bool bad = n > 0 && c.chance(1, 2);
    size_t q = bad ? (size_t)c.range(0, (int64_t)n - 1) : n;
    int sh = c.chance(1, 4) ? (int)c.range(-10, 10) * 2 : 0;
    Dense<W> Aw = mul(widenM<W>(Lo), ct(widenM<W>(Lo)));
    if (normMax(Aw) * 4 * (n + 1) * 16 > 1 / eps<T>()) throw pbt::Discard();
    if (bad) Aw(q, q) -= W(real_t<W>(re(Lo(q, q)) * re(Lo(q, q)))) + W(real_t<W>((int)c.range(0, 2)));
    Dense<T> A0(n, n);
    for (size_t i = 0; i < A0.a.size(); ++i) A0.a[i] = scaleP2(narrow1<T>(Aw.a[i]), 2 * sh);
    std::string w = std::string(vn[v]) + " " + nm(u);
    c.desc(w, "n", n, "nb", nb, bad ? "not definite at" : "", bad ? std::to_string(q) : "", "ec", ec, show(A0, 6));
    c.label(w), c.label(bad ? "indefinite" : "definite");
    c.nontrivial(n >= 2);
    In<T, L> I(c, u, A0);
    auto A = I.G.view();
    int info = reported(c, w, THROWS && bad && (ec || v == Pf2), [&] { return chol(v, u, A, nb, ec); });
    c.check(info == (bad ? (int)q + 1 : 0), w + "/info", "returned ", info, " expected ", bad ? (int)q + 1 : 0);
    I.G.onlyChanged(c, w, [&](size_t i, size_t j) { return inTri(u, i, j); });
    Dense<W> got = lowOf<W>(u, I.G.get());
    for (size_t j = 0; j < q; ++j) for (size_t i = j; i < q; ++i) {
        T x = scaleP2(Lo(i, j), sh);
        c.check(same(got(i, j), widen<W>(x)), w + "/factor", "entry (", i, ",", j, ") ", show(blockOf(got, i, i + 1, j, j + 1)), " expected ", show(Dense<T>(1, 1, x)));
    }
}
// positive definite float matrices of any conditioning, or indefinite ones
template <class T> Dense<T> genHerm(Case& c, size_t n, std::string& kind, size_t kd)
{
    using W = wide<T>;
    Dense<T> A(n, n);
    int k = (int)c.draw(5);
    const char* names[] = {"random-gram", "diag-dominant", "ill-conditioned", "indefinite", "low-rank"};
    kind = names[k];
    if (k == 1) {
        for (size_t j = 0; j < n; ++j) for (size_t i = j; i < n; ++i) if (i <= j + kd) A(i, j) = i == j ? T(real_t<T>(2 * std::min<size_t>(kd, n) + 1)) : uni<T>(c);
    }
    else {
        Dense<T> M(n, n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (kd >= n ? true : (i >= j && i <= j + kd)) M(i, j) = uni<T>(c);
        size_t r = k == 4 ? (size_t)c.range(0, (int64_t)n) : n;
        for (size_t j = r; j < n; ++j) for (size_t i = 0; i < n; ++i) M(i, j) = T(0);
        if (k == 2) for (size_t j = 0; j < n; ++j) { int e = -(int)c.range(0, std::numeric_limits<real_t<T>>::digits / 3); for (size_t i = 0; i < n; ++i) M(i, j) = scaleP2(M(i, j), e); }
        Dense<W> Mw = widenM<W>(M), B = mul(Mw, ct(Mw));
        if (k == 0) for (size_t i = 0; i < n; ++i) B(i, i) += W(real_t<W>(0.25));
        if (k == 3 && n > 0) { size_t q = (size_t)c.range(0, (int64_t)n - 1); B(q, q) -= W(real_t<W>(uniR<double>(c) * 2)); }
        for (size_t j = 0; j < n; ++j) for (size_t i = j; i < n; ++i) A(i, j) = narrow1<T>(B(i, j));
    }
    std::vector<int> d(n, 0);
    if (c.chance(1, 3)) for (auto& x : d) x = (int)c.range(-12, 12);
    if (c.chance(1, 4)) { int s = (int)c.range(-bigScale<T>(), bigScale<T>()) / 2; for (auto& x : d) x += s; }
    for (size_t j = 0; j < n; ++j) for (size_t i = j; i < n; ++i) {
        A(i, j) = scaleP2(A(i, j), d[i] + d[j]);
        if (i == j) A(i, i) = T(re(A(i, i)));
        A(j, i) = cj(A(i, j));
    }
    return A;
}
// first failing minor of A if it is decided beyond rounding (n: definite, -1: too close to call).  A is scaled to unit diagonal; the leading
// block H is inverted in wide precision and perturbations of relative size tol have to leave the verdict alone
template <class W> int verdict(const Dense<W>& A, double tol)
{
    size_t n = A.n;
    using R = real_t<W>;
    std::vector<R> d(n);
    for (size_t i = 0; i < n; ++i) d[i] = std::sqrt(std::fabs(re(A(i, i))));
    Dense<W> X(n, n), Y(n, n);  // H = X X^H, Y = X^-1
    double inv2 = 0;            // ||Y||_F^2 >= ||H^-1||_2
    for (size_t j = 0; j < n; ++j) {
        if (d[j] == 0 && j == 0) return 0;
        if (d[j] == 0) return -1;
        for (size_t l = 0; l < j; ++l) {
            W t = A(j, l) / W(d[j] * d[l]);
            for (size_t q = 0; q < l; ++q) t -= X(j, q) * cj(X(l, q));
            X(j, l) = t / X(l, l);
        }
        R s = re(A(j, j)) / (d[j] * d[j]);
        for (size_t l = 0; l < j; ++l) s -= re(X(j, l)) * re(X(j, l)) + im(X(j, l)) * im(X(j, l));
        // w = H^-1 h: sensitivity of the Schur complement
        double w2 = 0;
        std::vector<W> w(j, W(0));
        for (size_t l = 0; l < j; ++l) for (size_t q = l; q < j; ++q) w[l] += cj(Y(q, l)) * cj(X(j, q));
        for (auto& x : w) w2 += mag(x) * mag(x);
        double unc = tol * (1 + w2) * 4;
        if (mag(s) <= unc) return -1;
        if (s < 0) return (int)j;
        X(j, j) = W(std::sqrt(s));
        Y(j, j) = W(1) / X(j, j);
        for (size_t l = 0; l < j; ++l) { W t = 0; for (size_t q = l; q < j; ++q) t += X(j, q) * Y(q, l); Y(j, l) = -t / X(j, j); }
        for (size_t l = 0; l <= j; ++l) inv2 += mag(Y(j, l)) * mag(Y(j, l));
        if (!(inv2 * tol * (j + 1) < 0.1)) return -1;
    }
    return (int)n;
}
template <class T, Layout L> void tFloat(Case& c)
{
    using W = wide<T>;
    Uplo u = genUplo(c);
    size_t n = dimF(c), nb = genNb(c);
    bool ec = c.coin();
    int v = (int)c.draw(8);
    std::string kind, w = std::string(vn[v]) + " " + nm(u);
    Dense<T> A0 = genHerm<T>(c, n, kind, n);
    c.desc(w, "n", n, "nb", nb, kind, show(A0, 5));
    c.label(w), c.label(kind);
    c.nontrivial(n >= 2);
    In<T, L> I(c, u, A0);
    auto A = I.G.view();
    int info = reported(c, w, THROWS, [&] { return chol(v, u, A, nb, ec); });
    I.G.onlyChanged(c, w, [&](size_t i, size_t j) { return inTri(u, i, j); });
    c.check(info >= 0 && info <= (int)n, w + "/info-range", info);
    int k = verdict(widenM<W>(A0), 16 * (n + 1.0) * eps<T>());
    c.label(k < 0 ? "too close to call" : k < (int)n ? "clearly indefinite" : "clearly definite");
    if (k >= 0) c.check(info == (k < (int)n ? k + 1 : 0), w + "/info", "returned ", info, " expected ", k < (int)n ? k + 1 : 0);
    size_t done = info ? (size_t)info - 1 : n;
    Dense<W> Lo = lowOf<W>(u, I.G.get());
    for (size_t j = 0; j < done; ++j) c.check(re(Lo(j, j)) > 0 && im(Lo(j, j)) == 0, w + "/diagonal", "L(", j, ",", j, ") = ", show(blockOf(Lo, j, j + 1, j, j + 1)));
    c.ratio(w + "/residual", residual(Lo, widenM<W>(A0), done, tinyOf<T>()), (12 + 4.0 * n) * eps<T>());
    // solves with the factor
    if (!info) {
        size_t nrhs = (size_t)c.size(0, 5);
        Dense<T> B0(n, nrhs);
        for (auto& x : B0.a) x = uni<T>(c);
        GMat<T, Layout::ColMajor> GB(c, n, nrhs);
        GB.set(B0);
        I.G.snapshot();
        auto B = GB.view();
        const auto Ac = I.G.cview();
        int r = potrs(u, Ac, B);
        c.check(r == 0, "potrs/info", r);
        GB.margins(c, "potrs/B");
        I.G.unchanged(c, "potrs/A");
        Dense<W> X = GB.template getW<W>();
        if (!allFinite(X) || normMax(X) > 1e30 || (normMax(X) > 0 && normMax(X) < 1e-20)) return;
        Dense<double> aL(n, n), aX(n, nrhs);
        for (size_t i = 0; i < aL.a.size(); ++i) aL.a[i] = mag(Lo.a[i]);
        for (size_t i = 0; i < aX.a.size(); ++i) aX.a[i] = mag(X.a[i]);
        Dense<double> S = mul(aL, mul(ct(aL), aX));
        Dense<W> R = sub(mul(Lo, mul(ct(Lo), X)), widenM<W>(B0));
        double worst = 0;
        for (size_t i = 0; i < R.a.size(); ++i) { double q = R.a[i] == W(0) ? 0 : mag(R.a[i]) / (S.a[i] + 1e6 * tinyOf<T>()); if (!(q <= worst)) worst = q; }
        c.ratio(std::string("potrs ") + nm(u) + "/residual", worst, (16 + 6.0 * n) * eps<T>());
    }
}
template <class T, Layout L, Layout LB> void tPotrs(Case& c)
{
    Uplo u = genUplo(c);
    size_t n = (size_t)c.size(0, 12), nrhs = (size_t)c.size(0, 8);
    Dense<T> Lo = exactL<T>(c, n, n), X = intMat<T>(c, n, nrhs, 3);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) if (c.coin()) Lo(i, j) = T(0);
    std::string w = std::string("potrs ") + nm(u);
    c.desc(w, "n", n, "nrhs", nrhs, show(Lo, 6), show(X, 6));
    c.label(w);
    c.nontrivial(n >= 2 && nrhs >= 1);
    GMat<T, L> G(c, n, n);
    GMat<T, LB> GB(c, n, nrhs);
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(99));
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = !inTri(u, i, j) ? junk : u == Uplo::Lower ? Lo(i, j) : cj(Lo(j, i));
    G.snapshot();
    GB.set(mul(Lo, mul(ct(Lo), X)));
    auto B = GB.view();
    const auto A = G.cview();
    int r = potrs(u, A, B);
    c.check(r == 0, w + "/info", r);
    G.unchanged(c, w);
    GB.margins(c, w + "/B");
    expectEqual(c, w, GB.get(), X);
}
template <class T, Layout L> void tBand(Case& c)
{
    using W = wide<T>;
    Uplo u = genUplo(c);
    bool exact = c.coin();
    size_t n = c.chance(1, 8) ? (size_t)c.range(20, 60) : (size_t)c.size(1, 20), kd = (size_t)c.size(0, (int64_t)n - 1);
    BlockedBandedCholeskyOpts o;
    if (!c.chance(1, 6)) o.nb = genNb(c);
    std::string w = std::string("pbtrf ") + nm(u), kind = "exact";
    Dense<T> A0(n, n), Lo;
    if (exact) {
        Lo = exactL<T>(c, n, std::min<size_t>(kd, 5));
        Dense<W> Aw = mul(widenM<W>(Lo), ct(widenM<W>(Lo)));
        for (size_t i = 0; i < A0.a.size(); ++i) A0.a[i] = narrow1<T>(Aw.a[i]);
    }
    else A0 = genHerm<T>(c, n, kind, kd);
    c.desc(w, "n", n, "kd", kd, "nb", o.nb, kind, show(A0, 8));
    c.label(w), c.label(kind);
    c.nontrivial(n >= 2 && kd >= 1);
    In<T, L> I(c, u, A0);
    auto A = I.G.view();
    int k = verdict(widenM<W>(A0), 16 * (n + 1.0) * eps<T>());
    bool threw = false;
    try { pbtrf_with_workspace(u, A, kd, o); }
    catch (std::runtime_error&) { threw = true; }
    auto inBand = [&](size_t i, size_t j) { return inTri(u, i, j) && (i > j ? i - j : j - i) <= kd; };
    I.G.onlyChanged(c, w, inBand);
    if (threw) { c.label("not definite"); c.check(THROWS && k < (int)n, w + "/threw", "definite matrix rejected"); return; }
    c.check(!THROWS || k < 0 || k == (int)n, w + "/accepted", "no exception, but the leading minor of order ", k + 1, " is not positive");
    if (k < (int)n) { c.label("nearly singular or indefinite"); return; }
    Dense<W> got = lowOf<W>(u, I.G.get());
    for (size_t j = 0; j < n; ++j) c.check(re(got(j, j)) > 0 && im(got(j, j)) == 0, w + "/diagonal", j);
    if (exact) expectEqual(c, w, got, widenM<W>(Lo));
    else c.ratio(w + "/residual", residual(got, widenM<W>(A0), n, tinyOf<T>()), (12 + 4.0 * (kd + 1)) * eps<T>());
}
// D may be real with complex E
template <class TD, class TE, Direction DD> void tPt(Case& c)
{
    using R = real_t<TE>;
    using W = wide<TE>;
    bool exact = c.coin(), ec = c.coin();
    size_t n = c.chance(1, 10) ? (size_t)c.range(12, 60) : (size_t)c.size(1, 12);
    bool bad = exact && c.chance(1, 2);
    size_t q = bad ? (size_t)c.range(0, (int64_t)n - 1) : n;
    std::vector<R> d(n);
    std::vector<TE> l(n - 1);
    for (auto& x : d) x = exact ? std::ldexp(R(1), (int)c.range(-3, 3)) : R(0.001) + std::fabs(uniR<R>(c));
    for (auto& x : l) x = exact ? scaleP2(smallInt<TE>(c, 2), -1) : uni<TE>(c) * R(2);
    if (bad) d[q] = c.coin() ? R(0) : -d[q];
    // a = L D L^H, computed in working precision: then only the residual is compared
    GVec<TD, DD> D(c, n);
    GVec<TE> E(c, n - 1);
    std::vector<R> a(n);
    std::vector<TE> e(n - 1);
    for (size_t i = 0; i < n; ++i) {
        a[i] = d[i];
        if (i) a[i] += d[i - 1] * (re(l[i - 1]) * re(l[i - 1]) + im(l[i - 1]) * im(l[i - 1]));
        if (i + 1 < n) e[i] = l[i] * d[i];
    }
    int sh = c.chance(1, 3) ? (int)c.range(-20, 20) : 0;
    for (auto& x : a) x = std::ldexp(x, sh);
    for (auto& x : e) x = scaleP2(x, sh);
    for (auto& x : d) x = std::ldexp(x, sh);
    for (size_t i = 0; i < n; ++i) D[i] = TD(a[i]);
    for (size_t i = 0; i + 1 < n; ++i) E[i] = e[i];
    c.desc("pttrf", "n", n, exact ? "exact" : "float", bad ? "not definite at" : "", q, "D", show(colVec(a), 10), "E", show(colVec(e), 10));
    c.label(exact ? "exact" : "float"), c.label(bad ? "indefinite" : "definite");
    c.nontrivial(n >= 2);
    auto Dv = D.view();
    auto Ev = E.view();
    EcOpts o;
    o.ec.internal = ec;
    int info = reported(c, "pttrf", THROWS && ec && (bad || !exact), [&] { return pttrf(Dv, Ev, o); });
    D.margins(c, "pttrf/D"), E.margins(c, "pttrf/E");
    if (exact || bad) c.check(info == (bad ? (int)q + 1 : 0), "pttrf/info", "returned ", info, " expected ", bad ? (int)q + 1 : 0);
    size_t done = info ? (size_t)info - 1 : n;
    c.check(done <= n, "pttrf/info-range", info);
    double worst = 0;
    for (size_t i = 0; i < done; ++i) {
        c.check(re(D[i]) > 0 && im(D[i]) == 0, "pttrf/D-sign", i);
        if (exact) {
            c.check(re(D[i]) == d[i], "pttrf/D", i, " got ", re(D[i]), " want ", d[i]);
            if (i + 1 < done) c.check(E[i] == l[i], "pttrf/L", i);
            continue;
        }
        W x = W(real_t<W>(re(D[i]))), s = x;
        if (i) { W y = widen<W>(E[i - 1]) * W(real_t<W>(re(D[i - 1]))) * cj(widen<W>(E[i - 1])); s += y; }
        worst = std::max(worst, mag(s - W(real_t<W>(a[i]))) / mag(a[i]));
        if (i + 1 < n) { W y = widen<W>(E[i]) * x; worst = std::max(worst, mag(y - widen<W>(e[i])) / (mag(e[i]) + (double)std::numeric_limits<R>::min())); }
    }
    c.ratio("pttrf/residual", worst, 24 * eps<TE>());
    if (info && !exact) c.check(re(D[done]) <= 0, "pttrf/info-not-negative", "info ", info, " but pivot is ", re(D[done]));
}
static pbt::Reg a1("exact/float/Row", 12000, 200000, tExact<F, LR>, RC);
static pbt::Reg a2("exact/double/Col", 12000, 200000, tExact<D, LC>, RC);
static pbt::Reg a3("exact/cfloat/Col", 12000, 200000, tExact<CF, LC>, RC);
static pbt::Reg a4("exact/cdouble/Row", 12000, 200000, tExact<CD, LR>, RC);
static pbt::Reg b1("float/float/Col", 15000, 200000, tFloat<F, LC>, RC);
static pbt::Reg b2("float/double/Row", 15000, 200000, tFloat<D, LR>, RC);
static pbt::Reg b3("float/cfloat/Row", 15000, 200000, tFloat<CF, LR>, RC);
static pbt::Reg b4("float/cdouble/Col", 15000, 200000, tFloat<CD, LC>, RC);
static pbt::Reg s1("potrs/double/Row", 10000, 150000, tPotrs<D, LR, LC>, RC);
static pbt::Reg s2("potrs/cfloat/Col", 10000, 150000, tPotrs<CF, LC, LR>, RC);
static pbt::Reg p1("pbtrf/double/Col", 12000, 150000, tBand<D, LC>, RC);
static pbt::Reg p2("pbtrf/cfloat/Row", 12000, 150000, tBand<CF, LR>, RC);
static pbt::Reg p3("pbtrf/cdouble/Col", 12000, 150000, tBand<CD, LC>, RC);
static pbt::Reg t1("pttrf/double", 15000, 200000, tPt<D, D, Direction::Forward>, RC);
static pbt::Reg t2("pttrf/cfloat", 15000, 200000, tPt<CF, CF, Direction::Backward>, RC);
static pbt::Reg t3("pttrf/double-cdouble", 15000, 200000, tPt<D, CD, Direction::Forward>, RC);
