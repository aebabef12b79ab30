// cxx: g++
// libs: -lquadmath -lmpfr -lgmp
// variant: ld
// variant: quad -DX5_QUAD -std=gnu++20 -O0
// variant: mp -DX5_MP=256 -O0
// variant: half -DX5_HALF -O0 -DX5_NOCPLX -isystem /usr/include/eigen3
// variant: bf16 -DX5_BF16 -O0 -DX5_NOCPLX -isystem /usr/include/eigen3
#include "types.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/blas/rotg.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/ungqr.hpp"
#include "tlapack/lapack/unglq.hpp"
#include "tlapack/lapack/ungql.hpp"
#include "tlapack/lapack/ungrq.hpp"
#include "tlapack/lapack/unmqr.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lassq.hpp"
#include "tlapack/lapack/lapy2.hpp"
#include "tlapack/lapack/lapy3.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/rscl.hpp"
using namespace tlapack;
using tlapack::real_type;
#if defined(X5_HALF) || defined(X5_BF16)
constexpr size_t NMAX = 10;
constexpr bool low = true;
#else
constexpr size_t NMAX = 22;
constexpr bool low = false;
#endif
template <class T> std::vector<T> tauv(size_t n) { return std::vector<T>(n, T(real_t<T>(77))); }

template <class T> void tQr(Case& c)
{
    std::string kind;
    size_t m = c.size(1, NMAX), n = c.size(1, NMAX), k = std::min(m, n);
    Dense<T> A = gen<T>(c, m, n, kind);
    int f = (int)c.draw(4);
    const char* nm_[] = {"qr", "lq", "ql", "rq"};
    std::string w = nm_[f];
    c.desc(w, m, n, kind);
    GM<T> G(c, m, n);
    G.set(A);
    auto Gv = G.view();
    auto tau = tauv<T>(k);
    // the bottom/right aligned forms need the trapezoid in place for ungql/ungrq: use the full shapes only
    if (f == 0) geqrf(Gv, tau); else if (f == 1) gelqf(Gv, tau); else if (f == 2) geqlf(Gv, tau); else gerqf(Gv, tau);
    Dense<T> F = G.get(), Rr, Q;
    if (f == 0) {
        Rr = Dense<T>(k, n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k && i <= j; ++i) Rr(i, j) = F(i, j);
        GM<T> H(c, m, k);
        H.set(blockOf(F, 0, m, 0, k));
        auto Hv = H.view();
        ungqr(Hv, tau);
        Q = H.get();
    }
    else if (f == 1) {
        Rr = Dense<T>(m, k);
        for (size_t j = 0; j < k; ++j) for (size_t i = j; i < m; ++i) Rr(i, j) = F(i, j);
        GM<T> H(c, k, n);
        H.set(blockOf(F, 0, k, 0, n));
        auto Hv = H.view();
        unglq(Hv, tau);
        Q = H.get();
    }
    else if (f == 2) {
        Rr = Dense<T>(k, n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k; ++i) if (m - k + i <= j + m - n || (n > m && j < n - m)) Rr(i, j) = F(m - k + i, j);
        if (m < n) for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k; ++i) Rr(i, j) = j < n - k + i ? F(i, j) : j == n - k + i ? F(i, j) : F(i, j);
        // L is lower trapezoidal: entry (i, j) with j <= n - k + i
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k; ++i) Rr(i, j) = j <= n - k + i ? F(m - k + i, j) : T(real_t<T>(0));
        GM<T> H(c, m, k);
        H.set(blockOf(F, 0, m, n - k, n));
        auto Hv = H.view();
        ungql(Hv, tau);
        Q = H.get();
    }
    else {
        Rr = Dense<T>(m, k);
        // R is upper trapezoidal: entry (i, j) with i <= m - k + j
        for (size_t j = 0; j < k; ++j) for (size_t i = 0; i < m; ++i) Rr(i, j) = i <= m - k + j ? F(i, n - k + j) : T(real_t<T>(0));
        GM<T> H(c, k, n);
        H.set(blockOf(F, m - k, m, 0, n));
        auto Hv = H.view();
        ungrq(Hv, tau);
        Q = H.get();
    }
    bool left = f == 0 || f == 2;
    Dense<T> D = sub(left ? mul(Q, Rr) : mul(Rr, Q), A);
    res(c, w + "-residual", D, nrm(A), std::max(m, n), 20);
    unit(c, w + "-orth", left ? Q : ct(Q), 20);
    G.margins(c, w);
    c.nontrivial(k > 1);
}
template <class T> void tLu(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t m = c.size(1, NMAX), n = c.coin() ? m : c.size(1, NMAX), k = std::min(m, n);
    Dense<T> A = gen<T>(c, m, n, kind);
    c.desc("lu", m, n, kind);
    GM<T> G(c, m, n);
    G.set(A);
    auto Gv = G.view();
    std::vector<size_t> piv(k);
    GetrfOpts o;
    o.variant = c.coin() ? GetrfVariant::Level0 : GetrfVariant::Recursive;
    int info = getrf(Gv, piv, o);
    Dense<T> F = G.get(), Lw(m, k), U(k, n), P = A;
    for (size_t j = 0; j < k; ++j) for (size_t i = j; i < m; ++i) Lw(i, j) = i == j ? T(R(1)) : F(i, j);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < k && i <= j; ++i) U(i, j) = F(i, j);
    for (size_t i = 0; i < k; ++i) if (piv[i] != i) for (size_t j = 0; j < n; ++j) std::swap(P(i, j), P(piv[i], j));
    if (info == 0) res(c, "lu-residual", sub(mul(Lw, U), P), nrm(Lw) * nrm(U), 1, 20);
    if (!low && info == 0 && m == n) {
        // solve and invert: residual against the factors
        Dense<T> B = gen<T>(c, n, c.size(1, 3), kind), X = B;
        for (size_t i = 0; i < k; ++i) if (piv[i] != i) for (size_t j = 0; j < X.n; ++j) std::swap(X(i, j), X(piv[i], j));
        GM<T> Xg(c, n, X.n);
        Xg.set(X);
        auto Xv = Xg.view();
        trsm(LEFT_SIDE, LOWER_TRIANGLE, NO_TRANS, UNIT_DIAG, R(1), Gv, Xv);
        trsm(LEFT_SIDE, UPPER_TRIANGLE, NO_TRANS, NON_UNIT_DIAG, R(1), Gv, Xv);
        X = Xg.get();
        res(c, "solve-residual", sub(mul(A, X), B), nrm(Lw) * nrm(U) * nrm(X), n, 20);
        double su = nrm(U), sm = 1e300;
        for (size_t i = 0; i < n; ++i) sm = std::min(sm, mag(U(i, i)));
        if (sm > su * std::sqrt(ULP())) {
            auto work = std::vector<T>(n * n);
            int i2 = getri(Gv, piv);
            if (i2 != 0) c.fail("getri/info", i2);
            Dense<T> I = G.get();
            res(c, "inverse-residual", sub(mul(I, A), eye<T>(n)), nrm(I) * nrm(Lw) * nrm(U), n, 20);
        }
    }
    c.nontrivial(k > 1);
}
template <class T> void tChol(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(1, NMAX);
    Uplo u = genUplo(c);
    Dense<T> B = gen<T>(c, n, n, kind), A = mul(ct(B), B);
    R sh = R((double)nrm(A) / 4 + 0.01);
    if (low) sh = R((double)nrm(A) + 0.1);
    for (size_t i = 0; i < n; ++i) A(i, i) = T(re(A(i, i)) + sh);
    c.desc("chol", n, nm(u), kind);
    GM<T> G(c, n, n), S(c, n, n);
    G.set(A);
    auto Gv = G.view();
    PotrfOpts o;
    o.variant = c.pick({PotrfVariant::Blocked, PotrfVariant::Recursive, PotrfVariant::Level2, PotrfVariant::RightLooking});
    o.nb = (size_t)c.range(1, 8);
    int info = potrf(u, Gv, o);
    if (info != 0) c.fail("chol/info", "info ", info, " on a positive definite matrix");
    Dense<T> F = triOf(u, Diag::NonUnit, G.get());
    res(c, "chol-residual", sub(u == Uplo::Lower ? mul(F, ct(F)) : mul(ct(F), F), A), nrm(A), n, 20);
    Dense<T> Y = gen<T>(c, n, 2, kind);
    S = GM<T>(c, n, 2);
    S.set(Y);
    auto Sv = S.view();
    potrs(u, Gv, Sv);
    Dense<T> X = S.get();
    res(c, "potrs-residual", sub(mul(A, X), Y), nrm(A) * nrm(X), n, 20);
    c.nontrivial(n > 1);
}
// machine constants: the defining properties, with exact powers of two
template <class R> void tConst(Case& c)
{
    using NL = std::numeric_limits<R>;
    c.nontrivial();
    const R one(1), half(0.5), two(2);
    R u = ulp<R>(), sm = safe_min<R>(), sM = safe_max<R>();
    c.desc("constants", (int)c.draw(2));
    c.check(digits<R>() == DIG, "digits", digits<R>(), " expected ", DIG);
    c.check(u == std::numeric_limits<R>::epsilon(), "ulp", "ulp is not the spacing at 1");
    if (!low) {  // Eigen's 16-bit types declare other values for epsilon and round_error
        c.check(u == pow2<R>(1 - DIG), "ulp", "ulp is not 2^(1-p)");
        c.check(R(one + u) != one && R(one + R(u * half)) == one, "ulp/spacing", "ulp is not the spacing at 1");
        c.check(uroundoff<R>() * two == u || uroundoff<R>() == u, "uroundoff", "unit roundoff");
    }
    // safe_min: the smallest normal power of two whose inverse is finite
    c.check(sm > R(0) && sm >= NL::min(), "safe_min/normal", "safe_min is not a positive normal number");
    c.check(isfinr(R(one / sm)) && R(one / sm) * sm == one, "safe_min/inverse", "inverse of safe_min is not finite and exact");
    c.check(sM * sm == one && sM == R(one / sm), "safe_max", "safe_max is not 1/safe_min");
    R h = sm * half;
    c.check(h < NL::min() || !isfinr(R(one / h)), "safe_min/smallest", "half of safe_min is normal and has a finite inverse");
    if constexpr (!std::is_class_v<R>) {  // exponent range known at compile time
        int em = NL::min_exponent, eM = NL::max_exponent, t = DIG;
        auto fl = [](int a) { return a >= 0 ? a / 2 : -((-a + 1) / 2); };  // floor(a/2)
        auto ce = [&](int a) { return -fl(-a); };
        c.check(blue_min<R>() == pow2<R>(ce(em - 1)), "blue_min", blue_min<R>());
        c.check(blue_max<R>() == pow2<R>(fl(eM - t + 1)), "blue_max", blue_max<R>());
        c.check(blue_scalingMin<R>() == pow2<R>(-fl(em - t)), "blue_scalingMin", blue_scalingMin<R>());
        c.check(blue_scalingMax<R>() == pow2<R>(-ce(eM + t - 1)), "blue_scalingMax", blue_scalingMax<R>());
    }
    // sums of squares: no harmful underflow at blue_min, no overflow at blue_max, also after scaling
    R b = blue_min<R>(), B = blue_max<R>(), s = blue_scalingMin<R>(), S = blue_scalingMax<R>();
    if (!std::is_class_v<R>) c.check(b > R(0) && R(b * b) >= NL::min(), "blue_min/square", "square of blue_min is subnormal");
    R q = B * B;
    c.check(isfinr(q) && isfinr(R(R(q * half) / pow2<R>(1 - DIG))), "blue_max/square", "blue_max squared times 1/eps overflows");
    c.check(isfinr(R(R(s * b) * R(s * b))), "blue_scalingMin/square", "scaled small values overflow");
    if constexpr (!std::is_class_v<R>) {
        R x = NL::max() * S;
        c.check(isfinr(R(x * x)) && isfinr(R(R(x * x) / u)), "blue_scalingMax/max", "scaled largest number squared overflows");
        R y = NL::denorm_min() * s;
        c.check(R(y * y) > R(0), "blue_scalingMin/denorm", "scaled smallest number squared vanishes");
    }
}
// one vector of wide dynamic range: scaling by a power of two changes norms only by that power
template <class T> void tNorm(Case& c)
{
    using R = real_t<T>;
    using NL = std::numeric_limits<R>;
    size_t n = c.size(1, NMAX);
    std::vector<T> x(n), y(n);
    for (auto& e : x) { e = c.chance(1, 6) ? T(R(0)) : fullT<T>(c); if (!low && c.chance(1, 3)) e = T(e * pow2<R>(-(int)c.draw(2 * DIG))); }
    // scale so that the largest entries are near the ends of the range
#if defined(X5_MP)
    int lo = -2000000, hi = 2000000;
#else
    int lo = NL::min_exponent - 1 + (low ? 2 : 3 * DIG + 4), hi = NL::max_exponent - 6;
#endif
    int e = (int)c.range(lo, hi);
    R s = pow2<R>(e / 2), s2 = pow2<R>(e - e / 2);
    // unit-size reference by plain summation
    R ss(0);
    for (auto& v : x) ss = ss + re(v) * re(v) + im(v) * im(v);
    using std::sqrt;
    R want = sqrt(ss);
    for (size_t i = 0; i < n; ++i) y[i] = T(T(x[i] * s) * s2);
    c.desc("norm", n, e);
    R got = nrm2(y);
    c.check(isfinr(got), "nrm2/finite", "norm is not finite");
    // subnormal products lose digits; keep away from them
    R back = R(R(got / s) / s2);
    if (want != R(0)) c.ratio("nrm2", absr(R(back - want)) / ((double)want * ULP() * (double)(n + 8)), 4);
    // lapy2, lapy3 on the same scale
    R a = full<R>(c), b = full<R>(c), d = full<R>(c);
    R h2 = R(R(lapy2(R(R(a * s) * s2), R(R(b * s) * s2)) / s) / s2), w2 = sqrt(R(a * a + b * b));
    R h3 = R(R(lapy3(R(R(a * s) * s2), R(R(b * s) * s2), R(R(d * s) * s2)) / s) / s2), w3 = sqrt(R(a * a + b * b + d * d));
    if (w2 != R(0)) c.ratio("lapy2", absr(R(h2 - w2)) / ((double)w2 * ULP()), 20);
    if (w3 != R(0)) c.ratio("lapy3", absr(R(h3 - w3)) / ((double)w3 * ULP()), 20);
    c.nontrivial(n > 1);
}
// elementary reflector and rotation in the type's precision
template <class T> void tRefl(Case& c)
{
    using R = real_t<T>;
    size_t n = c.size(1, NMAX);
    std::vector<T> x(n);
    for (auto& e : x) e = c.chance(1, 6) ? T(R(0)) : fullT<T>(c);
    std::vector<T> v(x);
    T tau = T(R(0));
    larfg(FORWARD, COLUMNWISE_STORAGE, v, tau);
    T beta = v[0];
    v[0] = T(R(1));
    c.desc("larfg", n);
    // H^H x = beta e1 with H = I - tau v v^H
    T s = T(R(0));
    double nx = 0;
    for (size_t i = 0; i < n; ++i) s = T(s + cj(v[i]) * x[i]), nx += mag(x[i]) * mag(x[i]);
    nx = std::sqrt(nx);
    double err = 0;
    for (size_t i = 0; i < n; ++i) { T r = T(x[i] - cj(tau) * s * v[i] - (i == 0 ? beta : T(R(0)))); err = std::max(err, std::max(absr(re(r)), absr(im(r)))); }
    if (nx > 0) c.ratio("larfg", err / (nx * ULP() * (double)n), 20);
    c.check(absr(im(beta)) == 0, "larfg/real", "beta is not real");
    // rotation
    T a = fullT<T>(c), b = fullT<T>(c), a0 = a, b0 = b, sn = T(R(0));
    R cs(0);
    rotg(a, b, cs, sn);
    auto m1 = [&](const T& z) { return std::max(absr(re(z)), absr(im(z))); };
    double sc = m1(a0) + m1(b0);
    if (sc > 0) c.ratio("rotg", m1(T(T(cs * a0) + sn * b0 - a)) / (sc * ULP()), 20);
    if (sc > 0) c.ratio("rotg0", m1(T(T(cs * b0) - cj(sn) * a0)) / (sc * ULP()), 20);
    c.ratio("rotg1", absr(R(cs * cs + re(sn) * re(sn) + im(sn) * im(sn) - R(1))) / ULP(), 20);
    // division of complex numbers
    if constexpr (cplx<T>) {
        T q = ladiv(a0, b0), r = T(q * b0 - a0);
        if (m1(b0) > 0) c.ratio("ladiv", m1(r) / (m1(q) * m1(b0) * ULP()), 20);
    }
    c.nontrivial(n > 1);
}
#define N_(q) (low ? q / 2 : q)
#ifdef X5_MP
#define C_(a, b) (a / 4), (b / 4)
#else
#define C_(a, b) a, b
#endif
#define R5(k, T, s) \
    static Reg k##1("qr" s, C_(1600, 100000), tQr<T>, "more than one reflector"); \
    static Reg k##2("lu" s, C_(1600, 100000), tLu<T>, "more than one column"); \
    static Reg k##3("chol" s, C_(1600, 100000), tChol<T>, "n > 1"); \
    static Reg k##4("norm" s, C_(4000, 200000), tNorm<T>, "n > 1"); \
    static Reg k##5("refl" s, C_(4000, 200000), tRefl<T>, "n > 1");
static Reg r0("constants", 2, 2, tConst<Rl>, "every case");
R5(r, Rl, "/real")
#if !defined(X5_NOCPLX)
R5(z, std::complex<Rl>, "/complex")
#endif
