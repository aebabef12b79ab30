// X05: BLAS, norms, triangular routines and 2-by-2 kernels in the precision of the scalar type
// cxx: g++
// libs: -lquadmath -lmpfr -lgmp
// variant: ld -O1
// variant: quad -DX5_QUAD -std=gnu++20 -O0
// variant: mp -DX5_MP=256 -O0
// variant: half -DX5_HALF -O0 -DX5_NOCPLX -isystem /usr/include/eigen3
// variant: bf16 -DX5_BF16 -O0 -DX5_NOCPLX -isystem /usr/include/eigen3
#include "types.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/syrk.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/trsv.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/laev2.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/lasy2.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/pttrf.hpp"
#include "tlapack/lapack/singularvalues22.hpp"
#include "tlapack/lapack/svd22.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#if !defined(X5_HALF) && !defined(X5_BF16)
    #include "tlapack/lapack/laed4.hpp"
    #include "tlapack/lapack/lahqr_schur22.hpp"
constexpr bool low = false;
constexpr size_t NM = 16;
#else
constexpr bool low = true;
constexpr size_t NM = 8;
#endif
using namespace tlapack;
using tlapack::real_type;

template <class T> double m1(const T& z) { return std::max(absr(re(z)), absr(im(z))); }
template <class T> Dense<T> tr(const Dense<T>& A) { Dense<T> B(A.n, A.m); for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) B(j, i) = A(i, j); return B; }
template <class T> Dense<T> opOf(Op o, const Dense<T>& A) { return o == Op::NoTrans ? A : o == Op::Trans ? tr(A) : ct(A); }
template <class T> Dense<T> herm_(const Dense<T>& A, Uplo u, bool h)
{
    Dense<T> H(A.n, A.n);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.n; ++i) {
        bool in = u == Uplo::Upper ? i <= j : i >= j;
        H(i, j) = in ? A(i, j) : h ? T(cj(A(j, i))) : A(j, i);
        if (h && i == j) H(i, j) = T(re(A(i, j)));
    }
    return H;
}
template <class T> void tBlas(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t m = c.size(1, NM), n = c.size(1, NM), k = c.size(1, NM);
    Op ta = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}), tb = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans});
    Uplo u = genUplo(c);
    Side sd = c.coin() ? Side::Left : Side::Right;
    Diag dg = c.coin() ? Diag::Unit : Diag::NonUnit;
    T al = fullT<T>(c), be = fullT<T>(c);
    int op = (int)c.draw(16);
    const char* nm_[] = {"gemm", "gemv", "ger", "hemm", "symm", "hemv", "herk", "syrk", "her2k", "her2", "trmm", "trmv", "trsm", "trsv", "dot", "rot"};
    std::string w = nm_[op];
    c.desc(w, m, n, k, nm(ta), nm(tb), nm(u), nm(sd), nm(dg));
    c.label(w);
    c.nontrivial(std::max(m, n) > 1);
    auto M = [&](const Dense<T>& A) { GM<T> G(c, A.m, A.n); G.set(A); return G; };
    Dense<T> C0 = gen<T>(c, m, n, kind), want, got;
    double sc = 0;
    size_t len = 1;
    auto plus = [&](const Dense<T>& P, const Dense<T>& C) { Dense<T> W(C.m, C.n); for (size_t q = 0; q < W.a.size(); ++q) W.a[q] = T(T(al * P.a[q]) + T(be * C.a[q])); return W; };
    if (op == 0) {
        Dense<T> A = ta == Op::NoTrans ? gen<T>(c, m, k, kind) : gen<T>(c, k, m, kind), B = tb == Op::NoTrans ? gen<T>(c, k, n, kind) : gen<T>(c, n, k, kind);
        auto a = M(A), b = M(B), d = M(C0);
        auto av = a.view(), bv = b.view(), dv = d.view();
        gemm(ta, tb, al, av, bv, be, dv);
        got = d.get(), want = plus(mul(opOf(ta, A), opOf(tb, B)), C0), sc = nrm(A) * nrm(B) + nrm(C0), len = k;
    }
    else if (op == 1 || op == 5) {
        Dense<T> A = op == 1 ? (ta == Op::NoTrans ? gen<T>(c, m, k, kind) : gen<T>(c, k, m, kind)) : gen<T>(c, m, m, kind);
        Dense<T> X = gen<T>(c, op == 1 ? k : m, 1, kind), Y = gen<T>(c, m, 1, kind);
        auto a = M(A);
        auto av = a.view();
        std::vector<T> x = X.a, y = Y.a;
        if (op == 1) gemv(ta, al, av, x, be, y);
        else hemv(u, al, av, x, be, y);
        got = Dense<T>(m, 1), got.a = y;
        want = plus(mul(op == 1 ? opOf(ta, A) : herm_(A, u, true), X), Y), sc = nrm(A) * 2 * nrm(X) + nrm(Y), len = X.m;
    }
    else if (op == 2 || op == 9) {
        if (op == 9) n = m, C0 = herm_(gen<T>(c, m, m, kind), u, true);
        Dense<T> X = gen<T>(c, m, 1, kind), Y = gen<T>(c, n, 1, kind);
        auto a = M(C0);
        auto av = a.view();
        if (op == 2) ger(al, X.a, Y.a, av);
        else her2(u, al, X.a, Y.a, av);
        be = T(R(1));
        got = a.get();
        want = plus(mul(X, ct(Y)), C0);
        if (op == 9) { Dense<T> P = mul(Y, ct(X)); for (size_t q = 0; q < P.a.size(); ++q) want.a[q] = T(want.a[q] + T(cj(al)) * P.a[q]); got = herm_(got, u, true); }
        sc = 2 * nrm(X) * nrm(Y) + nrm(C0), len = 2;
    }
    else if (op == 3 || op == 4) {
        size_t s = sd == Side::Left ? m : n;
        Dense<T> A = gen<T>(c, s, s, kind), B = gen<T>(c, m, n, kind), H = herm_(A, u, op == 3);
        auto a = M(A), b = M(B), d = M(C0);
        auto av = a.view(), bv = b.view(), dv = d.view();
        if (op == 3) hemm(sd, u, al, av, bv, be, dv);
        else symm(sd, u, al, av, bv, be, dv);
        got = d.get(), want = plus(sd == Side::Left ? mul(H, B) : mul(B, H), C0), sc = 2 * nrm(A) * nrm(B) + nrm(C0), len = s;
    }
    else if (op <= 8) {
        if (low && op == 8) throw Discard();  // her2k does not compile for the 16-bit types
        bool h = op != 7;
        Op o = c.coin() ? Op::NoTrans : h ? Op::ConjTrans : Op::Trans;
        Dense<T> A = o == Op::NoTrans ? gen<T>(c, m, k, kind) : gen<T>(c, k, m, kind), B = o == Op::NoTrans ? gen<T>(c, m, k, kind) : gen<T>(c, k, m, kind);
        C0 = herm_(gen<T>(c, m, m, kind), u, h);
        auto a = M(A), b = M(B), d = M(C0);
        auto av = a.view(), bv = b.view(), dv = d.view();
        Dense<T> X = opOf(o, A), Y = opOf(o, B);
        if (op == 6) { al = T(re(al)), be = T(re(be)); herk(u, o, re(al), av, re(be), dv); want = plus(mul(X, ct(X)), C0); }
        else if (op == 7) { syrk(u, o, al, av, be, dv); want = plus(mul(X, tr(X)), C0); }
        else {
            be = T(re(be));
            if constexpr (!low) her2k(u, o, al, av, bv, re(be), dv);
            want = plus(mul(X, ct(Y)), C0);
            Dense<T> P = mul(Y, ct(X));
            for (size_t q = 0; q < P.a.size(); ++q) want.a[q] = T(want.a[q] + T(cj(al)) * P.a[q]);
        }
        got = herm_(d.get(), u, h), sc = 2 * nrm(A) * std::max(nrm(A), nrm(B)) + nrm(C0), len = 2 * k;
    }
    else if (op <= 13) {
        bool vec = op == 11 || op == 13, solve = op >= 12;
        if (vec) n = 1, sd = Side::Left, al = T(R(1));
        size_t s = sd == Side::Left ? m : n;
        Dense<T> A = gen<T>(c, s, s, kind), B = gen<T>(c, m, n, kind), F = triOf(u, dg, A);
        if (solve) {
            // well conditioned
            for (size_t i = 0; i < s; ++i) { A(i, i) = T(R(1)); for (size_t j = 0; j < s; ++j) if (i != j) A(i, j) = T(A(i, j) * R(0.25)); }
            F = triOf(u, dg, A);
        }
        auto a = M(A), b = M(B);
        auto av = a.view(), bv = b.view();
        std::vector<T> x = B.a;
        if (op == 10) trmm(sd, u, ta, dg, al, av, bv);
        else if (op == 11) trmv(u, ta, dg, av, x);
        else if (op == 12) trsm(sd, u, ta, dg, al, av, bv);
        else trsv(u, ta, dg, av, x);
        got = b.get();
        if (vec) got.a = x;
        be = T(R(0));
        Dense<T> Fo = opOf(ta, F);
        if (!solve) want = plus(sd == Side::Left ? mul(Fo, B) : mul(B, Fo), B), sc = nrm(F) * nrm(B);
        else {
            Dense<T> P = sd == Side::Left ? mul(Fo, got) : mul(got, Fo);
            sc = nrm(F) * nrm(got) + nrm(B);
            want = B;
            for (auto& z : want.a) z = T(al * z);
            got = P;
        }
        len = s;
    }
    else if (op == 14) {
        Dense<T> X = gen<T>(c, m, 1, kind), Y = gen<T>(c, m, 1, kind);
        want = mul(ct(X), Y), got = Dense<T>(1, 1);
        got(0, 0) = T(dot(X.a, Y.a));
        sc = nrm(X) * nrm(Y), len = m;
        R s(0);
        for (auto& z : X.a) { R p = re(z), q = im(z); s = R(s + (p < R(0) ? R(-p) : p) + (q < R(0) ? R(-q) : q)); }
        double as = absr(R(asum(X.a) - s));
        if (s > R(0)) c.ratio("asum", as / (ULP() * (double)s * (double)(2 * m)), 4);
    }
    else {
        Dense<T> X = gen<T>(c, m, 1, kind), Y = gen<T>(c, m, 1, kind);
        R cs = full<R>(c), sn = full<R>(c);
        std::vector<T> x = X.a, y = Y.a;
        rot(x, y, cs, sn);
        want = got = Dense<T>(m, 2);
        for (size_t i = 0; i < m; ++i) {
            got(i, 0) = x[i], got(i, 1) = y[i];
            want(i, 0) = T(T(cs * X.a[i]) + T(sn * Y.a[i])), want(i, 1) = T(T(cs * Y.a[i]) - T(sn * X.a[i]));
        }
        sc = nrm(X) + nrm(Y), len = 2;
    }
    double a1 = std::max(1.0, m1(al));
    res(c, w, sub(got, want), sc * a1 + nrm(want), len + 2, 8);
}
template <class T> void tNorms(Case& c)
{
    using R = real_t<T>;
    using std::sqrt;
    std::string kind;
    int f = (int)c.draw(4);
    size_t n = c.size(1, NM), m = f == 0 || f == 3 ? c.size(1, NM) : n;
    Uplo u = genUplo(c);
    Diag d = c.coin() ? Diag::Unit : Diag::NonUnit;
    Norm k = c.pick({Norm::Fro, Norm::One, Norm::Inf, Norm::Max});
    Dense<T> A = gen<T>(c, m, n, kind), W = f == 0 ? A : f == 3 ? triOf(u, d, A) : herm_(A, u, f == 1);
    GM<T> G(c, m, n);
    G.set(A);
    auto Av = G.view();
    const char* nn[] = {"lange", "lanhe", "lansy", "lantr"};
    std::string w = nn[f];
    c.desc(w, m, n, nm(u), (char)k, kind);
    c.nontrivial(m > 1 && n > 1);
    R got = f == 0 ? lange(k, Av) : f == 1 ? lanhe(k, u, Av) : f == 2 ? lansy(k, u, Av) : lantr(k, u, d, Av);
    R v(0), ss(0), mx(0);
    auto ab = [&](const T& z) -> R { R p = re(z), q = im(z); return R(sqrt(R(p * p + q * q))); };
    std::vector<R> col(n, R(0)), row(m, R(0));
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
        R a = ab(W(i, j));
        ss = R(ss + a * a), col[j] = R(col[j] + a), row[i] = R(row[i] + a);
        if (a > mx) mx = a;
    }
    if (k == Norm::Fro) v = sqrt(ss);
    else if (k == Norm::Max) v = mx;
    else for (auto& e : k == Norm::One ? col : row) if (e > v) v = e;
    if (v == R(0)) c.check(got == R(0), w + "/zero", "norm of a zero matrix");
    else c.ratio(w, absr(R(got - v)) / ((double)v * ULP() * (double)(k == Norm::Fro ? m * n + 4 : std::max(m, n) + 4)), 4);
}
template <class T> void tTri(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(1, NM);
    Uplo u = genUplo(c);
    Diag d = c.coin() ? Diag::Unit : Diag::NonUnit;
    Dense<T> A = gen<T>(c, n, n, kind);
    for (size_t i = 0; i < n; ++i) { if (!(m1(A(i, i)) >= 1)) A(i, i) = T(A(i, i) + R(re(A(i, i)) < R(0) ? -1 : 1)); for (size_t j = 0; j < n; ++j) if (i != j) A(i, j) = T(A(i, j) * R(0.25)); }
    int f = (int)c.draw(5);
    const char* nn[] = {"trtri", "lauum", "mult_llh", "ul_mult", "pttrf"};
    std::string w = nn[f];
    c.desc(w, n, nm(u), nm(d), kind);
    c.nontrivial(n > 1);
    GM<T> G(c, n, n);
    G.set(A);
    auto Av = G.view();
    Dense<T> F = triOf(u, d, A), E = triOf(u, Diag::NonUnit, A);
    if (f == 0) {
        int info = trtri_recursive(u, d, Av);
        c.check(info == 0, "trtri/info", info);
        Dense<T> X = triOf(u, d, G.get());
        res(c, w, sub(mul(F, X), eye<T>(n)), nrm(F) * nrm(X), n, 8);
    }
    else if (f == 1) {
        lauum_recursive(u, Av);
        Dense<T> P = u == Uplo::Lower ? mul(ct(E), E) : mul(E, ct(E));
        res(c, w, sub(triOf(u, Diag::NonUnit, G.get()), triOf(u, Diag::NonUnit, P)), nrm(E) * nrm(E), n, 8);
    }
    else if (f == 2) {
        Dense<T> Lw = triOf(Uplo::Lower, Diag::NonUnit, A);
        for (size_t i = 0; i < n; ++i) Lw(i, i) = T(re(Lw(i, i)));
        G.set(Lw);
        mult_llh_Opts o;
        o.nx = (size_t)c.range(1, 4);
        mult_llh(Av, o);
        res(c, w, sub(triOf(Uplo::Lower, Diag::NonUnit, G.get()), triOf(Uplo::Lower, Diag::NonUnit, mul(Lw, ct(Lw)))), nrm(Lw) * nrm(Lw), n, 8);
    }
    else if (f == 3) {
        ul_mult(Av);
        res(c, w, sub(G.get(), mul(triOf(Uplo::Upper, Diag::NonUnit, A), triOf(Uplo::Lower, Diag::Unit, A))), nrm(A) * (nrm(A) + std::sqrt((double)n)), n, 8);
    }
    else {
        std::vector<R> D(n);
        std::vector<T> Ev(n - 1);
        for (auto& x : D) x = R(full<R>(c) + R(3));
        for (auto& x : Ev) x = fullT<T>(c);
        std::vector<R> D0 = D;
        std::vector<T> E0 = Ev;
        int info = pttrf(D, Ev);
        c.check(info == 0, "pttrf/info", info);
        double worst = 0;
        for (size_t i = 0; i < n; ++i) {
            R r = R(D[i] - D0[i]);
            if (i) r = R(r + D[i - 1] * R(re(Ev[i - 1]) * re(Ev[i - 1]) + im(Ev[i - 1]) * im(Ev[i - 1])));
            worst = std::max(worst, absr(r));
            if (i + 1 < n) worst = std::max(worst, m1(T(T(Ev[i] * D[i]) - E0[i])));
        }
        c.ratio("pttrf", worst / (ULP() * 8), 4);
    }
}
// 2-by-2 kernels (real)
template <class R> void tKern(Case& c)
{
    using std::sqrt;
    auto val = [&]() -> R { R x = full<R>(c); if (low) return c.chance(1, 4) ? R(1) : R(x + (x < R(0) ? R(-0.0625) : R(0.0625)));  // (no room for grading in 16 bits)
        switch (c.draw(6)) { case 0: return R(0); case 1: return R(x * pow2<R>(-DIG / 2)); case 2: return R(1); case 3: return R(x * pow2<R>(low ? 3 : 12)); default: return x; } };
    R a = val(), b = val(), d = val();
    int f = (int)c.draw(low ? 3 : 5);
    const char* nn[] = {"svd22", "laev2", "lascl", "lasy2", "schur22"};
    c.desc(nn[f], (double)a, (double)b, (double)d);
    c.label(nn[f]);
    double sc = std::max({absr(a), absr(b), absr(d)});
    c.nontrivial(sc > 0);
    auto chk = [&](const char* w, const R& r, double s) { double v = absr(r); if (v == 0 && s == 0) return; c.ratio(w, v / (ULP() * s), 20); };
    if (f == 0) {
        R smin, smax, sl, cl, sr, cr, s1, s2;
        svd22(a, b, d, smin, smax, cl, sl, cr, sr);
        singularvalues22(a, b, d, s1, s2);
        // [cl sl; -sl cl] [a b; 0 d] [cr -sr; sr cr] = diag(smax, smin)
        R p00 = R(cl * a), p01 = R(cl * b + sl * d), p10 = R(-(sl * a)), p11 = R(cl * d - sl * b);
        chk("svd22", R(R(p00 * cr + p01 * sr) - smax), sc), chk("svd22", R(R(p11 * cr - p10 * sr) - smin), sc);
        chk("svd22-off", R(p01 * cr - p00 * sr), sc), chk("svd22-off", R(p10 * cr + p11 * sr), sc);
        chk("svd22-orth", R(cl * cl + sl * sl - R(1)), 1), chk("svd22-orth", R(cr * cr + sr * sr - R(1)), 1);
        R am = smin < R(0) ? R(-smin) : smin, aM = smax < R(0) ? R(-smax) : smax;
        chk("singularvalues22", R(s2 - aM), absr(aM)), chk("singularvalues22", R(s1 - am), std::max(absr(am), (double)std::numeric_limits<float>::min()));
        // their product is the determinant
        chk("singularvalues22-det", R(R(s1 * s2) - (a * d < R(0) ? R(-(a * d)) : R(a * d))), std::max(absr(R(a * d)), 1e-30));
    }
    else if (f == 1) {
        R s1, s2, cs, sn;
        laev2(a, b, d, s1, s2, cs, sn);
        chk("laev2", R(R(cs * a + sn * b) - R(s1 * cs)), sc), chk("laev2", R(R(cs * b + sn * d) - R(s1 * sn)), sc);
        chk("laev2-2", R(R(-(sn * a) + cs * b) + R(s2 * sn)), sc), chk("laev2-2", R(R(-(sn * b) + cs * d) - R(s2 * cs)), sc);
        chk("laev2-orth", R(cs * cs + sn * sn - R(1)), 1);
    }
    else if (f == 2) {
        if (b == R(0)) b = R(1);
        GM<R> G(c, 2, 2);
        Dense<R> A(2, 2);
        for (auto& x : A.a) x = full<R>(c);
        G.set(A);
        auto v = G.view();
        lascl(GENERAL, b, a, v);
        Dense<R> S = G.get();
        double q = absr(a) / absr(b);
        if (!low || (q < 1000 && q > 1e-3))
            for (size_t i = 0; i < 4; ++i) chk("lascl", R(R(S.a[i] * b) - R(A.a[i] * a)), absr(R(A.a[i] * a)) + (low ? 1e-4 : 0));
    }
#if !defined(X5_HALF) && !defined(X5_BF16)
    else if (f == 3) {
        size_t p = 1 + (size_t)c.draw(2), q = p;
        Dense<R> TL(p, p), TR(q, q), B(p, q), X(p, q);
        for (auto& x : TL.a) x = full<R>(c);
        for (auto& x : TR.a) x = full<R>(c);
        for (auto& x : B.a) x = full<R>(c);
        for (size_t i = 0; i < p; ++i) TL(i, i) = R(TL(i, i) + R(3));
        GM<R> l(c, p, p), r(c, q, q), b_(c, p, q), x_(c, p, q);
        l.set(TL), r.set(TR), b_.set(B), x_.set(X);
        auto lv = l.view(), rv = r.view(), bv = b_.view(), xv = x_.view();
        R scale, xn;
        Op ol = c.coin() ? Op::Trans : Op::NoTrans, orr = c.coin() ? Op::Trans : Op::NoTrans;
        int sg = c.coin() ? 1 : -1;
        lasy2(ol, orr, sg, lv, rv, bv, scale, xv, xn);
        X = x_.get();
        Dense<R> L1 = mul(opOf(ol, TL), X), R1 = mul(X, opOf(orr, TR)), D(p, q);
        for (size_t i = 0; i < D.a.size(); ++i) D.a[i] = R(L1.a[i] + (sg > 0 ? R1.a[i] : R(-R1.a[i])) - scale * B.a[i]);
        res(c, "lasy2", D, (nrm(TL) + nrm(TR)) * nrm(X) + nrm(B), 2, 20);
    }
    else {
        R e = val(), A = a, B = b, C = d, D = e, cs, sn;
        std::complex<R> w1, w2;
        lahqr_schur22(A, B, C, D, w1, w2, cs, sn);
        sc = std::max(sc, absr(e));
        // [a b; c d] [cs -sn; sn cs] = [cs -sn; sn cs] [A B; C D]
        chk("schur22", R(R(a * cs + b * sn) - R(cs * A - sn * C)), sc), chk("schur22", R(R(d * cs + e * sn) - R(sn * A + cs * C)), sc);
        chk("schur22", R(R(b * cs - a * sn) - R(cs * B - sn * D)), sc), chk("schur22", R(R(e * cs - d * sn) - R(sn * B + cs * D)), sc);
        chk("schur22-orth", R(cs * cs + sn * sn - R(1)), 1);
    }
#endif
}
#if !defined(X5_HALF) && !defined(X5_BF16)
// secular equation: each root makes 1 + rho sum z_i^2/(d_i - lambda) vanish to the accuracy of its terms
template <class R> void tSecular(Case& c)
{
    using std::sqrt;
    size_t n = c.size(2, 12);
    std::vector<R> d(n), z(n), delta(n);
    R s(0), nz(0), one(1);
    for (size_t i = 0; i < n; ++i) {
        R g = full<R>(c);
        if (g < R(0)) g = -g;
        s = R(s + g * (c.chance(1, 4) ? pow2<R>(-8) : one) + pow2<R>(-10));
        d[i] = s;
        z[i] = R(full<R>(c));
        z[i] = R(z[i] + (z[i] < R(0) ? R(-0.125) : R(0.125)));
        nz = R(nz + z[i] * z[i]);
    }
    nz = sqrt(nz);
    for (auto& x : z) x = R(x / nz);
    R rho = full<R>(c);
    if (rho < R(0)) rho = -rho;
    rho = R(rho + R(0.125));
    size_t i = (size_t)c.range(0, (int64_t)n - 1);
    c.desc("laed4", n, i, (double)rho);
    c.nontrivial(n > 2);
    R lam;
    int info = laed4(n, i, d, z, delta, rho, lam);
    c.check(info == 0, "laed4/converge", "info ", info);
    c.check(lam > d[i] && (i + 1 == n ? lam <= R(d[n - 1] + rho * R(1.0000001)) : lam < d[i + 1]), "laed4/interlace", "root ", i);
    R f = one;
    double mg = 1;
    for (size_t j = 0; j < n; ++j) {
        if (n <= 2) break;
        R t = R(rho * z[j] * z[j] / delta[j]);
        f = R(f + t), mg += absr(t);
    }
    if (n > 2) c.ratio("laed4", absr(f) / (mg * ULP() * (double)n), 40);
}
#endif
#ifdef X5_MP
#define C_(a, b) (a / 8), (b / 8)
#elif defined(X5_QUAD)
#define C_(a, b) (a / 2), (b / 2)
#else
#define C_(a, b) a, b
#endif
#define R5(k, T, s) \
    static Reg k##1("blas" s, C_(9600, 300000), tBlas<T>, "more than one row or column"); \
    static Reg k##2("norms" s, C_(4000, 200000), tNorms<T>, "more than one row and column"); \
    static Reg k##3("tri" s, C_(4000, 200000), tTri<T>, "n > 1");
R5(r, Rl, "/real")
#if !defined(X5_NOCPLX)
R5(z, std::complex<Rl>, "/complex")
#endif
static Reg k9("kernels", C_(9600, 400000), tKern<Rl>, "some entry is not zero");
#if !defined(X5_HALF) && !defined(X5_BF16)
static Reg k8("secular", C_(4000, 200000), tSecular<Rl>, "n > 2");
#endif
