// libs: -lquadmath
#include "fact.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "range.hpp"
#include "tlapack/lapack/singularvalues22.hpp"
#include "tlapack/lapack/svd22.hpp"
#include "tlapack/lapack/svd_qr.hpp"
using namespace tlapack;
// --- 2-by-2 kernels against quadruple precision
template <class R> void tSvd22(Case& c)
{
    Spread s1 = genSpread<R>(c), s2 = c.coin() ? s1 : genSpread<R>(c), s3 = c.coin() ? s1 : genSpread<R>(c);
    R f = genR<R>(c, s1), g = genR<R>(c, s2), h = genR<R>(c, s3);
    if (c.chance(1, 8)) h = c.coin() ? f : -f;
    if (c.chance(1, 8)) g = c.coin() ? f : h;
    c.desc("f", f, "g", g, "h", h);
    Q fa = qabs(f), ga = qabs(g), ha = qabs(h), s = sqrtq((fa + ha) * (fa + ha) + ga * ga), r = sqrtq((fa - ha) * (fa - ha) + ga * ga);
    Q mx = (s + r) / 2, mn = mx == 0 ? 0 : fa * ha / mx;
    if (mx > MAXQ<R>() / 4) throw pbt::Discard();
    c.nontrivial(f != 0 && g != 0 && h != 0);
    if (mn != 0 && mx > mn / EPS<R>()) c.label("values differ by more than 1/eps");
    R a = 77, b = 77;
    tlapack::singularvalues22(f, g, h, a, b);
    near(c, "singularvalues22-max", b, mx, 12, 4);
    near(c, "singularvalues22-min", a, mn, 16, 8);
    R cl = 7, sl = 7, cr = 7, sr = 7;
    tlapack::svd22(f, g, h, a, b, cl, sl, cr, sr);
    near(c, "svd22-max", std::fabs(b), mx, 16, 4);
    near(c, "svd22-min", std::fabs(a), mn, 20, 8);
    Q e = EPS<R>();
    c.ratio("svd22-left-unit", (double)(qabs((Q)cl * cl + (Q)sl * sl - 1) / e), 20);
    c.ratio("svd22-right-unit", (double)(qabs((Q)cr * cr + (Q)sr * sr - 1) / e), 20);
    if (mx == 0) return;
    // [cl sl; -sl cl] [f g; 0 h] [cr -sr; sr cr]
    Q x1 = (Q)cl * f, y1 = (Q)cl * g + (Q)sl * h, x2 = -(Q)sl * f, y2 = -(Q)sl * g + (Q)cl * h;
    Q p = x1 * cr + y1 * sr - b, q = -x1 * sr + y1 * cr, u = x2 * cr + y2 * sr, v = -x2 * sr + y2 * cr - a;
    Q w = std::max(std::max(qabs(p), qabs(q)), std::max(qabs(u), qabs(v)));
    c.ratio("svd22-decomposition", (double)(w / (e * mx + DEN<R>())), 40);
}
// --- bidiagonal QR iteration
template <class R> void genBidiag(Case& c, std::vector<R>& d, std::vector<R>& e, std::string& kind)
{
    size_t n = d.size();
    const char* names[] = {"uniform", "zero diagonals", "zero off-diagonals", "graded up", "graded down", "ones", "clustered", "small integers", "random exponents", "nearly singular"};
    int k = (int)c.draw(10);
    kind = names[k];
    int dg = std::numeric_limits<R>::digits;
    int g = (int)c.range(1, 6), me = std::min(sizeof(R) == 4 ? 60 : 400, 4 * dg);
    for (size_t i = 0; i < n; ++i) {
        d[i] = uniR<R>(c), e[i] = uniR<R>(c);
        switch (k) {
            case 1: if (c.chance(1, 4)) d[i] = 0; break;
            case 2: if (c.chance(1, 3)) e[i] = 0; break;
            case 3: case 4: {
                int x = std::max(-me, -(int)(k == 3 ? n - 1 - i : i) * g);
                d[i] = std::ldexp(d[i], x), e[i] = std::ldexp(e[i], x);
                break;
            }
            case 5: d[i] = 1, e[i] = 1; break;
            case 6: d[i] = 1 + std::ldexp(d[i], -dg + (int)c.range(0, 10)), e[i] = std::ldexp(e[i], -dg + (int)c.range(0, 12)); break;
            case 7: d[i] = R((int)c.range(-2, 2)), e[i] = R((int)c.range(-2, 2)); break;
            case 8: d[i] = std::ldexp(d[i], (int)c.range(-dg, dg)), e[i] = std::ldexp(e[i], (int)c.range(-dg, dg)); break;
            case 9: d[i] = std::ldexp(d[i], -(int)c.range(0, 4)), e[i] = 1 + std::fabs(e[i]); break;
        }
    }
    if (c.chance(1, 5)) {
        int s = (int)c.range(sizeof(R) == 4 ? -40 : -500, sizeof(R) == 4 ? 40 : 500);
        for (auto& x : d) x = std::ldexp(x, s);
        for (auto& x : e) x = std::ldexp(x, s);
        kind += " scaled";
    }
}
// number of singular values below x > 0 (Sturm count on the Golub-Kahan form, componentwise accurate)
template <class W, class R> size_t below(const std::vector<R>& d, const std::vector<R>& e, W x)
{
    size_t n = d.size(), neg = 0;
    W q = -x;
    if (q < 0) ++neg;
    for (size_t k = 1; k < 2 * n; ++k) {
        W b = (k % 2) ? (W)d[k / 2] : (W)e[k / 2 - 1];
        if (q == 0) q = std::numeric_limits<W>::min();
        q = -x - (b / q) * b;
        if (q < 0) ++neg;
    }
    return neg - n;
}
template <class T, Layout L> void tSvdQr(Case& c)
{
    using W = wide<T>;
    using R = real_t<T>;
    using WR = real_t<W>;
    size_t n = c.chance(1, 60) ? (size_t)c.range(40, 80) : c.chance(1, 6) ? (size_t)c.range(13, 40) : (size_t)c.size(0, 12);
    std::vector<R> d(n), e(n);
    std::string kind;
    genBidiag(c, d, e, kind);
    Uplo u = c.pick({Uplo::Upper, Uplo::Lower});
    bool wu = c.chance(3, 4), wv = c.chance(3, 4);
    size_t nu = c.coin() ? n : n + (size_t)c.range(0, 3), nv = c.coin() ? n : n + (size_t)c.range(0, 3);
    std::string w = std::string("svd_qr ") + nm(u) + (wu ? " U" : "") + (wv ? " V" : "");
    c.desc(w, "n", n, kind, "nu", nu, "nv", nv, "d", show(colVec(d)), "e", show(colVec(e)));
    c.label(w), c.label(kind);
    c.nontrivial(n >= 3);
    // nonsquare factors with orthonormal columns (rows): identity padded with zero rows (columns), permuted
    auto make = [&](size_t m, size_t k) {
        Dense<T> X(m, k);
        std::vector<size_t> p(m);
        for (size_t i = 0; i < m; ++i) p[i] = i;
        for (size_t i = 0; i + 1 < m; ++i) std::swap(p[i], p[i + c.draw(m - i)]);
        for (size_t i = 0; i < k; ++i) X(p[i], i) = T(R(c.coin() ? 1 : -1));
        return X;
    };
    Dense<T> U0 = make(nu, n), V0 = ct(make(nv, n));
    GMat<T, L> Um(c, nu, n), Vm(c, n, nv);
    Um.set(U0), Vm.set(V0);
    Um.snapshot(), Vm.snapshot();
    GVec<R> D(c, n), E(c, n > 0 ? n - 1 + (size_t)c.draw(2) : 0);
    D.set(d);
    for (size_t i = 0; i < E.n; ++i) E[i] = i + 1 < n ? e[i] : nanT<R>();
    {
        auto Dv = D.view(), Ev = E.view();
        auto Uv = Um.view(), Vv = Vm.view();
        int info = svd_qr(u, wu, wv, Dv, Ev, Uv, Vv);
        c.check(info == 0, w + "/info", "returned ", info);
    }
    D.margins(c, w + "/d"), E.margins(c, w + "/e");
    if (wu) Um.margins(c, w + "/U");
    else Um.unchanged(c, w + "/U");
    if (wv) Vm.margins(c, w + "/Vt");
    else Vm.unchanged(c, w + "/Vt");
    std::vector<R> s = D.get();
    for (size_t i = 0; i < n; ++i) {
        c.check(s[i] >= 0 && isfin(s[i]), w + "/nonnegative", "s[", i, "]=", s[i]);
        c.check(i == 0 || s[i - 1] >= s[i], w + "/order", "at ", i);
    }
    double ep = eps<T>();
    R big = 0;
    for (size_t i = 0; i < n; ++i) big = std::max(big, std::max(std::fabs(d[i]), i + 1 < n ? std::fabs(e[i]) : R(0)));
    double tiny = (double)std::numeric_limits<R>::min() * (4.0 * n + 60.0 * n * n);  // deflation threshold n*safe_min per step, and 30 n steps
    tiny *= std::max(1.0, (double)big);  // the rotations' cosines and sines underflow at safe_min
    // every singular value to high relative accuracy
    WR delta = (WR)((400 + 40.0 * n) * ep), at = (WR)tiny;
    for (size_t i = 0; i < n; ++i) {
        WR lo = (WR)s[i] * (1 - delta) - at, hi = (WR)s[i] * (1 + delta) + at;
        size_t nl = lo > 0 ? below(d, e, lo) : 0, nh = below(d, e, hi);
        c.check(nl <= n - 1 - i && nh >= n - i, w + "/value", "s[", i, "]=", (double)s[i], " but ", nl, " below (1-delta)s and ", nh, " below (1+delta)s of ", n);
    }
    double tol = (300 + 20.0 * n) * ep;
    if (wu) c.ratio(w + "/U-orthogonal", orthErr(Um.template getW<W>()), tol);
    if (wv) c.ratio(w + "/V-orthogonal", orthErrRows(Vm.template getW<W>()), tol);
    if (wu && wv) {
        // U0 B V0 = U S V
        Dense<W> B(n, n), S(n, n);
        for (size_t i = 0; i < n; ++i) {
            B(i, i) = W((WR)d[i]), S(i, i) = W((WR)s[i]);
            if (i + 1 < n) (u == Uplo::Upper ? B(i, i + 1) : B(i + 1, i)) = W((WR)e[i]);
        }
        Dense<W> X = mul(mul(widenM<W>(U0), B), widenM<W>(V0)), Y = mul(mul(Um.template getW<W>(), S), Vm.template getW<W>());
        c.ratio(w + "/residual", normF(sub(X, Y)), tol * normF(B) + tiny);
    }
    if (!wu || !wv) {
        // values do not depend on the vectors requested
        GMat<T, L> U2(c, n, n), V2(c, n, n);
        GVec<R> D2(c, n), E2(c, n);
        for (size_t i = 0; i < n; ++i) D2[i] = d[i], E2[i] = i + 1 < n ? e[i] : R(0), U2(i, i) = V2(i, i) = T(1);
        auto Dv = D2.view(), Ev = E2.view();
        auto Uv = U2.view(), Vv = V2.view();
        c.check(svd_qr(u, true, true, Dv, Ev, Uv, Vv) == 0, w + "/info2");
        for (size_t i = 0; i < n; ++i) c.check(std::fabs((WR)s[i] - (WR)D2[i]) <= 2 * (delta * s[i] + at), w + "/depends-on-vectors", "s[", i, "] ", (double)s[i], " and ", (double)D2[i]);
    }
}
// --- driver
template <class T, Layout L> void tGesvd(Case& c)
{
    using W = wide<T>;
    using R = real_t<T>;
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, sizeof(R) == 4 ? 30 : 400, &kind);
    bool wu = c.chance(3, 4), wv = c.chance(3, 4);
    size_t mu = k + (c.coin() ? m - k : (size_t)c.draw(m - k + 1)), nv = k + (c.coin() ? n - k : (size_t)c.draw(n - k + 1));
    std::string w = std::string("gesvd") + (wu ? " U" : "") + (wv ? " V" : "");
    c.desc(w, "m", m, "n", n, "cols(U)", mu, "rows(Vt)", nv, kind);
    c.label(w), c.label(kind), c.label(m > n ? "tall" : m < n ? "wide" : "square");
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(m >= 2 && n >= 2 && normMax(Aw) > 0);
    auto run = [&](bool u, bool v, GMat<T, L>& Um, GMat<T, L>& Vm, GVec<R>& S) {
        GMat<T, L> Am(c, m, n);
        Am.set(A0);
        Um.fill(c.coin() ? nanT<T>() : T(R(3))), Vm.fill(nanT<T>());
        auto A = Am.view(), U = Um.view(), V = Vm.view();
        auto s = S.view();
        int info = gesvd(u, v, A, s, U, V);
        c.check(info == 0, w + "/info", "returned ", info);
        Am.margins(c, w + "/A"), Um.margins(c, w + "/U"), Vm.margins(c, w + "/Vt"), S.margins(c, w + "/s");
    };
    GMat<T, L> Um(c, m, mu), Vm(c, nv, n);
    GVec<R> S(c, k);
    run(wu, wv, Um, Vm, S);
    std::vector<R> s = S.get();
    for (size_t i = 0; i < k; ++i) {
        c.check(s[i] >= 0 && isfin(s[i]), w + "/nonnegative", "s[", i, "]=", s[i]);
        c.check(i == 0 || s[i - 1] >= s[i], w + "/order", "at ", i);
    }
    double ep = eps<T>(), nA = normF(Aw) + tinyOf<T>(), tol = (300 + 20.0 * k) * ep;
    if (wu) c.ratio(w + "/U-unitary", orthErr(Um.template getW<W>()), tol);
    if (wv) c.ratio(w + "/V-unitary", orthErrRows(Vm.template getW<W>()), tol);
    if (wu && wv) {
        Dense<W> X(mu, nv);
        for (size_t i = 0; i < k; ++i) X(i, i) = W((real_t<W>)s[i]);
        c.ratio(w + "/residual", normF(sub(mul(mul(Um.template getW<W>(), X), Vm.template getW<W>()), Aw)), tol * nA);
        if (mu > k || nv > k) c.label("full factors");
        return;
    }
    GMat<T, L> U2(c, m, m), V2(c, n, n);
    GVec<R> S2(c, k);
    run(true, true, U2, V2, S2);
    for (size_t i = 0; i < k; ++i) c.ratio(w + "/values", std::fabs((double)s[i] - (double)S2[i]), tol * nA);
    if (wu) {
        // U^H A = S V^H: rows are orthogonal with the singular values as norms
        Dense<W> P = mul(ct(Um.template getW<W>()), Aw), G = mul(P, ct(P));
        double worst = 0;
        for (size_t i = 0; i < mu; ++i) for (size_t j = 0; j < mu; ++j) worst = std::max(worst, mag(G(i, j) - (i == j && i < k ? W((real_t<W>)s[i] * (real_t<W>)s[i]) : W(0))));
        c.ratio(w + "/U-diagonalizes", worst, 4 * tol * nA * nA);
    }
    if (wv) {
        Dense<W> P = mul(Aw, ct(Vm.template getW<W>())), G = mul(ct(P), P);
        double worst = 0;
        for (size_t i = 0; i < nv; ++i) for (size_t j = 0; j < nv; ++j) worst = std::max(worst, mag(G(i, j) - (i == j && i < k ? W((real_t<W>)s[i] * (real_t<W>)s[i]) : W(0))));
        c.ratio(w + "/V-diagonalizes", worst, 4 * tol * nA * nA);
    }
}
static const char* R2 = "all three entries nonzero";
static const char* RQ_ = "order at least 3";
static pbt::Reg k1("svd22/float", 150000, 6000000, tSvd22<float>, R2);
static pbt::Reg k2("svd22/double", 150000, 6000000, tSvd22<double>, R2);
static pbt::Reg q1("svd_qr/float/Col", 12000, 300000, tSvdQr<F, LC>, RQ_);
static pbt::Reg q2("svd_qr/double/Row", 12000, 300000, tSvdQr<D, LR>, RQ_);
static pbt::Reg q3("svd_qr/cfloat/Row", 10000, 300000, tSvdQr<CF, LR>, RQ_);
static pbt::Reg q4("svd_qr/cdouble/Col", 10000, 300000, tSvdQr<CD, LC>, RQ_);
static pbt::Reg g1("gesvd/float/Row", 10000, 200000, tGesvd<F, LR>, FR());
static pbt::Reg g2("gesvd/double/Col", 10000, 200000, tGesvd<D, LC>, FR());
static pbt::Reg g3("gesvd/cfloat/Col", 10000, 200000, tGesvd<CF, LC>, FR());
static pbt::Reg g4("gesvd/cdouble/Row", 10000, 200000, tGesvd<CD, LR>, FR());
