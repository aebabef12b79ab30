// libs: -lquadmath
#include <vector>
#include "fact.hpp"
#include "tlapack/lapack/steqr.hpp"
#include "tlapack/lapack/laed4.hpp"
#include "range.hpp"
using namespace tlapack;
// --- 2-by-2 symmetric kernels
template <class R> void tLaev2(Case& c)
{
    const int lim = std::numeric_limits<R>::min_exponent + std::numeric_limits<R>::digits;
    Spread s1 = genSpread<R>(c), s2 = c.coin() ? s1 : genSpread<R>(c), s3 = c.coin() ? s1 : genSpread<R>(c);
    R a = genR<R>(c, s1), b = genR<R>(c, s2), d = genR<R>(c, s3);
    if (c.chance(1, 8)) d = c.coin() ? a : -a;
    if (c.chance(1, 8)) b = c.coin() ? a : d;
    c.desc("a", a, "b", b, "c", d);
    Q big = MAXQ<R>() / 8;
    // documented scope: no overflow within a factor 5, operands zero or above underflow/eps
    for (R x : {a, b, d}) if (qabs(x) > big || (x != 0 && qabs(x) < scalbnq((Q)1, lim))) throw pbt::Discard();
    Q qa = a, qb = b, qc = d, rt = sqrtq((qa - qc) * (qa - qc) + 4 * qb * qb), sm = qa + qc, l1, l2;
    l1 = sm < 0 ? (sm - rt) / 2 : (sm + rt) / 2;
    Q mx = std::max(qabs(qa), qabs(qc)), mn = std::min(qabs(qa), qabs(qc));
    l2 = l1 == 0 ? 0 : sm == 0 ? -rt / 2 : (qa * qc - qb * qb) / l1;
    Q s2scale = l1 == 0 ? 0 : (mx * mn + qb * qb) / qabs(l1);
    c.nontrivial(b != 0 && (a != 0 || d != 0));
    R x1 = 7, x2 = 7, y1 = 7, y2 = 7, cs = 7, sn = 7;
    tlapack::lae2(a, b, d, x1, x2);
    tlapack::laev2(a, b, d, y1, y2, cs, sn);
    near(c, "lae2-s1", x1, l1, 12, 4);
    near(c, "lae2-s2", x2, l2, 20, 8, s2scale);
    near(c, "laev2-s1", y1, l1, 12, 4);
    near(c, "laev2-s2", y2, l2, 20, 8, s2scale);
    c.check(std::fabs(x1) >= std::fabs(x2) * R(1 - 8 * Lim<R>::epsilon()), "lae2/order", x1, " ", x2);
    Q e = EPS<R>();
    c.ratio("laev2-unit", (double)(qabs((Q)cs * cs + (Q)sn * sn - 1) / e), 12);
    // (cs, sn) is the eigenvector of s1
    Q v1, v2;
    bool top = (sm < 0) == (qa - qc < 0);  // the difference without cancellation
    if (top) v1 = (qa - qc) / 2 + (sm < 0 ? -rt / 2 : rt / 2), v2 = qb;
    else v1 = qb, v2 = -(qa - qc) / 2 + (sm < 0 ? -rt / 2 : rt / 2);
    if (v1 == 0 && v2 == 0) return;
    if (qb == 0 && qa == qc) return;
    Q p = (Q)cs * v2, q = (Q)sn * v1, m = std::max(qabs(p), qabs(q));
    Q w = qabs(p - q), den = 20 * e * m + 8 * DEN<R>() * std::max(qabs(v1), qabs(v2));
    if (sm == 0 && rt != 0) {
        // s1 and s2 have equal magnitude; either order of the signs would do, the code returns s1 > 0
        c.check(y1 > 0, "laev2/sign", y1);
    }
    if (w > 0) c.ratio("laev2-vector", (double)(w / den), 1);
}
// --- tridiagonal QR iteration
template <class R> void genTri(Case& c, std::vector<R>& d, std::vector<R>& e, std::string& kind, bool scaled)
{
    size_t n = d.size();
    const char* names[] = {"uniform", "zero diagonal", "zero off-diagonals", "graded up", "graded down", "toeplitz", "clustered", "small integers", "random exponents", "Wilkinson", "all zero", "glued", "negative definite"};
    int k = (int)c.draw(13);
    kind = names[k];
    int dg = std::numeric_limits<R>::digits;
    int g = (int)c.range(1, 6), me = std::min(sizeof(R) == 4 ? 40 : 300, 4 * dg);
    for (size_t i = 0; i < n; ++i) {
        d[i] = uniR<R>(c), e[i] = uniR<R>(c);
        switch (k) {
            case 1: d[i] = 0; break;
            case 2: if (c.chance(1, 3)) e[i] = 0; break;
            case 3: case 4: {
                int x = std::max(-me, -(int)(k == 3 ? n - 1 - i : i) * g);
                d[i] = std::ldexp(d[i], x), e[i] = std::ldexp(e[i], x);
                break;
            }
            case 5: d[i] = 2, e[i] = -1; break;
            case 6: d[i] = 1 + std::ldexp(d[i], -dg + (int)c.range(0, 10)), e[i] = std::ldexp(e[i], -dg + (int)c.range(0, 12)); break;
            case 7: d[i] = R((int)c.range(-2, 2)), e[i] = R((int)c.range(-2, 2)); break;
            case 8: d[i] = std::ldexp(d[i], (int)c.range(-dg, dg)), e[i] = std::ldexp(e[i], (int)c.range(-dg, dg)); break;
            case 9: d[i] = std::fabs(R((double)i - (double)(n - 1) / 2)), e[i] = 1; break;
            case 10: d[i] = 0; if (c.chance(2, 3)) e[i] = 0; break;
            case 11: d[i] = std::fabs(R((double)(i % 7) - 3)), e[i] = i % 7 == 6 ? std::ldexp(R(1), -(int)c.range(dg / 2, dg + 4)) : R(1); break;
            case 12: d[i] = -2 - std::fabs(d[i]), e[i] = std::fabs(e[i]); break;
        }
    }
    if (scaled && c.chance(1, 4)) {
        int s = (int)c.range(sizeof(R) == 4 ? -115 : -980, sizeof(R) == 4 ? 115 : 980);
        for (auto& x : d) x = std::ldexp(x, s);
        for (auto& x : e) x = std::ldexp(x, s);
        R big = 0;
        for (auto x : d) big = std::max(big, std::fabs(x));
        for (auto x : e) big = std::max(big, std::fabs(x));
        if (big > Lim<R>::max() / 16) throw pbt::Discard();
        kind += " scaled";
    }
}
// number of eigenvalues below x
template <class R> size_t belowT(const std::vector<R>& d, const std::vector<R>& e, Q x)
{
    size_t n = d.size(), neg = 0;
    Q q = 1;
    for (size_t i = 0; i < n; ++i) {
        q = (Q)d[i] - x - (i ? ((Q)e[i - 1] / q) * (Q)e[i - 1] : (Q)0);
        if (q == 0) q = scalbnq((Q)1, -16000);
        if (q < 0) ++neg;
    }
    return neg;
}
template <class T, Layout L> void tSteqr(Case& c)
{
    using W = wide<T>;
    using R = real_t<T>;
    using WR = real_t<W>;
    size_t n = c.chance(1, 60) ? (size_t)c.range(40, 80) : c.chance(1, 6) ? (size_t)c.range(13, 40) : (size_t)c.size(0, 12);
    std::vector<R> d(n), e(n);
    std::string kind;
    genTri(c, d, e, kind, true);
    bool wz = c.chance(3, 4);
    std::string w = wz ? "steqr Z" : "steqr";
    c.desc(w, "n", n, kind, "d", show(colVec(d)), "e", show(colVec(e)));
    c.label(w), c.label(kind);
    R big = 0;
    for (size_t i = 0; i < n; ++i) big = std::max(big, std::max(std::fabs(d[i]), i + 1 < n ? std::fabs(e[i]) : R(0)));
    c.nontrivial(n >= 3 && big > 0);
    // Z0: a random reflector times a permutation with unimodular entries
    Dense<T> Z0(n, n);
    for (size_t i = 0; i < n; ++i) Z0(i, i) = T(1);
    bool refl = c.coin();
    if (refl) {
        std::vector<T> v(n);
        R nn = 0;
        for (auto& x : v) x = T(R((int)c.range(-3, 3))), nn += std::real(x * x);
        if (nn > 0) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) Z0(i, j) -= T(R(2)) * v[i] * v[j] / T(nn);
    }
    if constexpr (cplx<T>) if (c.coin()) for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) if (i % 2) Z0(i, j) *= T(R(0), R(1));
    GMat<T, L> Zm(c, n, n);
    if (wz) Zm.set(Z0);
    else Zm.fill(nanT<T>());
    Zm.snapshot();
    GVec<R> D(c, n), E(c, n > 0 ? n - 1 + (size_t)c.draw(2) : 0);
    D.set(d);
    for (size_t i = 0; i < E.n; ++i) E[i] = i + 1 < n ? e[i] : nanT<R>();
    {
        auto Dv = D.view(), Ev = E.view();
        auto Zv = Zm.view();
        int info = steqr(wz, Dv, Ev, Zv);
        c.check(info == 0, w + "/info", "returned ", info);
    }
    D.margins(c, w + "/d"), E.margins(c, w + "/e");
    if (wz) Zm.margins(c, w + "/Z");
    else Zm.unchanged(c, w + "/Z");
    std::vector<R> s = D.get();
    for (size_t i = 0; i < n; ++i) {
        c.check(isfin(s[i]), w + "/finite", "d[", i, "]=", s[i]);
        c.check(i == 0 || s[i - 1] <= s[i], w + "/order", "at ", i);
    }
    double ep = eps<T>();
    Q at = (Q)((40 + 12.0 * n) * ep) * (Q)big + 60 * DEN<R>();
    for (size_t i = 0; i < n; ++i) {
        Q lo = (Q)s[i] - at, hi = (Q)s[i] + at;
        size_t nl = belowT(d, e, lo), nh = belowT(d, e, hi);
        c.check(nl <= i && nh >= i + 1, w + "/value", "d[", i, "]=", (double)s[i], " but ", nl, " below d-delta and ", nh, " below d+delta of ", n);
    }
    if (wz) {
        double tol = (60 + 12.0 * n) * ep;
        Dense<W> B(n, n), S(n, n), Zw = Zm.template getW<W>();
        // work with entries divided by the norm, so that the products do not underflow
        WR f = big > 0 ? (WR)big : (WR)1;
        for (size_t i = 0; i < n; ++i) {
            B(i, i) = W((WR)d[i] / f), S(i, i) = W((WR)s[i] / f);
            if (i + 1 < n) B(i, i + 1) = B(i + 1, i) = W((WR)e[i] / f);
        }
        c.ratio(w + "/Z-orthogonal", orthErr(Zw), tol);
        // Z0 T = Z S Z^H Z0
        Dense<W> X = mul(widenM<W>(Z0), B), Y = mul(mul(mul(Zw, S), ct(Zw)), widenM<W>(Z0));
        double dn = big > 0 ? 60 * (double)(DEN<R>() / (Q)big) * n : 0;
        c.ratio(w + "/residual", normF(sub(X, Y)), tol * std::max(1.0, normF(B)) + dn);
    }
    else {
        GMat<T, L> Z2(c, n, n);
        GVec<R> D2(c, n), E2(c, n);
        for (size_t i = 0; i < n; ++i) D2[i] = d[i], E2[i] = i + 1 < n ? e[i] : R(0), Z2(i, i) = T(1);
        auto Dv = D2.view(), Ev = E2.view();
        auto Zv = Z2.view();
        c.check(steqr(true, Dv, Ev, Zv) == 0, w + "/info2");
        for (size_t i = 0; i < n; ++i) c.check(qabs((Q)s[i] - (Q)D2[i]) <= 2 * at, w + "/depends-on-vectors", "d[", i, "] ", (double)s[i], " and ", (double)D2[i]);
    }
}
// --- secular equation
template <class R> void tLaed4(Case& c)
{
    size_t n = c.chance(1, 20) ? (size_t)c.range(20, 60) : (size_t)c.size(1, 20);
    int dg = std::numeric_limits<R>::digits;
    std::vector<R> d(n), z(n);
    const char* names[] = {"integers", "uniform gaps", "random gaps", "clusters", "one far pole", "symmetric"};
    int k = (int)c.draw(6), zk = (int)c.draw(4);
    R x = R((int)c.range(-4, 4));
    for (size_t i = 0; i < n; ++i) {
        d[i] = x;
        R gap = 1;
        switch (k) {
            case 1: gap = R(0.25); break;
            case 2: gap = std::ldexp(1 + std::fabs(uniR<R>(c)), -(int)c.range(0, dg / 3)); break;
            case 3: gap = c.chance(1, 4) ? R(1) : std::ldexp(R(1), -(int)c.range(dg / 4, dg / 2)); break;
            case 4: gap = i + 2 == n ? R(1000) : R(1); break;
        }
        x += gap;
    }
    if (k == 5) for (size_t i = 0; i < n; ++i) d[i] -= d[n - 1] / 2;
    for (size_t i = 0; i < n; ++i) {
        z[i] = uniR<R>(c);
        if (zk == 0) z[i] = 1;
        if (zk == 1) z[i] = std::ldexp(z[i], -(int)c.range(0, dg / 3));
        if (zk == 2 && c.chance(1, 2)) z[i] = std::ldexp(z[i] < 0 ? R(-1) : R(1), -(int)c.range(0, dg / 2));
        if (z[i] == 0) z[i] = R(0.5);
    }
    Q nn = 0;
    for (auto v : z) nn += (Q)v * v;
    nn = sqrtq(nn);
    for (auto& v : z) v = (R)((Q)v / nn);
    R rho = std::ldexp(1 + std::fabs(uniR<R>(c)), (int)c.range(-dg / 2, dg / 2));
    if (c.chance(1, 4)) rho = R((int)c.range(1, 20));
    // scale the whole problem
    int sc = c.chance(1, 5) ? (int)c.range(sizeof(R) == 4 ? -20 : -120, sizeof(R) == 4 ? 20 : 120) : 0;
    for (auto& v : d) v = std::ldexp(v, sc);
    rho = std::ldexp(rho, sc);
    // the caller (laed2) deflates negligible components and pairs of close poles
    R dm = 0, zm = 0;
    for (auto v : d) dm = std::max(dm, std::fabs(v));
    for (auto v : z) zm = std::max(zm, std::fabs(v));
    Q tol = 8 * (Q)(Lim<R>::epsilon() / 2) * std::max((Q)dm, (Q)rho * zm);
    for (size_t i = 0; i < n; ++i) {
        if ((Q)rho * qabs(z[i]) <= tol) throw pbt::Discard();
        if (i + 1 < n) {
            Q t = (Q)d[i + 1] - d[i], s = z[i], cc = z[i + 1], h = sqrtq(s * s + cc * cc);
            if (qabs(t * (cc / h) * (s / h)) <= tol) throw pbt::Discard();
        }
    }
    c.desc("laed4 n", n, names[k], "z kind", zk, "rho", rho, "scale", sc, "d", show(colVec(d)), "z", show(colVec(z)));
    c.label(names[k]);
    c.nontrivial(n >= 3);
    Q eps = EPS<R>(), q2 = 0;
    for (auto v : z) q2 += (Q)v * v;
    auto d0 = d, z0 = z;
    for (size_t i = 0; i < n; ++i) {
        std::vector<R> delta(n, nanT<R>());
        R lam = nanT<R>();
        int info = tlapack::laed4(n, i, d, z, delta, rho, lam);
        c.check(info == 0, "laed4/info", "root ", i, " returned ", info);
        for (size_t j = 0; j < n; ++j) c.check(same(d[j], d0[j]) && same(z[j], z0[j]), "laed4/input", "changed at ", j);
        // reference root relative to pole i (or i+1): bisection in quadruple precision
        size_t o = i;
        Q lo, hi;
        auto f = [&](Q t) { Q s = 1 / (Q)rho; for (size_t j = 0; j < n; ++j) s += (Q)z[j] * z[j] / (((Q)d[j] - d[o]) - t); return s; };
        if (i + 1 < n) {
            Q mid = ((Q)d[i + 1] - d[i]) / 2;
            if (f(mid) >= 0) lo = 0, hi = mid;
            else o = i + 1, lo = -mid, hi = 0;
        }
        else lo = 0, hi = (Q)rho * q2 * (1 + (Q)1e-20);
        // start from a power-of-two grid, so that the relative distance to the pole is resolved
        Q sg = lo < 0 ? -1 : 1, m = std::max(qabs(lo), qabs(hi)), a = 0, b = m;
        for (int it = 0; it < 400 && b - a > m * (Q)1e-32; ++it) {
            Q t = a > 0 && b < 4 * a ? (a + b) / 2 : (a > 0 ? sqrtq(a * b) : b / 1024);
            if (a == 0 && t < m * (Q)1e-30) break;
            bool above = f(sg * t) >= 0;
            if ((sg > 0) == above) b = t;
            else a = t;
            if (a > 0 && b - a <= (Q)1e-30 * a) break;
        }
        Q tau = sg * (a + b) / 2, L = (Q)d[o] + tau;
        Q scl = std::max((Q)dm, (Q)rho * q2);
        Q err = qabs((Q)lam - L);
        c.check(lam == lam, "laed4/value", "root ", i, " is NaN");
        c.ratio("laed4/value", (double)(err / (eps * scl)), 60 + 6 * n);
        c.check(lam >= d[i] && (i + 1 == n || lam <= d[i + 1]), "laed4/interlaced", "root ", i, " = ", lam);
        if (n == 1) {
            c.check(delta[0] == 1, "laed4/delta-1", delta[0]);
            continue;
        }
        if (n == 2) {
            // normalized eigenvector, up to sign
            Q e0 = (Q)z[0] / (((Q)d[0] - d[o]) - tau), e1 = (Q)z[1] / (((Q)d[1] - d[o]) - tau), h = sqrtq(e0 * e0 + e1 * e1);
            e0 /= h, e1 /= h;
            Q gap = (Q)d[1] - d[0], sx = gap + rho * ((Q)z[1] * z[1] - (Q)z[0] * z[0]), sep = sqrtq(sx * sx + 4 * (Q)rho * rho * (Q)z[0] * z[0] * (Q)z[1] * z[1]);
            Q sgn = e0 * delta[0] + e1 * delta[1] < 0 ? -1 : 1;
            c.ratio("laed5/vector", (double)(std::max(qabs(e0 - sgn * delta[0]), qabs(e1 - sgn * delta[1])) / eps), (double)(40 + 8 * (gap + rho) / sep));
            continue;
        }
        // the stopping criterion of the iteration, evaluated at the returned distances in wider precision
        Q s = 1 / (Q)rho, sa = s, ds = 0;
        for (size_t j = 0; j < n; ++j) {
            c.check(j <= i ? delta[j] < 0 : delta[j] > 0, "laed4/delta-sign", "root ", i, " delta[", j, "]=", delta[j]);
            Q r = (Q)z[j] / (Q)delta[j];
            s += (Q)z[j] * r, sa += qabs((Q)z[j] * r), ds += r * r;
            Q ref = ((Q)d[j] - d[o]) - tau;
            // poles on the far side of the origin are also determined to high relative accuracy
            c.ratio("laed4/delta-abs", (double)(qabs((Q)delta[j] - ref) / (eps * (qabs((Q)d[j] - d[o]) + scl))), 40 + 3 * n);
        }
        c.ratio("laed4/secular", (double)(qabs(s) / (eps * (sa + qabs(tau) * ds))), 40 + 4 * n);
    }
}
static const char* RL = "off-diagonal and one diagonal entry nonzero";
static const char* RS = "order at least 3 and not zero";
static const char* R4 = "order at least 3";
static pbt::Reg k1("laev2/float", 150000, 6000000, tLaev2<float>, RL);
static pbt::Reg k2("laev2/double", 150000, 6000000, tLaev2<double>, RL);
static pbt::Reg q1("steqr/float/Col", 20000, 400000, tSteqr<F, LC>, RS);
static pbt::Reg q2("steqr/double/Row", 20000, 400000, tSteqr<D, LR>, RS);
static pbt::Reg q3("steqr/cfloat/Row", 15000, 300000, tSteqr<CF, LR>, RS);
static pbt::Reg q4("steqr/cdouble/Col", 15000, 300000, tSteqr<CD, LC>, RS);
static pbt::Reg l1("laed4/float", 10000, 300000, tLaed4<float>, R4);
static pbt::Reg l2("laed4/double", 10000, 300000, tLaed4<double>, R4);
