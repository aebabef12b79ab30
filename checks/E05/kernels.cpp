// libs: -lquadmath
#include "schur.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "range.hpp"
using namespace tlapack;
// --- standardization of a real 2-by-2 block
template <class R> void tSchur22(Case& c)
{
    R x[4];
    int kind = (int)c.draw(6);
    if (kind == 0) for (auto& v : x) v = smallInt<R>(c, 3);
    else if (kind == 1) for (auto& v : x) v = uni<R>(c);
    else if (kind == 2) {
        // nearly defective
        R p = uni<R>(c), b = uni<R>(c);
        x[0] = p, x[3] = p + scaleP2(uni<R>(c), -(int)c.range(4, 2 * std::numeric_limits<R>::digits));
        x[1] = b, x[2] = scaleP2(uni<R>(c), -(int)c.range(4, 3 * std::numeric_limits<R>::digits));
        if (c.coin()) std::swap(x[1], x[2]);
    }
    else {
        Spread s = genSpread<R>(c);
        for (auto& v : x) v = genR<R>(c, kind == 4 ? s : kind == 5 ? genSpread<R>(c) : s);
        if (c.chance(1, 6)) x[3] = c.coin() ? x[0] : -x[0];
        if (c.chance(1, 6)) x[2] = c.coin() ? x[1] : -x[1];
    }
    c.desc("a", x[0], "b", x[1], "c", x[2], "d", x[3]);
    const int lim = std::numeric_limits<R>::min_exponent + 2 * std::numeric_limits<R>::digits;
    Q big = MAXQ<R>() / 16;
    for (R v : x) if (qabs(v) > big || (v != 0 && qabs(v) < scalbnq((Q)1, lim))) throw pbt::Discard();
    R a = x[0], b = x[1], g = x[2], d = x[3], cs = 7, sn = 7;
    std::complex<R> s1, s2;
    c.nontrivial(x[1] != 0 && x[2] != 0);
    lahqr_schur22(a, b, g, d, s1, s2, cs, sn);
    Q e = EPS<R>(), nf = 0;
    for (R v : x) nf = std::max(nf, qabs(v));
    Q q = nf > 0 ? nf : 1;
    c.ratio("schur22-rotation", (double)(qabs((Q)cs * cs + (Q)sn * sn - 1) / e), 24);
    // [x0 x1; x2 x3] = [cs -sn; sn cs] [a b; g d] [cs sn; -sn cs]
    Q t00 = (Q)cs * (a / q) - (Q)sn * (g / q), t01 = (Q)cs * (b / q) - (Q)sn * (d / q), t10 = (Q)sn * (a / q) + (Q)cs * (g / q), t11 = (Q)sn * (b / q) + (Q)cs * (d / q);
    Q r[4] = {t00 * cs - t01 * sn, t00 * sn + t01 * cs, t10 * cs - t11 * sn, t10 * sn + t11 * cs};
    Q err = 0;
    for (int i = 0; i < 4; ++i) err = std::max(err, qabs(r[i] - x[i] / q));
    c.ratio("schur22-residual", (double)(err / e), 60);
    if (g != 0) {
        c.check(a == d, "schur22/not-standardized", a, " ", d);
        c.check((b > 0) != (g > 0) && b != 0, "schur22/real-block-left", b, " ", g);
        c.check(re(s1) == a && re(s2) == a && im(s1) > 0 && im(s2) == -im(s1), "schur22/eigenvalues", "complex pair");
        near(c, "schur22-imag", im(s1), sqrtq(qabs(b)) * sqrtq(qabs(g)), 8, 8);
        c.label("complex pair");
    }
    else c.check(s1 == std::complex<R>(a) && s2 == std::complex<R>(d), "schur22/eigenvalues", "real pair"), c.label("real pair");
    // discriminant decides the kind of pair when it is clear
    Q p = ((Q)x[0] / q - (Q)x[3] / q) / 2, disc = p * p + ((Q)x[1] / q) * ((Q)x[2] / q);
    if (disc > 100 * e) c.check(g == 0, "schur22/kind", "real eigenvalues reported as complex");
    if (disc < -100 * e) c.check(g != 0, "schur22/kind", "complex eigenvalues reported as real");
}
static pbt::Reg s1("schur22/float", 40000, 2000000, tSchur22<F>, "both off-diagonal entries nonzero");
static pbt::Reg s2("schur22/double", 40000, 2000000, tSchur22<D>, "both off-diagonal entries nonzero");
// --- eigenvalues of a 2-by-2 matrix, shift vector
template <class T> T genS(Case& c, int kind)
{
    if (kind == 0) return smallInt<T>(c, 2);
    if (kind == 1) return uni<T>(c);
    return c.chance(1, 4) ? T(0) : scaleP2(uni<T>(c), (int)c.range(-30, 30));
}
template <class T> void tEig22(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    using CW2 = std::complex<real_t<W>>;
    int kind = (int)c.draw(3), sc = c.chance(1, 3) ? (int)c.range(-1, 1) * (sizeof(real_t<T>) == 4 ? 60 : 900) : 0;
    T x[4];
    for (auto& v : x) v = scaleP2(genS<T>(c, kind), sc);
    c.desc("scale", sc, show(colVec(std::vector<T>(x, x + 4))));
    CT s1, s2;
    lahqr_eig22(x[0], x[1], x[2], x[3], s1, s2);
    CW2 h[4], z1 = widen<CW2>(s1), z2 = widen<CW2>(s2);
    double nf = 0;
    for (auto& v : x) nf += mag(v);
    c.nontrivial(x[1] != T(0) && x[2] != T(0));
    if (nf == 0) { c.check(s1 == CT(0) && s2 == CT(0), "eig22/zero"); return; }
    real_t<W> q = real_t<W>(nf);
    for (int i = 0; i < 4; ++i) h[i] = widen<CW2>(x[i]) / q;
    z1 /= q, z2 /= q;
    double e = eps<T>();
    c.ratio("eig22-trace", mag(z1 + z2 - h[0] - h[3]), 10 * e);
    for (auto z : {z1, z2}) c.ratio("eig22-characteristic", mag((h[0] - z) * (h[3] - z) - h[1] * h[2]), 30 * e);
    if constexpr (!cplx<T>) c.check(im(s1) == 0 ? im(s2) == 0 : s1 == std::conj(s2), "eig22/conjugate");
}
template <class T> void tShift(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    using CW2 = std::complex<real_t<W>>;
    size_t n = c.coin() ? 2 : 3;
    int kind = (int)c.draw(3);
    GMat<T, LC> G(c, n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = genS<T>(c, kind);
    if (c.coin() && n == 3) G(2, 0) = T(0);
    CT s1 = genS<CT>(c, kind), s2 = genS<CT>(c, kind);
    if constexpr (!cplx<T>) {
        if (c.coin()) s2 = std::conj(s1);
        else s1 = CT(re(s1)), s2 = CT(re(s2));
    }
    if (c.chance(1, 4)) s2 = CT(G(0, 0)), s1 = cplx<T> ? s1 : CT(re(s1));
    c.desc("n", n, show(G.get()), "s1", re(s1), im(s1), "s2", re(s2), im(s2));
    GVec<T> v(c, n);
    for (size_t i = 0; i < n; ++i) v[i] = nanT<T>();
    auto H = G.view();
    auto x = v.view();
    G.snapshot();
    int info = lahqr_shiftcolumn(H, x, s1, s2);
    c.check(info == 0, "shiftcolumn/info");
    G.unchanged(c, "shiftcolumn/H"), v.margins(c, "shiftcolumn");
    // (H - s1 I)(H - s2 I) e1 and the sum of the magnitudes of its terms
    std::vector<CW2> w(n), r(n);
    std::vector<double> mw(n), m(n);
    CW2 z1 = widen<CW2>(s1), z2 = widen<CW2>(s2);
    for (size_t i = 0; i < n; ++i) w[i] = widen<CW2>(G(i, 0)) - (i == 0 ? z2 : CW2(0)), mw[i] = mag(w[i]);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < n; ++j) {
            CW2 h = widen<CW2>(G(i, j)) - (i == j ? z1 : CW2(0));
            r[i] += h * w[j];
            m[i] += (mag(widen<CW2>(G(i, j))) + (i == j ? mag(z1) + mag(z2) + mag(widen<CW2>(G(0, 0))) : 0)) * mw[j];
        }
        m[i] += mag(widen<CW2>(G(i, 0))) * (mag(widen<CW2>(G(0, 0))) + mag(z1) + mag(z2));
    }
    double nr = 0, nm2 = 0, nv = 0, e = eps<T>();
    for (size_t i = 0; i < n; ++i) nr = std::max(nr, mag(r[i])), nm2 = std::max(nm2, m[i]), nv = std::max(nv, mag(v[i]));
    for (size_t i = 0; i < n; ++i) c.check(isfin(v[i]), "shiftcolumn/finite");
    c.nontrivial(nr > 0);
    if (!(nr > 1e4 * e * nm2) || nr == 0) { if (nm2 == 0) c.check(nv == 0, "shiftcolumn/zero"); return; }
    c.check(nv > 0, "shiftcolumn/zero-vector", "a nonzero product was returned as zero");
    if (nv == 0) return;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < i; ++j) {
        CW2 cr = widen<CW2>(v[i]) / real_t<W>(nv) * r[j] - widen<CW2>(v[j]) / real_t<W>(nv) * r[i];
        double tol = 20 * e * (m[i] * mag(r[j]) + m[j] * mag(r[i])) / nr;
        if (mag(cr) > 0) c.ratio("shiftcolumn-direction", mag(cr), tol + 4 * e * 1e-30 * nr);
    }
    // the sign: a positive multiple keeps the real part of v^H r positive
}
static pbt::Reg e1("eig22/float", 20000, 800000, tEig22<F>, "both off-diagonal entries nonzero");
static pbt::Reg e2("eig22/double", 20000, 800000, tEig22<D>, "both off-diagonal entries nonzero");
static pbt::Reg e3("eig22/cfloat", 20000, 800000, tEig22<CF>, "both off-diagonal entries nonzero");
static pbt::Reg e4("eig22/cdouble", 20000, 800000, tEig22<CD>, "both off-diagonal entries nonzero");
static pbt::Reg f1("shiftcolumn/float", 15000, 600000, tShift<F>, "the product is not zero");
static pbt::Reg f2("shiftcolumn/double", 15000, 600000, tShift<D>, "the product is not zero");
static pbt::Reg f3("shiftcolumn/cfloat", 15000, 600000, tShift<CF>, "the product is not zero");
static pbt::Reg f4("shiftcolumn/cdouble", 15000, 600000, tShift<CD>, "the product is not zero");
// --- moving a bulge by one position
template <class T, Layout L> void tBulge(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    using RW = real_t<W>;
    GMat<T, L> G(c, 4, 4);
    int dg = std::numeric_limits<real_t<T>>::digits;
    for (size_t j = 0; j < 4; ++j) for (size_t i = 0; i < 4; ++i) G(i, j) = uni<T>(c);
    // H(3,0) = H(3,1) = 0 on entry
    G(3, 0) = G(3, 1) = T(0);
    bool collapsed = c.coin();
    if (c.chance(1, 3)) G(2, 0) = scaleP2(G(2, 0), -(int)c.range(0, 2 * dg));
    if (c.chance(1, 3)) G(1, 0) = scaleP2(G(1, 0), -(int)c.range(0, 2 * dg));
    std::vector<T> v(3);
    for (auto& x : v) x = uni<T>(c);
    {
        // a proper reflector: tau = 2 / (1 + |v1|^2 + |v2|^2), or none at all
        real_t<T> s = 1 + re(v[1]) * re(v[1]) + im(v[1]) * im(v[1]) + re(v[2]) * re(v[2]) + im(v[2]) * im(v[2]);
        v[0] = T(2 / s);
    }
    if (collapsed) {
        int h = (int)c.draw(3);
        if (h == 0) G(3, 2) = T(0);
        if (h == 1) v[2] = T(0), G(3, 2) = c.coin() ? T(0) : G(3, 2);
        if (h == 2) v[0] = v[1] = v[2] = T(0), G(3, 2) = T(0);
        c.label("collapsed");
    }
    if (c.chance(1, 8)) G(2, 0) = T(0);
    CT s1 = uni<CT>(c), s2 = cplx<T> ? uni<CT>(c) : std::conj(s1);
    c.desc(show(G.get()), "v", show(colVec(v)));
    c.nontrivial(G(1, 0) != T(0) || G(2, 0) != T(0));
    Dense<T> H0 = G.get();
    GVec<T> gv(c, 3);
    gv.set(v);
    auto H = G.view();
    auto vv = gv.view();
    G.snapshot();
    move_bulge(H, vv, s1, s2);
    gv.margins(c, "move_bulge/v");
    G.onlyChanged(c, "move_bulge", [](size_t i, size_t j) { return (j == 0 && i >= 1) || (i == 3 && j <= 2); });
    double e = eps<T>();
    // delayed update of row 3
    W t = widen<W>(v[0]), v1 = widen<W>(v[1]), v2 = widen<W>(v[2]), h = widen<W>(H0(3, 2));
    W sm = t * v2 * h;
    W r30 = -sm, r31 = -sm * cj(v1), r32 = h - sm * cj(v2);
    c.ratio("bulge-row", std::max(mag(widen<W>(G(3, 1)) - r31), mag(widen<W>(G(3, 2)) - r32)), 20 * e * (mag(h) + tinyOf<T>()));
    // the new reflector annihilates rows 2 and 3 of column 0, up to a negligible fill-in
    W nt = widen<W>(gv[0]), n1 = widen<W>(gv[1]), n2 = widen<W>(gv[2]);
    W x0 = widen<W>(H0(1, 0)), x1 = widen<W>(H0(2, 0)), x2 = r30;
    double nx = mag(x0) + mag(x1) + mag(x2);
    RW nv2 = RW(1) + re(n1 * cj(n1)) + re(n2 * cj(n2));
    double def = mag(RW(2) * re(nt) - re(nt * cj(nt)) * nv2) * (double)nv2;
    c.ratio("bulge-unitary", def, 40 * e);
    W s = cj(nt) * (x0 + cj(n1) * x1 + cj(n2) * x2);
    W y0 = x0 - s, y1 = x1 - s * n1, y2 = x2 - s * n2;
    double dg3 = mag(H0(0, 0)) + mag(H0(1, 1)) + mag(H0(2, 2));
    double tol = e * (40 * nx + 3 * dg3 * (collapsed ? 1 : 0)) + tinyOf<T>() * e;
    c.ratio("bulge-fill", std::max(mag(y1), mag(y2)), tol);
    c.ratio("bulge-beta", mag(widen<W>(G(1, 0)) - y0), e * (40 * nx) + tinyOf<T>() * e);
    c.check(G(2, 0) == T(0) && G(3, 0) == T(0), "move_bulge/column", "entries below the subdiagonal not zero");
}
static pbt::Reg m1("bulge/float/Row", 20000, 800000, tBulge<F, LR>, "a nonzero column to annihilate");
static pbt::Reg m2("bulge/double/Col", 20000, 800000, tBulge<D, LC>, "a nonzero column to annihilate");
static pbt::Reg m3("bulge/cfloat/Col", 20000, 800000, tBulge<CF, LC>, "a nonzero column to annihilate");
static pbt::Reg m4("bulge/cdouble/Row", 20000, 800000, tBulge<CD, LR>, "a nonzero column to annihilate");
