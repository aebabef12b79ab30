// flags: -DTLAPACK_CHECK_INPUT
// libs: -lquadmath
#include "range.hpp"
#include "tlapack/blas/lartg.hpp"
#include "tlapack/blas/rotg.hpp"
#include "tlapack/blas/rotmg.hpp"
template <class R> R genAny(Case& c, Spread s)
{
    if (c.chance(1, 8)) return R(c.range(-4, 4));
    return genR<R>(c, s);
}
template <class R> void tRotgReal(Case& c)
{
    Spread s1 = genSpread<R>(c), s2 = c.chance(2, 3) ? s1 : genSpread<R>(c);
    R a = genAny<R>(c, s1), b = genAny<R>(c, s2), cs = 99, sn = 99, r = a, z = b;
    if (c.chance(1, 12)) b = z = (c.coin() ? -a : a);
    bool viaLartg = c.coin();
    c.desc(viaLartg ? "lartg" : "rotg", a, b);
    if (viaLartg) tlapack::lartg(a, b, cs, sn, r);
    else tlapack::rotg(r, z, cs, sn);
    Q h = sqrtq((Q)a * a + (Q)b * b), e = EPS<R>(), d = DEN<R>();
    c.nontrivial(a != 0 && b != 0);
    c.label(h > MAXQ<R>() / 16 ? "huge" : h < (Q)Lim<R>::min() * 16 ? "tiny" : "mid");
    Q u = qabs((Q)cs * cs + (Q)sn * sn - 1);
    c.check(u <= 8 * e, "rotg/not-unitary", "c=", cs, " s=", sn);
    c.ratio("unitary", (double)(u / e), 8);
    Q res = qabs((Q)cs * b - (Q)sn * a), tol = 8 * e * h + 3 * d;
    c.check(res <= tol, "rotg/not-annihilated", "c=", cs, " s=", sn, " residual ", qs(res));
    c.ratio("annihilate", (double)(res / tol), 1);
    if (h < MAXQ<R>() / 2) {
        Q res2 = qabs((Q)cs * a + (Q)sn * b - r);
        c.check(res2 <= tol, "rotg/r", "r=", r, " want ", qs((Q)cs * a + (Q)sn * b));
        c.ratio("r", (double)(res2 / tol), 1);
        c.check(qabs(qabs((Q)r) - h) <= tol, "rotg/r-modulus", "r=", r, " want +-", qs(h));
    }
    if (!viaLartg) {
        // second output: s, 1/c or 0/1
        R want;
        if (b == 0) want = 0;
        else if (a == 0) want = 1;
        else if (std::fabs(a) > std::fabs(b)) want = sn;
        else want = cs != 0 ? R(1) / cs : R(1);
        c.check(want == z || (!std::isfinite(want) && !std::isfinite(z)) || std::fabs(z - want) <= 4 * (R)e * std::fabs(want), "rotg/z", "got ", z, " want ", want);
    }
}
template <class R> void tRotgCplx(Case& c)
{
    using T = std::complex<R>;
    Spread s1 = genSpread<R>(c), s2 = c.chance(2, 3) ? s1 : genSpread<R>(c), s3 = c.chance(3, 4) ? s1 : genSpread<R>(c);
    R v[4] = {genAny<R>(c, s1), genAny<R>(c, s3), genAny<R>(c, s2), genAny<R>(c, s2)};
    if (c.chance(1, 8)) v[1] = 0;
    if (c.chance(1, 8)) v[0] = 0;
    if (c.chance(1, 8)) v[3] = 0;
    T a(v[0], v[1]), b(v[2], v[3]), sn(9, 9), r = a;
    R cs = 9;
    c.desc("rotg complex", v[0], v[1], v[2], v[3]);
    tlapack::rotg(r, b, cs, sn);
    Q h = sqrtq((Q)v[0] * v[0] + (Q)v[1] * v[1] + (Q)v[2] * v[2] + (Q)v[3] * v[3]), e = EPS<R>(), d = DEN<R>();
    Q sr = sn.real(), si = sn.imag();
    c.nontrivial(a != T(0) && b != T(0));
    c.label(h > MAXQ<R>() / 16 ? "huge" : h < (Q)Lim<R>::min() * 16 ? "tiny" : "mid");
    Q u = qabs((Q)cs * cs + sr * sr + si * si - 1);
    c.check(u <= 16 * e, "rotg/not-unitary", "c=", cs, " s=", sn);
    c.ratio("unitary", (double)(u / e), 16);
    // -conj(s) a + c b
    Q xr = (Q)cs * v[2] - (sr * v[0] + si * v[1]), xi = (Q)cs * v[3] - (sr * v[1] - si * v[0]);
    Q res = sqrtq(xr * xr + xi * xi), tol = 16 * e * h + 4 * d;
    c.check(res <= tol, "rotg/not-annihilated", "c=", cs, " s=", sn, " residual ", qs(res));
    c.ratio("annihilate", (double)(res / tol), 1);
    if (h < MAXQ<R>() / 2) {
        Q yr = (Q)cs * v[0] + (sr * v[2] - si * v[3]) - (Q)r.real(), yi = (Q)cs * v[1] + (sr * v[3] + si * v[2]) - (Q)r.imag();
        Q res2 = sqrtq(yr * yr + yi * yi);
        c.check(res2 <= tol, "rotg/r", "r=", r, " error ", qs(res2));
        c.ratio("r", (double)(res2 / tol), 1);
    }
}
template <class R> void tRotmg(Case& c)
{
    int ed = std::is_same<R, float>::value ? 34 : 60, ea = std::is_same<R, float>::value ? 10 : 20;
    auto val = [&](int e, bool pos) {
        R m = c.coin() ? R(1) : R(1) + unit01<R>(c);
        if (c.chance(1, 14)) return R(pos ? 1 : 0);
        m = std::ldexp(m, (int)c.range(-e, e));
        return !pos && c.coin() ? -m : m;
    };
    R d1 = val(ed, true), d2 = std::fabs(val(ed, false)), a = val(ea, false), b = val(ea, false);
    if (c.chance(1, 8)) d2 = -d2;
    R h[4] = {7, 7, 7, 7}, D1 = d1, D2 = d2, A = a;
    Q q1 = (Q)d1 * a * a, q2 = (Q)d2 * b * b;
    c.desc("rotmg d1", d1, "d2", d2, "a", a, "b", b);
    if (d2 < 0 && qabs(q2) > qabs(q1) / 2 && qabs(q2) < qabs(q1) * 2) throw pbt::Discard();  // cancellation
    int flag = tlapack::rotmg(D1, D2, A, b, h);
    c.nontrivial(flag != -2 && q2 != 0);
    c.label("rotmg flag " + std::to_string(flag));
    if ((Q)d2 * b == 0) { c.check(flag == -2 && D1 == d1 && D2 == d2 && A == a, "rotmg/identity"); return; }
    if (q2 < 0 && qabs(q2) >= qabs(q1)) {
        c.check(flag == -1 && D1 == 0 && D2 == 0 && A == 0 && h[0] == 0 && h[1] == 0 && h[2] == 0 && h[3] == 0, "rotmg/negative");
        return;
    }
    c.check(flag == -1 || flag == 0 || flag == 1, "rotmg/flag", "flag ", flag);
    Q h11 = h[0], h21 = h[1], h12 = h[2], h22 = h[3];
    if (flag == 0) h11 = h22 = 1;
    if (flag == 1) h12 = 1, h21 = -1;
    Q e = EPS<R>();
    auto ok = [&](Q got, Q want, Q scale, const char* w) {
        Q err = qabs(got - want), tol = 40 * e * scale;
        c.check(err <= tol, std::string("rotmg/") + w, "flag ", flag, " got ", qs(got), " want ", qs(want), " h ", h[0], " ", h[1], " ", h[2], " ", h[3]);
        if (tol > 0) c.ratio(w, (double)(err / tol), 1);
    };
    // H (a,b)^T = (z,0)^T and H^T D' H = D
    ok(h11 * a + h12 * b, A, qabs(h11 * a) + qabs(h12 * b), "z");
    ok(h21 * a + h22 * b, 0, qabs(h21 * a) + qabs(h22 * b), "zero");
    ok((Q)D1 * h11 * h11 + (Q)D2 * h21 * h21, d1, qabs(D1 * h11 * h11) + qabs(D2 * h21 * h21), "d1");
    ok((Q)D1 * h12 * h12 + (Q)D2 * h22 * h22, d2, qabs(D1 * h12 * h12) + qabs(D2 * h22 * h22), "d2");
    ok((Q)D1 * h11 * h12 + (Q)D2 * h21 * h22, 0, qabs(D1 * h11 * h12) + qabs(D2 * h21 * h22), "cross");
    const R g2 = R(4096) * R(4096);
    c.check(D1 == 0 || (D1 > 1 / g2 && D1 < g2), "rotmg/d1-range", D1);
    c.check(D2 == 0 || (std::fabs(D2) > 1 / g2 && std::fabs(D2) < g2), "rotmg/d2-range", D2);
}
static const char* R1 = "both given numbers are nonzero";
static const char* R2 = "a rotation other than the identity is produced";
static pbt::Reg a1("rotg/float", 150000, 6000000, tRotgReal<float>, R1);
static pbt::Reg a2("rotg/double", 150000, 6000000, tRotgReal<double>, R1);
static pbt::Reg a3("rotg/cfloat", 150000, 6000000, tRotgCplx<float>, R1);
static pbt::Reg a4("rotg/cdouble", 150000, 6000000, tRotgCplx<double>, R1);
static pbt::Reg m1("rotmg/float", 100000, 4000000, tRotmg<float>, R2);
static pbt::Reg m2("rotmg/double", 100000, 4000000, tRotmg<double>, R2);
