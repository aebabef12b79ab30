// libs: -lquadmath
// E10: overflow-protection kernels of the eigenvector solvers.
#include "range.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/trevc_protect.hpp"
using namespace tlapack;
template <class R> R sfmax() { return safe_max<R>(); }
template <class R> R sfmin() { return safe_min<R>(); }
// magnitude in [0, safe_max], dense near both ends
template <class R> R genMag(Case& c)
{
    int hi = 0;
    std::frexp(sfmax<R>(), &hi);
    switch (c.draw(8)) {
        case 0: return c.coin() ? R(0) : R(1);
        case 1: return sfmax<R>() * (R(1) - R(c.draw(4)) * Lim<R>::epsilon());
        case 2: return std::ldexp(R(1) + R(c.draw(3)) * Lim<R>::epsilon(), hi - 1 - (int)c.range(1, 4));
        case 3: return std::ldexp(R(0.5) + R(0.49) * std::fabs(uniR<R>(c)), (int)c.range(-3, 3));
        case 4: return std::ldexp(R(0.5) + R(0.49) * std::fabs(uniR<R>(c)), hi - 1 - (int)c.range(0, 6));
        case 5: return std::ldexp(R(0.5) + R(0.49) * std::fabs(uniR<R>(c)), -hi + 2 + (int)c.range(0, 6));
        default: return std::ldexp(R(0.5) + R(0.49) * std::fabs(uniR<R>(c)), (int)c.range(-hi + 2, hi - 1));
    }
}
template <class R> R genSigned(Case& c) { R a = genMag<R>(c); return c.coin() ? a : -a; }
template <class R> void alphaOk(Case& c, const std::string& w, R al) { c.check(al > R(0) && al <= R(1), w + "/factor", "factor ", al, " outside (0,1]"); }
template <class R> void tDiv(Case& c)
{
    int kind = (int)c.draw(3);
    R ar = genSigned<R>(c), ai = genSigned<R>(c), br = genSigned<R>(c), bi = genSigned<R>(c);
    if (kind == 0) ai = bi = R(0);
    Q A = sqrtq((Q)ar * ar + (Q)ai * ai), B = sqrtq((Q)br * br + (Q)bi * bi), M = (Q)sfmax<R>();
    if (B < (Q)sfmin<R>()) throw pbt::Discard();
    const char* names[] = {"protectdiv/real", "protectdiv/complex", "protectdiv/parts"};
    std::string w = names[kind];
    c.desc(w, "a", ar, ai, "b", br, bi), c.label(w);
    R al = kind == 0 ? trevc_protectdiv(ar, br, sfmin<R>(), sfmax<R>()) : kind == 1 ? trevc_protectdiv(std::complex<R>(ar, ai), std::complex<R>(br, bi), sfmin<R>(), sfmax<R>()) : trevc_protectdiv(ar, ai, br, bi, sfmin<R>(), sfmax<R>());
    c.nontrivial(A > 0 && (A / B > M / 1024 || B < 64));
    alphaOk(c, w, al);
    // the operands are bounded by components, the quotient by modulus
    c.check((Q)al * A <= (A > M ? 2 : 1) * M * B * (1 + 8 * EPS<R>()), w + "/overflow", "factor ", al, " leaves a quotient of ", qs((Q)al * A / B / M), " times the bound");
    if (A / B <= M / 16) c.check(al == R(1), w + "/needless", "factor ", al, " although the quotient is far below the bound");
}
template <class R> void tUpd(Case& c)
{
    R y = genMag<R>(c), t = genMag<R>(c), x = genMag<R>(c);
    c.desc("protectupdate", "y", y, "t", t, "x", x);
    Q M = (Q)sfmax<R>(), full = (Q)y + (Q)t * x;
    R xi = trevc_protectupdate(y, t, x, sfmax<R>());
    c.nontrivial(full > M / 16);
    if (full > M) c.label("scaling needed");
    alphaOk(c, "protectupdate", xi);
    c.check((Q)xi * full <= M * (1 + 8 * EPS<R>()), "protectupdate/overflow", "factor ", xi, " leaves ", qs((Q)xi * full / M), " times the bound");
    if (full <= M / 4) c.check(xi == R(1), "protectupdate/needless", "factor ", xi);
}
template <class R> void tSum(Case& c)
{
    using C = std::complex<R>;
    bool cx = c.coin();
    R a = genSigned<R>(c), b = genSigned<R>(c), a2 = genSigned<R>(c), b2 = genSigned<R>(c);
    if (!cx) a2 = b2 = R(0);
    std::string w = cx ? "protectsum/complex" : "protectsum/real";
    c.desc(w, "a", a, a2, "b", b, b2), c.label(w);
    Q M = (Q)sfmax<R>(), s = qabs((Q)a + b), s2 = qabs((Q)a2 + b2);
    R xi = cx ? trevc_protectsum(C(a, a2), C(b, b2), sfmax<R>()) : trevc_protectsum(a, b, sfmax<R>());
    c.nontrivial(s > M / 4 || s2 > M / 4);
    c.check(xi >= R(0.5) && xi <= R(1), w + "/factor", "factor ", xi);
    c.check((Q)xi * (s > s2 ? s : s2) <= M * (1 + 8 * EPS<R>()), w + "/overflow", "factor ", xi);
    if (s <= M / 2 && s2 <= M / 2) c.check(xi == R(1), w + "/needless", "factor ", xi);
}
template <class R> void tSolve(Case& c)
{
    struct QC { Q r = 0, i = 0; };
    auto mul = [](QC a, QC b) { return QC{a.r * b.r - a.i * b.i, a.r * b.i + a.i * b.r}; };
    auto ab = [](QC a) { return sqrtq(a.r * a.r + a.i * a.i); };
    bool cx = c.coin();
    int emax = 0;
    std::frexp(sfmax<R>(), &emax);
    int base = (int)c.pick<int>({0, 0, -emax / 8, emax / 8, -emax / 2}), sp = (int)c.pick<int>({1, 4, emax / 16});
    int mode = (int)c.draw(8);  // 0: exactly singular, 1: nearly singular
    R A[4][2], rhs[2][2];
    for (auto& q : A) for (int k = 0; k < 2; ++k) {
        q[k] = std::ldexp(uniR<R>(c) + (c.coin() ? R(1) : R(-1)), base + (int)c.range(-sp, sp));
        if (k == 1 && !cx) q[k] = R(0);
    }
    if (mode <= 1) {  // second row a power-of-two multiple of the first
        int s = (int)c.range(-4, 4);
        for (int k = 0; k < 2; ++k) A[2][k] = std::ldexp(A[0][k], s), A[3][k] = std::ldexp(A[1][k], s);
        if (mode == 1) A[3][0] *= R(1) + Lim<R>::epsilon() * R(1 + c.draw(8));
    }
    if (mode == 2) { int z = (int)c.draw(4); A[z][0] = A[z][1] = R(0); }
    for (auto& q : rhs) for (int k = 0; k < 2; ++k) {
        q[k] = c.coin() ? genSigned<R>(c) : std::ldexp(uniR<R>(c), (int)c.range(emax - 8, emax - 1));
        if (c.chance(1, 3)) q[k] = uniR<R>(c);
        if (k == 1 && !cx) q[k] = R(0);
    }
    std::string w = cx ? "2x2solve/complex" : "2x2solve/real";
    c.desc(w, "A", A[0][0], A[0][1], A[1][0], A[1][1], A[2][0], A[2][1], A[3][0], A[3][1], "rhs", rhs[0][0], rhs[0][1], rhs[1][0], rhs[1][1]);
    c.label(w), c.label(mode == 0 ? "singular" : mode == 1 ? "nearly singular" : "general");
    R x[2][2] = {{rhs[0][0], rhs[0][1]}, {rhs[1][0], rhs[1][1]}}, scale = Lim<R>::quiet_NaN();
    if (cx) trevc_2x2solve(A[0][0], A[0][1], A[1][0], A[1][1], A[2][0], A[2][1], A[3][0], A[3][1], x[0][0], x[0][1], x[1][0], x[1][1], scale, sfmin<R>(), sfmax<R>());
    else trevc_2x2solve(A[0][0], A[1][0], A[2][0], A[3][0], x[0][0], x[1][0], scale, sfmin<R>(), sfmax<R>());
    Q rn = 0;
    for (auto& q : rhs) rn = std::max(rn, std::max(qabs((Q)q[0]), qabs((Q)q[1])));
    c.nontrivial(rn > 0);
    c.check(scale >= R(0) && scale <= R(1), w + "/scale", "scale ", scale);
    if (scale < R(1)) c.label("scaled");
    for (auto& q : x) c.check(std::isfinite(q[0]) && std::isfinite(q[1]) && qabs((Q)q[0]) <= (Q)sfmax<R>() * 4 && qabs((Q)q[1]) <= (Q)sfmax<R>() * 4, w + "/overflow", "solution entry ", q[0], " ", q[1]);
    QC qa[4], qx[2];
    for (int k = 0; k < 4; ++k) qa[k] = {(Q)A[k][0], (Q)A[k][1]};
    for (int k = 0; k < 2; ++k) qx[k] = {(Q)x[k][0], (Q)x[k][1]};
    Q an = 0, xn = std::max(ab(qx[0]), ab(qx[1]));
    for (auto& q : qa) an = std::max(an, ab(q));
    if (rn > 0 && rn > 64 * an * (Q)sfmin<R>()) c.check(xn > 0, w + "/zero", "the solution vanishes, scale ", scale);
    for (int i = 0; i < 2; ++i) {
        QC s = mul(qa[2 * i], qx[0]), t = mul(qa[2 * i + 1], qx[1]);
        QC r{s.r + t.r - (Q)scale * rhs[i][0], s.i + t.i - (Q)scale * rhs[i][1]};
        // normwise backward error; a singular system is perturbed by a pivot of the size of the underflow threshold
        Q den = EPS<R>() * (an * xn + (Q)scale * rn) + 4 * (Q)sfmin<R>() * xn + 4 * DEN<R>() * (an + 1) + 4 * DEN<R>() * rn;
        c.ratio(w + "/residual", (double)(ab(r) / den), 40);
    }
}
template <class T, Layout L> void tNorms(Case& c)
{
    using R = real_t<T>;
    size_t n = (size_t)c.size(0, 9);
    GMat<T, L> G(c, n, n);
    Dense<T> S(n, n);
    std::vector<char> first(n, 0);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) S(i, j) = smallInt<T>(c, 7);
    if constexpr (!cplx<T>) for (size_t j = 0; j + 1 < n; ++j) if (c.chance(2, 5)) { S(j + 1, j) = R(c.range(1, 5)), first[j] = 1; ++j; }
    G.set(S);
    bool one = c.coin();
    c.desc(one ? "one" : "inf", "n", n, "S", show(S));
    auto A = G.cview();
    std::vector<R> N(n + 2, R(-7));
    LegacyVector<R> v(n, N.data());
    trevc_colnorms(one ? Norm::One : Norm::Inf, A, v);
    c.nontrivial(n >= 2);
    auto a1 = [](const T& z) { return std::fabs(re(z)) + std::fabs(im(z)); };
    for (size_t j = 0; j < n; ++j) {
        bool p = first[j];
        R s1 = 0, s2 = 0, m = 0;
        for (size_t i = 0; i < j; ++i) {
            s1 += a1(S(i, j));
            if (p) s2 += a1(S(i, j + 1));
            m = std::max<R>(m, a1(S(i, j)) + (p ? a1(S(i, j + 1)) : R(0)));
        }
        c.check(N[j] == (one ? s1 : m), "colnorms/value", "column ", j, ": ", N[j]);
        if (p) { ++j; c.check(N[j] == (one ? s2 : R(0)), "colnorms/pair", "column ", j, ": ", N[j]); }
    }
    c.check(N[n] == R(-7), "colnorms/overrun", "");
}
static const char* KR = "the unscaled operation is within a factor 1024 (division), 16 (update) or 4 (sum) of the bound or the divisor is below one";
static pbt::Reg a1("div/float", 40000, 2000000, tDiv<float>, KR), a2("div/double", 40000, 2000000, tDiv<double>, KR);
static pbt::Reg b1("update/float", 30000, 2000000, tUpd<float>, KR), b2("update/double", 30000, 2000000, tUpd<double>, KR);
static pbt::Reg c1("sum/float", 20000, 1000000, tSum<float>, KR), c2("sum/double", 20000, 1000000, tSum<double>, KR);
static const char* SR = "the right-hand side is not zero";
static pbt::Reg d1("solve2x2/float", 60000, 3000000, tSolve<float>, SR), d2("solve2x2/double", 60000, 3000000, tSolve<double>, SR);
static const char* NR = "order at least 2";
static pbt::Reg e1("colnorms/double/Row", 4000, 200000, tNorms<D, LR>, NR), e2("colnorms/float/Col", 4000, 200000, tNorms<F, LC>, NR), e3("colnorms/cdouble/Col", 4000, 200000, tNorms<CD, LC>, NR);
