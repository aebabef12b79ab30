// flags: -DTLAPACK_CHECK_INPUT
// libs: -lquadmath
#include "blasref.hpp"
#include "range.hpp"
#include "tlapack/lapack/larfg.hpp"
using tlapack::StoreV;
struct CQ {
    Q r, i;
    CQ(Q r = 0, Q i = 0) : r(r), i(i) {}
    template <class T> static CQ of(const T& x) { return CQ((Q)re(x), (Q)im(x)); }
    CQ operator+(CQ b) const { return {r + b.r, i + b.i}; }
    CQ operator-(CQ b) const { return {r - b.r, i - b.i}; }
    CQ operator*(CQ b) const { return {r * b.r - i * b.i, r * b.i + i * b.r}; }
    CQ conj() const { return {r, -i}; }
    Q abs2() const { return r * r + i * i; }
};
template <class T, Direction DI> void tLarfg(Case& c)
{
    using R = real_t<T>;
    size_t n = c.chance(1, 20) ? (size_t)c.range(10, 120) : (size_t)c.size(1, 10);
    Spread s = genSpread<R>(c);
    std::vector<T> a(n);
    bool zerox = c.chance(1, 10), tinyx = c.chance(1, 6);
    for (size_t i = 0; i < n; ++i) a[i] = genT<T>(c, s);
    size_t ia = 0;
    Direction dir = c.pick({Direction::Forward, Direction::Backward});
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    bool split = c.coin();  // alpha and x separately
    if (dir == Direction::Backward && !split) ia = n - 1;
    for (size_t i = 0; i < n; ++i) if (i != ia) {
        if (zerox) a[i] = T(0);
        else if (tinyx) a[i] = scaleP2(a[i], -Lim<R>::digits / 2);
    }
    if (cplx<T> && c.chance(1, 4)) a[ia] = T(re(a[ia]));
    if (c.chance(1, 12)) a[ia] = T(0);
    Q nrm2 = 0;
    bool xz = true;
    for (size_t i = 0; i < n; ++i) nrm2 += CQ::of(a[i]).abs2(), xz &= i == ia || a[i] == T(0);
    Q nrm = sqrtq(nrm2);
    c.desc("larfg", st == StoreV::Columnwise ? "Col" : "Row", split ? "split" : dir == Direction::Forward ? "F" : "B", "n", n, "v", show(colVec(a)));
    if (nrm > MAXQ<R>() / 4) throw pbt::Discard();  // alpha - beta overflows
    c.label(std::string("larfg ") + (nrm == 0 ? "zero" : nrm < (Q)Lim<R>::min() / EPS<R>() ? "rescaled" : xz ? "x=0" : "plain"));
    c.nontrivial(n >= 2 && nrm > 0);
    T tau = nanT<T>(), beta;
    std::vector<T> v(n);
    if (split) {
        GVec<T, DI> x(c, n - 1);
        for (size_t i = 1; i < n; ++i) x[i - 1] = a[i];
        auto X = x.view();
        T alpha = a[0];
        tlapack::larfg(st, alpha, X, tau);
        beta = alpha;
        x.margins(c, "larfg");
        for (size_t i = 1; i < n; ++i) v[i] = x[i - 1];
    }
    else {
        GVec<T, Direction::Forward> x(c, n);
        x.set(a);
        auto X = x.view();
        tlapack::larfg(dir, st, X, tau);
        x.margins(c, "larfg");
        v = x.get();
        beta = v[ia];
    }
    v[ia] = T(1);
    if (xz && im(a[ia]) == R(0)) {
        c.check(tau == T(0), "larfg/identity-tau", re(tau));
        c.check(same(beta, a[ia]), "larfg/identity-beta");
        for (size_t i = 0; i < n; ++i) c.check(i == ia || v[i] == T(0), "larfg/identity-x", i);
        return;
    }
    c.check(im(beta) == R(0), "larfg/beta-real", im(beta));
    c.check(isfin(tau) && allFinite(colVec(v)), "larfg/finite");
    double e = eps<T>();
    Q tm1 = sqrtq((CQ::of(tau) - CQ(1)).abs2());
    c.ratio("larfg/abs(tau-1)", (double)tm1 - 1, 8 * e);
    c.check((double)re(tau) >= 1 - 8 * e && (double)re(tau) <= 2 + 8 * e, "larfg/real(tau)", (double)re(tau));
    // Columnwise: v = (1; y), H = I - tau v v^H, H^H a = beta e.   Rowwise: v = (1 y), H = I - tau v^H v, a H = beta e.
    Q vv = 0;
    CQ dotp(0);
    for (size_t i = 0; i < n; ++i) {
        vv += CQ::of(v[i]).abs2();
        dotp = dotp + CQ::of(v[i]).conj() * CQ::of(a[i]);
    }
    // Columnwise: H^H a = a - conj(tau) v (v^H a);  Rowwise: a H = a - tau (a v^H) v
    CQ f = (st == StoreV::Columnwise ? CQ::of(tau).conj() : CQ::of(tau)) * dotp;
    Q err2 = 0;
    for (size_t i = 0; i < n; ++i) {
        CQ r = CQ::of(a[i]) - CQ::of(v[i]) * f;
        if (i == ia) r = r - CQ::of(beta);
        err2 += r.abs2();
    }
    double k = 16 + 0.5 * n;
    Q tol = k * EPS<R>() * nrm + 4 * DEN<R>() * sqrtq((Q)n);
    c.ratio("larfg/annihilates", (double)(sqrtq(err2) / tol), 1);
    Q un = qabs(CQ::of(tau).abs2() * vv - 2 * (Q)re(tau)) * vv;
    c.ratio("larfg/unitary", (double)un, k * e);
    near(c, "larfg/norm", (R)std::fabs(re(beta)), nrm, 8 + n, 4);
}
static const char* RULE = "at least two entries, not all zero";
static pbt::Reg a1("larfg/double", 80000, 2000000, tLarfg<D, Direction::Forward>, RULE);
static pbt::Reg a2("larfg/float", 80000, 2000000, tLarfg<F, Direction::Backward>, RULE);
static pbt::Reg a3("larfg/cdouble", 80000, 2000000, tLarfg<CD, Direction::Backward>, RULE);
static pbt::Reg a4("larfg/cfloat", 80000, 2000000, tLarfg<CF, Direction::Forward>, RULE);
