// Full exponent-range generators and quadruple-precision references.
#pragma once
#include <quadmath.h>
#include "blasref.hpp"
using Q = __float128;
template <class R> using Lim = std::numeric_limits<R>;
// finite number, exponent spread over the whole range or around a centre
struct Spread { int centre, width; };
template <class R> Spread genSpread(Case& c)
{
    int lo = Lim<R>::min_exponent - Lim<R>::digits, hi = Lim<R>::max_exponent;
    int mode = (int)c.draw(4);
    if (mode == 0) return {0, 4};
    if (mode == 1) return {(int)c.range(lo, hi), 3};
    if (mode == 2) return {(int)c.range(lo, hi), 60};
    return {(lo + hi) / 2, hi - lo};
}
template <class R> R genR(Case& c, Spread s)
{
    int lo = Lim<R>::min_exponent - Lim<R>::digits, hi = Lim<R>::max_exponent;
    switch (c.draw(24)) {
        case 20: return R(0);
        case 21: return c.coin() ? Lim<R>::max() : Lim<R>::denorm_min();
        case 22: return c.coin() ? Lim<R>::min() : R(1);
    }
    int e = s.centre + (int)c.range(-s.width / 2 - 1, s.width / 2 + 1);
    e = std::min(std::max(e, lo + 1), hi);
    R m = R(0.5) + uniR<R>(c) * R(0.25) * R(2) * R(0.99);
    if (m == R(0)) m = R(0.5);
    if (m < R(0) ? m > R(-0.5) : m < R(0.5)) m += m < R(0) ? R(-0.5) : R(0.5);
    R v = std::ldexp(m, e);
    return std::isfinite(v) ? v : Lim<R>::max();
}
template <class T> T genT(Case& c, Spread s)
{
    if constexpr (cplx<T>) { auto a = genR<real_t<T>>(c, s), b = genR<real_t<T>>(c, s); return T(a, b); }
    else return genR<T>(c, s);
}
template <class R> R genSpecial(Case& c) { return c.coin() ? Lim<R>::quiet_NaN() : (c.coin() ? -Lim<R>::infinity() : Lim<R>::infinity()); }
static Q qabs(Q x) { return fabsq(x); }
template <class R> Q EPS() { return (Q)Lim<R>::epsilon(); }
template <class R> Q DEN() { return (Q)Lim<R>::denorm_min(); }
template <class R> Q MAXQ() { return (Q)Lim<R>::max(); }
inline std::string qs(Q x) { char b[64]; quadmath_snprintf(b, sizeof b, "%.20Qg", x); return b; }
// relative to eps, absolute to a few subnormals; overflow only when the exact value overflows
template <class R> void near(Case& c, const std::string& w, R got, Q want, double k, double d, Q scale = -1)
{
    Q a = scale < 0 ? qabs(want) : scale;
    if (a > MAXQ<R>() * (1 - 200 * EPS<R>())) return;
    Q err = qabs((Q)got - want), tol = k * EPS<R>() * a + d * DEN<R>();
    if (!(got == got) || !(err <= tol)) c.fail(w + "/value", "got ", (double)got, " want ", qs(want), " tolerance ", qs(tol));
    c.ratio(w, (double)(err / tol), 1);
}

