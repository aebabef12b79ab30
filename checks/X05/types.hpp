// Scalar types beyond float and double.
#pragma once
#if defined(X5_QUAD)
    #include "tlapack/plugins/gnuquad.hpp"
using Rl = __float128;
constexpr int DIG = 113;
#elif defined(X5_MP)
    #include "tlapack/plugins/mpreal.hpp"
using Rl = mpfr::mpreal;
constexpr int DIG = X5_MP;
static const int x5prec = (mpfr::mpreal::set_default_prec(X5_MP), 0);
#elif defined(X5_HALF)
    #include "tlapack/plugins/eigen_half.hpp"
using Rl = Eigen::half;
constexpr int DIG = 11;
#elif defined(X5_BF16)
    #include "tlapack/plugins/eigen_bfloat16.hpp"
using Rl = Eigen::bfloat16;
constexpr int DIG = 8;
#elif defined(X5_FLOAT)
using Rl = float;
constexpr int DIG = 24;
#elif defined(X5_DOUBLE)
using Rl = double;
constexpr int DIG = 53;
#else
using Rl = long double;
constexpr int DIG = 64;
#endif
#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"
#include "tlapack/base/utils.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "la.hpp"
using namespace pbt;
using namespace la;
// 2^-(DIG-1), the spacing of the type at 1
inline double ULP() { return std::ldexp(1.0, 1 - DIG); }
template <class R> R pow2(int e)
{
    R x(1), b = e < 0 ? R(0.5) : R(2);
    for (int k = std::abs(e); k > 0; k >>= 1, b = b * b) if (k & 1) x = x * b;
    return x;
}
// uniform in (-1,1) with all digits of the type
template <class R> R full(Case& c)
{
    if constexpr (DIG < 24) { R x((float)std::ldexp((double)c.draw(1u << DIG), -DIG)); return c.coin() ? R(-x) : x; }
    R x(0), s = pow2<R>(-30);
    for (int k = DIG; k > -3; k -= 30) x = x + R((double)c.draw(1u << 30)) * s, s = s * pow2<R>(-30);
    return c.coin() ? R(-x) : x;
}
template <class T> T fullT(Case& c)
{
    if constexpr (cplx<T>) { real_t<T> a = full<real_t<T>>(c), b = full<real_t<T>>(c); return T(a, b); }
    else return full<T>(c);
}
template <class T> Dense<T> gen(Case& c, size_t m, size_t n, std::string& kind)
{
    using R = real_t<T>;
    Dense<T> A(m, n);
    for (auto& x : A.a) x = fullT<T>(c);
    switch (c.draw(6)) {
        case 1: kind = "integers"; for (auto& x : A.a) x = smallInt<T>(c); break;
        case 2: kind = "graded"; for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = T(A(i, j) * pow2<R>(-(int)((i + j) / 2) * std::min(3, DIG / 8))); break;
        case 3: kind = "sparse"; for (auto& x : A.a) if (c.coin()) x = T(R(0)); break;
        case 4: kind = "rank one plus noise"; for (size_t j = 1; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = T(A(i, 0) + A(i, j) * pow2<R>(-DIG / 2)); break;
        default: kind = "uniform";
    }
    return A;
}
template <class T> double nrm(const Dense<T>& A)
{
    double s = 0;
    for (auto& x : A.a) { double p = (double)re(x), q = (double)im(x); s += p * p + q * q; }
    return std::sqrt(s);
}
// residual || X Y - Z ||_F / scale in units of the type's precision
template <class T> void res(Case& c, const std::string& name, const Dense<T>& D, double scale, size_t n, double K)
{
    double v = nrm(D);
    if (!(v == v)) c.fail(name + "/nan", "result contains NaN");
    if (scale == 0 && v == 0) return;
    c.ratio(name, v / (ULP() * (double)std::max<size_t>(n, 1) * scale), K);
}
template <class T> void unit(Case& c, const std::string& name, const Dense<T>& Q, double K)
{
    Dense<T> G = sub(mul(ct(Q), Q), eye<T>(Q.n));
    res(c, name, G, 1, std::max(Q.m, Q.n), K);
}
template <class T> using GM = GMat<T, Layout::ColMajor>;
