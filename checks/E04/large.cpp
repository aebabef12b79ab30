// flags: -O2
// Working sizes: many sweeps, splits in the middle, clustered and graded spectra.
#include "big.hpp"
#include "tlapack/lapack/steqr.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    using R = real_t<T>;
    size_t n = (size_t)c.range(100, c.chance(1, 4) ? 400 : 200);
    std::mt19937_64 g(c.draw(1ULL << 32));
    std::normal_distribution<double> N;
    const char* names[] = {"gaussian", "1-2-1", "Wilkinson", "graded up", "graded down", "weakly coupled", "splits", "clustered"};
    int k = (int)c.draw(8);
    std::vector<R> d(n), e(n);
    int dg = std::numeric_limits<R>::digits;
    for (size_t i = 0; i < n; ++i) {
        double x = N(g), y = N(g);
        int up = (int)(2 * dg * i / n), sh = k == 3 ? up - dg : k == 4 ? dg - up : 0;
        if (k == 1) x = 2, y = -1;
        if (k == 2) x = std::fabs((double)(n / 2) - (double)i), y = 1;
        if (k == 5) y = std::ldexp(y, -(int)(g() % (unsigned)dg));
        if (k == 6 && g() % 8 == 0) y = 0;
        if (k == 7) x = 1 + std::ldexp(x, -dg / 2), y = std::ldexp(y, -dg / 2);
        d[i] = (R)std::ldexp(x, sh), e[i] = (R)std::ldexp(y, sh);
    }
    Dense<T> B(n, n);
    for (size_t i = 0; i < n; ++i) {
        B(i, i) = T(d[i]);
        if (i + 1 < n) B(i, i + 1) = B(i + 1, i) = T(e[i]);
    }
    std::string w = "steqr large";
    c.desc(w, "n", n, names[k]), c.label(names[k]), c.nontrivial(true);
    GMat<T, L> GZ(c, n, n);
    GZ.set(eye<T>(n));
    GVec<R> gd(c, n), ge(c, n - 1), hd(c, n), he(c, n - 1);
    for (size_t i = 0; i < n; ++i) {
        gd[i] = hd[i] = d[i];
        if (i + 1 < n) ge[i] = he[i] = e[i];
    }
    auto Z = GZ.view();
    {
        auto dv = gd.view(), ev = ge.view();
        int info = steqr(true, dv, ev, Z);
        c.check(info == 0, w + "/info", "returned ", info);
    }
    {
        auto dv = hd.view(), ev = he.view();
        int info = steqr(false, dv, ev, Z);
        c.check(info == 0, w + "/info without Z", "returned ", info);
    }
    GZ.margins(c, w + "/Z"), gd.margins(c, w + "/d"), ge.margins(c, w + "/e");
    Dense<T> S(n, n);
    double nb = normF(B);
    for (size_t i = 0; i < n; ++i) {
        c.check(i == 0 || gd[i - 1] <= gd[i], w + "/order", "at ", i);
        c.ratio(w + "/values", std::fabs((double)gd[i] - (double)hd[i]), bigTol<T>(n) * nb);
        S(i, i) = T(gd[i]);
    }
    c.ratio(w + "/Z-orthogonal", orthD(GZ.get()), 3 * bigTol<T>(n));
    c.ratio(w + "/residual", simErr(GZ.get(), S, GZ.get(), B), bigTol<T>(n) / 5);
}
static const char* RL = "order at least 100";
static pbt::Reg a1("large/float/Row", 40, 800, tLarge<F, LR>, RL);
static pbt::Reg a2("large/double/Col", 40, 800, tLarge<D, LC>, RL);
static pbt::Reg a3("large/cfloat/Col", 30, 500, tLarge<CF, LC>, RL);
static pbt::Reg a4("large/cdouble/Row", 30, 500, tLarge<CD, LR>, RL);
