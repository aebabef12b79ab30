#include "blasref.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/copy.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/dotu.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/rotm.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/swap.hpp"
constexpr Direction DF = Direction::Forward, DB = Direction::Backward;
static const char* RULE = "vector length at least 2";

// data for pure data movement: any bit pattern class
template <class T> T anyVal(Case& c)
{
    auto one = [&]() -> real_t<T> {
        using L = std::numeric_limits<real_t<T>>;
        switch (c.draw(9)) {
            case 5: return L::infinity();
            case 6: return L::quiet_NaN();
            case 7: return L::denorm_min();
            case 8: return L::max();
            default: return re(smallInt<real_t<T>>(c, 9));
        }
    };
    real_t<T> a = one(), b = one();
    return mk<T>(a, b);
}

template <class TX, class TY, class TA, class TS, Direction DX, Direction DY> void t1(Case& c)
{
    size_t n = c.chance(1, 30) ? (size_t)c.range(20, 200) : (size_t)c.size(0, 17);
    int op = (int)c.draw(8);
    const char* names[] = {"asum", "axpy", "copy", "dot", "dotu", "scal", "swap", "rot"};
    bool longer = (op == 1 || op == 2) && c.chance(1, 4);
    GVec<TX, DX> x(c, n);
    GVec<TY, DY> y(c, n + (longer ? (size_t)c.range(1, 4) : 0));
    auto xv = intVec<TX>(c, n, 9);
    auto yv = intVec<TY>(c, y.n, 9);
    if (op == 2) for (auto& v : xv) v = anyVal<TX>(c);
    if (op == 6 && std::is_same<TX, TY>::value) {
        for (auto& v : xv) v = anyVal<TX>(c);
        for (auto& v : yv) v = anyVal<TY>(c);
    }
    TA alpha = coefExact<TA>(c);
    x.set(xv), y.set(yv), x.snapshot(), y.snapshot();
    c.desc(names[op], "n", n, "incx", x.inc, "incy", y.inc, "alpha", widen<CW>(alpha), longer ? "y longer" : "", "x", show(colVec(xv)), "y", show(colVec(yv)));
    c.label(names[op]);
    c.nontrivial(n >= 2);
    auto X = x.view();
    auto Y = y.view();
    std::string w = names[op];
    auto expVec = [&](auto& v, const std::vector<CW>& want, const char* which) {
        for (size_t i = 0; i < v.n; ++i)
            if (!same(widen<CW>(v[i]), want[i])) c.fail(w + "/value", which, "[", i, "] got ", widen<CW>(v[i]), " want ", want[i]);
    };
    std::vector<CW> xw, yw;
    for (auto& v : xv) xw.push_back(widen<CW>(v));
    for (auto& v : yv) yw.push_back(widen<CW>(v));
    CW al = widen<CW>(alpha);
    switch (op) {
        case 0: {
            double s = 0;
            for (auto& v : xw) s += std::fabs(v.real()) + std::fabs(v.imag());
            auto r = tlapack::asum(X);
            c.check((double)r == s, "asum/value", "got ", (double)r, " want ", s);
            x.unchanged(c, w);
            break;
        }
        case 1: {
            tlapack::axpy(alpha, X, Y);
            for (size_t i = 0; i < n; ++i) yw[i] += al * xw[i];
            expVec(y, yw, "y");
            x.unchanged(c, w), y.margins(c, w);
            break;
        }
        case 2: {
            tlapack::copy(X, Y);
            for (size_t i = 0; i < n; ++i) yw[i] = xw[i];
            expVec(y, yw, "y");
            x.unchanged(c, w), y.margins(c, w);
            break;
        }
        case 3:
        case 4: {
            CW s = 0;
            for (size_t i = 0; i < n; ++i) s += (op == 3 ? std::conj(xw[i]) : xw[i]) * yw[i];
            CW r = op == 3 ? widen<CW>(tlapack::dot(X, Y)) : widen<CW>(tlapack::dotu(X, Y));
            c.check(same(r, s), w + "/value", "got ", r, " want ", s);
            x.unchanged(c, w), y.unchanged(c, w);
            break;
        }
        case 5: {
            tlapack::scal(alpha, Y);
            for (auto& v : yw) v *= al;
            expVec(y, yw, "y");
            y.margins(c, w);
            break;
        }
        case 6: {
            tlapack::swap(X, Y);
            expVec(y, xw, "y"), expVec(x, yw, "x");
            x.margins(c, w), y.margins(c, w);
            break;
        }
        default: {
            real_t<TX> cs = re(smallInt<real_t<TX>>(c, 2));
            TS s = smallInt<TS>(c, 2);
            if (c.chance(1, 10)) cs = 1, s = TS(0);
            tlapack::rot(X, Y, cs, s);
            CW sw = widen<CW>(s);
            for (size_t i = 0; i < n; ++i) {
                CW a = (double)cs * xw[i] + sw * yw[i], b = (double)cs * yw[i] - std::conj(sw) * xw[i];
                xw[i] = a, yw[i] = b;
            }
            expVec(y, yw, "y"), expVec(x, xw, "x");
            x.margins(c, w), y.margins(c, w);
        }
    }
}
template <class T, Direction DX, Direction DY> void tRotm(Case& c)
{
    size_t n = c.chance(1, 30) ? (size_t)c.range(18, 200) : (size_t)c.size(0, 17);
    int flag = (int)c.draw(4) - 2;
    GVec<T, DX> x(c, n);
    GVec<T, DY> y(c, n);
    auto xv = intVec<T>(c, n, 9), yv = intVec<T>(c, n, 9);
    x.set(xv), y.set(yv);
    T h[4];
    for (auto& v : h) v = smallInt<T>(c, 4);
    T H[2][2] = {{h[0], h[2]}, {h[1], h[3]}};
    // entries of h that the flag does not use are arbitrary
    if (flag == 0) H[0][0] = H[1][1] = 1, h[0] = h[3] = nanT<T>();
    if (flag == 1) H[0][1] = 1, H[1][0] = -1, h[1] = h[2] = nanT<T>();
    if (flag == -2) {
        H[0][0] = H[1][1] = 1, H[0][1] = H[1][0] = 0;
        for (auto& v : h) v = nanT<T>();
    }
    c.desc("rotm flag", flag, "n", n, "incx", x.inc, "incy", y.inc);
    c.label("rotm flag " + std::to_string(flag));
    c.nontrivial(n >= 2 && flag != -2);
    auto X = x.view();
    auto Y = y.view();
    if (flag == -2) tlapack::rotm<-2>(X, Y, h);
    if (flag == -1) tlapack::rotm<-1>(X, Y, h);
    if (flag == 0) tlapack::rotm<0>(X, Y, h);
    if (flag == 1) tlapack::rotm<1>(X, Y, h);
    for (size_t i = 0; i < n; ++i) {
        T a = H[0][0] * xv[i] + H[0][1] * yv[i], b = H[1][0] * xv[i] + H[1][1] * yv[i];
        c.check(x[i] == a && y[i] == b, "rotm/value", "i=", i, " got ", x[i], ",", y[i], " want ", a, ",", b);
    }
    x.margins(c, "rotm"), y.margins(c, "rotm");
}
static pbt::Reg a1("level1/double/FF", 100000, 2000000, t1<D, D, D, D, DF, DF>, RULE);
static pbt::Reg a2("level1/cdouble/FF", 100000, 2000000, t1<CD, CD, CD, CD, DF, DF>, RULE);
static pbt::Reg a3("level1/cfloat/BF", 100000, 2000000, t1<CF, CF, CF, CF, DB, DF>, RULE);
static pbt::Reg a4("level1/float/FB", 100000, 2000000, t1<F, F, F, F, DF, DB>, RULE);
static pbt::Reg a6("level1/cdouble-realcoef/BB", 60000, 1000000, t1<CD, CD, D, D, DB, DB>, RULE);
static pbt::Reg a7("rotm/double/FF", 60000, 1000000, tRotm<D, DF, DF>, RULE);
static pbt::Reg a8("rotm/float/BF", 60000, 1000000, tRotm<F, DB, DF>, RULE);
static pbt::Reg a9("level1/mixed F-D", 60000, 1000000, t1<F, D, D, D, DF, DF>, RULE);
