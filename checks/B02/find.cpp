#include "blasref.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/lapack/hasinf.hpp"
#include "tlapack/lapack/hasnan.hpp"
constexpr Direction DF = Direction::Forward, DB = Direction::Backward;
static const char* RULE = "length or both dimensions at least 2";

template <class T, Direction DX> void tIamax(Case& c)
{
    using R = real_t<T>;
    using L = std::numeric_limits<R>;
    size_t n = c.chance(1, 20) ? (size_t)c.range(20, 100) : (size_t)c.size(0, 14);
    GVec<T, DX> x(c, n);
    // magnitudes are p * 2^e with small odd p, so every magnitude is exact
    int mode = (int)c.draw(4);  // 0 ordinary, 1 huge (|re|+|im| may overflow), 2 tiny, 3 mixed
    bool nans = c.chance(1, 3), infs = c.chance(1, 3);
    auto comp = [&]() -> R {
        int p = (int)c.range(0, 7);
        R v = R(p);
        int m = mode == 3 ? (int)c.draw(3) : mode;
        if (m == 1) v = std::ldexp(v, L::max_exponent - 3);
        if (m == 2) v = v * L::denorm_min();
        if (nans && c.chance(1, 8)) v = L::quiet_NaN();
        if (infs && c.chance(1, 8)) v = L::infinity();
        return c.coin() ? -v : v;
    };
    std::vector<T> xv(n);
    for (auto& v : xv) { R a = comp(), b = comp(); v = mk<T>(a, b); }
    x.set(xv);
    x.snapshot();
    int call = (int)c.draw(5);  // 0 default, 1 ec, 2 nc, 3 options with nan=false, 4 options with nan=true
    int fn = call == 0 ? 0 : (int)c.draw(2);  // 0: |re|+|im|; 1: max(|re|,|im|)
    auto absf = [fn](const T& v) -> R {
        R a = std::fabs(re(v)), b = std::fabs(im(v));
        return fn ? std::max(a, b) : a + b;
    };
    bool nancheck = !(call == 2 || call == 3);
    c.desc("iamax call", call, "abs", fn, "mode", mode, "n", n, "inc", x.inc, "x", show(colVec(xv), 40));
    c.nontrivial(n >= 2);
    c.label("iamax call " + std::to_string(call));
    bool anyNan = false;
    for (auto& v : xv) anyNan = anyNan || isnanT(v);
    if (anyNan && !nancheck) for (auto& v : xv) if (isnanT(v)) v = T(1);  // behaviour on NaN is unspecified without the check
    x.set(xv);
    x.snapshot();
    size_t want = 0;
    bool found = false;
    for (size_t i = 0; i < n && !found; ++i) if (isnanT(xv[i])) want = i, found = true;
    for (size_t i = 0; i < n && !found; ++i) if (std::isinf(re(xv[i])) || std::isinf(im(xv[i]))) want = i, found = true;
    bool over = false;
    if (!found) {
        long double best = -1;
        for (size_t i = 0; i < n; ++i) {
            long double a = std::fabs((long double)re(xv[i])), b = std::fabs((long double)im(xv[i])), v = fn ? std::max(a, b) : a + b;
            over = over || v > (long double)L::max();
            if (v > best) best = v, want = i;
        }
    }
    if (over) c.label("magnitude overflows");
    auto X = x.view();
    size_t got;
    tlapack::EcOpts ec;
    ec.ec.nan = call == 4;
    if (call == 0) got = tlapack::iamax(X);
    else if (call == 1) got = tlapack::iamax_ec(X, absf);
    else if (call == 2) got = tlapack::iamax_nc(X, absf);
    else got = tlapack::iamax(X, tlapack::IamaxOpts<decltype(absf)>(absf, ec));
    // several entries within rounding of the maximum cannot occur: magnitudes are small integers times a power of two,
    // except that mixed scales can be absorbed; accept any index whose rounded magnitude is the largest
    if (got != want) {
        bool tie = false;
        if (!found && got < n && n > 0) {
            long double a = std::fabs((long double)re(xv[got])), b = std::fabs((long double)im(xv[got])), v = fn ? std::max(a, b) : a + b;
            long double a2 = std::fabs((long double)re(xv[want])), b2 = std::fabs((long double)im(xv[want])), v2 = fn ? std::max(a2, b2) : a2 + b2;
            tie = v >= v2 * (1 - 4 * (long double)L::epsilon()) && v != v2;
        }
        c.check(tie, "iamax/index", "got ", got, " want ", want);
    }
    x.unchanged(c, "iamax");
}

template <class T, Layout L> void tHas(Case& c)
{
    using R = real_t<T>;
    using NL = std::numeric_limits<R>;
    size_t m = c.chance(1, 30) ? (size_t)c.range(10, 80) : (size_t)c.size(0, 9), n = c.chance(1, 30) ? (size_t)c.range(10, 80) : (size_t)c.size(0, 9);
    int acc = (int)c.draw(8);
    const Uplo ups[] = {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower};
    const char* names[] = {"General", "UpperHessenberg", "LowerHessenberg", "Upper", "Lower", "StrictUpper", "StrictLower", "Band"};
    size_t kl = 0, ku = 0;
    if (acc == 7) kl = (size_t)c.range(0, 10), ku = (size_t)c.range(0, 10);
    // storage around the matrix is full of NaN or Inf, so reading outside is visible
    GMat<T, L> A(c, m, n);
    bool margInf = c.coin();
    T bad = margInf ? mk<T>(NL::infinity(), R(0)) : nanT<T>();
    A.canary = bad;
    for (size_t k = 0; k < A.buf.size(); ++k) A.buf[k] = bad;
    Dense<T> a = intMat<T>(c, m, n, 5);
    auto in = [&](size_t i, size_t j) {
        switch (acc) {
            case 0: return true;
            case 1: return i <= j + 1;
            case 2: return j <= i + 1;
            case 3: return i <= j;
            case 4: return i >= j;
            case 5: return i < j;
            case 6: return i > j;
            default: return i <= j + kl && j <= i + ku;
        }
    };
    // put few bad entries, inside or outside of the referenced part
    int k = (int)c.draw(4);
    bool onlyOutside = c.coin(), wantN = false, wantI = false;
    int placed = 0;
    for (int q = 0; q < k * 3 && m && n; ++q) {
        size_t i = (size_t)c.draw(m), j = (size_t)c.draw(n);
        int kind = (int)c.draw(3);
        if (onlyOutside && in(i, j)) continue;
        R b = kind == 0 ? NL::quiet_NaN() : kind == 1 ? NL::infinity() : -NL::infinity();
        a(i, j) = cplx<T> && c.coin() ? mk<T>(R(1), b) : mk<T>(b, R(2));
        ++placed;
        if (placed >= k) break;
    }
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (in(i, j)) {
        wantN = wantN || isnanT(a(i, j));
        wantI = wantI || std::isinf(re(a(i, j))) || std::isinf(im(a(i, j)));
    }
    A.set(a);
    A.snapshot();
    c.desc(names[acc], "m", m, "n", n, "kl", kl, "ku", ku, "A", show(a, 10));
    c.label(names[acc]);
    c.nontrivial(m >= 2 && n >= 2);
    auto V = A.view();
    bool gn, gi;
    if (acc == 7) {
        tlapack::BandAccess b{kl, ku};
        gn = tlapack::hasnan(b, V), gi = tlapack::hasinf(b, V);
    }
    else gn = tlapack::hasnan(ups[acc], V), gi = tlapack::hasinf(ups[acc], V);
    c.check(gn == wantN, std::string("hasnan/") + names[acc], "got ", gn, " want ", wantN);
    c.check(gi == wantI, std::string("hasinf/") + names[acc], "got ", gi, " want ", wantI);
    A.unchanged(c, "hasnan/hasinf");
    if (n > 0 && m > 0) {
        size_t j = (size_t)c.draw(n);
        auto v = tlapack::col(V, j);
        bool wn = false, wi = false;
        for (size_t i = 0; i < m; ++i) wn = wn || isnanT(a(i, j)), wi = wi || std::isinf(re(a(i, j))) || std::isinf(im(a(i, j)));
        c.check(tlapack::hasnan(v) == wn, "hasnan/vector", "column ", j);
        c.check(tlapack::hasinf(v) == wi, "hasinf/vector", "column ", j);
    }
}
static pbt::Reg i1("iamax/double/F", 150000, 3000000, tIamax<D, DF>, RULE);
static pbt::Reg i2("iamax/cdouble/B", 200000, 4000000, tIamax<CD, DB>, RULE);
static pbt::Reg i3("iamax/cfloat/F", 200000, 4000000, tIamax<CF, DF>, RULE);
static pbt::Reg i4("iamax/float/B", 100000, 3000000, tIamax<F, DB>, RULE);
static pbt::Reg h1("hasnan-hasinf/double/C", 150000, 2000000, tHas<D, LC>, RULE);
static pbt::Reg h2("hasnan-hasinf/cfloat/R", 150000, 2000000, tHas<CF, LR>, RULE);
