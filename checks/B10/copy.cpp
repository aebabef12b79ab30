// flags: -DTLAPACK_CHECK_INPUT
#include <random>
#include "blasref.hpp"
#include "tlapack/lapack/conjugate.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/lamrg.hpp"
#include "tlapack/lapack/larnv.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/lasrt.hpp"
#include "tlapack/lapack/transpose.hpp"
template <class T> Dense<T> anyMat(Case& c, size_t m, size_t n)
{
    Dense<T> A(m, n);
    for (auto& x : A.a) x = c.chance(1, 20) ? mk<T>(std::numeric_limits<real_t<T>>::infinity(), re(nanT<T>())) : uni<T>(c);
    return A;
}
static bool part(Uplo u, size_t i, size_t j) { return inTri(u, i, j); }
template <class T, class TB, Layout LA, Layout LB> void tCopy(Case& c)
{
    size_t m = dim(c), n = dim(c);
    Uplo uplo = c.pick({Uplo::General, Uplo::Lower, Uplo::Upper});
    int op = (int)c.draw(4);
    const char* names[] = {"lacpy", "laset", "transpose", "conjtranspose"};
    std::string w = names[op];
    Dense<T> a = anyMat<T>(c, m, n);
    GMat<T, LA> A(c, m, n);
    A.set(a);
    A.snapshot();
    auto Av = A.view();
    c.label(w + " " + (op < 2 ? nm(uplo) : ""));
    c.nontrivial(m >= 2 && n >= 2);
    if (op == 0) {
        size_t em = (size_t)c.pick({0, 0, 1, 4}), en = (size_t)c.pick({0, 0, 1, 4});
        c.desc(w, nm(uplo), "m", m, "n", n, "B", m + em, n + en);
        GMat<TB, LB> B(c, m + em, n + en);
        B.set(anyMat<TB>(c, m + em, n + en));
        B.snapshot();
        auto Bv = B.view();
        tlapack::lacpy(uplo, Av, Bv);
        auto sel = [&](size_t i, size_t j) { return i < m && j < n && part(uplo, i, j); };
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
            if (sel(i, j)) c.check(same(B(i, j), (TB)widen<TB>(a(i, j))), w + "/value", "entry (", i, ",", j, ")");
        B.onlyChanged(c, w, sel);
        A.unchanged(c, w + "/A");
    }
    else if (op == 1) {
        T al = uni<T>(c), be = uni<T>(c);
        c.desc(w, nm(uplo), "m", m, "n", n);
        tlapack::laset(uplo, al, be, Av);
        auto sel = [&](size_t i, size_t j) { return part(uplo, i, j); };
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
            if (sel(i, j)) c.check(same(A(i, j), i == j ? be : al), w + "/value", "entry (", i, ",", j, ")");
        A.onlyChanged(c, w, sel);
    }
    else {
        if constexpr (std::is_same_v<T, TB>) {
            tlapack::TransposeOpts o;
            bool def = c.coin();
            if (!def) o.nx = (size_t)c.range(2, 20);
            c.desc(w, "m", m, "n", n, "nx", o.nx);
            if (std::min(m, n) > o.nx) c.label(w + " recursive");
            GMat<T, LB> B(c, n, m);
            auto Bv = B.view();
            if (op == 2) def ? tlapack::transpose(Av, Bv) : tlapack::transpose(Av, Bv, o);
            else def ? tlapack::conjtranspose(Av, Bv) : tlapack::conjtranspose(Av, Bv, o);
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
                c.check(same(B(j, i), op == 2 ? a(i, j) : cj(a(i, j))), w + "/value", "entry (", j, ",", i, ")");
            B.margins(c, w), A.unchanged(c, w + "/A");
        }
    }
}
template <class T, Direction DI> void tConj(Case& c)
{
    size_t n = dim(c);
    GVec<T, DI> x(c, n);
    auto v = anyMat<T>(c, n, 1).a;
    x.set(v);
    c.desc("conjugate n", n, "inc", x.inc);
    c.nontrivial(n >= 1);
    auto X = x.view();
    tlapack::conjugate(X);
    for (size_t i = 0; i < n; ++i) c.check(same(x[i], cj(v[i])), "conjugate/value", i);
    x.margins(c, "conjugate");
}
// sort and merge: any representable values with many ties
template <class R> std::vector<R> sortable(Case& c, size_t n)
{
    std::vector<R> v(n);
    int mode = (int)c.draw(6);
    size_t k = 1 + c.draw(5);
    for (size_t i = 0; i < n; ++i) {
        if (mode == 0) v[i] = R(c.draw(3));
        else if (mode == 1) v[i] = R(i);
        else if (mode == 2) v[i] = R(n - i);
        else if (mode == 3) v[i] = R(i % (k + 1));
        else v[i] = uniR<R>(c);
    }
    if (mode == 5 && n) // nearly sorted
    {
        std::sort(v.begin(), v.end());
        for (size_t q = 0; q < k; ++q) std::swap(v[c.draw(n)], v[c.draw(n)]);
    }
    if (n && c.chance(1, 8)) v[c.draw(n)] = c.coin() ? std::numeric_limits<R>::infinity() : -std::numeric_limits<R>::infinity();
    return v;
}
template <class R, class I> void tSort(Case& c)
{
    size_t n = c.chance(1, 3) ? (size_t)c.range(20, 150) : (size_t)c.size(0, 30);
    bool up = c.coin();
    char id = up ? (c.coin() ? 'I' : 'i') : (c.coin() ? 'D' : 'd');
    auto v = sortable<R>(c, n);
    // more elements than are to be sorted: they stay
    size_t ex = (size_t)c.pick({0, 0, 3});
    GVec<R> x(c, n + ex);
    for (size_t i = 0; i < n; ++i) x[i] = v[i];
    for (size_t i = 0; i < ex; ++i) x[n + i] = R(-77);
    c.desc("lasrt", id, "n", n, show(colVec(v), 12));
    c.label(std::string("lasrt ") + (n > 20 ? "quick" : "insertion"));
    c.nontrivial(n >= 3);
    auto X = x.view();
    int info = tlapack::lasrt(id, (I)n, X);
    c.check(info == 0, "lasrt/info", info);
    auto w = v;
    std::sort(w.begin(), w.end());
    if (!up) std::reverse(w.begin(), w.end());
    for (size_t i = 0; i < n; ++i) c.check(x[i] == w[i], "lasrt/value", "position ", i, " got ", x[i], " want ", w[i]);
    for (size_t i = 0; i < ex; ++i) c.check(x[n + i] == R(-77), "lasrt/tail-changed", i);
    x.margins(c, "lasrt");
    c.check(tlapack::lasrt('x', (I)n, X) == -1, "lasrt/bad-id");
    for (size_t i = 0; i < n; ++i) c.check(x[i] == w[i], "lasrt/bad-id-changed", i);
}
template <class R, class I> void tMerge(Case& c)
{
    size_t n1 = (size_t)c.size(0, 30), n2 = (size_t)c.size(0, 30);
    int d1 = c.coin() ? 1 : -1, d2 = c.coin() ? 1 : -1;
    auto v = sortable<R>(c, n1 + n2);
    std::sort(v.begin(), v.begin() + n1), std::sort(v.begin() + n1, v.end());
    if (d1 < 0) std::reverse(v.begin(), v.begin() + n1);
    if (d2 < 0) std::reverse(v.begin() + n1, v.end());
    std::vector<I> ix(n1 + n2 + 2, I(9999));
    c.desc("lamrg", n1, n2, d1, d2, show(colVec(v), 12));
    c.label("lamrg");
    c.nontrivial(n1 >= 1 && n2 >= 1);
    auto v0 = v;
    tlapack::lamrg((I)n1, (I)n2, v, d1, d2, ix);
    c.check(v == v0, "lamrg/input-changed");
    c.check(ix[n1 + n2] == I(9999) && ix[n1 + n2 + 1] == I(9999), "lamrg/past-end");
    std::vector<bool> seen(n1 + n2, false);
    for (size_t i = 0; i < n1 + n2; ++i) {
        c.check((size_t)ix[i] < n1 + n2 && !seen[ix[i]], "lamrg/permutation", "index ", ix[i], " at ", i);
        seen[ix[i]] = true;
        if (i) c.check(v[ix[i - 1]] <= v[ix[i]], "lamrg/order", i);
    }
}
template <class T, int ID> void rnv(Case& c, size_t n, uint64_t seed)
{
    using R = real_t<T>;
    GVec<T> x(c, n), y(c, n), z(c, n);
    auto X = x.view(), Y = y.view(), Z = z.view();
    uint64_t s1 = seed, s2 = seed;
    int s3 = (int)seed;
    tlapack::larnv<ID>(s1, X);
    tlapack::larnv<ID>(s2, Y);
    tlapack::larnv<ID>(s3, Z);
    std::string w = "larnv" + std::to_string(ID);
    c.check(s1 == seed + 1 && s2 == seed + 1 && s3 == (int)seed + 1, w + "/seed");
    double sum = 0, sq = 0, cross = 0, lag = 0;
    long cnt = 0;
    double prev = 0;
    for (size_t i = 0; i < n; ++i) {
        T v = x[i];
        c.check(same(v, y[i]) && same(v, z[i]), w + "/deterministic", i);
        c.check(isfin(v), w + "/finite", i);
        for (int k = 0; k < (cplx<T> ? 2 : 1); ++k) {
            double u = k ? im(v) : re(v);
            if (ID == 1) c.check(u >= 0 && u <= 1, w + "/range", u);
            if (ID == 2) c.check(u >= -1 && u <= 1, w + "/range", u);
            if (ID == 1) u -= 0.5;
            sum += u, sq += u * u, lag += u * prev, prev = u, ++cnt;
        }
        if (cplx<T>) {
            double ctr = ID == 1 ? 0.5 : 0;
            cross += (re(v) - ctr) * (im(v) - ctr);
        }
        if (ID == 4) c.check(mag(v) <= 1 + 4 * eps<T>(), w + "/range", mag(v));
        if (ID == 5) c.check(std::fabs(mag(v) - 1) <= 4 * eps<T>(), w + "/range", mag(v));
    }
    x.margins(c, w);
    if (cnt >= 400) {
        double var = ID == 1 ? 1. / 12 : ID == 2 ? 1. / 3 : ID == 3 ? 1 : ID == 4 ? .25 : .5, kurt = ID == 3 ? 3 : 1.8;
        c.ratio(w + "/mean", std::fabs(sum / cnt), 8 * std::sqrt(var / cnt));
        c.ratio(w + "/variance", std::fabs(sq / cnt - var), 8 * var * std::sqrt(kurt / cnt));
        c.ratio(w + "/autocorrelation", std::fabs(lag / cnt), 8 * var * std::sqrt(1.0 / cnt));
        if (cplx<T>) c.ratio(w + "/cross", std::fabs(cross / (cnt / 2)), 10 * var * std::sqrt(2.0 / cnt));
    }
    // another seed gives other numbers
    if (n >= 4) {
        bool diff = false;
        tlapack::larnv<ID>(s1, Y);
        for (size_t i = 0; i < n; ++i) diff |= !same(x[i], y[i]);
        c.check(diff, w + "/next-seed-differs");
    }
    (void)sizeof(R);
}
template <class T> void tRnv(Case& c)
{
    size_t n = c.chance(1, 4) ? (size_t)c.range(400, 2000) : (size_t)c.size(0, 60);
    uint64_t seed = c.draw(1u << 20);
    int id = 1 + (int)c.draw(cplx<T> ? 5 : 3);
    c.desc("larnv", id, "n", n, "seed", seed);
    c.label("larnv" + std::to_string(id));
    c.nontrivial(n >= 4);
    if (id == 1) rnv<T, 1>(c, n, seed);
    if (id == 2) rnv<T, 2>(c, n, seed);
    if (id == 3) rnv<T, 3>(c, n, seed);
    if constexpr (cplx<T>) {
        if (id == 4) rnv<T, 4>(c, n, seed);
        if (id == 5) rnv<T, 5>(c, n, seed);
    }
}
static const char* RULE = "at least 2x2 matrix / vector long enough for the operation to matter";
static pbt::Reg a1("copy/double/ColCol", 8000, 150000, tCopy<D, D, LC, LC>, RULE);
static pbt::Reg a2("copy/cdouble/ColRow", 8000, 150000, tCopy<CD, CD, LC, LR>, RULE);
static pbt::Reg a3("copy/float/RowRow", 8000, 150000, tCopy<F, F, LR, LR>, RULE);
static pbt::Reg a4("copy/cfloat/RowCol", 8000, 150000, tCopy<CF, CF, LR, LC>, RULE);
static pbt::Reg a5("copy/mixed", 8000, 100000, tCopy<F, D, LC, LC>, RULE);
static pbt::Reg a6("copy/mixedDown", 8000, 100000, tCopy<D, F, LR, LC>, RULE);
static pbt::Reg b1("conjugate/double", 2000, 20000, tConj<D, Direction::Forward>, RULE);
static pbt::Reg b2("conjugate/cdouble", 4000, 40000, tConj<CD, Direction::Forward>, RULE);
static pbt::Reg b3("conjugate/cfloat/Backward", 4000, 40000, tConj<CF, Direction::Backward>, RULE);
static pbt::Reg s1("sort/double/int", 20000, 400000, tSort<D, int>, RULE);
static pbt::Reg s2("sort/float/size_t", 20000, 400000, tSort<F, size_t>, RULE);
static pbt::Reg m1("merge/double/int", 10000, 200000, tMerge<D, int>, RULE);
static pbt::Reg m2("merge/float/size_t", 10000, 200000, tMerge<F, size_t>, RULE);
static pbt::Reg r1("larnv/double", 1500, 30000, tRnv<D>, RULE);
static pbt::Reg r2("larnv/cdouble", 1500, 30000, tRnv<CD>, RULE);
static pbt::Reg r3("larnv/float", 1500, 30000, tRnv<F>, RULE);
static pbt::Reg r4("larnv/cfloat", 1500, 30000, tRnv<CF>, RULE);
