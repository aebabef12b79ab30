#include "fact.hpp"
#include "tlapack/lapack/tkhnv.hpp"
using namespace tlapack;
static const char* RT = "at least two columns, right-hand side not zero";
template <class T, Layout L, Layout LB> void tTik(Case& c)
{
    using W = wide<T>;
    using R = real_t<T>;
    size_t n = c.chance(1, 40) ? (size_t)c.range(20, 50) : (size_t)c.size(0, 12), m = n + (c.coin() ? 0 : (size_t)c.size(0, 15)), k = (size_t)c.size(0, 4);
    TikOpts o;
    o.variant = c.pick({TikVariant::QR, TikVariant::Elden, TikVariant::SVD});
    bool direct = c.coin();
    std::string w = o.variant == TikVariant::QR ? "tik_qr" : o.variant == TikVariant::Elden ? "tik_bidiag_elden" : "tik_svd", kind;
    int sc = c.chance(1, 3) ? (int)c.range(-2 * bigScale<T>(), 2 * bigScale<T>()) : 0;
    bool zero = c.chance(1, 5);
    Dense<T> A0 = genMat<T>(c, m, n, 0, &kind);
    R lambda;
    if (zero) {  // unregularized: full rank
        lambda = 0;
        kind = "diag-dominant";
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A0(i, j) = uni<T>(c) / R((double)m) + (i == j ? T(2) : T(0));
    }
    else {
        lambda = std::ldexp(R(1) + std::fabs(uniR<R>(c)), c.coin() ? (int)c.range(-6, 3) : (int)c.range(-std::numeric_limits<R>::digits * 3 / 2, std::numeric_limits<R>::digits));
        if (c.chance(1, 8)) lambda = -lambda;
    }
    Dense<T> B0(m, k);
    int bs = c.chance(1, 4) ? (int)c.range(-20, 20) : 0, bk = (int)c.draw(4);
    if (bk == 1) { Dense<T> X(n, k); for (auto& x : X.a) x = uni<T>(c); B0 = mul(A0, X); }  // consistent
    else if (bk == 2) for (auto& x : B0.a) x = smallInt<T>(c, 2);
    else for (auto& x : B0.a) x = uni<T>(c);
    for (auto& x : B0.a) x = scaleP2(x, bs);
    for (auto& x : A0.a) x = scaleP2(x, sc);
    lambda = std::ldexp(lambda, sc);
    c.desc(w, "m", m, "n", n, "k", k, kind, "lambda", (double)lambda, show(A0, 5), "b", show(B0, 5));
    c.label(w), c.label(kind), c.label(zero ? "lambda zero" : "lambda nonzero");
    c.nontrivial(n >= 2 && k >= 1 && normMax(B0) > 0);
    GMat<T, L> GA(c, m, n);
    GMat<T, LB> GB(c, m, k);
    GA.set(A0), GB.set(B0);
    auto A = GA.view();
    auto b = GB.view();
    if (!direct) tkhnv(A, b, lambda, o);
    else if (o.variant == TikVariant::QR) tik_qr(A, b, lambda);
    else if (o.variant == TikVariant::Elden) tik_bidiag_elden(A, b, lambda);
    else tik_svd(A, b, lambda);
    GA.margins(c, w + "/A"), GB.margins(c, w + "/b");
    Dense<W> X = widenM<W>(blockOf(GB.get(), 0, n, 0, k)), Aw = widenM<W>(A0), Bw = widenM<W>(B0);
    c.check(allFinite(X), w + "/not-finite", show(X, 6));
    W l2 = W(real_t<W>(lambda)) * W(real_t<W>(lambda));
    double M = std::hypot(normF(A0), (double)std::fabs(lambda)), worst = 0;
    for (size_t q = 0; q < k; ++q) {
        Dense<W> x = blockOf(X, 0, n, q, q + 1), r = sub(blockOf(Bw, 0, m, q, q + 1), mul(Aw, x)), g = mul(ct(Aw), r);
        for (size_t i = 0; i < n; ++i) g(i, 0) -= l2 * x(i, 0);
        double den = M * (normF(blockOf(Bw, 0, m, q, q + 1)) + M * normF(x)), v = normF(g);
        v = v == 0 ? 0 : v / (den + 0.0);
        if (!(v <= worst)) worst = v;
    }
    c.ratio(w + "/gradient", worst, (o.variant == TikVariant::SVD ? 400 + 40.0 * n : 16 + 6.0 * n) * eps<T>());
}
static pbt::Reg a1("float/Col", 40000, 500000, tTik<F, LC, LC>, RT);
static pbt::Reg a2("double/Row", 40000, 500000, tTik<D, LR, LR>, RT);
static pbt::Reg a3("cfloat/Col-Row", 40000, 500000, tTik<CF, LC, LR>, RT);
static pbt::Reg a4("cdouble/Col", 40000, 500000, tTik<CD, LC, LC>, RT);
static pbt::Reg a5("double/Col", 40000, 500000, tTik<D, LC, LC>, RT);
