// flags: -DTLAPACK_CHECK_INPUT
// libs: -lquadmath
#include "blasref.hpp"
#include "range.hpp"
#include "tlapack/lapack/infnorm_colmajor.hpp"
#include "tlapack/lapack/infnorm_hermitian_colmajor.hpp"
#include "tlapack/lapack/infnorm_symmetric_colmajor.hpp"
#include "tlapack/lapack/infnorm_triangular_colmajor.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lantr.hpp"
using tlapack::Norm;
enum Kind { GE, SY, HE, TR };
template <class T> Q qmag(const T& x) { return hypotq((Q)re(x), (Q)im(x)); }
template <class T, Layout L> void tNorm(Case& c)
{
    using R = real_t<T>;
    Kind kind = c.pick({GE, SY, HE, TR});
    Norm nt = c.pick({Norm::Max, Norm::One, Norm::Inf, Norm::Fro});
    Uplo uplo = genUplo(c);
    Diag dg = genDiag(c);
    size_t m = dim(c), n = kind == GE || kind == TR ? dim(c) : m;
    int how = nt == Norm::Inf ? (int)c.draw(3) : 0;  // 1: infnorm_*_colmajor, 2: with workspace
    Spread s = genSpread<R>(c);
    bool ints = c.chance(1, 3);
    Dense<T> A(m, n);
    for (auto& x : A.a) x = ints ? smallInt<T>(c, 5) : genT<T>(c, s);
    int special = c.chance(1, 8) ? (int)c.range(1, 2) : 0;
    while (special-- > 0 && A.a.size()) {
        R v = genSpecial<R>(c);
        T& x = A.a[c.draw(A.a.size())];
        x = c.coin() ? mk<T>(v, im(x)) : mk<T>(cplx<T> ? re(x) : v, v);
    }
    // the referenced matrix, and what must not be looked at
    Dense<T> S = A, X = A;
    auto junk = [&]() -> R { return c.coin() ? Lim<R>::quiet_NaN() : Lim<R>::infinity(); };
    R jk = junk();
    if (kind == SY || kind == HE)
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
            if (!inTri(uplo, i, j)) X(i, j) = mk<T>(jk, jk), S(i, j) = A(j, i);
            if (kind == HE && i == j) X(i, j) = mk<T>(re(A(i, j)), jk), S(i, j) = T(re(A(i, j)));
        }
    if (kind == TR)
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
            if (!inTri(uplo, i, j)) X(i, j) = mk<T>(jk, jk), S(i, j) = T(0);
            if (dg == Diag::Unit && i == j) X(i, j) = mk<T>(jk, jk), S(i, j) = T(1);
        }
    bool nan = false, inf = false, mix = false;
    for (auto& x : S.a) {
        bool i_ = std::isinf(re(x)) || std::isinf(im(x)), n_ = isnanT(x);
        nan |= n_, inf |= i_, mix |= i_ && n_;
    }
    Q want = 0;
    if (!nan && !inf) {
        if (nt == Norm::Max) for (auto& x : S.a) want = fmaxq(want, qmag(x));
        if (nt == Norm::One) for (size_t j = 0; j < n; ++j) { Q q = 0; for (size_t i = 0; i < m; ++i) q += qmag(S(i, j)); want = fmaxq(want, q); }
        if (nt == Norm::Inf) for (size_t i = 0; i < m; ++i) { Q q = 0; for (size_t j = 0; j < n; ++j) q += qmag(S(i, j)); want = fmaxq(want, q); }
        if (nt == Norm::Fro) { Q q = 0; for (auto& x : S.a) q += (Q)re(x) * (Q)re(x) + (Q)im(x) * (Q)im(x); want = sqrtq(q); }
    }
    const char* kn[] = {"ge", "sy", "he", "tr"};
    std::string w = std::string(how ? "infnorm-" : "lan") + kn[kind] + " " + (char)(nt == Norm::Max ? 'M' : nt == Norm::One ? '1' : nt == Norm::Inf ? 'I' : 'F');
    c.desc(w, how == 2 ? "work" : "", "m", m, "n", n, nm(uplo), nm(dg), "A", show(X, 4));
    c.label(w + (nan ? " NaN" : inf ? " Inf" : ""));
    c.nontrivial(m >= 2 && n >= 2 && want > 0);
    GMat<T, L> G(c, m, n);
    G.set(X);
    G.snapshot();
    auto V = G.view();
    R got = 0;
    if (how == 0) {
        if (kind == GE) got = tlapack::lange(nt, V);
        if (kind == SY) got = tlapack::lansy(nt, uplo, V);
        if (kind == HE) got = tlapack::lanhe(nt, uplo, V);
        if (kind == TR) got = tlapack::lantr(nt, uplo, dg, V);
    }
    else if (how == 1) {
        if (kind == GE) got = tlapack::infnorm_colmajor(V);
        if (kind == SY) got = tlapack::infnorm_symmetric_colmajor(uplo, V);
        if (kind == HE) got = tlapack::infnorm_hermitian_colmajor(uplo, V);
        if (kind == TR) got = tlapack::infnorm_triangular_colmajor(uplo, dg, V);
    }
    else {
        tlapack::WorkInfo wi = kind == GE   ? tlapack::infnorm_colmajor_worksize<T>(V)
                               : kind == SY ? tlapack::infnorm_symmetric_colmajor_worksize<T>(uplo, V)
                               : kind == HE ? tlapack::infnorm_hermitian_colmajor_worksize<T>(uplo, V)
                                            : tlapack::infnorm_triangular_colmajor_worksize<T>(uplo, dg, V);
        GVec<T> wk(c, wi.size());
        for (size_t i = 0; i < wi.size(); ++i) wk[i] = nanT<T>();
        auto W = wk.view();
        if (kind == GE) got = tlapack::infnorm_colmajor_work(V, W);
        if (kind == SY) got = tlapack::infnorm_symmetric_colmajor_work(uplo, V, W);
        if (kind == HE) got = tlapack::infnorm_hermitian_colmajor_work(uplo, V, W);
        if (kind == TR) got = tlapack::infnorm_triangular_colmajor_work(uplo, dg, V, W);
        wk.margins(c, w + "/work");
    }
    G.unchanged(c, w);
    if (nan) c.check(got != got || (mix && std::isinf(got)), w + "/nan-lost", "got ", got);
    else if (inf) c.check(!std::isfinite(got), w + "/inf-lost", "got ", got);
    else if (ints && nt != Norm::Fro && !cplx<T>) c.check((Q)got == want, w + "/exact", "got ", got, " want ", qs(want));
    else near(c, w, got, want, 6 + 2.0 * (nt == Norm::Max ? 0 : nt == Norm::Fro ? (double)(m * n) : (double)(m + n)), 4 + 2.0 * (m + n));
}
static const char* RULE = "at least 2x2 with a positive finite norm";
static pbt::Reg a1("norm/double/Col", 30000, 600000, tNorm<D, LC>, RULE);
static pbt::Reg a2("norm/double/Row", 15000, 300000, tNorm<D, LR>, RULE);
static pbt::Reg a3("norm/float/Col", 30000, 600000, tNorm<F, LC>, RULE);
static pbt::Reg a4("norm/float/Row", 15000, 300000, tNorm<F, LR>, RULE);
static pbt::Reg a5("norm/cdouble/Col", 30000, 600000, tNorm<CD, LC>, RULE);
static pbt::Reg a6("norm/cdouble/Row", 15000, 300000, tNorm<CD, LR>, RULE);
static pbt::Reg a7("norm/cfloat/Col", 15000, 300000, tNorm<CF, LC>, RULE);
static pbt::Reg a8("norm/cfloat/Row", 30000, 600000, tNorm<CF, LR>, RULE);
