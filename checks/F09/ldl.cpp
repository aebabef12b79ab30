// F09: diagonal pivoting (Bunch-Kaufman) factorization of symmetric and Hermitian matrices: reconstruction from the
// documented storage, pivot bookkeeping, growth, singular reports, untouched triangle, workspace.
#include "fact.hpp"
#include "tlapack/lapack/hetrf.hpp"
using namespace tlapack;
template <class T> Dense<T> genSym(Case& c, size_t n, bool herm, std::string& kind)
{
    using R = real_t<T>;
    Dense<T> A = genMat<T>(c, n, n, bigScale<T>() / 2, &kind);
    int k = (int)c.draw(9);
    int dg = std::numeric_limits<R>::digits;
    const char* names[] = {"", " zero diagonal", " small diagonal", " zero rows", " arrow", " tiny", " huge", " mixed scales", " subnormal"};
    kind += names[k];
    for (size_t i = 0; i < n; ++i) {
        if (k == 1) A(i, i) = T(0);
        if (k == 2) A(i, i) = scaleP2(A(i, i), -(int)c.range(1, 2 * dg));
        if (k == 3 && c.chance(1, 3)) for (size_t j = 0; j < n; ++j) A(i, j) = A(j, i) = T(0);
        if (k == 4) for (size_t j = 0; j < n; ++j) if (i != j && i + 1 != n && j + 1 != n && i && j) A(i, j) = T(0);
    }
    // powers of two only: no rounding.  Results of order 1/A must not overflow.
    int lim = std::numeric_limits<R>::max_exponent - 12;
    if ((k == 5 || k == 6) && normMax(A) > 0 && std::isfinite(normMax(A))) {
        int e = std::ilogb(normMax(A)), t = (int)c.range(lim / 3, k == 5 ? lim - dg : lim - 14);
        for (auto& x : A.a) x = scaleP2(x, (k == 5 ? -t : t) - e);
    }
    if (k == 7) for (auto& x : A.a) if (c.coin()) x = scaleP2(x, -(int)c.range(0, (lim - 2 * dg) / (n <= 3 ? 1 : 6)));
    // subnormal pivots, whose reciprocal overflows; the dominant diagonal keeps them 1 by 1
    if (k == 8 && normMax(A) > 0 && std::isfinite(normMax(A))) {
        int e = std::ilogb(normMax(A)), t = std::numeric_limits<R>::min_exponent - (int)c.range(6, dg / 2);
        for (auto& x : A.a) x = scaleP2(x, t - e);
        for (size_t i = 0; i < n; ++i) A(i, i) = T(std::ldexp(R(c.coin() ? 1 : -1), t + (int)c.range(1, 3)));
    }
    return symOf(Uplo::Lower, herm, A);
}
template <class T, Layout L> void tLDL(Case& c)
{
    using W = wide<T>;
    size_t n = dimF(c);
    Uplo u = genUplo(c);
    bool herm = c.coin(), up = u == Uplo::Upper;
    std::string kind;
    Dense<T> A0 = genSym<T>(c, n, herm, kind);
    HetrfOpts o;
    o.nb = c.chance(1, 4) ? 32 : (size_t)c.pick<int>({2, 3, 4, 5, 7, 8, 16, 1});
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    bool wk = c.coin();
    std::string w = std::string(wk ? "hetrf_work" : "hetrf") + (up ? " U" : " L") + (herm ? " hermitian" : " symmetric");
    c.desc(w, "n", n, "nb", o.nb, kind, show(A0, 6));
    c.label(w), c.label(kind);
    if (n > o.nb) c.label("several blocks");
    c.nontrivial(n >= 2 && normMax(A0) > 0);
    GMat<T, L> G(c, n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = inTri(u, i, j) ? A0(i, j) : nanT<T>();
    G.snapshot();
    std::vector<int> piv(n, c.coin() ? 987654 : -987654);
    auto A = G.view();
    int info;
    if (wk) {
        Dirty<T> d(c, hetrf_blocked_worksize<T>(A, o));
        auto work = d.view();
        info = hetrf_work(u, A, piv, work, o);
        d.done(c, w);
    }
    else info = hetrf(u, A, piv, o);
    G.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return inTri(u, i, j); });
    c.check(info >= 0 && info <= (int)n, w + "/info-range", "returned ", info);
    // pivots: blocks of the diagonal factor
    std::vector<int> size(n, 0);  // 1, 2 (at the first row of a block), 0 (second row)
    for (size_t q = 0; q < n; ++q) {
        size_t i = up ? n - 1 - q : q;
        int p = piv[i];
        if (p >= 0) {
            c.check(up ? p <= (int)i : p >= (int)i && p < (int)n, w + "/pivot-range", "ipiv[", i, "] = ", p);
            size[i] = 1;
            continue;
        }
        c.check(up ? i > 0 : i + 1 < n, w + "/pivot-pair", "ipiv[", i, "] = ", p, " has no partner");
        size_t s = up ? i - 1 : i + 1;
        c.check(piv[s] == p, w + "/pivot-pair", "ipiv[", i, "] = ", p, " ipiv[", s, "] = ", piv[s]);
        p = -p - 1;
        c.check(up ? p <= (int)s : p >= (int)s && p < (int)n, w + "/pivot-range", "ipiv[", i, "] = ", piv[i]);
        size[std::min(i, s)] = 2, ++q;
    }
    Dense<T> S = G.get();
    Dense<W> M(n, n);
    Dense<double> N(n, n);
    bool zero = false;
    for (size_t i = 0; i < n; ++i) {
        if (!size[i]) continue;
        for (size_t a = i; a < i + (size_t)size[i]; ++a) {
            M(a, a) = widen<W>(S(a, a));
            if (herm) c.check(im(S(a, a)) == 0, w + "/diagonal-not-real", "D(", a, ",", a, ")");
        }
        if (size[i] == 2) {
            W x = widen<W>(up ? S(i, i + 1) : S(i + 1, i)), y = herm ? cj(x) : x;
            (up ? M(i, i + 1) : M(i + 1, i)) = x, (up ? M(i + 1, i) : M(i, i + 1)) = y;
            c.label("rank-2 pivots");
            // the reciprocal of a subnormal entry is not representable
            if (mag(x) != 0 && mag(x) < 8 * (double)std::numeric_limits<real_t<T>>::min()) return c.label("subnormal rank-2 pivot");
        }
        else zero = zero || S(i, i) == T(0);
    }
    c.check((info > 0) == zero, w + "/info", "returned ", info, zero ? " but D has a zero 1-by-1 block" : " but D has no zero 1-by-1 block");
    if (info > 0) {
        c.label("singular");
        c.check(piv[info - 1] >= 0 && S(info - 1, info - 1) == T(0), w + "/info-block", "info ", info, " does not name a zero of D");
    }
    double dmax = normMax(M);
    for (size_t i = 0; i < n * n; ++i) N.a[i] = mag(M.a[i]);
    auto op = [&](const W& x) { return herm ? cj(x) : x; };
    double lmax = 0;
    for (size_t q = 0; q < n; ++q) {
        size_t i = up ? q : n - 1 - q;  // innermost factor first
        size_t b = piv[i] < 0 ? 2 : 1, lo = up ? i : i + 1 - b;  // columns lo..lo+b-1
        q += b - 1;
        // M := U_i M U_i^op, where M is still nonzero only in the part already assembled plus this block
        size_t r0 = up ? 0 : lo + b, r1 = up ? lo : n;
        for (size_t k = lo; k < lo + b; ++k) for (size_t r = r0; r < r1; ++r) lmax = std::max(lmax, mag(S(r, k)));
        // rows
        for (size_t j = 0; j < n; ++j) for (size_t k = lo; k < lo + b; ++k) {
            if (M(k, j) == W(0) && N(k, j) == 0) continue;
            for (size_t r = r0; r < r1; ++r) M(r, j) += widen<W>(S(r, k)) * M(k, j), N(r, j) += mag(S(r, k)) * N(k, j);
        }
        for (size_t k = lo; k < lo + b; ++k) for (size_t r = r0; r < r1; ++r) {
            W l = op(widen<W>(S(r, k)));
            double al = mag(l);
            if (l == W(0)) continue;
            for (size_t j = 0; j < n; ++j) M(j, r) += M(j, k) * l, N(j, r) += N(j, k) * al;
        }
        size_t s = up ? lo : lo + b - 1, p = (size_t)(piv[i] < 0 ? -piv[i] - 1 : piv[i]);
        if (s != p) {
            for (size_t j = 0; j < n; ++j) std::swap(M(s, j), M(p, j)), std::swap(N(s, j), N(p, j));
            for (size_t j = 0; j < n; ++j) std::swap(M(j, s), M(j, p)), std::swap(N(j, s), N(j, p));
        }
    }
    double e = eps<T>(), slack = (n + 1.0) * (n + 1.0) * (double)std::numeric_limits<real_t<T>>::min() * (1 + lmax) * (1 + lmax + dmax + normMax(A0)), worst = 0;
    Dense<W> R = sub(M, widenM<W>(A0));
    double nA = normMax(A0);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        double r = mag(R(i, j)), x = r == 0 ? 0 : r / (N(i, j) + mag(A0(i, j)) + slack);
        if (!(x <= worst)) worst = x;
    }
    c.ratio(w + "/residual", worst, (60 + 10.0 * n) * e);
    // the product of the absolute factors is bounded by 36 n times the largest entry of all reduced matrices
    c.ratio(w + "/growth", normMax(N), 40.0 * (n + 1) * std::max(nA, dmax) + slack);
    c.ratio(w + "/D-growth", dmax, std::pow(2.6, std::min<double>(n, 200.0)) * nA + slack);
}
static const char* RL = "order at least 2 and the matrix not zero";
static pbt::Reg a1("ldl/float/Col", 20000, 600000, tLDL<F, LC>, RL);
static pbt::Reg a2("ldl/double/Row", 20000, 600000, tLDL<D, LR>, RL);
static pbt::Reg a3("ldl/cfloat/Row", 20000, 600000, tLDL<CF, LR>, RL);
static pbt::Reg a4("ldl/cdouble/Col", 20000, 600000, tLDL<CD, LC>, RL);
