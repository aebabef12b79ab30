// generators and oracles shared by the QZ harnesses
#pragma once
#include "pencil.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
using namespace tlapack;
// pencil: Hessenberg-triangular in [ilo,ihi), (quasi-)triangular outside
template <class T> void genPencil(Case& c, size_t n, Dense<T>& A, Dense<T>& B, size_t& ilo, size_t& ihi, std::string& ka, std::string& kb)
{
    A = Dense<T>(n, n);
    ilo = 0, ihi = n;
    if (n && c.chance(1, 3)) {
        ilo = (size_t)c.range(0, (int64_t)n);
        ihi = (size_t)c.range((int64_t)ilo, (int64_t)n);
    }
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) if (i < ilo || j >= ihi) A(i, j) = uni<T>(c);
    fillSchur(c, A, 0, ilo, false);
    fillSchur(c, A, ihi, n, false);
    genHess(c, A, ilo, ihi, ka);
    B = genTriB<T>(c, n, kb);
    if (c.chance(1, 5)) {
        int s = (int)c.range(-1, 1) * (sizeof(real_t<T>) == 4 ? 24 : 200), t = (int)c.range(-1, 1) * (sizeof(real_t<T>) == 4 ? 24 : 200);
        for (auto& x : A.a) x = scaleP2(x, s);
        for (auto& x : B.a) x = scaleP2(x, t);
    }
}
// structured pencils may stall the shift strategy: failure must then be reported
static bool mayStall(const std::string& ka, const std::string& kb)
{
    bool a = ka == "uniform" || ka == "graded rows" || ka == "small subdiagonals" || ka == "nearly triangular" || ka == "zero subdiagonals";
    return !a || kb == "integers" || kb == "singular" || kb == "zero" || kb == "nilpotent" || kb == "graded" || kb == "small diagonal";
}
template <class T, class VA, class VB>
void checkPairs(Case& c, const std::string& w, const Dense<T>& A0, const Dense<T>& B0, size_t ilo, size_t ihi, const VA& al, const VB& be, bool partial = false, size_t from = 0)
{
    using CW2 = std::complex<real_t<wide<T>>>;
    size_t k = ihi - ilo;
    if (k == 0) return;
    Dense<CW2> H = widenM<CW2>(blockOf(A0, ilo, ihi, ilo, ihi)), R = widenM<CW2>(blockOf(B0, ilo, ihi, ilo, ihi));
    double na = normF(H) + tinyOf<T>(), nb = normF(R) + tinyOf<T>(), e = eps<T>();
    for (auto& x : H.a) x /= real_t<CW2>(na);
    for (auto& x : R.a) x /= real_t<CW2>(nb);
    std::vector<CW2> a(k), b(k);
    for (size_t i = 0; i < k; ++i) {
        if (ilo + i < from) continue;
        c.check(isfin(al[ilo + i]) && isfin(be[ilo + i]), w + "/eigenvalue-not-finite", "pair ", ilo + i, ": ", re(al[ilo + i]), " ", im(al[ilo + i]), " / ", re(be[ilo + i]));
        a[i] = widen<CW2>(al[ilo + i]) / real_t<CW2>(na), b[i] = widen<CW2>(be[ilo + i]) / real_t<CW2>(nb);
        double m = std::max(mag(a[i]), mag(b[i]));
        if (m > 0) a[i] /= real_t<CW2>(m), b[i] /= real_t<CW2>(m);
    }
    double tol = (60 + 12.0 * k) * e;
    for (size_t i = 0; i < k; ++i) {
        if (ilo + i < from) continue;
        if (k > 8 && !c.chance(4, (uint64_t)k)) continue;
        if (a[i] == CW2(0) && b[i] == CW2(0)) continue;  // reported as undetermined: checked against the diagonal
        Dense<CW2> M = H;
        for (size_t j = 0; j < M.a.size(); ++j) M.a[j] = b[i] * H.a[j] - a[i] * R.a[j];
        if (double sm = sigmaMin(M, 1.0); sm > tol * 2) c.fail(w + "/eigenvalue-backward-error", "pair ", ilo + i, " (", re(al[ilo + i]), "+", im(al[ilo + i]), "i, ", re(be[ilo + i]), "): ", sm, " > ", tol * 2);
        else c.ratio(w + "/eigenvalue-backward-error", sm, tol * 2);
    }
    // det(A - z B) must have the same ratio at two points as the product of the factors
    if (!partial && k <= 30) {
        CW2 zs[2];
        double cnd = 0;
        long double lg[2] = {0, 0};
        for (int t = 0; t < 2; ++t) {
            zs[t] = CW2((int)c.range(-6, 6), (int)c.range(1, 6)) / real_t<CW2>(4);
            Dense<CW2> M = H;
            for (size_t j = 0; j < M.a.size(); ++j) M.a[j] = H.a[j] - zs[t] * R.a[j];
            double sm = sigmaMin(M, 1.0);
            if (sm <= 0) return;
            cnd = std::max(cnd, k * (1 + mag(zs[t])) / sm);
            for (size_t q = 0; q + 1 < k; ++q) {  // LU of a Hessenberg matrix
                if (std::abs(M(q + 1, q)) > std::abs(M(q, q))) for (size_t j = q; j < k; ++j) std::swap(M(q, j), M(q + 1, j));
                if (M(q, q) == CW2(0)) return;
                CW2 f = M(q + 1, q) / M(q, q);
                for (size_t j = q; j < k; ++j) M(q + 1, j) -= f * M(q, j);
            }
            for (size_t q = 0; q < k; ++q) lg[t] += std::log((long double)mag(M(q, q)));
            for (size_t q = 0; q < k; ++q) lg[t] -= std::log((long double)mag(a[q] - zs[t] * b[q]));
        }
        if (tol * cnd < 0.01) {
            c.label("determinant ratio checked");
            c.ratio(w + "/determinant-ratio", (double)std::fabs(lg[0] - lg[1]), 4 * tol * cnd);
        }
    }
    if constexpr (!cplx<T>)
        for (size_t i = std::max(ilo, from); i < ihi; ++i)
            if (im(al[i]) != 0) {
                c.check(i + 1 < ihi && im(al[i + 1]) != 0, w + "/conjugate-pair", "pair ", i, " has no adjacent conjugate");
                CW2 z = a[i - ilo] * b[i + 1 - ilo] - std::conj(a[i + 1 - ilo]) * b[i - ilo];
                c.ratio(w + "/conjugate-pair", mag(z), 100 * e);
                ++i;
            }
}
// structure of the computed forms in [lo, hi)
template <class T, class VA, class VB>
void checkForm(Case& c, const std::string& w, const Dense<T>& S, const Dense<T>& P, const VA& al, const VB& be, size_t lo, size_t hi)
{
    using CT = cplxOf<T>;
    double e = eps<T>();
    for (size_t j = lo; j < hi; ++j) {
        for (size_t i = j + 2; i < hi; ++i) c.check(S(i, j) == T(0), w + "/A-below-subdiagonal", "entry (", i, ",", j, ") = ", S(i, j));
        for (size_t i = j + 1; i < hi; ++i) c.check(P(i, j) == T(0), w + "/B-below-diagonal", "entry (", i, ",", j, ") = ", P(i, j));
    }
    for (size_t i = lo; i < hi; ++i) {
        bool two = i + 1 < hi && S(i + 1, i) != T(0);
        if (!two) {
            c.check(mag(widen<CT>(S(i, i)) - CT(al[i])) <= 4 * e * mag(S(i, i)) && mag(widen<CT>(P(i, i)) - CT(be[i])) <= 4 * e * mag(P(i, i)), w + "/eigenvalue", "pair ", i, " is (", re(al[i]), "+", im(al[i]), "i, ", re(be[i]), ") but the diagonals hold ", S(i, i), ", ", P(i, i));
            continue;
        }
        if constexpr (cplx<T>) c.fail(w + "/not-triangular", "subdiagonal entry (", i + 1, ",", i, ") = ", S(i + 1, i));
        else {
            c.label("2-by-2 block");
            c.check(!(i + 2 < hi && S(i + 2, i + 1) != T(0)), w + "/block-larger-than-2", "at ", i);
            c.check(P(i, i + 1) == T(0), w + "/block-B-not-diagonal", "B(", i, ",", i + 1, ") = ", P(i, i + 1));
            c.check(P(i, i) >= 0 , w + "/block-B-negative", "B(", i, ",", i, ") = ", P(i, i));
            {
                // eigenvalues of the block: a real pair must have been split, unless it is double to working precision
                long double p = P(i, i), q = P(i + 1, i + 1), m = std::max(std::fabs(p), std::fabs(q));
                bool dbl = m == 0;
                if (!dbl) {
                    p /= m, q /= m;
                    long double sa = std::max({std::fabs((long double)S(i, i)), std::fabs((long double)S(i, i + 1)), std::fabs((long double)S(i + 1, i)), std::fabs((long double)S(i + 1, i + 1))});
                    long double h = ((S(i, i) / sa) * q - (S(i + 1, i + 1) / sa) * p) / 2, disc = h * h + (S(i, i + 1) / sa) * (S(i + 1, i) / sa) * p * q;
                    dbl = disc > -200 * e && disc < 200 * e;
                    c.check(disc < 200 * e, w + "/block-real", "the block at ", i, " has real eigenvalues, discriminant ", (double)disc);
                }
                c.check(dbl || (im(al[i]) != 0 && im(al[i + 1]) != 0), w + "/block-eigenvalues-real", "the block at ", i, " has a complex pair reported as real");
            }
            using CW2 = std::complex<long double>;
            for (size_t q = i; q < i + 2; ++q) {
                double sa = 0, sb = 0;
                for (size_t r = i; r < i + 2; ++r) for (size_t s = i; s < i + 2; ++s) sa = std::max(sa, mag(S(r, s))), sb = std::max(sb, mag(P(r, s)));
                CW2 a = widen<CW2>(al[q]) / (long double)sa, b = CW2((long double)re(be[q])) / (long double)sb;
                long double m = std::max(std::abs(a), std::abs(b));
                if (m == 0) { c.fail(w + "/block-eigenvalue", "pair ", q, " is (0,0)"); continue; }
                a /= m, b /= m;
                CW2 g[2][2];
                for (int r = 0; r < 2; ++r) for (int s = 0; s < 2; ++s) g[r][s] = b * (long double)(S(i + r, i + s) / sa) - a * (long double)(P(i + r, i + s) / sb);
                c.ratio(w + "/block-eigenvalue", (double)std::abs(g[0][0] * g[1][1] - g[0][1] * g[1][0]), 200 * e);
            }
            ++i;
        }
    }
}
