// Schur forms: generators, structure and similarity oracles (also used by E06, E10).
#pragma once
#include "fact.hpp"
template <class T> using cplxOf = std::complex<real_t<T>>;
// quasi-triangular (real: standardized 2-by-2 blocks) or triangular matrix, written into block [lo, hi) of A
template <class T> void fillSchur(Case& c, Dense<T>& A, size_t lo, size_t hi, bool ints)
{
    using R = real_t<T>;
    auto val = [&]() { return ints ? smallInt<T>(c, 3) : uni<T>(c); };
    for (size_t j = lo; j < hi; ++j) for (size_t i = lo; i <= j; ++i) A(i, j) = val();
    if constexpr (!cplx<T>)
        for (size_t j = lo; j + 1 < hi; ++j)
            if (c.chance(1, 3)) {
                R b = ints ? R(c.range(1, 4)) : std::fabs(uni<R>(c)) + R(0.01), d = ints ? R(c.range(1, 4)) : std::fabs(uni<R>(c)) + R(0.01);
                if (c.coin()) b = -b;
                else d = -d;
                A(j, j + 1) = b, A(j + 1, j) = d, A(j + 1, j + 1) = A(j, j);
                ++j;
            }
}
// an upper Hessenberg block
template <class T> void genHess(Case& c, Dense<T>& A, size_t lo, size_t hi, std::string& kind)
{
    using R = real_t<T>;
    const char* names[] = {"uniform", "integers", "graded rows", "graded down", "companion", "tridiagonal Toeplitz", "cyclic shift", "Jordan", "zero subdiagonals", "small subdiagonals", "nearly triangular", "skew", "identity plus", "zero", "balanced exponents", "sparse"};
    int k = (int)c.draw(16);
    kind = names[k];
    int dg = std::numeric_limits<R>::digits;
    size_t n = hi - lo;
    auto each = [&](auto&& f) { for (size_t j = lo; j < hi; ++j) for (size_t i = lo; i <= j + 1 && i < hi; ++i) A(i, j) = f(i - lo, j - lo); };
    int g = (int)c.range(1, 8);
    T x = smallInt<T>(c, 2), y = smallInt<T>(c, 2), z = smallInt<T>(c, 3);
    std::vector<T> co(n + 1);
    for (auto& q : co) q = c.coin() ? smallInt<T>(c, 3) : uni<T>(c);
    each([&](size_t i, size_t j) -> T {
        switch (k) {
            case 1: return smallInt<T>(c, 3);
            case 2: return scaleP2(uni<T>(c), -(int)(g * i) / 2);
            case 3: return scaleP2(uni<T>(c), -std::min<int>(g * (int)(i + j) / 2, 4 * dg));
            case 4: return i == j + 1 ? T(1) : j + 1 == n ? co[i] : T(0);
            case 5: return i == j ? z : i == j + 1 ? x : j == i + 1 ? y : T(0);
            case 6: return i == j + 1 ? T(1) : (i == 0 && j + 1 == n) ? T(1) : T(0);
            case 7: return i == j ? z : j == i + 1 ? T(1) : i == j + 1 ? T(std::numeric_limits<R>::epsilon()) : T(0);
            case 8: return i == j + 1 && c.chance(1, 3) ? T(0) : uni<T>(c);
            case 9: return i == j + 1 ? scaleP2(uni<T>(c), -(int)c.range(0, dg + 6)) : uni<T>(c);
            case 10: return i == j + 1 ? scaleP2(uni<T>(c), -dg + g) : uni<T>(c);
            case 11: return i == j ? T(0) : i == j + 1 ? T(R(int(i % 3) + 1)) : j == i + 1 ? -T(R(int(j % 3) + 1)) : T(0);
            case 12: return (i == j ? T(1) : T(0)) + scaleP2(uni<T>(c), -dg / 2);
            case 13: return T(0);
            case 14: return scaleP2(uni<T>(c), (int)c.range(-dg / 2, dg / 2));
            case 15: return c.chance(1, 2) ? uni<T>(c) : T(0);
            default: return uni<T>(c);
        }
    });
}
// a random unitary matrix (rounded to working precision)
template <class T> Dense<T> genUnitary(Case& c, size_t n)
{
    using W = wide<T>;
    Dense<W> Q = eye<W>(n);
    for (int r = 0; r < 2; ++r) {
        Dense<W> v(n, 1);
        double s = 0;
        for (auto& x : v.a) x = widen<W>(uni<T>(c));
        for (auto& x : v.a) s += mag(x) * mag(x);
        if (s == 0) continue;
        real_t<W> s2 = 0;
        for (auto& x : v.a) s2 += re(x) * re(x) + im(x) * im(x);
        Dense<W> u = mul(ct(v), Q);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) Q(i, j) -= (v(i, 0) * u(0, j)) * (real_t<W>(2) / s2);
    }
    Dense<T> U(n, n);
    for (size_t i = 0; i < Q.a.size(); ++i) U.a[i] = mk<T>((real_t<T>)re(Q.a[i]), (real_t<T>)im(Q.a[i]));
    return U;
}
// smallest singular value of the upper Hessenberg B (complex, wide), estimated from above by inverse iteration
template <class CWt> double sigmaMin(Dense<CWt> H, double scale)
{
    using RW = real_t<CWt>;
    size_t n = H.n;
    if (n == 0) return 0;
    // Gaussian elimination with partial pivoting on a Hessenberg matrix
    std::vector<char> sw(n, 0);
    std::vector<CWt> mlt(n, CWt(0));
    const RW tiny = RW(scale) * std::numeric_limits<RW>::epsilon() * RW(1e-3f) + std::numeric_limits<RW>::min();
    for (size_t k = 0; k + 1 < n; ++k) {
        if (std::abs(H(k + 1, k)) > std::abs(H(k, k))) {
            sw[k] = 1;
            for (size_t j = k; j < n; ++j) std::swap(H(k, j), H(k + 1, j));
        }
        if (H(k, k) == CWt(0)) continue;
        mlt[k] = H(k + 1, k) / H(k, k);
        for (size_t j = k; j < n; ++j) H(k + 1, j) -= mlt[k] * H(k, j);
    }
    for (size_t k = 0; k < n; ++k) if (std::abs(H(k, k)) < tiny) H(k, k) = CWt(tiny);
    auto solve = [&](std::vector<CWt>& b) {
        for (size_t k = 0; k + 1 < n; ++k) { if (sw[k]) std::swap(b[k], b[k + 1]); b[k + 1] -= mlt[k] * b[k]; }
        for (size_t k = n; k-- > 0;) { for (size_t j = k + 1; j < n; ++j) b[k] -= H(k, j) * b[j]; b[k] /= H(k, k); }
    };
    auto solveH = [&](std::vector<CWt>& b) {
        for (size_t k = 0; k < n; ++k) { for (size_t j = 0; j < k; ++j) b[k] -= std::conj(H(j, k)) * b[j]; b[k] /= std::conj(H(k, k)); }
        for (size_t k = n - 1; k-- > 0;) { b[k] -= std::conj(mlt[k]) * b[k + 1]; if (sw[k]) std::swap(b[k], b[k + 1]); }
    };
    auto nrm = [&](std::vector<CWt>& b) { RW m = 0; for (auto& x : b) m = std::max(m, std::abs(x)); if (m == 0) return m; RW s = 0; for (auto& x : b) { RW q = std::abs(x) / m; s += q * q; } return m * std::sqrt(s); };
    double best = std::numeric_limits<double>::infinity();
    for (int start = 0; start < 3; ++start) {
        std::vector<CWt> b(n);
        for (size_t i = 0; i < n; ++i) b[i] = start == 0 ? CWt(1) : start == 1 ? CWt(RW((i * 7919 + 13) % 17) - RW(8.5), RW((i * 104729 + 5) % 13) - RW(6.25)) : (i + 1 == n ? CWt(1) : CWt(RW(1) / RW(8)));
        for (int it = 0; it < 3; ++it) {
            RW s = nrm(b);
            for (auto& x : b) x /= s;
            solve(b);
            for (auto& x : b) if (!isfin(x)) return 0;  // the solution overflowed: singular to any precision
            RW t = nrm(b);
            if (t > 0) best = std::min(best, (double)(1 / t));
            for (auto& x : b) x /= t;
            solveH(b);
        }
    }
    return best;
}
// structure of a Schur form in block [lo, hi): returns list of block starts; fails the case on violations
// junk: entries below the first subdiagonal are documented workspace
template <class T, class V> void checkSchur(Case& c, const std::string& w, const Dense<T>& S, const V& ev, size_t lo, size_t hi, bool junk = false)
{
    using R = real_t<T>;
    double e = eps<T>();
    for (size_t j = lo; j < hi; ++j) for (size_t i = j + 2; i < hi; ++i)
        if (!junk) c.check(S(i, j) == T(0), w + "/below-subdiagonal", "entry (", i, ",", j, ") = ", S(i, j));
    for (size_t i = lo; i < hi; ++i) {
        bool two = i + 1 < hi && S(i + 1, i) != T(0);
        if (!two) {
            double d = mag(widen<cplxOf<T>>(S(i, i)) - cplxOf<T>(ev[i]));
            c.check(d <= 4 * e * mag(S(i, i)), w + "/eigenvalue", "w[", i, "] = ", re(ev[i]), "+", im(ev[i]), "i but the diagonal holds ", S(i, i));
            continue;
        }
        if constexpr (cplx<T>) c.fail(w + "/not-triangular", "subdiagonal entry (", i + 1, ",", i, ") = ", S(i + 1, i));
        else {
            c.check(!(i + 2 < hi && S(i + 2, i + 1) != T(0)), w + "/block-larger-than-2", "at ", i);
            R b = S(i, i + 1), d = S(i + 1, i);
            c.check(S(i, i) == S(i + 1, i + 1), w + "/not-standardized", "diagonal of the block at ", i, " differs: ", S(i, i), " ", S(i + 1, i + 1));
            c.check((b > 0 && d < 0) || (b < 0 && d > 0), w + "/real-block", "the block at ", i, " has off-diagonal entries ", b, " and ", d);
            double q = std::sqrt((double)std::fabs(b)) * std::sqrt((double)std::fabs(d)), m = std::hypot((double)S(i, i), q);
            double s0 = im(ev[i]) >= 0 ? 1 : -1;
            // the eigenvalues are a conjugate pair; the rounding of the small imaginary part is relative to the modulus of the block
            double er = std::max(std::fabs((double)re(ev[i]) - (double)S(i, i)), std::fabs((double)im(ev[i]) - s0 * q));
            double er2 = std::max(std::fabs((double)re(ev[i + 1]) - (double)S(i, i)), std::fabs((double)im(ev[i + 1]) + s0 * q));
            c.ratio(w + "/pair", std::max(er, er2), 20 * e * m + 4 * std::sqrt((double)std::numeric_limits<R>::min()) * std::max(std::fabs((double)b), std::fabs((double)d)) + 1e-300);
            ++i;
        }
    }
}
template <class T> size_t unit2(const Dense<T>& S, size_t i) { return i + 1 < S.n && S(i + 1, i) != T(0) ? 2 : 1; }
