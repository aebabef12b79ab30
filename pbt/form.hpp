// Schur forms with a chosen relation between the eigenvalues of their blocks (used by E06 and E10).
#pragma once
#include "schur.hpp"
// a Schur form with block sizes bs and a chosen relation between the eigenvalues of the blocks
template <class T> struct Form {
    Dense<T> S;
    std::vector<size_t> bs;  // sizes of the diagonal blocks
    std::string kind;
    bool apart = false;      // pairwise separated by at least 1, coupling bounded by 1/4
};
template <class T> Form<T> genForm(Case& c, size_t nb, const std::vector<size_t>* force = nullptr)
{
    using R = real_t<T>;
    Form<T> f;
    size_t n = 0;
    for (size_t i = 0; i < nb; ++i) {
        f.bs.push_back(force ? (*force)[i] : !cplx<T> && c.chance(2, 5) ? 2 : 1);
        n += f.bs.back();
    }
    Dense<T> S(n, n);
    const char* names[] = {"apart", "uniform", "integers", "close", "equal", "graded", "weak coupling"};
    int k = (int)c.draw(7);
    f.kind = names[k], f.apart = k == 0;
    int dg = std::numeric_limits<R>::digits, g = (int)c.range(1, dg);
    std::vector<size_t> perm(nb);
    for (size_t i = 0; i < nb; ++i) perm[i] = i;
    for (size_t i = nb; i > 1; --i) std::swap(perm[i - 1], perm[c.draw(i)]);
    size_t p = 0;
    T base = uni<T>(c);
    R bb = std::fabs(uni<R>(c)) + R(0.1), cc = std::fabs(uni<R>(c)) + R(0.1);
    auto off = [&]() -> T {
        switch (k) {
            case 0: return uni<T>(c) * R(0.25);
            case 2: return smallInt<T>(c, 3);
            case 6: return scaleP2(uni<T>(c), -(int)c.range(0, dg));
            default: return uni<T>(c);
        }
    };
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) S(i, j) = off();
    for (size_t b = 0; b < nb; ++b) {
        T d;
        R x = std::fabs(uni<R>(c)) + R(0.01), y = std::fabs(uni<R>(c)) + R(0.01);
        switch (k) {
            case 0: d = T(R(1 + (int)perm[b])) , x = R(0.25) + std::fabs(uni<R>(c)) / 4, y = R(0.25) + std::fabs(uni<R>(c)) / 4; if constexpr (cplx<T>) d += T(0, 1) * uni<T>(c).real(); break;
            case 2: d = smallInt<T>(c, 3), x = R(c.range(1, 3)), y = R(c.range(1, 3)); break;
            case 3: d = base + scaleP2(uni<T>(c), -g), x = bb * (R(1) + scaleP2(uni<R>(c), -g)), y = cc * (R(1) + scaleP2(uni<R>(c), -g)); break;
            case 4: d = base, x = bb, y = cc; break;
            default: d = uni<T>(c);
        }
        S(p, p) = d;
        if (f.bs[b] == 2) {
            if constexpr (!cplx<T>) {
                bool s = c.coin();
                S(p + 1, p + 1) = d, S(p, p + 1) = s ? x : -x, S(p + 1, p) = s ? -y : y;
            }
        }
        p += f.bs[b];
    }
    if (k == 5) {  // similarity by powers of two is not applied to the 2-by-2 blocks' internal balance
        int gg = (int)c.range(1, 6);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= std::min(j + 1, n - 1); ++i) if (S(i, j) != T(0)) S(i, j) = scaleP2(S(i, j), -(int)(gg * (p - n + j)) / 2 * (i + 1 <= j ? 1 : 0));
    }
    f.S = S;
    return f;
}
