// Matrix pencils: triangular factor generator and equivalence oracle (E07, E08, E09).
#pragma once
#include "schur.hpp"
// upper triangular factor with chosen degeneracies
template <class T> Dense<T> genTriB(Case& c, size_t n, std::string& kind)
{
    const char* names[] = {"uniform", "integers", "identity", "singular", "zero", "graded", "small diagonal", "nilpotent"};
    int k = (int)c.draw(8), dg = std::numeric_limits<real_t<T>>::digits, g = (int)c.range(1, 8);
    kind = names[k];
    Dense<T> B(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) {
        T x = uni<T>(c);
        if (k == 1) x = smallInt<T>(c, 2);
        if (k == 2) x = i == j ? T(1) : T(0);
        if (k == 3 && i == j && c.chance(1, 3)) x = T(0);
        if (k == 4) x = T(0);
        if (k == 5) x = scaleP2(x, -std::min(g * (int)i, sizeof(real_t<T>) == 4 ? 40 : 300));
        if (k == 6 && i == j) x = scaleP2(x, -(int)c.range(0, dg + 4));
        if (k == 7) x = j == i + 1 ? T(1) : T(0);
        B(i, j) = x;
    }
    return B;
}
// relations that hold whichever of the factors is known
template <class T>
void checkPair(Case& c, const std::string& w, const Dense<T>& A0, const Dense<T>& B0, const Dense<T>& H, const Dense<T>& R, bool wq, bool wz, const Dense<T>& Q0, const Dense<T>& Q, const Dense<T>& Z0, const Dense<T>& Z, double k)
{
    using W = wide<T>;
    double e = eps<T>(), tiny = tinyOf<T>();
    Dense<W> A = widenM<W>(A0), B = widenM<W>(B0), h = widenM<W>(H), r = widenM<W>(R), U, V;
    double na = normF(A) + tiny, nb = normF(B) + tiny, tol = (20 + 8 * k + 2 * k * std::sqrt(k)) * e, oz = 0, oq = 0;
    if (wq) {
        Dense<W> q0 = widenM<W>(Q0), q = widenM<W>(Q);
        oq = orthErr(q0);
        c.ratio(w + "/Q-orthogonality", orthErr(q), tol + 2 * oq);
        U = mul(ct(q0), q);
    }
    if (wz) {
        Dense<W> z0 = widenM<W>(Z0), z = widenM<W>(Z);
        oz = orthErr(z0);
        c.ratio(w + "/Z-orthogonality", orthErr(z), tol + 2 * oz);
        V = mul(ct(z0), z);
    }
    tol += 4 * (oq + oz);
    if (wq && wz) {
        c.ratio(w + "/residual-A", normF(sub(mul(mul(U, h), ct(V)), A)), tol * na);
        c.ratio(w + "/residual-B", normF(sub(mul(mul(U, r), ct(V)), B)), tol * nb);
        return;
    }
    if (na > 1e15 || nb > 1e15 || na < 1e-15 || nb < 1e-15) return;
    if (wq) A = mul(ct(U), A), B = mul(ct(U), B);
    if (wz) A = mul(A, V), B = mul(B, V);
    if (wz) {
        c.ratio(w + "/gram-A", normF(sub(mul(ct(h), h), mul(ct(A), A))), 2 * tol * na * na);
        c.ratio(w + "/gram-AB", normF(sub(mul(ct(h), r), mul(ct(A), B))), 2 * tol * na * nb);
        c.ratio(w + "/gram-B", normF(sub(mul(ct(r), r), mul(ct(B), B))), 2 * tol * nb * nb);
    }
    else if (wq) {
        c.ratio(w + "/gram-A", normF(sub(mul(h, ct(h)), mul(A, ct(A)))), 2 * tol * na * na);
        c.ratio(w + "/gram-AB", normF(sub(mul(h, ct(r)), mul(A, ct(B)))), 2 * tol * na * nb);
        c.ratio(w + "/gram-B", normF(sub(mul(r, ct(r)), mul(B, ct(B)))), 2 * tol * nb * nb);
    }
    else {
        c.ratio(w + "/norm-A", std::fabs(normF(h) - normF(A)), 2 * tol * na);
        c.ratio(w + "/norm-B", std::fabs(normF(r) - normF(B)), 2 * tol * nb);
        c.ratio(w + "/norm-AhB", std::fabs(normF(mul(ct(h), r)) - normF(mul(ct(A), B))), 2 * tol * na * nb);
        c.ratio(w + "/norm-ABh", std::fabs(normF(mul(h, ct(r))) - normF(mul(A, ct(B)))), 2 * tol * na * nb);
    }
}
