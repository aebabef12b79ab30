#pragma once
using tlapack::StrongZero;
using Mask = Dense<int>;
inline Mask orM(Mask A, const Mask& B) { for (size_t i = 0; i < A.a.size(); ++i) A.a[i] |= B.a[i]; return A; }
template <class T> Mask nanMask(const Dense<T>& A) { Mask M(A.m, A.n); for (size_t i = 0; i < M.a.size(); ++i) M.a[i] = isnanT(A.a[i]); return M; }
inline Mask tr(const Mask& A) { Mask B(A.n, A.m); for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) B(j, i) = A(i, j); return B; }
// entries of a product that see a NaN of one of the factors
inline Mask prodMask(const Mask& A, const Mask& B)
{
    std::vector<int> r(A.m), q(B.n);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) r[i] |= A(i, j);
    for (size_t j = 0; j < B.n; ++j) for (size_t i = 0; i < B.m; ++i) q[j] |= B(i, j);
    Mask P(A.m, B.n);
    for (size_t j = 0; j < B.n; ++j) for (size_t i = 0; i < A.m; ++i) P(i, j) = r[i] | q[j];
    return P;
}
inline Mask symMask(Uplo u, const Mask& A)
{
    Mask B(A.m, A.n);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) B(i, j) = (upOf(u) == Uplo::Upper ? i <= j : i >= j) ? A(i, j) : A(j, i);
    return B;
}
template <class T> T oneNan(Case& c)
{
    real_t<T> q = std::numeric_limits<real_t<T>>::quiet_NaN();
    if constexpr (cplx<T>) { int k = (int)c.draw(3); return T(k == 1 ? real_t<T>(1) : q, k == 2 ? real_t<T>(1) : q); }
    else return q;
}
template <class T> void plant(Case& c, Dense<T>& A, int cnt)
{
    if (A.a.empty()) return;
    while (cnt-- > 0) A.a[c.draw(A.a.size())] = oneNan<T>(c);
}
