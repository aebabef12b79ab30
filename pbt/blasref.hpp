// Helpers shared by the BLAS checks.
#pragma once
#include "la.hpp"
using namespace la;
using CW = std::complex<double>;

constexpr Layout LC = Layout::ColMajor, LR = Layout::RowMajor;

inline size_t dim(Case& c) { return c.chance(1, 40) ? (size_t)c.range(13, 45) : (size_t)c.size(0, 12); }
inline Uplo uplo3(Case& c) { return c.pick({Uplo::Lower, Uplo::Upper, Uplo::Lower, Uplo::Upper, Uplo::General}); }
inline const char* RULE3() { return "all dimensions at least 2 and alpha, beta not both zero"; }

// C0 wide; result alpha*P + beta*C
inline Dense<CW> axpby(CW alpha, const Dense<CW>& P, CW beta, const Dense<CW>& C)
{
    Dense<CW> R = C;
    for (size_t i = 0; i < R.a.size(); ++i) R.a[i] = alpha * P.a[i] + beta * C.a[i];
    return R;
}
// fills A's opposite triangle with NaN and Hermitian diagonals with imaginary garbage
template <class T> void poison(Case& c, Dense<T>& A, Uplo uplo, bool herm)
{
    bool nanp = c.coin();
    if (uplo == Uplo::General) {
        Dense<T> B = symOf(Uplo::Upper, herm, A);
        A = B;
        return;
    }
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) {
        if (!inTri(uplo, i, j)) A(i, j) = nanp ? nanT<T>() : mk<T>(real_t<T>(77), real_t<T>(-55));
        if (i == j && herm) A(i, j) = mk<T>(re(A(i, j)), nanp ? re(nanT<T>()) : real_t<T>(13));
    }
}
inline Uplo upOf(Uplo u) { return u == Uplo::Lower ? Uplo::Lower : Uplo::Upper; }

using F = float;
using D = double;
using CF = std::complex<float>;
using CD = std::complex<double>;
