// Working-size problems (default blocking and recursion thresholds) for the drivers: entries come from one drawn
// seed, residuals are formed in double with an independent product.
#pragma once
#include <random>
#include "fact.hpp"
template <class T> using Wd = std::conditional_t<cplx<T>, std::complex<double>, double>;
template <class T> Dense<T> bigMat(Case& c, size_t m, size_t n, std::string& kind)
{
    using R = real_t<T>;
    std::mt19937_64 g(c.draw(1ULL << 32));
    std::normal_distribution<double> N;
    const char* names[] = {"gaussian", "graded rows", "graded columns", "sparse", "integers", "low rank plus noise"};
    int k = (int)c.draw(6);
    kind = names[k];
    auto one = [&]() -> double {
        double x = N(g);
        if (k == 3 && (g() & 3)) return 0;
        return k == 4 ? std::round(2 * x) : x;
    };
    Dense<T> A(m, n);
    for (auto& x : A.a) {
        double p = one(), q = cplx<T> ? one() : 0;
        x = mk<T>((R)p, (R)q);
    }
    int s = std::numeric_limits<R>::digits / 3;
    if (k == 1 || k == 2) {
        std::vector<int> d(std::max(m, n));
        for (auto& x : d) x = (int)(g() % (unsigned)(2 * s + 1)) - s;
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = scaleP2(A(i, j), d[k == 1 ? i : j]);
    }
    if (k == 5) {
        std::vector<double> u(m), v(n);
        for (auto& x : u) x = N(g);
        for (auto& x : v) x = N(g);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = T((R)(u[i] * v[j])) + scaleP2(A(i, j), -s);
    }
    return A;
}
template <class T> Dense<Wd<T>> wd(const Dense<T>& A) { return widenM<Wd<T>>(A); }
// || Q S Z^H - A || / ||A||
template <class T> double simErr(const Dense<T>& Q, const Dense<T>& S, const Dense<T>& Z, const Dense<T>& A)
{
    auto E = sub(mul(mul(wd(Q), wd(S)), ct(wd(Z))), wd(A));
    return normF(E) / (normF(A) + tinyOf<T>());
}
template <class T> double orthD(const Dense<T>& Q) { return orthErr(wd(Q)); }
template <class T> double bigTol(size_t n) { return (200 + 20.0 * n) * eps<T>(); }
inline const char* BR() { return "order at least 100 and the matrix not zero"; }
