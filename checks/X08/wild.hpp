// Matrices of every kind of data, for termination checks.
#pragma once
#include "la.hpp"
#include "fact.hpp"
#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"
// kind 0: generic finite data of ordinary scale
enum Kind { Generic, Scaled, Extreme, Structured, OneBad, Bad };
inline const char* kn(int k) { const char* n[] = {"generic", "scaled", "extreme", "structured", "one bad entry", "bad"}; return n[k]; }
template <class R> R pickBad(Case& c)
{
    using L = std::numeric_limits<R>;
    R x = c.pick<R>({L::quiet_NaN(), L::infinity(), L::max()});
    return c.coin() ? -x : x;
}
template <class R> R pickExtreme(Case& c)
{
    using L = std::numeric_limits<R>;
    R x = c.pick<R>({R(0), L::max(), L::min(), L::denorm_min(), L::epsilon(), R(1), L::max() / 4, std::sqrt(L::max()), std::sqrt(L::min()), L::min() * 4});
    return c.coin() ? -x : x;
}
template <class T, class F> T each(F&& f)
{
    if constexpr (cplx<T>) { auto a = f(), b = f(); return T(a, b); }
    else return f();
}
template <class T> Dense<T> wild(Case& c, size_t m, size_t n, int kind)
{
    using R = real_t<T>;
    using L = std::numeric_limits<R>;
    Dense<T> A(m, n);
    for (auto& x : A.a) x = uni<T>(c);
    switch (kind) {
        case Scaled: {
            int e = (int)c.range(L::min_exponent - L::digits, L::max_exponent);
            int spread = c.coin() ? 0 : (int)c.range(0, 400);
            for (auto& x : A.a) x = scaleP2(x, e - (spread ? (int)c.draw(spread + 1) : 0));
            break;
        }
        case Extreme: { unsigned p = (unsigned)c.range(1, 6); for (auto& x : A.a) if (c.chance(1, p)) x = each<T>([&] { return pickExtreme<R>(c); }); break; }
        case Structured: {
            int s = (int)c.draw(7);
            T v = each<T>([&] { return pickExtreme<R>(c); });
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
                if (s == 0) A(i, j) = T(0);
                if (s == 1) A(i, j) = v;
                if (s == 2) A(i, j) = i == j ? v : T(0);
                if (s == 3) A(i, j) = (j + 1) % (n ? n : 1) == i ? v : T(0);
                if (s == 4) A(i, j) = T(R((int)((i * 7 + j * 3) % 3) - 1));
                if (s == 5) A(i, j) = i == j ? T(1) : i == j + 1 ? v : j == i + 1 ? T(-1) : T(0);
                if (s == 6) A(i, j) = j == i + 1 ? T(1) : T(0);
            }
            break;
        }
        case OneBad: if (m * n) A(c.draw(m), c.draw(n)) = c.coin() ? T(pickBad<R>(c)) : each<T>([&] { return pickBad<R>(c); }); break;
        case Bad: { unsigned p = c.pick<unsigned>({1, 2, 4}); R v = pickBad<R>(c); bool one = c.coin(); for (auto& x : A.a) if (c.chance(1, p)) x = one ? T(v) : each<T>([&] { return pickBad<R>(c); }); break; }
        default: break;
    }
    return A;
}
inline int anyKind(Case& c) { return (int)c.draw(6); }
template <class T> std::vector<T> wildV(Case& c, size_t n, int kind) { return wild<T>(c, n, 1, kind).a; }
template <class T> bool allFinite(const std::vector<T>& a) { for (auto& x : a) if (!isfin(x)) return false; return true; }
// a call that may report failure through std::runtime_error (returns false then)
template <class F> bool tries(Case& c, F&& f)
{
    try { f(); return true; }
    catch (const std::runtime_error&) { c.label("runtime_error"); return false; }
}
// largest CPU time of one call, in seconds, against a generous limit
struct Clock {
    Case& c;
    std::string w;
    double limit;
    timespec t0;
    Clock(Case& c_, const std::string& w_, double l) : c(c_), w(w_), limit(l) { clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t0); }
    void stop()
    {
        timespec t1;
        clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t1);
        double s = (t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec);
        c.ratio(w + "-time", s, limit, "seconds");
    }
};
template <class T, Layout L> GMat<T, L> gm(Case& c, const Dense<T>& A) { GMat<T, L> g(c, A.m, A.n); g.set(A); return g; }
#define REG8(name, q, fn, rule) \
    static pbt::Reg R##fn##1(name "/float", q, 40 * q, fn<float, Layout::ColMajor>, rule); \
    static pbt::Reg R##fn##2(name "/double", q, 40 * q, fn<double, Layout::RowMajor>, rule); \
    static pbt::Reg R##fn##3(name "/cfloat", q, 40 * q, fn<std::complex<float>, Layout::RowMajor>, rule); \
    static pbt::Reg R##fn##4(name "/cdouble", q, 40 * q, fn<std::complex<double>, Layout::ColMajor>, rule);
