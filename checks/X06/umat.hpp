// A user-defined matrix and vector class: entry (i, j) lives at base[rp[i] + cp[j]], so rows and columns are scattered
// and no stride describes them. Meets the documented concepts (sliceable, transposable, constructable); its element access
// rejects indices outside the matrix.
#pragma once
#ifdef PBT_VALGRIND
#include <valgrind/memcheck.h>
#endif
#include <map>
#include <memory>
#include <stdexcept>
#include <vector>
#include "tlapack/base/arrayTraits.hpp"
#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"

namespace tlapack {
inline void umBad(const char* what) { throw std::out_of_range(std::string("user matrix: ") + what); }
// offsets 0, s, 2s, ... in reversed order: tab(n, s)[i] = (n - 1 - i) * s
inline const std::size_t* umTable(std::size_t n, std::size_t s)
{
    static thread_local std::map<std::pair<std::size_t, std::size_t>, std::vector<std::size_t>> tabs;
    auto& t = tabs[{n, s}];
    if (t.empty()) { t.resize(n + 1); for (std::size_t i = 0; i < n; ++i) t[i] = (n - 1 - i) * s; }
    return t.data();
}
template <class T> struct UVec {
    T* base = nullptr;
    const std::size_t *p = nullptr, *q = nullptr;
    std::size_t n = 0;
    T* raw = nullptr;  // whole packed storage, for reshape
    T& operator[](std::size_t i) const { if (i >= n) umBad("vector index"); return base[p[i] + (q ? q[i] : 0)]; }
};
template <class T> struct UMat {
    T* base = nullptr;
    const std::size_t *rp = nullptr, *cp = nullptr;
    std::size_t m = 0, n = 0;
    T* raw = nullptr;
    T& operator()(std::size_t i, std::size_t j) const { if (i >= m || j >= n) umBad("matrix index"); return base[rp[i] + cp[j]]; }
};
template <class T> std::size_t nrows(const UMat<T>& A) { return A.m; }
template <class T> std::size_t ncols(const UMat<T>& A) { return A.n; }
template <class T> std::size_t size(const UMat<T>& A) { return A.m * A.n; }
template <class T> std::size_t size(const UVec<T>& v) { return v.n; }
template <class P> void umRange(const P& r, std::size_t n) { if (!(r.first >= 0 && r.second >= r.first && (std::size_t)r.second <= n)) umBad("slice"); }
#define UM_VIEWS(C, D)                                                                                                              \
    template <class T, class P, class Q, std::enable_if_t<!std::is_convertible_v<P, std::size_t> && !std::is_convertible_v<Q, std::size_t>, int> = 0> \
    UMat<D T> slice(C UMat<T>& A, P&& r, Q&& s)                                                                                    \
    {                                                                                                                              \
        umRange(r, A.m), umRange(s, A.n);                                                                                          \
        return UMat<D T>{A.base, A.rp + r.first, A.cp + s.first, (std::size_t)(r.second - r.first), (std::size_t)(s.second - s.first), nullptr}; \
    }                                                                                                                              \
    template <class T, class P> UMat<D T> rows(C UMat<T>& A, P&& r) { return slice(A, r, std::pair<std::size_t, std::size_t>{0, A.n}); }                \
    template <class T, class P> UMat<D T> cols(C UMat<T>& A, P&& r) { return slice(A, std::pair<std::size_t, std::size_t>{0, A.m}, r); }                \
    template <class T, class P> UVec<D T> slice(C UMat<T>& A, std::size_t i, P&& r)                                               \
    {                                                                                                                              \
        umRange(r, A.n);                                                                                                           \
        if (i >= A.m) umBad("row");                                                                                                \
        return UVec<D T>{A.base + A.rp[i], A.cp + r.first, nullptr, (std::size_t)(r.second - r.first), nullptr};                   \
    }                                                                                                                              \
    template <class T, class P> UVec<D T> slice(C UMat<T>& A, P&& r, std::size_t j)                                               \
    {                                                                                                                              \
        umRange(r, A.m);                                                                                                           \
        if (j >= A.n) umBad("column");                                                                                             \
        return UVec<D T>{A.base + A.cp[j], A.rp + r.first, nullptr, (std::size_t)(r.second - r.first), nullptr};                   \
    }                                                                                                                              \
    template <class T> UVec<D T> row(C UMat<T>& A, std::size_t i) { return slice(A, i, std::pair<std::size_t, std::size_t>{0, A.n}); }                  \
    template <class T> UVec<D T> col(C UMat<T>& A, std::size_t j) { return slice(A, std::pair<std::size_t, std::size_t>{0, A.m}, j); }                  \
    template <class T> UVec<D T> diag(C UMat<T>& A, int k = 0)                                                                    \
    {                                                                                                                              \
        std::size_t i = k < 0 ? (std::size_t)-k : 0, j = k > 0 ? (std::size_t)k : 0;                                               \
        if (i > A.m || j > A.n) umBad("diagonal");                                                                                 \
        return UVec<D T>{A.base, A.rp + i, A.cp + j, std::min(A.m - i, A.n - j), nullptr};                                         \
    }                                                                                                                              \
    template <class T> UMat<D T> transpose_view(C UMat<T>& A) { return UMat<D T>{A.base, A.cp, A.rp, A.n, A.m, nullptr}; }         \
    template <class T, class P> UVec<D T> slice(C UVec<T>& v, P&& r)                                                              \
    {                                                                                                                              \
        umRange(r, v.n);                                                                                                           \
        return UVec<D T>{v.base, v.p + r.first, v.q ? v.q + r.first : nullptr, (std::size_t)(r.second - r.first), nullptr};        \
    }
UM_VIEWS(const, const)
UM_VIEWS(, )
#undef UM_VIEWS
// a packed UMat over the first m * n entries of p, rows and columns stored in reversed order
template <class T> UMat<T> umPacked(T* p, std::size_t m, std::size_t n) { return UMat<T>{p, umTable(m, 1), umTable(n, m), m, n, p}; }
template <class T> UVec<T> umPackedVec(T* p, std::size_t n) { return UVec<T>{p, umTable(n, 1), nullptr, n, p}; }
template <class T> std::pair<UMat<T>, UMat<T>> reshape(UMat<T>& A, std::size_t m, std::size_t n)
{
    std::size_t s = A.m * A.n;
    if (m * n > s) throw std::domain_error("reshape: too large");
    using P = std::pair<std::size_t, std::size_t>;
    if (!A.raw && m == A.m) return {slice(A, P{0, m}, P{0, n}), slice(A, P{0, m}, P{n, A.n})};
    if (!A.raw && n == A.n) return {slice(A, P{0, m}, P{0, n}), slice(A, P{m, A.m}, P{0, n})};
    if (!A.raw && s) throw std::domain_error("reshape: not packed");
    return std::make_pair(umPacked(A.raw, m, n), umPacked(A.raw + m * n, s - m * n, 1));
}
template <class T> std::pair<UVec<T>, UMat<T>> reshape(UMat<T>& A, std::size_t n)
{
    std::size_t s = A.m * A.n;
    if (n > s) throw std::domain_error("reshape: too large");
    using P = std::pair<std::size_t, std::size_t>;
    if (!A.raw && n == A.m) return {slice(A, P{0, n}, (std::size_t)0), slice(A, P{0, n}, P{1, A.n})};
    if (!A.raw && n == A.n) return {slice(A, (std::size_t)0, P{0, n}), slice(A, P{1, A.m}, P{0, n})};
    if (!A.raw && s) throw std::domain_error("reshape: not packed");
    return std::make_pair(umPackedVec(A.raw, n), umPacked(A.raw + n, s - n, 1));
}
template <class T> auto reshape(UVec<T>& v, std::size_t m, std::size_t n)
{
    UMat<T> A = umPacked(v.raw, v.n, 1);
    if (!v.raw && v.n) throw std::domain_error("reshape: not packed");
    return reshape(A, m, n);
}
template <class T> auto reshape(UVec<T>& v, std::size_t n)
{
    UMat<T> A = umPacked(v.raw, v.n, 1);
    if (!v.raw && v.n) throw std::domain_error("reshape: not packed");
    return reshape(A, n);
}
// what a created object holds is unspecified (an Eigen matrix is not even initialized): here NaN
template <class T> T* umJunk(T* v, std::size_t k)
{
    using R = real_type<T>;
#ifdef PBT_VALGRIND
    VALGRIND_MAKE_MEM_UNDEFINED(v, k * sizeof(T));
    return v;
#endif
    for (std::size_t i = 0; i < k; ++i) {
        if constexpr (std::is_floating_point_v<T>) v[i] = std::numeric_limits<R>::quiet_NaN();
        else if constexpr (is_complex<T>) v[i] = T(std::numeric_limits<R>::quiet_NaN(), std::numeric_limits<R>::quiet_NaN());
    }
    return v;
}
namespace traits {
    template <class A> constexpr bool is_u = false;
    template <class T> constexpr bool is_u<UMat<T>> = true;
    template <class T> constexpr bool is_u<UVec<T>> = true;
    template <class A, class B>
    struct matrix_type_traits<A, B, std::enable_if_t<is_u<std::decay_t<A>> || is_u<std::decay_t<B>>, int>> {
        using T = scalar_type<type_t<A>, type_t<B>>;
#ifdef UM_LEGACY
        using type = LegacyMatrix<T, std::size_t, Layout::RowMajor>;
#else
        using type = UMat<T>;
#endif
    };
    template <class A, class B>
    struct vector_type_traits<A, B, std::enable_if_t<is_u<std::decay_t<A>> || is_u<std::decay_t<B>>, int>> {
        using T = scalar_type<type_t<A>, type_t<B>>;
#ifdef UM_LEGACY
        using type = LegacyVector<T>;
#else
        using type = UVec<T>;
#endif
    };
    template <class U> struct real_type_traits<UMat<U>, int> { using type = UMat<real_type<U>>; };
    template <class U> struct complex_type_traits<UMat<U>, int> { using type = UMat<complex_type<U>>; };
    template <class U> struct real_type_traits<UVec<U>, int> { using type = UVec<real_type<U>>; };
    template <class U> struct complex_type_traits<UVec<U>, int> { using type = UVec<complex_type<U>>; };
    template <class U> struct CreateFunctor<UMat<U>, int> {
        template <class T> auto operator()(std::vector<T>& v, std::size_t m, std::size_t n) const { v.resize(m * n); return umPacked(umJunk(v.data(), m * n), m, n); }
    };
    template <class U> struct CreateFunctor<UVec<U>, int> {
        template <class T> auto operator()(std::vector<T>& v, std::size_t n) const { v.resize(n); return umPackedVec(umJunk(v.data(), n), n); }
    };
    template <class U, int m, int n> struct CreateStaticFunctor<UMat<U>, m, n, int> {
        template <class T> auto operator()(T* v) const { return umPacked(umJunk(v, m * n), m, n); }
    };
    template <class U, int n> struct CreateStaticFunctor<UVec<U>, n, -1, int> {
        template <class T> auto operator()(T* v) const { return umPackedVec(umJunk(v, n), n); }
    };
}  // namespace traits
}  // namespace tlapack
