// Address model of views: a view must be exactly the list of element addresses that plain index arithmetic on its
// parent gives. Every operation is compared with the model, then the walk continues on the result.
#pragma once
#include "la.hpp"
using namespace pbt;
using namespace la;
using tlapack::Layout;
using tlapack::Direction;
struct AM {  // model of a matrix (col = one column) or vector (n == 1, vec)
    size_t m = 0, n = 0;
    bool vec = false;
    std::vector<const void*> a;
    AM() = default;
    AM(size_t m_, size_t n_, bool v = false) : m(m_), n(n_), vec(v), a(m_ * n_) {}
    const void*& at(size_t i, size_t j = 0) { return a[i + j * m]; }
    const void* at(size_t i, size_t j = 0) const { return a[i + j * m]; }
    AM sub(size_t r0, size_t r1, size_t c0, size_t c1, bool v = false) const
    {
        AM o(r1 - r0, c1 - c0);
        for (size_t j = c0; j < c1; ++j) for (size_t i = r0; i < r1; ++i) o.at(i - r0, j - c0) = at(i, j);
        if (v) o.vec = true, o.m = o.m * o.n, o.n = 1;
        return o;
    }
    AM tr() const { AM o(n, m); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) o.at(j, i) = at(i, j); return o; }
    AM dg(int k) const
    {
        size_t i0 = k < 0 ? (size_t)-k : 0, j0 = k > 0 ? (size_t)k : 0, len = std::min(m - i0, n - j0);
        AM o(len, 1, true);
        for (size_t i = 0; i < len; ++i) o.at(i) = at(i0 + i, j0 + i);
        return o;
    }
};
template <class V> concept IsMat = requires(const V& v) { v(0, 0); nrows(v); ncols(v); } && tlapack::concepts::Matrix<V>;
template <class V> AM addresses(Case& c, const V& v, const char* op)
{
    if constexpr (requires { v.RowsAtCompileTime; }) {
        if constexpr (!V::IsVectorAtCompileTime) {
            AM o((size_t)tlapack::nrows(v), (size_t)tlapack::ncols(v));
            for (size_t j = 0; j < o.n; ++j) for (size_t i = 0; i < o.m; ++i) o.at(i, j) = std::addressof(v(i, j));
            return o;
        }
        else {
            AM o((size_t)tlapack::size(v), 1, true);
            for (size_t i = 0; i < o.m; ++i) o.at(i) = std::addressof(v[i]);
            return o;
        }
    }
    else if constexpr (requires { v.ldim; }) {
        if (v.m < 0 || v.n < 0 || (double)v.m > 1e6 || (double)v.n > 1e6) c.fail(std::string(op) + "/shape", "reported shape ", (long long)v.m, "x", (long long)v.n);
        AM o((size_t)tlapack::nrows(v), (size_t)tlapack::ncols(v));
        for (size_t j = 0; j < o.n; ++j) for (size_t i = 0; i < o.m; ++i) o.at(i, j) = std::addressof(v(i, j));
        return o;
    }
    else {
        size_t n = (size_t)tlapack::size(v);
        if (n > 1000000) c.fail(std::string(op) + "/shape", "reported size ", (long long)n);
        AM o(n, 1, true);
        for (size_t i = 0; i < o.m; ++i) o.at(i) = std::addressof(v[i]);
        return o;
    }
}
// the view has the shape and the addresses of the model
template <class V> void matches(Case& c, const V& v, const AM& w, const std::string& op)
{
    AM g = addresses(c, v, op.c_str());
    if (g.m != w.m || g.n != w.n) c.fail(op + "/shape", "view is ", g.m, "x", g.n, ", expected ", w.m, "x", w.n);
    if ((size_t)tlapack::size(v) != w.m * w.n) c.fail(op + "/size", "size() is ", (size_t)tlapack::size(v), " for ", w.m, "x", w.n);
    for (size_t j = 0; j < w.n; ++j) for (size_t i = 0; i < w.m; ++i)
        if (g.at(i, j) != w.at(i, j))
            c.fail(op + "/element", "element (", i, ",", j, ") of the ", w.m, "x", w.n, " view is ", (long)((const char*)g.at(i, j) - (const char*)w.at(i, j)), " bytes from the one expected");
}
// the two parts of a reshape: distinct elements of the parent, none shared, none lost
template <class P, class R> void parts(Case& c, const P& p, const R& r, const AM& w, const std::string& op, size_t total)
{
    AM g = addresses(c, p, op.c_str()), h = addresses(c, r, op.c_str());
    if (g.a.size() + h.a.size() != w.a.size()) c.fail(op + "/rest", "parts of size ", g.a.size(), " and ", h.a.size(), " from ", w.a.size());
    std::vector<const void*> all(g.a), par(w.a);
    all.insert(all.end(), h.a.begin(), h.a.end());
    std::sort(all.begin(), all.end()), std::sort(par.begin(), par.end());
    if (all != par) c.fail(op + "/overlap", "parts ", g.m, "x", g.n, " and ", h.m, "x", h.n, " of a ", w.m, "x", w.n, " parent overlap or leave it");
    (void)total;
}
struct Rg { size_t a, b; };
inline Rg genRg(Case& c, size_t n)
{
    Rg r;
    r.a = c.size(0, n), r.b = c.size(0, n);
    if (r.a > r.b) std::swap(r.a, r.b);
    if (c.chance(1, 8)) r.a = 0;
    if (c.chance(1, 8)) r.b = n;
    return r;
}
template <class I> std::pair<I, I> pr(Rg r) { return {(I)r.a, (I)r.b}; }
template <class F> void anyPair(Case& c, Rg r, F&& f)
{
    if (c.coin()) f(pr<int>(r)); else f(pr<size_t>(r));
}
template <class T, class V> constexpr bool canWrite = [] {
    if constexpr (requires(V v) { v.RowsAtCompileTime; }) return std::is_same_v<decltype(std::declval<V&>()(0, 0)), T&>;
    else if constexpr (requires(V v) { v.ldim; }) return std::is_same_v<decltype(std::declval<V&>()(0, 0)), T&>;
    else return std::is_same_v<decltype(std::declval<V&>()[0]), T&>;
}();
// writing through the view changes the element it names and nothing else
template <class T> struct Store {
    std::vector<T> buf;
    Store(size_t n) : buf(n) { for (size_t i = 0; i < n; ++i) buf[i] = T(real_t<T>(i + 1)); }
    template <class V> void writes(Case& c, V& v, const AM& w, const std::string& op)
    {
        if (w.a.empty()) return;
        if constexpr (std::is_const_v<V> || !canWrite<T, V>) return; else {
        size_t k = c.size(0, w.a.size() - 1), i = k % w.m, j = k / w.m;
        std::vector<T> was = buf;
        if constexpr (requires { v.RowsAtCompileTime; }) { if constexpr (V::IsVectorAtCompileTime) v[i] = T(-7); else v(i, j) = T(-7); }
        else if constexpr (requires { v.ldim; }) v(i, j) = T(-7);
        else v[i] = T(-7);
        size_t at = (size_t)((const T*)w.at(i, j) - buf.data());
        for (size_t q = 0; q < buf.size(); ++q)
            if (buf[q] != (q == at ? T(-7) : was[q])) c.fail(op + "/write", "writing element (", i, ",", j, ") changed storage ", q, ", expected ", at);
        buf = was;
        }
    }
};
