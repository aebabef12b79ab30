// flags: -I/usr/include/eigen3 -O0
// variant: map-col -DWHICH=1
// variant: map-row -DWHICH=2
// variant: own-col -DWHICH=3
// variant: own-row -DWHICH=4
// variant: vectors -DWHICH=5
// Views of Eigen matrices, blocks and maps
#include <tlapack/plugins/eigen.hpp>
#include "views.hpp"
template <int D, class T, class V> void walk(Case& c, Store<T>& st, V& v, const AM& w, const std::string& path);
template <int D, class T, class V> void next(Case& c, Store<T>& st, V&& v, const AM& w, const std::string& path)
{
    std::string op = path.substr(path.rfind('.') + 1);
    if constexpr (!std::is_lvalue_reference_v<decltype(v(0, 0))>) {  // read-only expression: elements by value (all are distinct)
        if ((size_t)tlapack::size(v) != w.a.size()) c.fail(op + "/shape", "view of ", (size_t)tlapack::size(v), ", expected ", w.a.size());
        for (size_t j = 0; j < w.n; ++j) for (size_t i = 0; i < w.m; ++i) {
            T got;
            if constexpr (std::remove_reference_t<V>::IsVectorAtCompileTime) got = v[(Eigen::Index)i]; else got = v((Eigen::Index)i, (Eigen::Index)j);
            if (got != *(const T*)w.at(i, j)) c.fail(op + "/element", "element (", i, ",", j, ") of the view is another one");
        }
    }
    else matches(c, v, w, op);
    st.writes(c, v, w, op);
    c.nontrivial(!w.a.empty());
    if constexpr (D > 1) if (c.draw(4)) walk<D - 1, T>(c, st, v, w, path);
}
template <class V> constexpr bool isV = V::IsVectorAtCompileTime;
template <class V> constexpr bool isDiag = false;
template <class X, int I> constexpr bool isDiag<Eigen::Diagonal<X, I>> = true;
template <class V> constexpr bool lval = std::is_same_v<decltype(std::declval<V&>()(0, 0)), typename V::Scalar&>;
template <int D, class T, class V> void shaped(Case& c, Store<T>& st, V& v, const AM& w, const std::string& path)
{
    size_t size = w.a.size(), m, n;
    bool contiguous, rowMajor = V::IsRowMajor;
    if constexpr (isV<V>) contiguous = size <= 1 || v.innerStride() == 1;
    else contiguous = size <= 1 || (size_t)v.outerStride() == (rowMajor ? w.n : w.m) || (rowMajor ? w.m : w.n) <= 1;
    if (c.draw(2)) {
        switch (c.draw(5)) {
            case 0: m = w.m, n = c.size(0, w.n + 1); break;
            case 1: n = w.n, m = c.size(0, w.m + 1); break;
            case 2: m = 1, n = c.size(0, size + 1); break;
            case 3: n = 1, m = c.size(0, size + 1); break;
            default: m = c.size(0, 5), n = c.size(0, 5);
        }
        bool fits = m * n <= size, must = fits && contiguous;
        if constexpr (!isV<V>) must = must || (fits && (m == w.m || n == w.n));
        else must = must || (fits && (rowMajor ? n : m) <= 1);
        std::string op = std::string("reshape-") + (!isV<V> ? "matrix" : "vector") + "-to-matrix";
        c.desc(op, m, n, contiguous);
        try {
            auto [p, r] = tlapack::reshape(v, (Eigen::Index)m, (Eigen::Index)n);
            if (!fits) c.fail(op + "/oversized", "reshape of ", size, " elements into ", m, "x", n, " accepted");
            if ((size_t)tlapack::nrows(p) != m || (size_t)tlapack::ncols(p) != n) c.fail(op + "/shape", "asked for ", m, "x", n, ", got ", (size_t)tlapack::nrows(p), "x", (size_t)tlapack::ncols(p));
            parts(c, p, r, w, op, size);
            AM g = addresses(c, p, op.c_str()), h = addresses(c, r, op.c_str());
            if (c.coin()) next<D, T>(c, st, p, g, path + "." + op); else next<D, T>(c, st, r, h, path + "." + op);
        }
        catch (std::domain_error& e) { if (must) c.fail(op + "/refused", "reshape of ", w.m, "x", w.n, contiguous ? " contiguous" : " strided", " into ", m, "x", n, " refused: ", e.what()); c.label("refused"); }
    }
    else {
        n = c.coin() ? c.size(0, size + 1) : c.coin() ? w.m : w.n;
        bool fits = n <= size, must = fits && (contiguous || isV<V> || n == w.m || n == w.n || n == 0);
        std::string op = std::string("reshape-") + (!isV<V> ? "matrix" : "vector") + "-to-vector";
        c.desc(op, n, contiguous);
        try {
            auto [p, r] = tlapack::reshape(v, (Eigen::Index)n);
            if (!fits) c.fail(op + "/oversized", "reshape of ", size, " elements into ", n, " accepted");
            if ((size_t)tlapack::size(p) != n) c.fail(op + "/shape", "asked for ", n, ", got ", (size_t)tlapack::size(p));
            parts(c, p, r, w, op, size);
            AM g = addresses(c, p, op.c_str()), h = addresses(c, r, op.c_str());
            if (c.coin()) next<D, T>(c, st, p, g, path + "." + op); else next<D, T>(c, st, r, h, path + "." + op);
        }
        catch (std::domain_error& e) { if (must) c.fail(op + "/refused", "reshape of ", w.m, "x", w.n, contiguous ? " contiguous" : " strided", " into ", n, " refused: ", e.what()); c.label("refused"); }
    }
}
template <int D, class T, class V> void ops(Case& c, Store<T>& st, V& v, const AM& w, const std::string& path)
{
    using namespace tlapack;
    using idx = Eigen::Index;
    if constexpr (!isV<V>) {
        Rg r = genRg(c, w.m), s = genRg(c, w.n);
        switch (c.draw(std::is_const_v<V> ? 8 : 9)) {
            case 0: c.desc("slice", r.a, r.b, s.a, s.b); anyPair(c, r, [&](auto p) { next<D, T>(c, st, slice(v, p, pr<idx>(s)), w.sub(r.a, r.b, s.a, s.b), path + ".slice"); }); break;
            case 1: if (w.m == 0) return; else { size_t i = c.size(0, w.m - 1); c.desc("slice-row", i, s.a, s.b); next<D, T>(c, st, slice(v, (idx)i, pr<idx>(s)), w.sub(i, i + 1, s.a, s.b, true), path + ".slice-row"); } break;
            case 2: if (w.n == 0) return; else { size_t j = c.size(0, w.n - 1); c.desc("slice-col", r.a, r.b, j); next<D, T>(c, st, slice(v, pr<int>(r), (idx)j), w.sub(r.a, r.b, j, j + 1, true), path + ".slice-col"); } break;
            case 3: c.desc("rows", r.a, r.b); next<D, T>(c, st, rows(v, pr<size_t>(r)), w.sub(r.a, r.b, 0, w.n), path + ".rows"); break;
            case 4: c.desc("cols", s.a, s.b); next<D, T>(c, st, cols(v, pr<int>(s)), w.sub(0, w.m, s.a, s.b), path + ".cols"); break;
            case 5: if (w.m == 0) return; else { size_t i = c.size(0, w.m - 1); c.desc("row", i); next<D, T>(c, st, row(v, (idx)i), w.sub(i, i + 1, 0, w.n, true), path + ".row"); } break;
            case 6: if (w.n == 0) return; else { size_t j = c.size(0, w.n - 1); c.desc("col", j); next<D, T>(c, st, col(v, (idx)j), w.sub(0, w.m, j, j + 1, true), path + ".col"); } break;
            case 7: {
                if (w.m == 0 || w.n == 0) return;
                int k = (int)c.range(-(long)w.m + 1, (long)w.n - 1);
                c.desc("diag", k);
                next<D, T>(c, st, diag(v, k), w.dg(k), path + ".diag");
                break;
            }
            default: if constexpr (!std::is_const_v<V> && lval<V>) { c.desc("transpose_view"); next<D, T>(c, st, transpose_view(v), w.tr(), path + ".transpose_view"); }
        }
    }
    else {
        Rg r = genRg(c, w.m);
        c.desc("slice", r.a, r.b);
        next<D, T>(c, st, slice(v, pr<idx>(r)), w.sub(r.a, r.b, 0, 1, true), path + ".slice-vector");
    }
}
template <int D, class T, class V> void walk(Case& c, Store<T>& st, V& v, const AM& w, const std::string& path)
{
    using U = std::remove_cv_t<V>;
    if constexpr (!std::is_const_v<V>) if (c.chance(1, 5)) { const V& k = v; c.desc("const"); return ops<D, T>(c, st, k, w, path); }
    if constexpr (!std::is_const_v<V> && !isDiag<U> && lval<V>) if (c.chance(1, 3)) return shaped<D, T>(c, st, v, w, path);
    ops<D, T>(c, st, v, w, path);
}
// a map over guarded storage, so that every address is known in advance
template <class T, int O> void tMap(Case& c)
{
    size_t m = c.size(0, 6), n = c.size(0, 6), lead = O == Eigen::ColMajor ? m : n, other = O == Eigen::ColMajor ? n : m, ld = lead + (c.coin() ? 0 : c.size(1, 3));
    Store<T> st(ld * other + 10);
    using mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>;
    Eigen::Map<mat, Eigen::Unaligned, Eigen::OuterStride<>> A(st.buf.data() + 5, (Eigen::Index)m, (Eigen::Index)n, Eigen::OuterStride<>((Eigen::Index)ld));
    AM w(m, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) w.at(i, j) = &st.buf[5 + (O == Eigen::ColMajor ? i + j * ld : i * ld + j)];
    c.desc(m, n, "ld", ld);
    matches(c, A, w, "map");
    auto lm = tlapack::legacy_matrix(A);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
        if (lm.ptr + (lm.layout == Layout::ColMajor ? i + j * lm.ldim : i * lm.ldim + j) != w.at(i, j)) c.fail("legacy_matrix/element", "element (", i, ",", j, ") elsewhere");
    if ((size_t)lm.m != m || (size_t)lm.n != n) c.fail("legacy_matrix/shape", "shape differs");
    walk<3, T>(c, st, A, w, "");
}
// an owning matrix, possibly seen through a block
template <class T, int O> void tOwn(Case& c)
{
    size_t m = c.size(0, 6), n = c.size(0, 6);
    using mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>;
    tlapack::Create<mat> make;
    std::vector<T> none;
    auto A = make(none, (Eigen::Index)m, (Eigen::Index)n);
    AM w = addresses(c, A, "Create");
    if (w.m != m || w.n != n) c.fail("Create/shape", w.m, "x", w.n, " for ", m, "x", n);
    std::vector<const void*> u(w.a);
    std::sort(u.begin(), u.end());
    if (std::adjacent_find(u.begin(), u.end()) != u.end()) c.fail("Create/element", "two elements share storage");
    Store<T> st(0);
    c.desc(m, n);
    c.nontrivial(m * n > 0);
    if (m * n == 0) return;
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = T(real_t<T>(1 + i + j * m));
    walk<3, T>(c, st, A, w, "");
}
template <class T, int R> void tVec(Case& c)
{
    size_t n = c.size(0, 9), inc = c.size(1, 3);
    Store<T> st(n * inc + 10);
    using vec = std::conditional_t<R, Eigen::Matrix<T, 1, Eigen::Dynamic>, Eigen::Matrix<T, Eigen::Dynamic, 1>>;
    Eigen::Map<vec, Eigen::Unaligned, Eigen::InnerStride<>> x(st.buf.data() + 5, (Eigen::Index)n, Eigen::InnerStride<>((Eigen::Index)inc));
    AM w(n, 1, true);
    for (size_t i = 0; i < n; ++i) w.at(i) = &st.buf[5 + i * inc];
    c.desc(n, "inc", inc);
    matches(c, x, w, "vector");
    walk<3, T>(c, st, x, w, "");
}
#define WV() "some view on the walk is not empty"
#if WHICH == 1
static pbt::Reg e1("map/double/Col", 100000, 5000000, tMap<double, Eigen::ColMajor>, WV());
#endif
#if WHICH == 2
static pbt::Reg e2("map/cfloat/Row", 100000, 5000000, tMap<std::complex<float>, Eigen::RowMajor>, WV());
#endif
#if WHICH == 3
static pbt::Reg e3("own/float/Col", 100000, 5000000, tOwn<float, Eigen::ColMajor>, WV());
#endif
#if WHICH == 4
static pbt::Reg e4("own/double/Row", 100000, 5000000, tOwn<double, Eigen::RowMajor>, WV());
#endif
#if WHICH == 5
static pbt::Reg e5("vector/double/col", 100000, 5000000, tVec<double, 0>, WV());
static pbt::Reg e6("vector/cfloat/row", 100000, 5000000, tVec<std::complex<float>, 1>, WV());
#endif
