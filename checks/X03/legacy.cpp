// Views of the library's own arrays
#include "views.hpp"
#include <tlapack/LegacyBandedMatrix.hpp>
template <class T> using Seen = std::vector<std::string>;
template <class V> constexpr bool isMat = requires(V v) { v.ldim; };
template <class V> constexpr bool isVec = requires(V v) { v.inc; };
template <class T, class V> void walk(Case& c, Store<T>& st, V& v, const AM& w, int depth, const std::string& path);
template <class T, class V> void next(Case& c, Store<T>& st, V v, const AM& w, int depth, const std::string& path)
{
    matches(c, v, w, path.substr(path.rfind('.') + 1));
    st.writes(c, v, w, path.substr(path.rfind('.') + 1));
    c.nontrivial(!w.a.empty());
    if (depth > 1) walk<T>(c, st, v, w, depth - 1, path);
}
template <class T, class V> void shaped(Case& c, Store<T>& st, V& v, const AM& w, int depth, const std::string& path)
{
    size_t size = w.a.size(), m, n;
    bool contiguous = true, bothEmptyOk = true;
    (void)bothEmptyOk;
    if constexpr (isMat<V>) {
        constexpr bool col = V::layout == Layout::ColMajor;
        contiguous = size <= 1 || (size_t)v.ldim == (col ? w.m : w.n) || (col ? w.n : w.m) <= 1;
    }
    else contiguous = (long)v.inc == 1 || size <= 1;
    if (c.draw(2)) {  // into a matrix
        switch (c.draw(5)) {
            case 0: m = w.m, n = c.size(0, w.n + 1); break;
            case 1: n = w.n, m = c.size(0, w.m + 1); break;
            case 2: m = 1, n = c.size(0, size + 1); break;
            case 3: n = 1, m = c.size(0, size + 1); break;
            default: m = c.size(0, 5), n = c.size(0, 5);
        }
        bool fits = m * n <= size, must = fits && contiguous;
        if constexpr (isMat<V>) must = must || (fits && (m == w.m || n == w.n));
        else must = must || (fits && m <= 1);
        std::string op = std::string("reshape-") + (isMat<V> ? "matrix" : "vector") + "-to-matrix";
        c.desc(op, m, n, contiguous);
        try {
            auto [p, r] = tlapack::reshape(v, m, n);
            if (!fits) c.fail(op + "/oversized", "reshape of ", size, " elements into ", m, "x", n, " accepted");
            if ((size_t)tlapack::nrows(p) != m || (size_t)tlapack::ncols(p) != n) c.fail(op + "/shape", "asked for ", m, "x", n, ", got ", (size_t)tlapack::nrows(p), "x", (size_t)tlapack::ncols(p), " from ", w.m, "x", w.n, contiguous ? " contiguous" : " strided");
            parts(c, p, r, w, op, size);
            AM g = addresses(c, p, op.c_str()), h = addresses(c, r, op.c_str());
            bool first = c.coin();
            if (first) next<T>(c, st, p, g, depth, path + "." + op); else next<T>(c, st, r, h, depth, path + "." + op);
        }
        catch (std::domain_error& e) { if (must) c.fail(op + "/refused", "reshape of ", w.m, "x", w.n, contiguous ? " contiguous" : " strided", " into ", m, "x", n, " refused: ", e.what()); c.label("refused"); }
    }
    else {
        n = c.coin() ? c.size(0, size + 1) : c.coin() ? w.m : w.n;
        bool fits = n <= size, must = fits && contiguous;
        if constexpr (isMat<V>) must = must || (fits && (n == w.m || n == w.n || n == 0));
        else must = fits;
        std::string op = std::string("reshape-") + (isMat<V> ? "matrix" : "vector") + "-to-vector";
        c.desc(op, n, contiguous);
        try {
            auto [p, r] = tlapack::reshape(v, n);
            if (!fits) c.fail(op + "/oversized", "reshape of ", size, " elements into ", n, " accepted");
            if ((size_t)tlapack::size(p) != n) c.fail(op + "/shape", "asked for ", n, ", got ", (size_t)tlapack::size(p));
            parts(c, p, r, w, op, size);
            AM g = addresses(c, p, op.c_str()), h = addresses(c, r, op.c_str());
            bool first = c.coin();
            if (first) next<T>(c, st, p, g, depth, path + "." + op); else next<T>(c, st, r, h, depth, path + "." + op);
        }
        catch (std::domain_error& e) { if (must) c.fail(op + "/refused", "reshape of ", w.m, "x", w.n, contiguous ? " contiguous" : " strided", " into ", n, " refused: ", e.what()); c.label("refused"); }
    }
}
template <class T, class V> void ops(Case& c, Store<T>& st, V& v, const AM& w, int depth, const std::string& path)
{
    using namespace tlapack;
    if constexpr (isMat<V>) {
        using idx = std::remove_cv_t<decltype(v.m)>;
        Rg r = genRg(c, w.m), s = genRg(c, w.n);
        switch (c.draw(9)) {
            case 0: c.desc("slice", r.a, r.b, s.a, s.b); anyPair(c, r, [&](auto p) { next<T>(c, st, slice(v, p, pr<idx>(s)), w.sub(r.a, r.b, s.a, s.b), depth, path + ".slice"); }); break;
            case 1: if (w.m == 0) return; else { size_t i = c.size(0, w.m - 1); c.desc("slice-row", i, s.a, s.b); anyPair(c, s, [&](auto p) { next<T>(c, st, slice(v, (idx)i, p), w.sub(i, i + 1, s.a, s.b, true), depth, path + ".slice-row"); }); } break;
            case 2: if (w.n == 0) return; else { size_t j = c.size(0, w.n - 1); c.desc("slice-col", r.a, r.b, j); anyPair(c, r, [&](auto p) { next<T>(c, st, slice(v, p, (idx)j), w.sub(r.a, r.b, j, j + 1, true), depth, path + ".slice-col"); }); } break;
            case 3: c.desc("rows", r.a, r.b); anyPair(c, r, [&](auto p) { next<T>(c, st, rows(v, p), w.sub(r.a, r.b, 0, w.n), depth, path + ".rows"); }); break;
            case 4: c.desc("cols", s.a, s.b); anyPair(c, s, [&](auto p) { next<T>(c, st, cols(v, p), w.sub(0, w.m, s.a, s.b), depth, path + ".cols"); }); break;
            case 5: if (w.m == 0) return; else { size_t i = c.size(0, w.m - 1); c.desc("row", i); next<T>(c, st, row(v, (idx)i), w.sub(i, i + 1, 0, w.n, true), depth, path + ".row"); } break;
            case 6: if (w.n == 0) return; else { size_t j = c.size(0, w.n - 1); c.desc("col", j); next<T>(c, st, col(v, (idx)j), w.sub(0, w.m, j, j + 1, true), depth, path + ".col"); } break;
            case 7: {
                if (w.m == 0 || w.n == 0) return;
                int k = (int)c.range(-(long)w.m + 1, (long)w.n - 1);
                c.desc("diag", k);
                if (k == 0 && c.coin()) next<T>(c, st, diag(v), w.dg(0), depth, path + ".diag"); else next<T>(c, st, diag(v, k), w.dg(k), depth, path + ".diag");
                break;
            }
            default: c.desc("transpose_view"); next<T>(c, st, transpose_view(v), w.tr(), depth, path + ".transpose_view");
        }
    }
    else {
        Rg r = genRg(c, w.m);
        c.desc("slice", r.a, r.b);
        anyPair(c, r, [&](auto p) { next<T>(c, st, slice(v, p), w.sub(r.a, r.b, 0, 1, true), depth, path + ".slice-vector"); });
    }
}
template <class T, class V> void walk(Case& c, Store<T>& st, V& v, const AM& w, int depth, const std::string& path)
{
    if (c.chance(1, 4)) { const V& k = v; c.desc("const"); return ops<T>(c, st, k, w, depth, path); }
    if (c.chance(1, 3)) return shaped<T>(c, st, v, w, depth, path);
    ops<T>(c, st, v, w, depth, path);
}
template <class T, class idx, Layout L> void tMat(Case& c)
{
    size_t m = c.size(0, 6), n = c.size(0, 6), lead = L == Layout::ColMajor ? m : n, other = L == Layout::ColMajor ? n : m, ld = lead + (c.coin() ? 0 : c.size(1, 3));
    int depth = (int)c.range(1, 5);
    Store<T> st(ld * other + 10);
    tlapack::LegacyMatrix<T, idx, L> A((idx)m, (idx)n, st.buf.data() + 5, (idx)ld);
    AM w(m, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) w.at(i, j) = &st.buf[5 + (L == Layout::ColMajor ? i + j * ld : i * ld + j)];
    c.desc(m, n, "ld", ld, "depth", depth);
    matches(c, A, w, "matrix");
    auto lm = tlapack::legacy_matrix(A);
    if (lm.layout != L || lm.m != (idx)m || lm.n != (idx)n || lm.ptr != st.buf.data() + 5 || lm.ldim != (idx)ld) c.fail("legacy_matrix", "descriptor differs from the view");
    walk<T>(c, st, A, w, depth, "");
}
template <class T, class idx, class int_t, Direction D> void tVec(Case& c)
{
    size_t n = c.size(0, 9), inc = std::is_same_v<int_t, idx> ? c.size(1, 3) : 1;
    int depth = (int)c.range(1, 5);
    Store<T> st(n * inc + 10);
    tlapack::LegacyVector<T, idx, int_t, D> x((idx)n, st.buf.data() + 5, (int)inc);
    AM w(n, 1, true);
    for (size_t i = 0; i < n; ++i) w.at(i) = &st.buf[5 + (D == Direction::Forward ? i : n - 1 - i) * inc];
    c.desc(n, "inc", inc, "depth", depth);
    matches(c, x, w, "vector");
    if constexpr (D == Direction::Forward || std::is_signed_v<idx>) {
        auto lv = tlapack::legacy_vector(x);
        const T* start = lv.inc < 0 ? lv.ptr - (long)(n ? n - 1 : 0) * (long)lv.inc : lv.ptr;
        if (lv.n != (idx)n) c.fail("legacy_vector/size", "size ", lv.n, " for ", n);
        for (size_t i = 0; i < n; ++i) if (start + (long)i * (long)lv.inc != w.at(i)) c.fail("legacy_vector/element", "element ", i, " elsewhere");
    }
    walk<T>(c, st, x, w, depth, "");
}
// slices of standard vectors and spans
template <class T> void tStd(Case& c)
{
    size_t n = c.size(0, 9);
    Store<T> st(n);
    AM w(n, 1, true);
    for (size_t i = 0; i < n; ++i) w.at(i) = &st.buf[i];
    Rg r = genRg(c, n);
    c.desc(n, r.a, r.b);
    auto s = tlapack::slice(st.buf, pr<size_t>(r));
    AM u = w.sub(r.a, r.b, 0, 1, true);
    matches(c, s, u, "std-slice");
    std::vector<T> was = st.buf;
    for (int d = 0; d < 3; ++d) {
        Rg q = genRg(c, u.m);
        s = tlapack::slice(s, pr<int>(q));
        u = u.sub(q.a, q.b, 0, 1, true);
        matches(c, s, u, "span-slice");
        if (u.m) {
            size_t k = c.size(0, u.m - 1);
            s[k] = T(-7);
            for (size_t i = 0; i < n; ++i) if (st.buf[i] != (&st.buf[i] == u.at(k) ? T(-7) : was[i])) c.fail("span-slice/write", "storage ", i, " changed");
            st.buf = was;
            s = tlapack::slice(s, pr<size_t>({0, u.m}));
        }
        c.nontrivial(u.m > 0);
    }
}
// arrays made by Create and CreateStatic, and the band map
template <class T, class idx, Layout L> void tMake(Case& c)
{
    size_t m = c.size(0, 6), n = c.size(0, 6);
    using mat = tlapack::LegacyMatrix<T, idx, L>;
    std::vector<T> store;
    tlapack::Create<mat> make;
    auto A = make(store, (idx)m, (idx)n);
    AM g = addresses(c, A, "Create");
    if (g.m != m || g.n != n) c.fail("Create/shape", g.m, "x", g.n, " for ", m, "x", n);
    if (store.size() < m * n) c.fail("Create/storage", "container of ", store.size(), " for ", m, "x", n);
    std::sort(g.a.begin(), g.a.end());
    for (size_t k = 0; k < g.a.size(); ++k) if (g.a[k] != store.data() + k) c.fail("Create/element", "element outside its container, or two elements sharing storage");
    using vec = tlapack::LegacyVector<T, idx, idx>;
    std::vector<T> s2;
    tlapack::Create<vec> makev;
    auto x = makev(s2, (idx)m);
    AM h = addresses(c, x, "Create-vector");
    if (h.m != m) c.fail("Create-vector/shape", h.m, " for ", m);
    for (size_t k = 0; k < m; ++k) if (h.at(k) != s2.data() + k) c.fail("Create-vector/element", "element ", k);
    T fix[12];
    tlapack::CreateStatic<mat, 4, 3> ms;
    auto F = ms(fix);
    AM f = addresses(c, F, "CreateStatic");
    if (f.m != 4 || f.n != 3) c.fail("CreateStatic/shape", f.m, "x", f.n);
    std::sort(f.a.begin(), f.a.end());
    for (size_t k = 0; k < 12; ++k) if (f.a[k] != fix + k) c.fail("CreateStatic/element", "element outside its array");
    // band storage: A(i,j) is row ku+i-j of column j of a (kl+ku+1)-by-n array
    m = c.size(1, 8), n = c.size(1, 8);
    size_t kl = c.size(0, m - 1), ku = c.size(0, n - 1);
    c.desc(m, n, "kl", kl, "ku", ku);
    std::vector<T> bs((kl + ku + 1) * n, T(1));
    tlapack::LegacyBandedMatrix<T, idx> B((idx)m, (idx)n, (idx)kl, (idx)ku, bs.data());
    if ((size_t)tlapack::nrows(B) != m || (size_t)tlapack::ncols(B) != n || (size_t)tlapack::lowerband(B) != kl || (size_t)tlapack::upperband(B) != ku) c.fail("band/shape", "descriptor differs");
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
        if (j <= i + ku && i <= j + kl && &B((idx)i, (idx)j) != &bs[(ku + i - j) + j * (kl + ku + 1)]) c.fail("band/element", "A(", i, ",", j, ") is ", (long)(&B((idx)i, (idx)j) - bs.data()));
    c.nontrivial(true);
}
#define WV() "some view on the walk is not empty"
#define NQ 120000, 6000000
static pbt::Reg m1("matrix/double/Col/size_t", NQ, tMat<double, size_t, Layout::ColMajor>, WV());
static pbt::Reg m2("matrix/double/Row/size_t", NQ, tMat<double, size_t, Layout::RowMajor>, WV());
static pbt::Reg m3("matrix/cfloat/Col/int", NQ, tMat<std::complex<float>, int, Layout::ColMajor>, WV());
static pbt::Reg m4("matrix/float/Row/int64", NQ, tMat<float, int64_t, Layout::RowMajor>, WV());
static pbt::Reg v1("vector/double/unit/fwd", NQ, tVec<double, size_t, tlapack::internal::StrongOne, Direction::Forward>, WV());
static pbt::Reg v2("vector/double/size_t/fwd", NQ, tVec<double, size_t, size_t, Direction::Forward>, WV());
static pbt::Reg v3("vector/cfloat/int/back", NQ, tVec<std::complex<float>, int, int, Direction::Backward>, WV());
static pbt::Reg v4("vector/float/int64/fwd", NQ, tVec<float, int64_t, int64_t, Direction::Forward>, WV());
static pbt::Reg v5("vector/double/size_t/back", NQ, tVec<double, size_t, size_t, Direction::Backward>, WV());
static pbt::Reg v6("vector/double/unit/back", NQ, tVec<double, int64_t, tlapack::internal::StrongOne, Direction::Backward>, WV());
static pbt::Reg s1("std/double", NQ, tStd<double>, WV());
static pbt::Reg s2("std/cfloat", NQ, tStd<std::complex<float>>, WV());
static pbt::Reg k1("make/double/Col", 40000, 2000000, tMake<double, size_t, Layout::ColMajor>, "always");
static pbt::Reg k2("make/cfloat/Row", 40000, 2000000, tMake<std::complex<float>, int64_t, Layout::RowMajor>, "always");
