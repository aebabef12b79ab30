// flags: -I/usr/include/eigen3 -O0
// Descriptors (legacy_matrix, legacy_vector) of Eigen vectors, rows, columns, segments, diagonals and one-row or one-column matrices
#include <tlapack/plugins/eigen.hpp>
#include "views.hpp"
template <class T, class X> void vecCast(Case& c, const char* nm_, const X& x, const std::vector<const void*>& want)
{
    auto lv = tlapack::legacy_vector(x);
    std::string w = std::string("legacy_vector-") + nm_;
    if ((size_t)lv.n != want.size()) c.fail(w + "/size", "size ", (long)lv.n, " for ", want.size());
    for (size_t i = 0; i < want.size(); ++i) if ((const void*)(lv.ptr + (long)i * (long)lv.inc) != want[i]) c.fail(w + "/element", "element ", i, " of ", want.size(), " elsewhere (increment ", (long)lv.inc, ")");
    auto lm = tlapack::legacy_matrix(x);
    w = std::string("legacy_matrix-") + nm_;
    if ((size_t)lm.m * (size_t)lm.n != want.size() || (lm.m != 1 && lm.n != 1 && want.size() > 0)) c.fail(w + "/shape", (long)lm.m, "x", (long)lm.n, " for ", want.size());
    bool cm = lm.layout == tlapack::Layout::ColMajor;
    for (size_t k = 0; k < want.size(); ++k) {
        long i = lm.m == 1 ? 0 : (long)k, j = lm.m == 1 ? (long)k : 0;
        if ((const void*)(lm.ptr + (cm ? i + j * (long)lm.ldim : i * (long)lm.ldim + j)) != want[k]) c.fail(w + "/element", "element ", k, " elsewhere");
    }
    c.nontrivial(want.size() > 1);
}
template <class T, int O> void tCast(Case& c)
{
    using mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, O>;
    using cvec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
    using rvec = Eigen::Matrix<T, 1, Eigen::Dynamic>;
    using I = Eigen::Index;
    size_t m = c.size(1, 7), n = c.size(1, 7);
    int k = (int)c.draw(9);
    if (k == 0) n = 1;
    if (k == 1) m = 1;
    if (k == 2) { if (c.coin()) m = 1; else n = 1; }
    mat A((I)m, (I)n);
    std::vector<const void*> w;
    c.desc(k, m, n);
    c.label(std::to_string(k));
    size_t i0 = c.size(0, m - 1), j0 = c.size(0, n - 1);
    switch (k) {
        case 0: case 1: {
            for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) w.push_back(&A(i, j));
            auto lv = tlapack::legacy_vector(A);
            if ((size_t)lv.n != w.size()) c.fail("legacy_vector-thin/size", (long)lv.n);
            for (size_t i = 0; i < w.size(); ++i) if ((const void*)(lv.ptr + (long)i * (long)lv.inc) != w[i]) c.fail("legacy_vector-thin/element", "element ", i, " of a ", m, "x", n, " matrix elsewhere (increment ", (long)lv.inc, ")");
            c.nontrivial(w.size() > 1);
            break;
        }
        case 2: {
            size_t ld = (O == Eigen::ColMajor ? m : n) + c.size(0, 2);
            std::vector<T> buf(ld * 8 + 8);
            Eigen::Map<mat, Eigen::Unaligned, Eigen::OuterStride<>> B(buf.data(), (I)m, (I)n, Eigen::OuterStride<>((I)ld));
            for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) w.push_back(&B(i, j));
            auto lv = tlapack::legacy_vector(B);
            if ((size_t)lv.n != w.size()) c.fail("legacy_vector-thinmap/size", (long)lv.n);
            for (size_t i = 0; i < w.size(); ++i) if ((const void*)(lv.ptr + (long)i * (long)lv.inc) != w[i]) c.fail("legacy_vector-thinmap/element", "element ", i, " of a ", m, "x", n, " map elsewhere (increment ", (long)lv.inc, ")");
            c.nontrivial(w.size() > 1);
            break;
        }
        case 3: { cvec x((I)m); for (size_t i = 0; i < m; ++i) w.push_back(&x[i]); vecCast<T>(c, "colvec", x, w); break; }
        case 4: { rvec x((I)n); for (size_t i = 0; i < n; ++i) w.push_back(&x[i]); vecCast<T>(c, "rowvec", x, w); break; }
        case 5: { auto x = A.row((I)i0); for (size_t j = 0; j < n; ++j) w.push_back(&A(i0, j)); vecCast<T>(c, "row", x, w); break; }
        case 6: { auto x = A.col((I)j0); for (size_t i = 0; i < m; ++i) w.push_back(&A(i, j0)); vecCast<T>(c, "col", x, w); break; }
        case 7: {
            size_t len = c.size(0, m - i0);
            auto x = tlapack::slice(A, std::make_pair((I)i0, (I)(i0 + len)), (I)j0);
            for (size_t i = 0; i < len; ++i) w.push_back(&A(i0 + i, j0));
            vecCast<T>(c, "slice-col", x, w);
            break;
        }
        default: {
            size_t len = c.size(0, n - j0);
            auto x = tlapack::slice(A, (I)i0, std::make_pair((I)j0, (I)(j0 + len)));
            for (size_t j = 0; j < len; ++j) w.push_back(&A(i0, j0 + j));
            vecCast<T>(c, "slice-row", x, w);
            break;
        }
    }
}
static pbt::Reg c1("cast/double/Col", 20000, 500000, tCast<double, Eigen::ColMajor>, "at least two elements");
static pbt::Reg c2("cast/float/Row", 20000, 500000, tCast<float, Eigen::RowMajor>, "at least two elements");
