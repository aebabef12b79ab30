// The same call twice: self-allocating, and with a dirty workspace of exactly the queried size.
#pragma once
#include "fact.hpp"
#include "schur.hpp"
template <class T, Layout L> struct Twin {
    GMat<T, L> a, b;
    Twin(Case& c, size_t m, size_t n) : a(c, m, n), b(c, m, n) {}
    void set(const Dense<T>& A) { a.set(A), b.set(A); }
    void same_(Case& c, const std::string& w) const
    {
        for (size_t j = 0; j < a.n; ++j) for (size_t i = 0; i < a.m; ++i)
            if (!la::same(a(i, j), b(i, j))) c.fail(w + "/differs", "result entry (", i, ",", j, ") of ", a.m, "x", a.n, " is ", a(i, j), " with a caller's workspace, ", b(i, j), " without");
        a.margins(c, w), b.margins(c, w);
    }
};
template <class T> struct TwinV {
    GVec<T> a, b;
    TwinV(Case& c, size_t n) : a(c, n), b(c, n) {}
    void set(const std::vector<T>& v) { a.set(v), b.set(v); }
    void same_(Case& c, const std::string& w) const
    {
        for (size_t i = 0; i < a.n; ++i)
            if (!la::same(a[i], b[i])) c.fail(w + "/differs", "result vector entry ", i, " is ", a[i], " with a caller's workspace, ", b[i], " without");
        a.margins(c, w), b.margins(c, w);
    }
};
// workspace storage with one of several legal presentations
template <class T> struct Ws {
    size_t m, n, ld;
    int kind;
    std::vector<T> buf;
    T guard = T(real_t<T>(4321));
    std::vector<char> own;
    Ws(Case& c, const tlapack::WorkInfo& wi, Layout L, bool plain = false)
    {
        m = wi.m, n = wi.n, kind = plain ? 0 : (int)c.draw(4);
        if (kind == 1) { if (L == Layout::ColMajor) m += (size_t)c.range(1, 4); else n += (size_t)c.range(1, 4); }  // larger
        if (kind == 2) { if (L == Layout::ColMajor) m = wi.size(), n = 1; else n = wi.size(), m = 1; }  // same size, one row or column
        size_t lead = L == Layout::ColMajor ? m : n, other = L == Layout::ColMajor ? n : m;
        ld = lead;
        if (kind == 3) { if (wi.isContiguous) kind = 0; else ld += (size_t)c.range(1, 3); }  // with a leading dimension
        buf.assign(ld * other + 16, guard), own.assign(buf.size(), 0);
        T junk = c.pick<int>({0, 0, 1, 2}) == 0 ? nanT<T>() : c.coin() ? T(real_t<T>(1e30f)) : T(std::numeric_limits<real_t<T>>::infinity());
        for (size_t o = 0; o < other; ++o) for (size_t l = 0; l < lead; ++l) buf[8 + o * ld + l] = junk, own[8 + o * ld + l] = 1;
        if (ld == 0) ld = 1;
        c.label(kind == 0 ? "exact" : kind == 1 ? "larger" : kind == 2 ? "flat" : "strided");
    }
    template <Layout L> tlapack::LegacyMatrix<T, size_t, L> view() { return tlapack::LegacyMatrix<T, size_t, L>(m, n, buf.data() + 8, ld); }
    void done(Case& c, const std::string& w) const
    {
        for (size_t i = 0; i < buf.size(); ++i)
            if (!own[i] && buf[i] != guard) c.fail(w + "/workspace-overrun", "storage ", (long)i - 8, " outside the ", m, "x", n, " workspace (ld ", ld, ") written");
    }
    const char* nm() const { return kind == 0 ? "/exact" : kind == 1 ? "/larger" : kind == 2 ? "/flat" : "/strided"; }
};
template <class T, Layout L, class F, class G, class... Tw>
bool twice(Case& c, const std::string& w0, const tlapack::WorkInfo& wi, F&& withWork, G&& without, Tw&... tw)
{
    Ws<T> ws(c, wi, L);
    std::string w = w0 + ws.nm();
    c.desc(w, "query", wi.m, wi.n, wi.isContiguous);
    c.label(w0);
    c.nontrivial(wi.size() > 0);
    auto work = ws.template view<L>();
    double r1 = 0, r2 = 0;
    std::string e1, e2;
    auto run = [&](auto&& f, double& r, std::string& e, auto&&... a) {
        try { r = (double)f(a...); }
        catch (std::domain_error& x) { e = std::string("domain: ") + x.what(); }
        catch (std::runtime_error& x) { e = "runtime"; }
    };
    run(without, r2, e2);
    if (!e2.empty() && e2 != "runtime") c.fail(w0 + "/rejected", "self-allocating call raised: ", e2);
    run(withWork, r1, e1, work);
    ws.done(c, w);
    // a strided array need not be reshapable: refusing it is fine, using it wrongly is not
    if (ws.kind == 3 && e1.rfind("domain: Cannot reshape", 0) == 0) { c.label("strided refused"); return false; }
    if (!e1.empty() && e1 != "runtime") c.fail(w + "/rejected", "workspace of the queried size ", wi.m, "x", wi.n, " (contiguous ", wi.isContiguous, ") presented as ", ws.m, "x", ws.n, " ld ", ws.ld, ": ", e1);
    if (e1 != e2) c.fail(w + "/outcome", "with workspace: '", e1, "', without: '", e2, "'");
    if (!sameR(r1, r2)) c.fail(w + "/return", "with workspace ", r1, ", without ", r2);
    (tw.same_(c, w), ...);
    return true;
}
template <class T> Dense<T> anyMat(Case& c, size_t m, size_t n)
{
    Dense<T> A(m, n);
    bool ints = c.chance(1, 4);
    for (auto& x : A.a) x = ints ? smallInt<T>(c, 2) : uni<T>(c);
    return A;
}
template <class T> std::vector<T> anyVec(Case& c, size_t n)
{
    std::vector<T> v(n);
    for (auto& x : v) x = uni<T>(c);
    return v;
}
inline const char* W2() { return "a workspace of at least one element is needed"; }
#define REG2(name, fn) \
    static pbt::Reg R##fn##1(name "/float/Col", 8000, 300000, fn<float, Layout::ColMajor>, W2()); \
    static pbt::Reg R##fn##2(name "/double/Row", 8000, 300000, fn<double, Layout::RowMajor>, W2()); \
    static pbt::Reg R##fn##3(name "/cfloat/Row", 8000, 300000, fn<std::complex<float>, Layout::RowMajor>, W2()); \
    static pbt::Reg R##fn##4(name "/cdouble/Col", 8000, 300000, fn<std::complex<double>, Layout::ColMajor>, W2());
