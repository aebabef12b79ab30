// The same mathematical operand in different storage, and comparison of the results.
#pragma once
#include "umat.hpp"
#ifdef X6_E
#include "tlapack/plugins/eigen.hpp"
#endif
#include "blasref.hpp"

// scattered storage with canaries in the unused places
template <class T> struct SMat {
    size_t m, n, M, N;
    std::vector<T> buf;
    std::vector<size_t> rp, cp;
    std::vector<char> used;
    T canary;
    static std::vector<size_t> places(Case& c, size_t n, size_t N)
    {
        std::vector<size_t> p(N);
        for (size_t i = 0; i < N; ++i) p[i] = i;
        for (size_t i = 0; i < n; ++i) std::swap(p[i], p[i + c.draw(N - i)]);
        p.resize(n);
        return p;
    }
    SMat(Case& c, size_t m_, size_t n_) : m(m_), n(n_), M(m_ + c.draw(3)), N(n_ + c.draw(3))
    {
        rp = places(c, m, M), cp = places(c, n, N);
        for (auto& x : cp) x *= M;
        canary = c.coin() ? nanT<T>() : mk<T>(real_t<T>(12345), real_t<T>(-54321));
        buf.assign(M * N + 1, canary);
        used.assign(M * N + 1, 0);
        for (size_t i = 0; i < m; ++i) for (size_t j = 0; j < n; ++j) used[rp[i] + cp[j]] = 1;
        rp.push_back(0), cp.push_back(0);
    }
    tlapack::UMat<T> view() { return tlapack::UMat<T>{buf.data(), rp.data(), cp.data(), m, n, nullptr}; }
    void set(const Dense<T>& A) { for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) buf[rp[i] + cp[j]] = A(i, j); }
    Dense<T> get() const { Dense<T> A(m, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = buf[rp[i] + cp[j]]; return A; }
    void margins(Case& c, const std::string& what) const
    {
        for (size_t k = 0; k < buf.size(); ++k) if (!used[k] && !same(buf[k], canary)) c.fail(what + "/margin-written", "element ", k, " outside the operand changed");
    }
};
template <class T> struct SVec {
    SMat<T> s;
    size_t n;
    SVec(Case& c, size_t n_) : s(c, n_, 1), n(n_) {}
    tlapack::UVec<T> view() { return tlapack::UVec<T>{s.buf.data() + s.cp[0], s.rp.data(), nullptr, n, nullptr}; }
    void set(const std::vector<T>& v) { for (size_t i = 0; i < n; ++i) s.buf[s.rp[i] + s.cp[0]] = v[i]; }
    std::vector<T> get() const { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = s.buf[s.rp[i] + s.cp[0]]; return v; }
    void margins(Case& c, const std::string& what) const { s.margins(c, what); }
};
template <class T> struct PVec {  // std::vector
    std::vector<T> v;
    PVec(Case&, size_t n) : v(n) {}
    std::vector<T>& view() { return v; }
    void set(const std::vector<T>& w) { v = w; }
    std::vector<T> get() const { return v; }
    void margins(Case&, const std::string&) const {}
};
// storage tags: matrix and vector holder
struct Col { template <class T> using M = GMat<T, Layout::ColMajor>; template <class T> using V = PVec<T>; static const char* nm() { return "col"; } };
struct Row { template <class T> using M = GMat<T, Layout::RowMajor>; template <class T> using V = GVec<T, Direction::Forward>; static const char* nm() { return "row"; } };
struct Bwd { template <class T> using M = GMat<T, Layout::RowMajor>; template <class T> using V = GVec<T, Direction::Backward>; static const char* nm() { return "row/backward"; } };
struct Usr { template <class T> using M = SMat<T>; template <class T> using V = SVec<T>; static const char* nm() { return "user"; } };

#ifdef X6_I  // signed index type
template <class T, Layout L> struct IMat : GMat<T, L> {
    using GMat<T, L>::GMat;
    tlapack::LegacyMatrix<T, int, L> view() { return tlapack::LegacyMatrix<T, int, L>((int)this->m, (int)this->n, this->buf.data() + this->off, (int)this->ld); }
};
template <class T> struct IVec : PVec<T> {
    using PVec<T>::PVec;
    tlapack::LegacyVector<T, int> view() { return tlapack::LegacyVector<T, int>((int)this->v.size(), this->v.data(), 1); }
};
struct IdC { template <class T> using M = IMat<T, Layout::ColMajor>; template <class T> using V = IVec<T>; static const char* nm() { return "int col"; } };
struct IdR { template <class T> using M = IMat<T, Layout::RowMajor>; template <class T> using V = IVec<T>; static const char* nm() { return "int row"; } };
#endif
#ifdef X6_E  // Eigen matrices, and blocks of larger Eigen matrices
template <class T, Layout L, bool Blk> struct EMat {
    using E = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, L == Layout::ColMajor ? Eigen::ColMajor : Eigen::RowMajor>;
    size_t m, n, i0 = 0, j0 = 0;
    T canary;
    E a;
    EMat(Case& c, size_t m_, size_t n_) : m(m_), n(n_), canary(c.coin() ? nanT<T>() : mk<T>(real_t<T>(12345), real_t<T>(-54321)))
    {
        if (Blk) i0 = c.draw(3), j0 = c.draw(3), a = E::Constant(m + i0 + c.draw(3), n + j0 + c.draw(3), canary);
        else a = E::Constant(m, n, canary);
    }
    decltype(auto) view()
    {
        if constexpr (Blk) return a.block(i0, j0, m, n);
        else return (a);
    }
    void set(const Dense<T>& A) { for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) a(i0 + i, j0 + j) = A(i, j); }
    Dense<T> get() const { Dense<T> A(m, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = a(i0 + i, j0 + j); return A; }
    void margins(Case& c, const std::string& what) const
    {
        if ((size_t)a.rows() < i0 + m || (size_t)a.cols() < j0 + n) c.fail(what + "/resized", "matrix is now ", a.rows(), " x ", a.cols());
        for (size_t j = 0; j < (size_t)a.cols(); ++j) for (size_t i = 0; i < (size_t)a.rows(); ++i)
            if ((i < i0 || i >= i0 + m || j < j0 || j >= j0 + n) && !same(T(a(i, j)), canary)) c.fail(what + "/margin-written", "entry (", i, ",", j, ") outside the operand changed");
    }
};
template <class T> struct EVec {
    Eigen::Matrix<T, Eigen::Dynamic, 1> v;
    EVec(Case&, size_t n) : v(n) {}
    auto& view() { return v; }
    void set(const std::vector<T>& w) { for (size_t i = 0; i < w.size(); ++i) v[i] = w[i]; }
    std::vector<T> get() const { return std::vector<T>(v.data(), v.data() + v.size()); }
    void margins(Case&, const std::string&) const {}
};
// complex Eigen vectors cannot be sliced through the plugin with the installed Eigen: std::vector instead
template <class R> struct EVec<std::complex<R>> : PVec<std::complex<R>> { using PVec<std::complex<R>>::PVec; };
struct EiC { template <class T> using M = EMat<T, Layout::ColMajor, false>; template <class T> using V = EVec<T>; static const char* nm() { return "eigen col"; } };
struct EiR { template <class T> using M = EMat<T, Layout::RowMajor, false>; template <class T> using V = EVec<T>; static const char* nm() { return "eigen row"; } };
struct EbC { template <class T> using M = EMat<T, Layout::ColMajor, true>; template <class T> using V = EVec<T>; static const char* nm() { return "eigen block col"; } };
struct EbR { template <class T> using M = EMat<T, Layout::RowMajor, true>; template <class T> using V = EVec<T>; static const char* nm() { return "eigen block row"; } };
#endif

#ifdef X6_E
#define X6_HEAVY(n) ((n) / 6)  // Eigen expressions at -O0 are slow
#else
#define X6_HEAVY(n) ((n) / 2)
#endif

// results of one call
struct Out {
    struct Item { std::string name; std::vector<long double> v; long double scale; };
    std::vector<Item> items;
    template <class T> void add(const std::string& nmn, const std::vector<T>& a)
    {
        Item it{nmn, {}, 0};
        for (auto& x : a) { it.v.push_back((long double)re(x)); if constexpr (cplx<T>) it.v.push_back((long double)im(x)); }
        for (auto x : it.v) if (std::isfinite(x)) it.scale = std::max(it.scale, std::fabs(x));
        items.push_back(it);
    }
    template <class T> void add(const std::string& nmn, const Dense<T>& A) { add(nmn, A.a); }
    void num(const std::string& nmn, long double x) { items.push_back({nmn, {x}, -1}); }  // compared exactly
};
// tol: allowed difference relative to the largest entry of the item
inline void sameOut(Case& c, const std::string& what, const Out& a, const Out& b, double tol)
{
    if (a.items.size() != b.items.size()) c.fail(what + "/outputs", "different number of results: one storage reported a failure");
    for (size_t k = 0; k < a.items.size(); ++k) {
        auto &x = a.items[k], &y = b.items[k];
        if (x.name != y.name || x.v.size() != y.v.size()) c.fail(what + "/outputs", x.name, " against ", y.name);
        for (size_t i = 0; i < x.v.size(); ++i) {
            long double p = x.v[i], q = y.v[i];
            if (p == q || (std::isnan(p) && std::isnan(q))) continue;
            if (x.scale < 0) c.fail(what + "/" + x.name, p, " against ", q);
            if (!(std::fabs(p - q) <= tol * x.scale)) c.fail(what + "/" + x.name, "entry ", i, ": ", (double)p, " against ", (double)q);
            c.label("differs in rounding");
        }
    }
}
// fn(sa, sb, sc) -> Out runs the routine with the three operand classes
template <class T, class F> void sweep(Case& c, const std::string& what, F&& fn)
{
    const double tol = 1e5 * (double)std::numeric_limits<real_t<T>>::epsilon();
    auto run = [&](auto a, auto b, auto d) { return fn(a, b, d); };
    Out ref = run(Col{}, Col{}, Col{});
    auto cmp = [&](auto a, auto b, auto d) {
        std::string w = what + "/" + a.nm() + "," + b.nm() + "," + d.nm();
        c.label(a.nm() + std::string(",") + b.nm() + "," + d.nm());
        Out o;
        try { o = run(a, b, d); }
        catch (const std::out_of_range& e) { c.fail(w + "/index", e.what()); }
        catch (const std::domain_error& e) { c.fail(w + "/rejected", e.what()); }
        sameOut(c, w, ref, o, tol);
    };
#if defined X6_E
    switch (c.draw(3)) {
        case 0: cmp(EiC{}, EiC{}, EiC{}); break;
        case 1: cmp(EiR{}, EiR{}, EiR{}); break;
        default: cmp(EbC{}, EiC{}, EbC{}); break;
    }
#elif defined X6_I
    if (c.coin()) cmp(IdC{}, IdC{}, IdC{});
    else cmp(IdR{}, IdR{}, IdR{});
#else
    switch (c.draw(5)) {
        case 0: cmp(Usr{}, Usr{}, Usr{}); break;
        case 1: cmp(Row{}, Row{}, Row{}); break;
        case 2: cmp(Col{}, Row{}, Usr{}); break;
        case 3: cmp(Row{}, Usr{}, Bwd{}); break;
        default: cmp(Usr{}, Col{}, Row{}); break;
    }
#endif
}
template <class S, class T> auto mat(Case& c, S, const Dense<T>& A)
{
    typename S::template M<T> h(c, A.m, A.n);
    h.set(A);
    return h;
}
template <class S, class T> auto vec(Case& c, S, const std::vector<T>& v)
{
    typename S::template V<T> h(c, v.size());
    h.set(v);
    return h;
}
