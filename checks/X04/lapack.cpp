// The pointer LAPACK routines against the template routines on the same data (and element formulas for the simple ones).
// cxx: g++
#include <tlapack/base/utils.hpp>
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/blas/gemm.hpp>
#include <tlapack/lapack/lacpy.hpp>
#include <tlapack/lapack/laset.hpp>
#include <tlapack/legacy_api/blas.hpp>
#include <tlapack/legacy_api/lapack.hpp>
#include "la.hpp"
using namespace pbt;
using namespace la;
namespace L = tlapack::legacy;
namespace tl = tlapack;
template <class T> using M = GMat<T, Layout::ColMajor>;
template <class T> M<T> mat(Case& c, const Dense<T>& A) { M<T> G(c, A.m, A.n); G.set(A); return G; }
template <class T> void near(Case& c, const std::string& w, const M<T>& a, const M<T>& b, double scale, bool tri = false, Uplo u = Uplo::General)
{
    for (size_t j = 0; j < a.n; ++j) for (size_t i = 0; i < a.m; ++i) {
        if (tri && !inTri(u, i, j)) continue;
        double d = (isnanT(a(i, j)) && isnanT(b(i, j))) ? 0 : mag(T(a(i, j) - b(i, j)));
        if (!(d <= 1e4 * eps<T>() * scale)) c.fail(w + "/value", "entry (", i, ",", j, ") ", a(i, j), " against ", b(i, j), " from the template routine");
    }
    a.margins(c, w);
}
template <class T> std::vector<T> buf(const std::vector<T>& v) { std::vector<T> b(v.size() + 8, nanT<T>()); std::copy(v.begin(), v.end(), b.begin()); return b; }
template <class T> void guards(Case& c, const std::string& w, const std::vector<T>& b, size_t n) { for (size_t i = n; i < b.size(); ++i) if (!isnanT(b[i])) c.fail(w + "/guard", "element ", i, " past the vector of length ", n, " written"); }
template <class T> void eqv(Case& c, const std::string& w, const std::vector<T>& b, const std::vector<T>& v, double scale) { for (size_t i = 0; i < v.size(); ++i) if (!(mag(T(b[i] - v[i])) <= 1e4 * eps<T>() * scale)) c.fail(w, "element ", i, ": ", b[i], " against ", v[i]); guards(c, w, b, v.size()); }
template <class T> Dense<T> rnd(Case& c, size_t m, size_t n) { Dense<T> A(m, n); for (auto& x : A.a) x = c.coin() ? uni<T>(c) : smallInt<T>(c); return A; }
template <class T> tl::LegacyVector<T, L::idx_t> vv(std::vector<T>& v) { return tl::LegacyVector<T, L::idx_t>((L::idx_t)v.size(), v.data()); }

template <class T> void qr(Case& c)
{
    size_t m = c.size(1, 24), k = c.size(0, m), n = c.size(k, m);
    bool left = c.coin();
    Dense<T> A = rnd<T>(c, m, c.coin() ? k : c.size(0, 30));
    size_t kk = std::min(m, A.n);
    c.desc("qr", m, A.n, n, k, left ? "L" : "R");
    M<T> G = mat(c, A), H = mat(c, A);
    std::vector<T> t0(kk), t = buf(t0);
    auto Hv = H.view();
    auto tv = vv(t0);
    L::geqr2(m, A.n, G.buf.data() + G.off, G.ld, t.data());
    tl::geqr2(Hv, tv);
    double s = 1 + normF(A);
    near(c, "geqr2", G, H, s);
    eqv(c, "geqr2/tau", t, t0, 1);
    // apply the first q reflectors
    size_t q = c.size(0, kk), p = c.size(0, 12);
    std::vector<T> tq(t0.begin(), t0.begin() + q), tb = buf(tq);
    Op op = c.pick({Op::NoTrans, cplx<T> ? Op::ConjTrans : Op::Trans, Op::ConjTrans});
    Dense<T> C = rnd<T>(c, left ? m : p, left ? p : m), V = blockOf(H.get(), 0, m, 0, q);
    M<T> Vm = mat(c, V), C1 = mat(c, C), C2 = mat(c, C), C3 = mat(c, C);
    Vm.snapshot();
    auto Vv = Vm.view();
    auto tqv = vv(tq);
    auto C2v = C2.view();
    Side sd = left ? Side::Left : Side::Right;
    tl::unm2r(sd, op, Vv, tqv, C2v);
    double sc = 1 + normF(C);
    if (m > 0 && q <= m) {
        L::unm2r(sd, op, C.m, C.n, q, Vm.buf.data() + Vm.off, Vm.ld, tb.data(), C1.buf.data() + C1.off, C1.ld);
        near(c, "unm2r", C1, C2, sc);
        L::unmqr(sd, op, C.m, C.n, q, Vm.buf.data() + Vm.off, Vm.ld, tb.data(), C3.buf.data() + C3.off, C3.ld);
        near(c, "unmqr", C3, C2, sc);
        Vm.unchanged(c, "unm2r/A");
        eqv(c, "unm2r/tau", tb, tq, 1);
    }
    // generate n columns from q reflectors
    if (q <= n) {
        Dense<T> Z = rnd<T>(c, m, n);
        for (size_t j = 0; j < q; ++j) for (size_t i = 0; i < m; ++i) Z(i, j) = V(i, j);
        M<T> Q1 = mat(c, Z), Q2 = mat(c, Z);
        auto Q2v = Q2.view();
        L::ung2r(m, n, q, Q1.buf.data() + Q1.off, Q1.ld, tb.data());
        tl::ung2r(Q2v, tqv);
        near(c, "ung2r", Q1, Q2, 1);
        eqv(c, "ung2r/tau", tb, tq, 1);
    }
    c.nontrivial(kk > 0);
}
template <class T> void house(Case& c)
{
    size_t n = c.size(0, 20);
    int inc = (int)c.pick<int>({1, 1, 2, -1, -3});
    std::vector<T> x(n);
    for (auto& e : x) e = c.chance(1, 4) ? T(0) : uni<T>(c);
    size_t len = n > 0 ? n - 1 : 0, ai = (size_t)std::abs(inc);
    std::vector<T> st(len * ai + 8, nanT<T>());
    auto at = [&](size_t i) { return inc > 0 ? i * ai : (len - 1 - i) * ai; };
    for (size_t i = 0; i < len; ++i) st[at(i)] = x[i + 1];
    std::vector<T> img(st);
    T alpha = n ? x[0] : T(7), tau = nanT<T>(), a2 = alpha, t2 = T(0);
    c.desc("larfg", n, inc);
    if (c.coin()) L::larfg(n, &alpha, st.data(), inc, &tau); else L::larfg(n, alpha, st.data(), inc, tau);
    std::vector<T> y(x.begin() + (n ? 1 : 0), x.end());
    if (n) { auto yv = vv(y); tl::larfg(tl::COLUMNWISE_STORAGE, a2, yv, t2); }
    auto close = [&](const T& p, const T& r) { return mag(T(p - r)) <= 1e4 * eps<T>() * (1 + mag(r)); };
    if (!close(alpha, a2) || !close(tau, t2)) c.fail("larfg/scalar", "alpha ", alpha, " tau ", tau, " against ", a2, " ", t2);
    for (size_t i = 0; i < len; ++i) { if (!close(st[at(i)], y[i])) c.fail("larfg/vector", "element ", i); img[at(i)] = st[at(i)]; }
    for (size_t i = 0; i < st.size(); ++i) if (!same(st[i], img[i])) c.fail("larfg/margin", "storage ", i, " written");
    // larf with the same strided vector
    bool left = c.coin();
    size_t p = c.size(0, 9);
    std::vector<T> v(n), sv(n * ai + 8, nanT<T>());
    for (size_t i = 0; i < n; ++i) v[i] = i ? uni<T>(c) : T(1), sv[inc > 0 ? i * ai : (n - 1 - i) * ai] = v[i];
    if (n) sv[inc > 0 ? 0 : (n - 1) * ai] = c.coin() ? T(1) : nanT<T>();  // the unit entry is not referenced
    T tt = c.chance(1, 5) ? T(0) : uni<T>(c);
    if (n && p) {
        Dense<T> C = rnd<T>(c, left ? n : p, left ? p : n);
        M<T> C1 = mat(c, C), C2 = mat(c, C);
        auto C2v = C2.view();
        auto vw = vv(v);
        Side sd = left ? Side::Left : Side::Right;
        img = sv;
        L::larf(sd, C.m, C.n, sv.data(), inc, tt, C1.buf.data() + C1.off, C1.ld);
        tl::larf(sd, tl::FORWARD, tl::COLUMNWISE_STORAGE, vw, tt, C2v);
        near(c, "larf", C1, C2, (1 + normF(C)) * (double)(n + 1));
        for (size_t i = 0; i < sv.size(); ++i) if (!same(sv[i], img[i])) c.fail("larf/v", "storage ", i, " of v written");
    }
    c.nontrivial(n > 0);
}
template <class T> void block(Case& c)
{
    size_t k = c.size(1, 9), n = c.size(k, 24), p = c.size(0, 14);
    Direction d = c.pick({Direction::Forward, Direction::Backward});
    tl::StoreV s = c.pick({tl::StoreV::Columnwise, tl::StoreV::Rowwise});
    bool col = s == tl::StoreV::Columnwise, left = c.coin();
    Op op = c.pick({Op::NoTrans, cplx<T> ? Op::ConjTrans : Op::Trans, Op::ConjTrans});
    Dense<T> V(col ? n : k, col ? k : n);
    for (size_t j = 0; j < k; ++j) for (size_t i = 0; i < n; ++i) {
        size_t piv = d == Direction::Forward ? j : n - k + j;
        bool in = d == Direction::Forward ? i > piv : i < piv;
        T e = in ? uni<T>(c) : i == piv ? (c.coin() ? T(1) : nanT<T>()) : nanT<T>();
        (col ? V(i, j) : V(j, i)) = e;
    }
    std::vector<T> tau(k), tb;
    for (auto& t : tau) t = c.chance(1, 6) ? T(0) : uni<T>(c);
    tb = buf(tau);
    c.desc("block", n, k, p, (int)col, (char)d);
    M<T> Vm = mat(c, V), T1(c, k, k), T2(c, k, k);
    T1.fill(T(0)), T2.fill(T(0));
    Vm.snapshot();
    auto Vv = Vm.view();
    auto tv = vv(tau);
    auto T2v = T2.view();
    L::larft(d, s, n, k, Vm.buf.data() + Vm.off, Vm.ld, tb.data(), T1.buf.data() + T1.off, T1.ld);
    tl::larft(d, s, Vv, tv, T2v);
    double g = 1;
    for (size_t j = 0; j < k; ++j) g *= 1 + 2.0 * (double)n / 3;
    g = std::min(g, 1e30);
    double tn = std::max(1.0, normF(T2.get()));
    near(c, "larft", T1, T2, tn * (double)n * (double)k);
    eqv(c, "larft/tau", tb, tau, 1);
    Dense<T> C = rnd<T>(c, left ? n : p, left ? p : n);
    M<T> C1 = mat(c, C), C2 = mat(c, C);
    auto C2v = C2.view();
    Side sd = left ? Side::Left : Side::Right;
    L::larfb(sd, op, d, s, C.m, C.n, k, Vm.buf.data() + Vm.off, Vm.ld, T2.buf.data() + T2.off, T2.ld, C1.buf.data() + C1.off, C1.ld);
    tl::larfb(sd, op, d, s, Vv, T2v, C2v);
    near(c, "larfb", C1, C2, (1 + normF(C)) * tn * (double)(n * k));
    Vm.unchanged(c, "larfb/V");
    c.nontrivial(p > 0);
}
template <class T> void chol(Case& c)
{
    using R = real_t<T>;
    size_t n = c.size(0, 40), p = c.size(0, 6);
    Uplo u = genUplo(c);
    bool bad = c.chance(1, 4) && n > 0;
    Dense<T> B = rnd<T>(c, n, n), A = mul(ct(B), B);
    for (size_t i = 0; i < n; ++i) A(i, i) = T(re(A(i, i)) + R(1));
    size_t piv = bad ? c.draw(n) : n;
    if (bad) A(piv, piv) = T(-1);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (!inTri(u, i, j)) A(i, j) = nanT<T>();
    c.desc("chol", n, p, nm(u), bad);
    M<T> G = mat(c, A), H = mat(c, A);
    auto Hv = H.view();
    G.snapshot();
    int i1 = -1, i2 = -1;
    bool e1 = false, e2 = false;
    try { i1 = L::potrf(u, n, G.buf.data() + G.off, G.ld); } catch (std::runtime_error&) { e1 = true; }
    try { i2 = tl::potrf(u, Hv); } catch (std::runtime_error&) { e2 = true; }
    if (i1 != i2 || e1 != e2) c.fail("potrf/info", "info ", i1, " thrown ", e1, " against ", i2, " ", e2);
    G.onlyChanged(c, "potrf", [&](size_t i, size_t j) { return inTri(u, i, j); });
    if (bad != (i1 > 0 || e1)) c.fail("potrf/detect", "indefinite ", bad, " info ", i1);
    if (bad) { c.nontrivial(); return; }
    double na = 1 + normF(symOf(u, true, H.get()));
    near(c, "potrf", G, H, na * na, true, u);
    Dense<T> X = rnd<T>(c, n, p);
    M<T> X1 = mat(c, X), X2 = mat(c, X);
    auto X2v = X2.view();
    H.snapshot();
    L::potrs(u, n, p, H.buf.data() + H.off, H.ld, X1.buf.data() + X1.off, X1.ld);
    tl::potrs(u, Hv, X2v);
    near(c, "potrs", X1, X2, (1 + normF(X2.get())) * na * na);
    H.unchanged(c, "potrs/A");
    c.nontrivial(n > 0);
}
template <class T> void norms(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(0, 15), n = c.size(0, 15);
    tl::Norm nt = c.pick({tl::Norm::Max, tl::Norm::One, tl::Norm::Inf, tl::Norm::Fro});
    Uplo u = genUplo(c);
    Diag dg = genDiag(c);
    int kind = (int)c.draw(4);
    c.desc("norms", m, n, (char)nt, nm(u), kind);
    if (kind == 1 || kind == 2) m = n;
    Dense<T> A = rnd<T>(c, m, n);
    if (kind) for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (!inTri(u, i, j) || (kind == 3 && i == j && dg == Diag::Unit)) A(i, j) = nanT<T>();
    M<T> G = mat(c, A);
    G.snapshot();
    const T* p = G.buf.data() + G.off;
    auto Gv = G.view();
    R a, b;
    if (kind == 0) a = L::lange(nt, m, n, p, G.ld), b = tl::lange(nt, Gv);
    else if (kind == 1) a = L::lanhe(nt, u, n, p, G.ld), b = tl::lanhe(nt, u, Gv);
    else if (kind == 2) a = L::lansy(nt, u, n, p, G.ld), b = tl::lansy(nt, u, Gv);
    else a = L::lantr(nt, u, dg, m, n, p, G.ld), b = tl::lantr(nt, u, dg, Gv);
    if (!(std::abs((double)(a - b)) <= 1e3 * eps<T>() * (double)b)) c.fail("norm" + std::to_string(kind), "norm ", a, " against ", b);
    G.unchanged(c, "norm/A");
    // lassq
    int inc = (int)c.pick<int>({1, 2, -1, -2});
    size_t ai = (size_t)std::abs(inc);
    std::vector<T> st(n * ai + 8, nanT<T>());
    double want = 0;
    R scl = R(c.size(1, 4)), sq = R(c.size(0, 3));
    want = (double)(scl * scl * sq);
    for (size_t i = 0; i < n; ++i) { T e = uni<T>(c); st[i * ai] = e; want += mag(e) * mag(e); }
    L::lassq(n, st.data(), inc, scl, sq);
    double got = (double)scl * (double)scl * (double)sq;
    if (!(std::abs(got - want) <= 1e3 * eps<T>() * want)) c.fail("lassq", "sum of squares ", got, " expected ", want);
    c.nontrivial(m > 0 && n > 0);
}
template <class T> void elem(Case& c)
{
    using R = real_t<T>;
    using MT = L::MatrixType;
    size_t m = c.size(0, 12), n = c.size(0, 12);
    int what = (int)c.draw(4);
    Uplo u = c.pick({Uplo::Lower, Uplo::Upper, Uplo::General});
    MT mt = u == Uplo::Lower ? MT::Lower : u == Uplo::Upper ? MT::Upper : c.pick({MT::General, MT::Hessenberg});
    bool useMT = c.coin();
    Dense<T> A = rnd<T>(c, m, n);
    if (what == 0) {
        M<T> B(c, m, n), S = mat(c, A);
        B.fill(nanT<T>());
        B.snapshot(), S.snapshot();
        c.desc("lacpy", m, n, nm(u), useMT);
        if (useMT) L::lacpy(mt, m, n, S.buf.data() + S.off, S.ld, B.buf.data() + B.off, B.ld);
        else L::lacpy(u, m, n, S.buf.data() + S.off, S.ld, B.buf.data() + B.off, B.ld);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (inTri(u, i, j) && !same(B(i, j), A(i, j))) c.fail("lacpy/value", "entry (", i, ",", j, ")");
        B.onlyChanged(c, "lacpy", [&](size_t i, size_t j) { return inTri(u, i, j); });
        S.unchanged(c, "lacpy/A");
    }
    else if (what == 1) {
        T al = smallInt<T>(c), be = uni<T>(c);
        M<T> B = mat(c, A);
        B.snapshot();
        c.desc("laset", m, n, nm(u), useMT);
        if (useMT) L::laset(mt, m, n, al, be, B.buf.data() + B.off, B.ld); else L::laset(u, m, n, al, be, B.buf.data() + B.off, B.ld);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (inTri(u, i, j) && !same(B(i, j), i == j ? be : al)) c.fail("laset/value", "entry (", i, ",", j, ")");
        B.onlyChanged(c, "laset", [&](size_t i, size_t j) { return inTri(u, i, j); });
    }
    else if (what == 2) {
        L::idx_t d = 1 + (L::idx_t)c.draw(5), seed = (L::idx_t)c.draw(10000), s2 = seed;
        std::vector<T> x(n), y = buf(x);
        auto xv = vv(x);
        c.desc("larnv", d, n);
        L::larnv(d, &seed, n, y.data());
        if (d == 1) tl::larnv<1>(s2, xv); else if (d == 2) tl::larnv<2>(s2, xv); else if (d == 3) tl::larnv<3>(s2, xv); else if (d == 4) tl::larnv<4>(s2, xv); else tl::larnv<5>(s2, xv);
        if (seed != s2) c.fail("larnv/seed", "seed ", seed, " against ", s2);
        eqv(c, "larnv", y, x, 1);
    }
    else {
        MT t = c.pick({MT::General, MT::Lower, MT::Upper, MT::Hessenberg, MT::LowerBand, MT::UpperBand, MT::Band, MT::Band, MT::LowerBand});
        bool band = t == MT::LowerBand || t == MT::UpperBand || t == MT::Band;
        if (t == MT::LowerBand || t == MT::UpperBand) m = n;
        size_t kl = band && m > 0 ? c.draw(m) : 0, ku = band && n > 0 ? c.draw(n) : 0;
        if (t == MT::LowerBand || t == MT::UpperBand) ku = kl;
        size_t rows = t == MT::LowerBand ? kl + 1 : t == MT::UpperBand ? ku + 1 : t == MT::Band ? 2 * kl + ku + 1 : m, dg = t == MT::UpperBand ? ku : t == MT::Band ? kl + ku : 0;
        M<T> S(c, rows, n);
        S.set(rnd<T>(c, rows, n));
        auto used = [&](size_t r, size_t j) {  // is storage (r,j) an entry of the matrix
            if (!band) return t == MT::General || (t == MT::Lower ? r >= j : t == MT::Upper ? r <= j : r <= j + 1);
            long i = (long)r + (long)j - (long)dg;
            if (i < 0 || i >= (long)m) return false;
            return t == MT::LowerBand ? i >= (long)j : t == MT::UpperBand ? i <= (long)j : i + (long)ku >= (long)j;
        };
        for (size_t j = 0; j < n; ++j) for (size_t r = 0; r < rows; ++r) if (!used(r, j)) S(r, j) = c.coin() ? nanT<T>() : T(3);
        S.snapshot();
        R b = R(c.pick<int>({1, 2, 4, -8, 3})), a = R(c.pick<int>({1, 0, 6, -5, 16}));
        c.desc("lascl", (char)t, m, n, kl, ku, S.ld, a, b);
        L::lascl(t, kl, ku, b, a, m, n, S.buf.data() + S.off, S.ld);
        std::string w = std::string("lascl ") + (char)t;
        for (size_t j = 0; j < n; ++j) for (size_t r = 0; r < rows; ++r) if (used(r, j)) {
            T o = S.snap[S.idx(r, j)], want = T(R(re(o) * (a / b)));
            if constexpr (cplx<T>) want = T(re(o) * (a / b), im(o) * (a / b));
            if (!(mag(T(S(r, j) - want)) <= 20 * eps<T>() * mag(want))) c.fail(w + "/value", "storage (", r, ",", j, ") ", S(r, j), " expected ", want);
        }
        S.onlyChanged(c, w, used);
        c.label(w);
    }
    c.nontrivial(m > 0 && n > 0);
}
template <class T> void invalid(Case& c)
{
    size_t m = c.size(1, 9), n = c.size(1, 9);
    M<T> A(c, m, n, true), B(c, m, n), Q(c, n, n), X(c, n, n);
    A.set(rnd<T>(c, m, n)), B.set(rnd<T>(c, m, n)), Q.set(rnd<T>(c, n, n)), X.set(rnd<T>(c, n, n));
    A.snapshot(), B.snapshot(), Q.snapshot(), X.snapshot();
    T *a = A.buf.data() + A.off, *b = B.buf.data() + B.off, *q = Q.buf.data() + Q.off, *x = X.buf.data() + X.off;
    std::vector<T> tau(12, T(0)), t0(tau);
    size_t small_ = c.draw(m);
    Uplo bu = (Uplo)'?', u = genUplo(c);
    using MT = L::MatrixType;
    int k = (int)c.draw(19);
    std::string w;
    auto call = [&] {
        switch (k) {
            case 0: w = "geqr2 lda"; L::geqr2(m, n, a, small_, tau.data()); break;
            case 1: w = "lacpy uplo"; L::lacpy(bu, m, n, a, A.ld, b, B.ld); break;
            case 2: w = "laset uplo"; L::laset(bu, m, n, T(1), T(2), a, A.ld); break;
            case 3: w = "potrf uplo"; L::potrf(c.coin() ? bu : Uplo::General, n, q, Q.ld); break;
            case 4: w = "potrs uplo"; L::potrs(c.coin() ? bu : Uplo::General, n, n, q, Q.ld, x, X.ld); break;
            case 5: w = "ung2r n"; L::ung2r(m, m + 1, m, a, A.ld, tau.data()); break;
            case 6: w = "ung2r k"; L::ung2r(m, c.draw(m), m, a, A.ld, tau.data()); break;
            case 7: w = "ung2r lda"; L::ung2r(m, m, c.draw(m), a, small_, tau.data()); break;
            case 8: w = "unm2r side"; L::unm2r((Side)'?', Op::NoTrans, m, n, 1, a, A.ld, tau.data(), b, B.ld); break;
            case 9: w = "unm2r k"; L::unm2r(Side::Left, Op::NoTrans, m, n, m + 1, a, A.ld, tau.data(), b, B.ld); break;
            case 10: w = "unmqr side"; L::unmqr((Side)'?', Op::NoTrans, m, n, 1, a, A.ld, tau.data(), b, B.ld); break;
            case 11: w = "lange norm"; L::lange((tl::Norm)'?', m, n, a, A.ld); break;
            case 12: w = "lansy uplo"; L::lansy(tl::Norm::One, bu, n, q, Q.ld); break;
            case 13: w = "lascl lda"; L::lascl(MT::General, 0, 0, real_t<T>(2), real_t<T>(1), m, n, a, small_); break;
            case 14: w = "lascl ku"; L::lascl(MT::Band, 0, n + c.draw(3), real_t<T>(2), real_t<T>(1), m, n, a, 50); break;
            case 15: { size_t q = c.draw(std::min(m, n)); w = "lascl lower band lda"; L::lascl(MT::LowerBand, q, q, real_t<T>(2), real_t<T>(1), m, n, a, c.draw(q + 1)); break; }
            case 16: { size_t q = c.draw(std::min(m, n)); w = "lascl upper band lda"; L::lascl(MT::UpperBand, q, q, real_t<T>(2), real_t<T>(1), m, n, a, c.draw(q + 1)); break; }
            case 17: { size_t p = c.draw(m), q = c.draw(n); w = "lascl band lda"; L::lascl(MT::Band, p, q, real_t<T>(2), real_t<T>(1), m, n, a, c.draw(2 * p + q + 1)); break; }
            default: w = "lascl kl"; L::lascl(MT::Band, m + c.draw(3), 0, real_t<T>(2), real_t<T>(1), m, n, a, 50); break;
        }
    };
    bool dom = throwsDomain(call);
    c.desc("invalid", w, m, n);
    if (k == 6 && false) return;
    if (!dom) c.fail(w + "/accepted", "no domain_error");
    A.unchanged(c, w), B.unchanged(c, w), Q.unchanged(c, w), X.unchanged(c, w);
    if (tau != t0) c.fail(w + "/tau", "tau changed");
    c.label(w);
    c.nontrivial();
}
#define R4(k, tn, T) \
    static Reg k##1("qr/" tn, 3000, 200000, qr<T>, "at least one reflector"); \
    static Reg k##2("house/" tn, 6000, 400000, house<T>, "n > 0"); \
    static Reg k##3("block/" tn, 3000, 200000, block<T>, "C not empty"); \
    static Reg k##4("chol/" tn, 2000, 100000, chol<T>, "n > 0"); \
    static Reg k##5("norms/" tn, 10000, 600000, norms<T>, "matrix not empty"); \
    static Reg k##6("elem/" tn, 12000, 600000, elem<T>, "matrix not empty"); \
    static Reg k##7("invalid/" tn, 5000, 200000, invalid<T>, "every case");
R4(f, "float", float)
R4(d, "double", double)
R4(cf, "cfloat", std::complex<float>)
R4(z, "cdouble", std::complex<double>)
