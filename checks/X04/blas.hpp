// X04: one set of generated BLAS calls for three surfaces (pointer API, C wrappers, CBLAS wrappers).
// All data are small integers, so every result is exact and is compared bitwise with the operation written out.
#pragma once
#include "la.hpp"
#include <sys/mman.h>
namespace x4 {
using namespace pbt;
using namespace la;
using cd = std::complex<double>;
typedef int64_t I;
enum Lay { Col, Row };
enum Tr { N, Tt, C };
enum Tri { Up, Lo, Gen };
template <class T> constexpr bool cx = tlapack::is_complex<T>;
template <class T> T to(cd z) { if constexpr (cx<T>) return T((real_t<T>)z.real(), (real_t<T>)z.imag()); else return T(z.real()); }
inline cd conjIf(bool b, cd z) { return b ? std::conj(z) : z; }
// which argument of the call is made invalid (-1: none)
struct Mu {
    Case& c;
    int at, k = 0;
    bool hit = false;
    std::string what;
    Mu(Case& c_, bool bad, unsigned args) : c(c_), at(bad ? (int)c_.draw(args) : -1) {}
    bool me() { return k++ == at; }
    template <class E> E en(E e, const char* n) { if (me()) hit = true, what = n, e = (E)7; return e; }
    I ld(I v, I need, const char* n) { if (me()) { if (need == 0) throw Discard(); hit = true, what = n, v = c.range(0, need - 1); } return v; }
    I inc(I v, const char* n, bool pos = false) { if (me()) hit = true, what = n, v = pos ? -(I)c.size(0, 3) : 0; return v; }
    I dim(I v, const char* n) { if (me()) { if constexpr (std::is_unsigned_v<tlapack::legacy::idx_t>) throw Discard(); hit = true, what = n, v = -(I)c.size(1, 3); } return v; }
};
// read-only inputs live in pages that are write-protected during the call
struct Arena {
    char* mem;
    size_t cap = 1 << 20, used = 0;
    Arena() { mem = (char*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
    void* get(size_t n) { void* p = mem + used; used += (n + 63) & ~size_t(63); if (used > cap) throw std::bad_alloc(); return p; }
    void lock() { mprotect(mem, used ? used : 1, PROT_READ); }
    void open() { mprotect(mem, used ? used : 1, PROT_READ | PROT_WRITE); }
    void reset() { open(); used = 0; }
};
inline Arena& arena() { static Arena a; return a; }
template <class T> T guard() { return T(real_t<T>(-4321)); }
template <class T> struct Mem {
    T* p;
    size_t len;
    std::vector<T> own, want;
    void init(size_t n, bool ro)
    {
        len = n + 16;
        if (ro) p = (T*)arena().get(len * sizeof(T));
        else own.resize(len), p = own.data();
        for (size_t i = 0; i < len; ++i) p[i] = guard<T>();
    }
    void snap() { want.assign(p, p + len); }
    void verify(Case& c, const std::string& w, const std::string& who)
    {
        for (size_t i = 0; i < len; ++i) if (!same(p[i], want[i])) c.fail(w + "/" + who, "storage ", (long)i - 8, " of ", who, " is ", p[i], ", expected ", want[i]);
    }
};
inline int small(Case& c) { return (int)c.range(-4, 4); }
template <class T> cd gen(Case& c) { cd z(small(c), 0); if (cx<T>) z.imag(small(c)); return z; }
// scalars: 0 and 1 often
template <class T> cd scalar(Case& c) { switch (c.draw(4)) { case 0: return 0; case 1: return 1; default: return gen<T>(c); } }
template <class T> struct Mat : Mem<T> {
    I m, n, ld;
    Lay lay;
    std::vector<cd> v;
    Mat(Case& c, Lay l, I m_, I n_, bool ro) : m(m_), n(n_), lay(l), v((size_t)(m_ * n_))
    {
        ld = need() + (c.coin() ? 0 : (I)c.size(0, 3));
        this->init((size_t)(ld * (l == Col ? n : m)), ro);
    }
    I need() const { return lay == Col ? m : n; }
    T* ptr() { return this->p + 8; }
    size_t at(I i, I j) const { return 8 + (size_t)(lay == Col ? i + j * ld : i * ld + j); }
    cd& operator()(I i, I j) { return v[(size_t)(i + j * m)]; }
    void set(I i, I j, cd z) { (*this)(i, j) = z, this->p[at(i, j)] = to<T>(z); }
    void raw(I i, I j, T z) { this->p[at(i, j)] = z; }
    void exp(I i, I j, cd z) { this->want[at(i, j)] = to<T>(z); }
    void fill(Case& c) { for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) set(i, j, gen<T>(c)); }
};
template <class T> struct Vec : Mem<T> {
    I n, inc;
    std::vector<cd> v;
    Vec(Case& c, I n_, bool ro, bool pos = false) : n(n_), v((size_t)n_)
    {
        inc = (I)c.size(1, 3);
        if (c.coin()) inc = 1;
        if (!pos && c.coin()) inc = -inc;
        this->init((size_t)(n * std::abs(inc)), ro);
    }
    T* ptr() { return this->p + 8; }
    size_t at(I i) const { return 8 + (size_t)(inc > 0 ? i * inc : (n - 1 - i) * -inc); }
    cd& operator[](I i) { return v[(size_t)i]; }
    void set(I i, cd z) { v[(size_t)i] = z, this->p[at(i)] = to<T>(z); }
    void exp(I i, cd z) { this->want[at(i)] = to<T>(z); }
    void fill(Case& c) { for (I i = 0; i < n; ++i) set(i, gen<T>(c)); }
};
// run the call; on a valid one all images must be as expected, on an invalid one nothing may have changed
template <class F, class G, class... Ms> void run(Case& c, Mu& mu, const std::string& w, F&& call, G&& expect, Ms&... ms)
{
    (ms.snap(), ...);
    std::string err;
    bool dom = false;
    arena().lock();
    try { call(); }
    catch (std::domain_error& e) { dom = true, err = e.what(); }
    catch (std::exception& e) { err = e.what(); }
    catch (...) { arena().open(); throw; }
    arena().open();
    if (mu.at >= 0) {
        if (!mu.hit) throw Discard();
        c.desc("invalid", mu.what);
        c.label(w + "/" + mu.what);
        c.nontrivial();
        if (!dom) c.fail(w + "/" + mu.what + "/accepted", "call with an invalid ", mu.what, " raised no domain_error", err.empty() ? "" : ": ", err);
    }
    else {
        if (!err.empty()) c.fail(w + "/rejected", "valid call raised: ", err);
        expect();
    }
    int k = 0;
    (ms.verify(c, w, "operand" + std::to_string(++k)), ...);
}
inline I dimOf(Case& c) { return c.chance(1, 12) ? 0 : (I)c.size(1, 9); }
inline Lay lay(Case& c) { return c.coin() ? Row : Col; }
inline Tr tr(Case& c) { return (Tr)c.draw(3); }
inline Tri tri(Case& c) { return c.coin() ? Up : Lo; }
inline bool inTri(Tri u, I i, I j) { return u == Gen || (u == Up ? i <= j : i >= j); }
inline const char* nm(Lay l) { return l == Row ? "Row" : "Col"; }
inline const char* nm(Tr t) { return t == N ? "N" : t == Tt ? "T" : "C"; }
inline const char* nm(Tri t) { return t == Up ? "U" : t == Lo ? "L" : "G"; }
template <class T> cd opA(Mat<T>& A, Tr t, I i, I j) { return t == N ? A(i, j) : conjIf(t == C, A(j, i)); }
// fill a symmetric / Hermitian operand: only the triangle is stored, the rest is NaN
template <class T> void fillSym(Case& c, Mat<T>& A, Tri u, bool herm, bool poisonDiag = true)
{
    for (I j = 0; j < A.n; ++j) for (I i = 0; i <= j; ++i) {
        cd z = gen<T>(c);
        if (i == j && herm) z.imag(0);
        A(i, j) = z, A(j, i) = conjIf(herm, z);
        if (inTri(u, i, j)) A.raw(i, j, to<T>(A(i, j))); else A.raw(i, j, nanT<T>());
        if (i != j) { if (inTri(u, j, i)) A.raw(j, i, to<T>(A(j, i))); else A.raw(j, i, nanT<T>()); }
        if (i == j && herm && cx<T> && poisonDiag) A.raw(i, i, to<T>(cd(z.real(), 99)));
    }
}
// triangular operand: other triangle (and a unit diagonal) is NaN; the diagonal divides exactly
template <class T> void fillTri(Case& c, Mat<T>& A, Tri u, bool unit)
{
    for (I j = 0; j < A.n; ++j) for (I i = 0; i < A.m; ++i) {
        if (i == j) {
            cd z = c.pick<int>({1, -1, 2, -2});
            if (cx<T> && c.chance(1, 3)) z = cd(0, z.real());
            if (unit) A(i, i) = 1, A.raw(i, i, nanT<T>()); else A.set(i, i, z);
        }
        else if (inTri(u, i, j)) A.set(i, j, c.chance(1, 3) ? cd(0) : gen<T>(c));
        else A(i, j) = 0, A.raw(i, j, nanT<T>());
    }
}
// entry (i,j) of a symmetric result that is only partly referenced
template <class T> void expSym(Mat<T>& Cm, Tri u, I i, I j, cd z) { if (inTri(u, i, j)) Cm.exp(i, j, z); }

// ---- level 1 -------------------------------------------------------------------------------------------------
template <class A, class T> void asum(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, true, true);
    x.fill(c);
    c.desc("asum", n, x.inc);
    double want = 0, got = 0;
    for (I i = 0; i < n; ++i) want += std::abs(x[i].real()) + std::abs(x[i].imag());
    I ix = mu.inc(x.inc, "incx", true);
    run(c, mu, "asum", [&] { got = (double)A::asum(n, x.ptr(), ix); }, [&] { if (got != want) c.fail("asum/value", "got ", got, ", expected ", want); }, x);
    c.nontrivial(n > 0);
}
template <class A, class T> void axpy(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, true), y(c, n, false);
    x.fill(c), y.fill(c);
    cd a = scalar<T>(c);
    c.desc("axpy", n, x.inc, y.inc, a);
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, "axpy", [&] { A::axpy(n, to<T>(a), x.ptr(), ix, y.ptr(), iy); }, [&] { for (I i = 0; i < n; ++i) y.exp(i, y[i] + a * x[i]); }, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void copy(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, true), y(c, n, false);
    x.fill(c), y.fill(c);
    c.desc("copy", n, x.inc, y.inc);
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, "copy", [&] { A::copy(n, x.ptr(), ix, y.ptr(), iy); }, [&] { for (I i = 0; i < n; ++i) y.exp(i, x[i]); }, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void swap(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, false), y(c, n, false);
    x.fill(c), y.fill(c);
    c.desc("swap", n, x.inc, y.inc);
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, "swap", [&] { A::swap(n, x.ptr(), ix, y.ptr(), iy); }, [&] { for (I i = 0; i < n; ++i) y.exp(i, x[i]), x.exp(i, y[i]); }, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void dots(Case& c, Mu& mu)
{
    I n = dimOf(c);
    bool conj = c.coin();
    Vec<T> x(c, n, true), y(c, n, true);
    x.fill(c), y.fill(c);
    std::string w = conj ? "dot" : "dotu";
    c.desc(w, n, x.inc, y.inc);
    cd want = 0, got = 0;
    for (I i = 0; i < n; ++i) want += conjIf(conj, x[i]) * y[i];
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, w, [&] { got = conj ? cd(A::dot(n, x.ptr(), ix, y.ptr(), iy)) : cd(A::dotu(n, x.ptr(), ix, y.ptr(), iy)); }, [&] { if (got != want) c.fail(w + "/value", "got ", got, ", expected ", want); }, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void iamax(Case& c, Mu& mu)
{
    I n = dimOf(c), want = 0, got = 0;
    Vec<T> x(c, n, true, true);
    x.fill(c);
    c.desc("iamax", n, x.inc);
    auto a1 = [&](I i) { return std::abs(x[i].real()) + std::abs(x[i].imag()); };
    for (I i = 1; i < n; ++i) if (a1(i) > a1(want)) want = i;
    I ix = mu.inc(x.inc, "incx", true);
    run(c, mu, "iamax", [&] { got = (I)A::iamax(n, x.ptr(), ix); }, [&] { if (got != want) c.fail("iamax/value", "got ", got, ", expected ", want); }, x);
    c.nontrivial(n > 0);
}
template <class A, class T> void nrm2(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, true, true);
    x.fill(c);
    c.desc("nrm2", n, x.inc);
    double s = 0, got = 0;
    for (I i = 0; i < n; ++i) s += std::norm(x[i]);
    I ix = mu.inc(x.inc, "incx", true);
    run(c, mu, "nrm2", [&] { got = (double)A::nrm2(n, x.ptr(), ix); }, [&] { if (!(std::abs(got - std::sqrt(s)) <= 20 * std::numeric_limits<real_t<T>>::epsilon() * std::sqrt(s))) c.fail("nrm2/value", "got ", got, ", expected ", std::sqrt(s)); }, x);
    c.nontrivial(n > 0);
}
template <class A, class T> void scal(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, false, true);
    x.fill(c);
    cd a = scalar<T>(c);
    c.desc("scal", n, x.inc, a);
    I ix = mu.inc(x.inc, "incx", true);
    run(c, mu, "scal", [&] { A::scal(n, to<T>(a), x.ptr(), ix); }, [&] { for (I i = 0; i < n; ++i) x.exp(i, a * x[i]); }, x);
    c.nontrivial(n > 0);
}
template <class A, class T> void rot(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, false), y(c, n, false);
    x.fill(c), y.fill(c);
    double cs = small(c);
    bool realS = !cx<T> || c.coin();
    cd s = realS ? cd(small(c)) : gen<T>(c);
    c.desc("rot", n, x.inc, y.inc, cs, s);
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, "rot", [&] { if constexpr (cx<T>) { if (realS && c.coin()) A::rotr(n, x.ptr(), ix, y.ptr(), iy, (real_t<T>)cs, (real_t<T>)s.real()); else A::rot(n, x.ptr(), ix, y.ptr(), iy, (real_t<T>)cs, to<T>(s)); } else A::rot(n, x.ptr(), ix, y.ptr(), iy, (real_t<T>)cs, to<T>(s)); },
        [&] { for (I i = 0; i < n; ++i) { cd a = x[i], b = y[i]; x.exp(i, cs * a + s * b), y.exp(i, cs * b - std::conj(s) * a); } }, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void rotm(Case& c, Mu& mu)
{
    I n = dimOf(c);
    Vec<T> x(c, n, false), y(c, n, false);
    x.fill(c), y.fill(c);
    int flag = (int)c.range(-2, 1);
    Mem<T> par;
    par.init(5, true);
    T* p = par.p + 8;
    double h[4];
    for (int i = 0; i < 4; ++i) h[i] = small(c), p[1 + i] = T(h[i]);
    bool bad = mu.me();
    if (bad) mu.hit = true, mu.what = "flag", p[0] = T(c.pick<int>({-3, 2, 5, -7})); else p[0] = T(flag);
    if (!bad && flag == -2) h[0] = h[3] = 1, h[1] = h[2] = 0, p[1] = p[2] = p[3] = p[4] = nanT<T>();
    if (!bad && flag == 0) h[0] = h[3] = 1, p[1] = p[4] = nanT<T>();
    if (!bad && flag == 1) h[2] = 1, h[1] = -1, p[2] = p[3] = nanT<T>();
    c.desc("rotm", n, x.inc, y.inc, flag);
    I ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, "rotm", [&] { A::rotm(n, x.ptr(), ix, y.ptr(), iy, p); }, [&] { for (I i = 0; i < n; ++i) { cd a = x[i], b = y[i]; x.exp(i, h[0] * a + h[2] * b), y.exp(i, h[1] * a + h[3] * b); } }, x, y, par);
    c.nontrivial(n > 0);
}
// generators of rotations: the relation they are defined by
template <class A, class T> void rotg(Case& c, Mu& mu)
{
    using R = real_t<T>;
    if (mu.at >= 0) throw Discard();
    cd a = gen<T>(c), b = gen<T>(c);
    if (c.chance(1, 5)) a = 0;
    if (c.chance(1, 5)) b = 0;
    T ta = to<T>(a), tb = to<T>(b), s = T(R(55));
    R cs = R(55);
    c.desc("rotg", a, b);
    A::rotg(&ta, &tb, &cs, &s);
    cd r = cd(ta), S = cd(s);
    double C = (double)cs, tol = 30 * std::numeric_limits<R>::epsilon();
    if (!(std::abs(C * a + S * b - r) <= tol * 10)) c.fail("rotg/r", "c a + s b = ", C * a + S * b, ", r = ", r);
    if (!(std::abs(C * b - std::conj(S) * a) <= tol * 10)) c.fail("rotg/zero", "c b - conj(s) a = ", C * b - std::conj(S) * a);
    if (!(std::abs(C * C + std::norm(S) - 1) <= tol)) c.fail("rotg/unit", "c^2 + |s|^2 = ", C * C + std::norm(S));
    c.nontrivial(b != 0.0);
}
template <class A, class T> void rotmg(Case& c, Mu& mu)
{
    T d1 = T(c.range(1, 9)), d2 = T(c.range(-3, 9)), x1 = T(small(c)), y1 = T(small(c)), par[5];
    for (T& p : par) p = T(0);
    c.desc("rotmg", d1, d2, x1, y1);
    if (mu.at == 0) { d1 = T(-(double)c.range(0, 5)), mu.hit = true, mu.what = "d1"; }
    else if (mu.at > 0) throw Discard();
    T e1 = d1, e2 = d2, ex = x1, h[4] = {T(0), T(0), T(0), T(0)};
    T f = 0;
    if (mu.at < 0) f = (T)tlapack::rotmg(e1, e2, ex, y1, h);
    T b1 = d1, b2 = d2, bx = x1;
    bool dom = false;
    try { A::rotmg(&d1, &d2, &x1, y1, par); }
    catch (std::domain_error&) { dom = true; }
    if (mu.at >= 0) { if (!dom) c.fail("rotmg/d1/accepted", "d1 = ", b1, " accepted"); c.nontrivial(); return; }
    if (dom) c.fail("rotmg/rejected", "valid call rejected");
    if (!same(d1, e1) || !same(d2, e2) || !same(x1, ex) || par[0] != f) c.fail("rotmg/value", "differs from the template routine: ", d1, " ", d2, " ", x1, " flag ", par[0], " against ", e1, " ", e2, " ", ex, " flag ", f);
    for (int i = 0; i < 4; ++i) {
        bool used = f == T(-1) || (f == T(0) && (i == 1 || i == 2)) || (f == T(1) && (i == 0 || i == 3));
        if (used && !same(par[1 + i], h[i])) c.fail("rotmg/h", "h[", i, "] ", par[1 + i], " against ", h[i]);
    }
    c.nontrivial();
}
// ---- level 2 -------------------------------------------------------------------------------------------------
template <class A, class T> void gemv(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tr t = tr(c);
    I m = dimOf(c), n = dimOf(c), lx = t == N ? n : m, ly = t == N ? m : n;
    Mat<T> M(c, l, m, n, true);
    Vec<T> x(c, lx, true), y(c, ly, false);
    M.fill(c), x.fill(c), y.fill(c);
    cd al = scalar<T>(c), be = scalar<T>(c);
    std::string w = std::string("gemv ") + nm(l) + nm(t);
    if (be == 0.0) for (I i = 0; i < ly; ++i) y.p[y.at(i)] = nanT<T>();
    bool quick = m == 0 || n == 0;
    c.desc(w, m, n, M.ld, x.inc, y.inc, al, be);
    auto L = mu.en(l, "layout");
    auto O = mu.en(t, "trans");
    I mm = mu.dim(m, "m"), nn = mu.dim(n, "n"), ld = mu.ld(M.ld, M.need(), "lda"), ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, w, [&] { A::gemv(L, O, mm, nn, to<T>(al), M.ptr(), ld, x.ptr(), ix, to<T>(be), y.ptr(), iy); },
        [&] { if (!quick) for (I i = 0; i < ly; ++i) { cd s = 0; for (I j = 0; j < lx; ++j) s += opA(M, t, i, j) * x[j]; y.exp(i, al * s + (be == 0.0 ? 0.0 : be * y[i])); } }, M, x, y);
    c.nontrivial(!quick);
}
template <class A, class T> void ger(Case& c, Mu& mu)
{
    Lay l = lay(c);
    bool u = c.coin();
    I m = dimOf(c), n = dimOf(c);
    Mat<T> M(c, l, m, n, false);
    Vec<T> x(c, m, true), y(c, n, true);
    M.fill(c), x.fill(c), y.fill(c);
    cd al = scalar<T>(c);
    std::string w = std::string(u ? "geru " : "ger ") + nm(l);
    c.desc(w, m, n, M.ld, x.inc, y.inc, al);
    auto L = mu.en(l, "layout");
    I mm = mu.dim(m, "m"), nn = mu.dim(n, "n"), ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy"), ld = mu.ld(M.ld, M.need(), "lda");
    run(c, mu, w, [&] { if (u) A::geru(L, mm, nn, to<T>(al), x.ptr(), ix, y.ptr(), iy, M.ptr(), ld); else A::ger(L, mm, nn, to<T>(al), x.ptr(), ix, y.ptr(), iy, M.ptr(), ld); },
        [&] { for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) M.exp(i, j, M(i, j) + al * x[i] * conjIf(!u, y[j])); }, x, y, M);
    c.nontrivial(m * n > 0);
}
template <class A, class T> void symv(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = tri(c);
    bool h = !A::hasSymv || c.coin();
    I n = dimOf(c);
    Mat<T> M(c, l, n, n, true);
    Vec<T> x(c, n, true), y(c, n, false);
    fillSym(c, M, u, h), x.fill(c), y.fill(c);
    cd al = scalar<T>(c), be = scalar<T>(c);
    if (be == 0.0) for (I i = 0; i < n; ++i) y.p[y.at(i)] = nanT<T>();
    std::string w = std::string(h ? "hemv " : "symv ") + nm(l) + nm(u);
    c.desc(w, n, M.ld, x.inc, y.inc, al, be);
    auto L = mu.en(l, "layout");
    auto U = mu.en(u, "uplo");
    I nn = mu.dim(n, "n"), ld = mu.ld(M.ld, n, "lda"), ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy");
    run(c, mu, w, [&] { if (h) A::hemv(L, U, nn, to<T>(al), M.ptr(), ld, x.ptr(), ix, to<T>(be), y.ptr(), iy); else A::symv(L, U, nn, to<T>(al), M.ptr(), ld, x.ptr(), ix, to<T>(be), y.ptr(), iy); },
        [&] { for (I i = 0; i < n; ++i) { cd s = 0; for (I j = 0; j < n; ++j) s += M(i, j) * x[j]; y.exp(i, al * s + (be == 0.0 ? 0.0 : be * y[i])); } }, M, x, y);
    c.nontrivial(n > 0);
}
template <class A, class T> void her(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = tri(c);
    bool h = cx<T> ? (!A::hasCsyr || c.coin()) : c.coin();
    I n = dimOf(c);
    Mat<T> M(c, l, n, n, false);
    Vec<T> x(c, n, true);
    fillSym(c, M, u, h, false), x.fill(c);
    cd al = h ? cd(scalar<real_t<T>>(c)) : scalar<T>(c);
    if (h && al != 0.0 && cx<T> && c.coin()) for (I i = 0; i < n; ++i) M.raw(i, i, to<T>(cd(M(i, i).real(), 99)));
    std::string w = std::string(h ? "her " : "syr ") + nm(l) + nm(u);
    c.desc(w, n, M.ld, x.inc, al);
    auto L = mu.en(l, "layout");
    auto U = mu.en(u, "uplo");
    I nn = mu.dim(n, "n"), ix = mu.inc(x.inc, "incx"), ld = mu.ld(M.ld, n, "lda");
    run(c, mu, w, [&] { if (h) A::her(L, U, nn, (real_t<T>)al.real(), x.ptr(), ix, M.ptr(), ld); else if constexpr (A::hasCsyr || !cx<T>) A::syr(L, U, nn, to<T>(al), x.ptr(), ix, M.ptr(), ld); },
        [&] { if (al != 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) expSym(M, u, i, j, M(i, j) + al * x[i] * conjIf(h, x[j])); }, x, M);
    c.nontrivial(n > 0);
}
template <class A, class T> void her2(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = tri(c);
    bool h = c.coin();
    I n = dimOf(c);
    Mat<T> M(c, l, n, n, false);
    Vec<T> x(c, n, true), y(c, n, true);
    fillSym(c, M, u, h, false), x.fill(c), y.fill(c);
    cd al = scalar<T>(c);
    if (h && al != 0.0 && cx<T> && c.coin()) for (I i = 0; i < n; ++i) M.raw(i, i, to<T>(cd(M(i, i).real(), 99)));
    std::string w = std::string(h ? "her2 " : "syr2 ") + nm(l) + nm(u);
    c.desc(w, n, M.ld, x.inc, y.inc, al);
    auto L = mu.en(l, "layout");
    auto U = mu.en(u, "uplo");
    I nn = mu.dim(n, "n"), ix = mu.inc(x.inc, "incx"), iy = mu.inc(y.inc, "incy"), ld = mu.ld(M.ld, n, "lda");
    run(c, mu, w, [&] { if (h) A::her2(L, U, nn, to<T>(al), x.ptr(), ix, y.ptr(), iy, M.ptr(), ld); else A::syr2(L, U, nn, to<T>(al), x.ptr(), ix, y.ptr(), iy, M.ptr(), ld); },
        [&] { if (al != 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) expSym(M, u, i, j, M(i, j) + al * x[i] * conjIf(h, y[j]) + conjIf(h, al) * y[i] * conjIf(h, x[j])); }, x, y, M);
    c.nontrivial(n > 0);
}
template <class A, class T> void trmsv(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = tri(c);
    Tr t = tr(c);
    bool unit = c.coin(), solve = c.coin();
    I n = dimOf(c);
    Mat<T> M(c, l, n, n, true);
    Vec<T> x(c, n, false);
    fillTri(c, M, u, unit), x.fill(c);
    std::vector<cd> v(x.v), w0((size_t)n);
    for (I i = 0; i < n; ++i) { cd s = 0; for (I j = 0; j < n; ++j) s += opA(M, t, i, j) * v[(size_t)j]; w0[(size_t)i] = s; }
    if (solve) for (I i = 0; i < n; ++i) x.set(i, w0[(size_t)i]);
    std::string w = std::string(solve ? "trsv " : "trmv ") + nm(l) + nm(u) + nm(t) + (unit ? "U" : "N");
    c.desc(w, n, M.ld, x.inc);
    auto L = mu.en(l, "layout");
    auto U = mu.en(u, "uplo");
    auto O = mu.en(t, "trans");
    int D = mu.en((int)unit, "diag");
    I nn = mu.dim(n, "n"), ld = mu.ld(M.ld, n, "lda"), ix = mu.inc(x.inc, "incx");
    run(c, mu, w, [&] { if (solve) A::trsv(L, U, O, D, nn, M.ptr(), ld, x.ptr(), ix); else A::trmv(L, U, O, D, nn, M.ptr(), ld, x.ptr(), ix); },
        [&] { for (I i = 0; i < n; ++i) x.exp(i, solve ? v[(size_t)i] : w0[(size_t)i]); }, M, x);
    c.nontrivial(n > 0);
}
// ---- level 3 -------------------------------------------------------------------------------------------------
template <class A, class T> void gemm(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tr ta = tr(c), tb = tr(c);
    I m = dimOf(c), n = dimOf(c), k = dimOf(c);
    Mat<T> P(c, l, ta == N ? m : k, ta == N ? k : m, true), Q(c, l, tb == N ? k : n, tb == N ? n : k, true), R(c, l, m, n, false);
    P.fill(c), Q.fill(c), R.fill(c);
    cd al = scalar<T>(c), be = scalar<T>(c);
    if (be == 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) R.raw(i, j, nanT<T>());
    std::string w = std::string("gemm ") + nm(l) + nm(ta) + nm(tb);
    c.desc(w, m, n, k, al, be);
    auto L = mu.en(l, "layout");
    auto O = mu.en(ta, "transA"), O2 = mu.en(tb, "transB");
    I mm = mu.dim(m, "m"), nn = mu.dim(n, "n"), kk = mu.dim(k, "k"), la_ = mu.ld(P.ld, P.need(), "lda"), lb = mu.ld(Q.ld, Q.need(), "ldb"), lc = mu.ld(R.ld, R.need(), "ldc");
    run(c, mu, w, [&] { A::gemm(L, O, O2, mm, nn, kk, to<T>(al), P.ptr(), la_, Q.ptr(), lb, to<T>(be), R.ptr(), lc); },
        [&] { for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) { cd s = 0; for (I q = 0; q < k; ++q) s += opA(P, ta, i, q) * opA(Q, tb, q, j); R.exp(i, j, al * s + (be == 0.0 ? 0.0 : be * R(i, j))); } }, P, Q, R);
    c.nontrivial(m * n > 0);
}
template <class A, class T> void symm(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = A::general && c.chance(1, 6) ? Gen : tri(c);
    bool h = c.coin(), left = c.coin();
    I m = dimOf(c), n = dimOf(c), k = left ? m : n;
    Mat<T> P(c, l, k, k, true), Q(c, l, m, n, true), R(c, l, m, n, false);
    fillSym(c, P, u, h, u != Gen), Q.fill(c), R.fill(c);
    cd al = scalar<T>(c), be = scalar<T>(c);
    if (be == 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) R.raw(i, j, nanT<T>());
    std::string w = std::string(h ? "hemm " : "symm ") + nm(l) + (left ? "L" : "R") + nm(u);
    c.desc(w, m, n, al, be);
    auto L = mu.en(l, "layout");
    int S = mu.en((int)left, "side");
    auto U = mu.en(u, "uplo");
    I mm = mu.dim(m, "m"), nn = mu.dim(n, "n"), la_ = mu.ld(P.ld, k, "lda"), lb = mu.ld(Q.ld, Q.need(), "ldb"), lc = mu.ld(R.ld, R.need(), "ldc");
    run(c, mu, w, [&] { if (h) A::hemm(L, S, U, mm, nn, to<T>(al), P.ptr(), la_, Q.ptr(), lb, to<T>(be), R.ptr(), lc); else A::symm(L, S, U, mm, nn, to<T>(al), P.ptr(), la_, Q.ptr(), lb, to<T>(be), R.ptr(), lc); },
        [&] { for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) { cd s = 0; for (I q = 0; q < k; ++q) s += left ? P(i, q) * Q(q, j) : Q(i, q) * P(q, j); R.exp(i, j, al * s + (be == 0.0 ? 0.0 : be * R(i, j))); } }, P, Q, R);
    c.nontrivial(m * n > 0);
}
template <class A, class T, int TWO> void rk(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = A::general && c.chance(1, 6) ? Gen : tri(c);
    bool h = c.coin();
    Tr t = c.coin() ? N : cx<T> ? (h ? C : Tt) : tr(c);
    I n = dimOf(c), k = dimOf(c);
    Mat<T> P(c, l, t == N ? n : k, t == N ? k : n, true), Q(c, l, t == N ? n : k, t == N ? k : n, true), R(c, l, n, n, false);
    P.fill(c), Q.fill(c);
    fillSym(c, R, u, h, false);
    cd al = h && TWO == 1 ? cd(scalar<real_t<T>>(c)) : scalar<T>(c), be = h ? cd(scalar<real_t<T>>(c)) : scalar<T>(c);
    bool noop = (al == 0.0 || k == 0) && be == 1.0;
    if (be == 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) R.raw(i, j, nanT<T>());
    else if (h && cx<T> && !noop && u != Gen && c.coin()) for (I i = 0; i < n; ++i) R.raw(i, i, to<T>(cd(R(i, i).real(), 99)));
    std::string w = std::string(h ? "her" : "syr") + (TWO == 2 ? "2k " : "k ") + nm(l) + nm(u) + nm(t) + (al == 0.0 ? " alpha=0" : "");
    c.desc(w, n, k, al, be);
    auto L = mu.en(l, "layout");
    auto U = mu.en(u, "uplo");
    auto O = mu.en(t, "trans");
    if (cx<T> && mu.me()) mu.hit = true, mu.what = "trans-kind", O = h ? Tt : C;
    I nn = mu.dim(n, "n"), kk = mu.dim(k, "k"), la_ = mu.ld(P.ld, P.need(), "lda"), lb = TWO == 2 ? mu.ld(Q.ld, Q.need(), "ldb") : 0, lc = mu.ld(R.ld, n, "ldc");
    if (mu.hit && mu.what == "trans-kind" && (n == 0 || k == 0)) throw Discard();
    run(c, mu, w, [&] {
        if constexpr (TWO == 2) { if (h) A::her2k(L, U, O, nn, kk, to<T>(al), P.ptr(), la_, Q.ptr(), lb, (real_t<T>)be.real(), R.ptr(), lc); else A::syr2k(L, U, O, nn, kk, to<T>(al), P.ptr(), la_, Q.ptr(), lb, to<T>(be), R.ptr(), lc); }
        else { if (h) A::herk(L, U, O, nn, kk, (real_t<T>)al.real(), P.ptr(), la_, (real_t<T>)be.real(), R.ptr(), lc); else A::syrk(L, U, O, nn, kk, to<T>(al), P.ptr(), la_, to<T>(be), R.ptr(), lc); }
    }, [&] {
        if (!noop) for (I j = 0; j < n; ++j) for (I i = 0; i < n; ++i) {
            cd s = 0;
            Tr t1 = t == N ? N : h ? C : Tt;
            for (I q = 0; q < k; ++q) {
                cd ai = opA(P, t1, i, q), aj = opA(P, t1, j, q), bi = opA(Q, t1, i, q), bj = opA(Q, t1, j, q);
                s += TWO == 1 ? al * ai * conjIf(h, aj) : al * ai * conjIf(h, bj) + conjIf(h, al) * bi * conjIf(h, aj);
            }
            expSym(R, u, i, j, s + (be == 0.0 ? 0.0 : be * R(i, j)));
        }
    }, P, Q, R);
    c.nontrivial(n > 0 && !noop);
}
template <class A, class T> void trmsm(Case& c, Mu& mu)
{
    Lay l = lay(c);
    Tri u = tri(c);
    Tr t = tr(c);
    bool unit = c.coin(), solve = c.coin(), left = c.coin();
    I m = dimOf(c), n = dimOf(c), k = left ? m : n;
    Mat<T> P(c, l, k, k, true), R(c, l, m, n, false);
    fillTri(c, P, u, unit), R.fill(c);
    cd al = solve ? cd(c.pick<int>({1, 1, -1, 2, 0})) : scalar<T>(c);
    std::vector<cd> X(R.v);
    auto prod = [&](I i, I j) { cd s = 0; for (I q = 0; q < k; ++q) s += left ? opA(P, t, i, q) * X[(size_t)(q + j * m)] : X[(size_t)(i + q * m)] * opA(P, t, q, j); return s; };
    if (solve && al != 0.0) for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) R.set(i, j, prod(i, j) / al);
    std::string w = std::string(solve ? "trsm " : "trmm ") + nm(l) + (left ? "L" : "R") + nm(u) + nm(t) + (unit ? "U" : "N");
    c.desc(w, m, n, al);
    auto L = mu.en(l, "layout");
    int S = mu.en((int)left, "side");
    auto U = mu.en(u, "uplo");
    auto O = mu.en(t, "trans");
    int D = mu.en((int)unit, "diag");
    I mm = mu.dim(m, "m"), nn = mu.dim(n, "n"), la_ = mu.ld(P.ld, k, "lda"), lb = mu.ld(R.ld, R.need(), "ldb");
    run(c, mu, w, [&] { if (solve) A::trsm(L, S, U, O, D, mm, nn, to<T>(al), P.ptr(), la_, R.ptr(), lb); else A::trmm(L, S, U, O, D, mm, nn, to<T>(al), P.ptr(), la_, R.ptr(), lb); },
        [&] { for (I j = 0; j < n; ++j) for (I i = 0; i < m; ++i) R.exp(i, j, al == 0.0 ? cd(0) : solve ? X[(size_t)(i + j * m)] : al * prod(i, j)); }, P, R);
    c.nontrivial(m * n > 0);
}
template <class A, class T, bool BAD> void level1(Case& c)
{
    arena().reset();
    Mu mu(c, BAD, 2);
    switch (c.draw(cx<T> ? 10 : 12)) {
        case 0: asum<A, T>(c, mu); break;
        case 1: axpy<A, T>(c, mu); break;
        case 2: copy<A, T>(c, mu); break;
        case 3: swap<A, T>(c, mu); break;
        case 4: case 5: dots<A, T>(c, mu); break;
        case 6: iamax<A, T>(c, mu); break;
        case 7: nrm2<A, T>(c, mu); break;
        case 8: scal<A, T>(c, mu); break;
        case 9: if (c.coin()) rotg<A, T>(c, mu); else rot<A, T>(c, mu); break;
        case 10: if constexpr (!cx<T>) rotm<A, T>(c, mu); break;
        default: if constexpr (!cx<T>) rotmg<A, T>(c, mu);
    }
}
template <class A, class T, bool BAD> void level2(Case& c)
{
    arena().reset();
    Mu mu(c, BAD, 7);
    switch (c.draw(7)) {
        case 0: gemv<A, T>(c, mu); break;
        case 1: ger<A, T>(c, mu); break;
        case 2: symv<A, T>(c, mu); break;
        case 3: her<A, T>(c, mu); break;
        case 4: her2<A, T>(c, mu); break;
        default: trmsv<A, T>(c, mu);
    }
}
template <class A, class T, bool BAD> void level3(Case& c)
{
    arena().reset();
    Mu mu(c, BAD, 9);
    switch (c.draw(7)) {
        case 0: gemm<A, T>(c, mu); break;
        case 1: symm<A, T>(c, mu); break;
        case 2: rk<A, T, 1>(c, mu); break;
        case 3: rk<A, T, 2>(c, mu); break;
        default: trmsm<A, T>(c, mu);
    }
}
}  // namespace x4
#define X4REG(k, tn, T, A) \
    static pbt::Reg r##k##1("level1/" tn, 60000, 3000000, x4::level1<A<T>, T, false>, "not an empty operand"); \
    static pbt::Reg r##k##2("level2/" tn, 60000, 3000000, x4::level2<A<T>, T, false>, "not an empty operand"); \
    static pbt::Reg r##k##3("level3/" tn, 60000, 3000000, x4::level3<A<T>, T, false>, "not an empty operand");
#define X4BAD(k, tn, T, A) \
    static pbt::Reg q##k##1("invalid1/" tn, 30000, 1000000, x4::level1<A<T>, T, true>, "the chosen argument exists"); \
    static pbt::Reg q##k##2("invalid2/" tn, 30000, 1000000, x4::level2<A<T>, T, true>, "the chosen argument exists"); \
    static pbt::Reg q##k##3("invalid3/" tn, 30000, 1000000, x4::level3<A<T>, T, true>, "the chosen argument exists");
