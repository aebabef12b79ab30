// Generators, guarded storage and reference linear algebra for the checks.
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <limits>
#include <stdexcept>
#include <type_traits>
#include <vector>

#ifdef LA_MPREAL
    #include <tlapack/plugins/mpreal.hpp>
#endif
#ifdef LA_QUAD
    #include <tlapack/plugins/gnuquad.hpp>
#endif
#include <tlapack/plugins/legacyArray.hpp>
#include <tlapack/plugins/stdvector.hpp>

#include "tlapack/base/utils.hpp"
#include "pbt.hpp"

namespace la {
using pbt::Case;
using tlapack::Layout;
using tlapack::Direction;
using tlapack::Op;
using tlapack::Uplo;
using tlapack::Side;
using tlapack::Diag;
using std::size_t;

template <class T> struct is_cplx : std::false_type { using real = T; };
template <class R> struct is_cplx<std::complex<R>> : std::true_type { using real = R; };
template <class T> using real_t = typename is_cplx<T>::real;
template <class T> constexpr bool cplx = is_cplx<T>::value;

// ---- wider arithmetic
template <class R> struct wider { using type = R; };
template <> struct wider<float> { using type = double; };
template <> struct wider<double> { using type = long double; };
template <class R> struct wider<std::complex<R>> { using type = std::complex<typename wider<R>::type>; };
template <class T> using wide = typename wider<T>::type;

template <class T> const char* tname() { return "?"; }
template <> inline const char* tname<float>() { return "float"; }
template <> inline const char* tname<double>() { return "double"; }
template <> inline const char* tname<long double>() { return "longdouble"; }
template <> inline const char* tname<std::complex<float>>() { return "cfloat"; }
template <> inline const char* tname<std::complex<double>>() { return "cdouble"; }
template <> inline const char* tname<std::complex<long double>>() { return "clongdouble"; }
inline const char* lname(Layout l) { return l == Layout::ColMajor ? "Col" : "Row"; }

template <class T> double eps() { return (double)std::numeric_limits<real_t<T>>::epsilon(); }

// ---- scalars
template <class T> T mk(real_t<T> re, real_t<T> im)
{
    if constexpr (cplx<T>) return T(re, im);
    else return re;
}
template <class T> real_t<T> re(const T& x) { if constexpr (cplx<T>) return x.real(); else return x; }
template <class T> real_t<T> im(const T& x) { if constexpr (cplx<T>) return x.imag(); else return real_t<T>(0); }
template <class T> T cj(const T& x) { if constexpr (cplx<T>) return std::conj(x); else return x; }
template <class R> bool isnanr(const R& x) { return x != x; }
template <class T> bool isnanT(const T& x) { return isnanr(re(x)) || isnanr(im(x)); }
template <class R> bool isfinr(const R& x) { return x - x == R(0); }
template <class T> bool isfin(const T& x) { return isfinr(re(x)) && isfinr(im(x)); }
template <class T> T nanT()
{
    real_t<T> q = std::numeric_limits<real_t<T>>::quiet_NaN();
    return mk<T>(q, q);
}
// identical values (NaN equals NaN)
template <class R> bool sameR(const R& a, const R& b) { return a == b || (isnanr(a) && isnanr(b)); }
template <class T> bool same(const T& a, const T& b) { return sameR(re(a), re(b)) && sameR(im(a), im(b)); }
template <class W, class T> W widen(const T& x)
{
    if constexpr (cplx<W>) return W(real_t<W>(re(x)), real_t<W>(im(x)));
    else return W(x);
}
template <class R> double absr(const R& x) { return (double)(x < R(0) ? R(-x) : R(x)); }
template <class T> double mag(const T& x)
{
    if constexpr (cplx<T>) { long double a = (long double)x.real(), b = (long double)x.imag(); return (double)std::hypot(a, b); }
    else return absr(x);
}

// ---- dense reference matrices (column major)
template <class T> struct Dense {
    size_t m = 0, n = 0;
    std::vector<T> a;
    Dense() {}
    Dense(size_t m, size_t n, T v = T(0)) : m(m), n(n), a(m * n, v) {}
    T& operator()(size_t i, size_t j) { return a[i + j * m]; }
    const T& operator()(size_t i, size_t j) const { return a[i + j * m]; }
};
template <class T> Dense<T> eye(size_t n) { Dense<T> I(n, n); for (size_t i = 0; i < n; ++i) I(i, i) = T(1); return I; }
template <class W, class T> Dense<W> widenM(const Dense<T>& A)
{
    Dense<W> B(A.m, A.n);
    for (size_t i = 0; i < A.a.size(); ++i) B.a[i] = widen<W>(A.a[i]);
    return B;
}
template <class W, class M> Dense<W> grab(const M& A, size_t m, size_t n)  // from any matrix object
{
    Dense<W> B(m, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) B(i, j) = widen<W>(A(i, j));
    return B;
}
template <class T> Dense<T> mul(const Dense<T>& A, const Dense<T>& B)
{
    if (A.n != B.m) throw std::logic_error("harness: mul shape");
    Dense<T> C(A.m, B.n);
    for (size_t j = 0; j < B.n; ++j)
        for (size_t l = 0; l < A.n; ++l) {
            const T b = B(l, j);
            if (b == T(0)) { // keep NaN/Inf of A visible
                for (size_t i = 0; i < A.m; ++i) if (!isfin(A(i, l))) C(i, j) += A(i, l) * b;
                continue;
            }
            const T* ac = A.a.data() + l * A.m;
            T* cc = C.a.data() + j * C.m;
            if constexpr (cplx<T>) {
                using R = real_t<T>;
                const R br = b.real(), bi = b.imag();
                for (size_t i = 0; i < A.m; ++i)
                    cc[i] = T(cc[i].real() + (ac[i].real() * br - ac[i].imag() * bi), cc[i].imag() + (ac[i].real() * bi + ac[i].imag() * br));
            }
            else
                for (size_t i = 0; i < A.m; ++i) cc[i] += ac[i] * b;
        }
    return C;
}
template <class T> Dense<T> opM(Op op, const Dense<T>& A)
{
    if (op == Op::NoTrans) return A;
    if (op == Op::Conj) { Dense<T> B = A; for (auto& x : B.a) x = cj(x); return B; }
    Dense<T> B(A.n, A.m);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) B(j, i) = op == Op::ConjTrans ? cj(A(i, j)) : A(i, j);
    return B;
}
template <class T> Dense<T> ct(const Dense<T>& A) { return opM(Op::ConjTrans, A); }
template <class T> Dense<T> sub(const Dense<T>& A, const Dense<T>& B)
{
    if (A.m != B.m || A.n != B.n) throw std::logic_error("harness: sub shape");
    Dense<T> C = A;
    for (size_t i = 0; i < C.a.size(); ++i) C.a[i] -= B.a[i];
    return C;
}
template <class T> Dense<T> blockOf(const Dense<T>& A, size_t i0, size_t i1, size_t j0, size_t j1)
{
    Dense<T> B(i1 - i0, j1 - j0);
    for (size_t j = j0; j < j1; ++j) for (size_t i = i0; i < i1; ++i) B(i - i0, j - j0) = A(i, j);
    return B;
}
// keep only one triangle; diagonal replaced by 1 if unit
template <class T> Dense<T> triOf(Uplo u, Diag d, const Dense<T>& A)
{
    Dense<T> B(A.m, A.n);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) {
        bool in = u == Uplo::Upper ? i <= j : i >= j;
        if (in) B(i, j) = (i == j && d == Diag::Unit) ? T(1) : A(i, j);
    }
    return B;
}
// full matrix of a symmetric/Hermitian matrix given by one triangle
template <class T> Dense<T> symOf(Uplo u, bool herm, const Dense<T>& A)
{
    size_t n = A.n;
    Dense<T> B(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        bool in = u == Uplo::Upper ? i <= j : i >= j;
        T v = in ? A(i, j) : (herm ? cj(A(j, i)) : A(j, i));
        if (i == j && herm) v = T(re(v));
        B(i, j) = v;
    }
    return B;
}
template <class T> double normF(const Dense<T>& A)
{
    double mx = 0;
    for (auto& x : A.a) { double v = mag(x); if (v != v) return v; if (v > mx) mx = v; }
    if (mx == 0 || !(mx - mx == 0)) return mx;
    double s = 0;
    // scaled, in double: only used for thresholds and ratios
    for (auto& x : A.a) { double v = mag(x) / mx; s += v * v; }
    return mx * std::sqrt(s);
}
template <class T> double normMax(const Dense<T>& A)
{
    double mx = 0;
    for (auto& x : A.a) { double v = mag(x); if (v != v) return v; if (v > mx) mx = v; }
    return mx;
}
template <class T> bool allFinite(const Dense<T>& A) { for (auto& x : A.a) if (!isfin(x)) return false; return true; }
template <class T> double orthErr(const Dense<T>& Q)  // || Q^H Q - I ||_F
{
    Dense<T> G = mul(ct(Q), Q);
    return normF(sub(G, eye<T>(Q.n)));
}
template <class T> double orthErrRows(const Dense<T>& Q) { return orthErr(ct(Q)); }
template <class T> std::string show(const Dense<T>& A, size_t lim = 8)
{
    std::ostringstream o;
    o.precision(9);
    o << A.m << "x" << A.n << "[";
    for (size_t i = 0; i < A.m && i < lim; ++i) {
        if (i) o << "; ";
        for (size_t j = 0; j < A.n && j < lim; ++j) {
            if (j) o << " ";
            if constexpr (cplx<T>) o << "(" << (double)A(i, j).real() << "," << (double)A(i, j).imag() << ")";
            else o << (double)A(i, j);
        }
        if (A.n > lim) o << " ..";
    }
    if (A.m > lim) o << "; ..";
    o << "]";
    return o.str();
}

// ---- guarded matrix storage
template <class T, Layout L> struct GMat {
    size_t m, n, ld, off;
    std::vector<T> buf, snap;
    T canary;
    GMat(Case& c, size_t m_, size_t n_, bool tight = false) : m(m_), n(n_)
    {
        size_t lead = L == Layout::ColMajor ? m : n, other = L == Layout::ColMajor ? n : m;
        size_t pad = tight ? 0 : (size_t)c.pick<int>({0, 0, 1, 3, 0, 7});
        ld = lead + pad;
        off = 9;
        canary = c.coin() ? nanT<T>() : mk<T>(real_t<T>(12345), real_t<T>(-54321));
#ifdef PBT_SAN  // storage ends with the operand
        off = 0;
        buf.assign(lead && other ? ld * (other - 1) + lead : 0, canary);
#else
        buf.assign(off + ld * other + 9 + lead, canary);
#endif
    }
    size_t idx(size_t i, size_t j) const { return off + (L == Layout::ColMajor ? i + j * ld : i * ld + j); }
    T& operator()(size_t i, size_t j) { return buf[idx(i, j)]; }
    const T& operator()(size_t i, size_t j) const { return buf[idx(i, j)]; }
    tlapack::LegacyMatrix<T, size_t, L> view() { return tlapack::LegacyMatrix<T, size_t, L>(m, n, buf.data() + off, ld); }
    tlapack::LegacyMatrix<const T, size_t, L> cview() const { return tlapack::LegacyMatrix<const T, size_t, L>(m, n, buf.data() + off, ld); }
    void set(const Dense<T>& A) { for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) (*this)(i, j) = A(i, j); }
    void fill(const T& v) { for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) (*this)(i, j) = v; }
    Dense<T> get() const { Dense<T> A(m, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = (*this)(i, j); return A; }
    template <class W> Dense<W> getW() const { return widenM<W>(get()); }
    bool inside(size_t k) const
    {
        if (k < off) return false;
        size_t lead = L == Layout::ColMajor ? m : n, other = L == Layout::ColMajor ? n : m;
        size_t q = k - off;
        if (ld == 0) return false;
        return q / ld < other && q % ld < lead;
    }
    void snapshot() { snap = buf; }
    // padding and margins still hold the canary
    void margins(Case& c, const std::string& what) const
    {
        for (size_t k = 0; k < buf.size(); ++k)
            if (!inside(k) && !same(buf[k], canary)) c.fail(what + "/margin-written", "element ", k, " outside the operand changed");
    }
    // nothing changed since snapshot()
    void unchanged(Case& c, const std::string& what) const
    {
        for (size_t k = 0; k < buf.size(); ++k)
            if (!same(buf[k], snap[k])) c.fail(what + "/input-changed", "storage element ", k, " changed");
    }
    // entries for which sel(i,j) is false unchanged since snapshot(), and margins intact
    template <class F> void onlyChanged(Case& c, const std::string& what, F&& sel) const
    {
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
            if (!sel(i, j) && !same(buf[idx(i, j)], snap[idx(i, j)])) c.fail(what + "/unreferenced-changed", "entry (", i, ",", j, ") changed");
        margins(c, what);
    }
};

// ---- guarded strided vector storage
template <class T, Direction D = Direction::Forward> struct GVec {
    size_t n, inc, off;
    std::vector<T> buf, snap;
    T canary;
    GVec(Case& c, size_t n_, bool tight = false) : n(n_)
    {
        inc = tight ? 1 : (size_t)c.pick<int>({1, 1, 2, 3, 5});
        off = 7;
        canary = c.coin() ? nanT<T>() : mk<T>(real_t<T>(12345), real_t<T>(-54321));
#ifdef PBT_SAN
        off = 0;
        buf.assign(n ? (n - 1) * inc + 1 : 0, canary);
#else
        buf.assign(off + n * inc + 9, canary);
#endif
    }
    size_t idx(size_t i) const { return off + (D == Direction::Forward ? i : n - 1 - i) * inc; }
    T& operator[](size_t i) { return buf[idx(i)]; }
    const T& operator[](size_t i) const { return buf[idx(i)]; }
    using view_t = tlapack::LegacyVector<T, size_t, size_t, D>;
    view_t view() { return view_t(n, buf.data() + off, inc); }
    void set(const std::vector<T>& v) { for (size_t i = 0; i < n; ++i) (*this)[i] = v[i]; }
    std::vector<T> get() const { std::vector<T> v(n); for (size_t i = 0; i < n; ++i) v[i] = (*this)[i]; return v; }
    void snapshot() { snap = buf; }
    bool inside(size_t k) const { return k >= off && (k - off) % inc == 0 && (k - off) / inc < n; }
    void margins(Case& c, const std::string& what) const
    {
        for (size_t k = 0; k < buf.size(); ++k)
            if (!inside(k) && !same(buf[k], canary)) c.fail(what + "/margin-written", "element ", k, " outside the vector changed");
    }
    void unchanged(Case& c, const std::string& what) const
    {
        for (size_t k = 0; k < buf.size(); ++k)
            if (!same(buf[k], snap[k])) c.fail(what + "/input-changed", "storage element ", k, " changed");
    }
};

// ---- scalar generators
template <class T> T smallInt(Case& c, int r = 3)
{
    auto one = [&]() { int v = (int)c.draw(2 * r + 1); return real_t<T>((v & 1) ? -(v + 1) / 2 : v / 2); };
    if constexpr (cplx<T>) { real_t<T> a = one(), b = one(); return T(a, b); }
    else return one();
}
template <class R> R unit01(Case& c) { return R((double)c.draw(1ULL << 30) / (double)(1ULL << 30)); }
// (-1,1), full working precision for float/double
template <class R> R uniR(Case& c)
{
#ifdef PBT_WILD  // a third of the cases: NaN, infinities, largest, smallest, subnormal and zero entries
    if (c.wild < 0) c.wild = c.chance(1, 3) ? (int)c.pick<int>({20, 6, 2}) : 0;
    if (c.wild > 0 && c.chance(1, (unsigned)c.wild)) {
        using Lim = std::numeric_limits<R>;
        const R v[] = {R(0), Lim::quiet_NaN(), Lim::infinity(), Lim::max(), Lim::min(), Lim::denorm_min(), Lim::epsilon(), R(1)};
        R x = v[c.draw(8)];
        return c.coin() ? -x : x;
    }
#endif
    uint64_t v = c.draw(1ULL << 54);
    double x = (double)(v >> 1) / (double)(1ULL << 53);
    return R((v & 1) ? -x : x);
}
template <class T> T uni(Case& c)
{
    if constexpr (cplx<T>) { auto a = uniR<real_t<T>>(c), b = uniR<real_t<T>>(c); return T(a, b); }
    else return uniR<T>(c);
}
template <class T> T scaleP2(const T& x, int e)
{
    using std::ldexp;
    if constexpr (cplx<T>) return T(ldexp(x.real(), e), ldexp(x.imag(), e));
    else return ldexp(x, e);
}
// coefficient for exact tests
template <class T> T coefExact(Case& c)
{
    switch (c.draw(6)) {
        case 0: return T(1);
        case 1: return T(0);
        case 2: return T(-1);
        case 3: return T(2);
        default: return smallInt<T>(c, 2);
    }
}
template <class T> Dense<T> intMat(Case& c, size_t m, size_t n, int r = 3)
{
    Dense<T> A(m, n);
    for (auto& x : A.a) x = smallInt<T>(c, r);
    return A;
}
template <class T> std::vector<T> intVec(Case& c, size_t n, int r = 3)
{
    std::vector<T> v(n);
    for (auto& x : v) x = smallInt<T>(c, r);
    return v;
}

// ---- structured floating point matrices for backward-error checks
// maxScale: global scaling by 2^s with |s| <= maxScale (0: none)
template <class T> Dense<T> genMat(Case& c, size_t m, size_t n, int maxScale = 0, std::string* kindName = nullptr)
{
    Dense<T> A(m, n);
    int kind = (int)c.draw(9);
    const char* names[] = {"uniform", "ints", "lowrank", "graded", "sparse", "special", "banded", "nearlysame", "zerocols"};
    if (kindName) *kindName = names[kind];
    switch (kind) {
        case 1: for (auto& x : A.a) x = smallInt<T>(c, 2); break;
        case 2: {
            size_t r = (size_t)c.range(0, (int64_t)std::min<size_t>(4, std::min(m, n)));
            Dense<T> X(m, r), Y(r, n);
            for (auto& x : X.a) x = uni<T>(c);
            for (auto& x : Y.a) x = uni<T>(c);
            A = mul(X, Y);
            break;
        }
        case 3: {
            int g = (int)c.range(0, std::numeric_limits<real_t<T>>::digits / 2);
            std::vector<int> dr(m), dc(n);
            for (auto& x : dr) x = (int)c.range(-g, g) / 2;
            for (auto& x : dc) x = (int)c.range(-g, g) / 2;
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = scaleP2(uni<T>(c), dr[i] + dc[j]);
            break;
        }
        case 4: for (auto& x : A.a) { if (c.chance(1, 3)) x = uni<T>(c); } break;
        case 5: {
            int s = (int)c.draw(5);
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) {
                if (s == 1) A(i, j) = i == j ? T(1) : T(0);
                if (s == 2) A(i, j) = T(1);
                if (s == 3) A(i, j) = (i + 1) % (m ? m : 1) == j ? T(2) : T(0);
                if (s == 4) A(i, j) = T(real_t<T>(1) / real_t<T>((int)(i + j + 1)));
            }
            break;
        }
        case 6: {
            int kl = (int)c.range(0, 2), ku = (int)c.range(0, 2);
            for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
                if ((int)i - (int)j <= kl && (int)j - (int)i <= ku) A(i, j) = uni<T>(c);
            break;
        }
        case 7: {
            T b = uni<T>(c);
            for (auto& x : A.a) x = b + scaleP2(uni<T>(c), -(int)std::numeric_limits<real_t<T>>::digits + 6);
            break;
        }
        default:
            for (auto& x : A.a) x = uni<T>(c);
            if (kind == 8)
                for (size_t j = 0; j < n; ++j) if (c.chance(1, 4)) for (size_t i = 0; i < m; ++i) A(i, j) = T(0);
    }
    if (maxScale > 0 && c.chance(1, 3)) {
        int s = (int)c.range(-maxScale, maxScale);
        for (auto& x : A.a) x = scaleP2(x, s);
    }
    return A;
}

inline const char* nm(Op o) { return o == Op::NoTrans ? "N" : o == Op::Trans ? "T" : o == Op::ConjTrans ? "C" : "conj"; }
inline const char* nm(Uplo u) { return u == Uplo::Upper ? "U" : u == Uplo::Lower ? "L" : "G"; }
inline const char* nm(Side s) { return s == Side::Left ? "Left" : "Right"; }
inline const char* nm(Diag d) { return d == Diag::Unit ? "Unit" : "NonUnit"; }
inline Op genOp3(Case& c) { return c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}); }
inline Uplo genUplo(Case& c) { return c.pick({Uplo::Lower, Uplo::Upper}); }
inline Side genSide(Case& c) { return c.pick({Side::Left, Side::Right}); }
inline Diag genDiag(Case& c) { return c.pick({Diag::NonUnit, Diag::Unit}); }

// exact comparison of a result matrix with a reference; sel selects the entries that must match
template <class T, class W, class F>
void expectEqual(Case& c, const std::string& what, const Dense<T>& got, const Dense<W>& want, F&& sel)
{
    for (size_t j = 0; j < got.n; ++j) for (size_t i = 0; i < got.m; ++i)
        if (sel(i, j) && !same(widen<W>(got(i, j)), want(i, j)))
            c.fail(what + "/value", "entry (", i, ",", j, ") got ", show(blockOf(got, i, i + 1, j, j + 1)), " want ", show(blockOf(want, i, i + 1, j, j + 1)));
}
template <class T, class W> void expectEqual(Case& c, const std::string& what, const Dense<T>& got, const Dense<W>& want)
{
    expectEqual(c, what, got, want, [](size_t, size_t) { return true; });
}
template <class T> Dense<T> colVec(const std::vector<T>& v) { Dense<T> A(v.size(), 1); A.a = v; return A; }
inline bool inTri(Uplo u, size_t i, size_t j) { return u == Uplo::Upper ? i <= j : u == Uplo::Lower ? i >= j : true; }

template <class F> bool throwsDomain(F&& f)
{
    try { f(); }
    catch (std::domain_error&) { return true; }
    return false;
}
}  // namespace la
