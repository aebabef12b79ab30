// Reference operators for orthogonal factors stored as elementary reflectors, and exact-size dirty workspaces.
#pragma once
#include "blasref.hpp"
#include "tlapack/base/workspace.hpp"
using tlapack::StoreV;

// workspace of exactly the queried size, filled with NaN, with guarded margins
template <class T> struct Dirty {
    size_t m, n;
    std::vector<T> buf;
    Dirty(Case& c, const tlapack::WorkInfo& wi) : m(wi.m), n(wi.n), buf(wi.size() + 16, nanT<T>())
    {
        for (size_t i = 0; i < 8; ++i) buf[i] = buf[buf.size() - 1 - i] = T(real_t<T>(4321));
        if (c.coin()) for (size_t i = 8; i + 8 < buf.size(); ++i) buf[i] = T(real_t<T>(1e30f));
    }
    tlapack::LegacyMatrix<T> view() { return tlapack::LegacyMatrix<T>(m, n, buf.data() + 8, m ? m : 1); }
    void done(Case& c, const std::string& w) const
    {
        for (size_t i = 0; i < 8; ++i)
            if (buf[i] != T(real_t<T>(4321)) || buf[buf.size() - 1 - i] != T(real_t<T>(4321))) c.fail(w + "/workspace-overrun", "workspace of the queried size ", m, "x", n, " overrun");
    }
};

enum Fam { QR, LQ, QL, RQ };
inline const char* nm(Fam f) { return f == QR ? "QR" : f == LQ ? "LQ" : f == QL ? "QL" : "RQ"; }
inline bool colwise(Fam f) { return f == QR || f == QL; }
inline bool fwd(Fam f) { return f == QR || f == LQ; }
inline Direction dirOf(Fam f) { return fwd(f) ? Direction::Forward : Direction::Backward; }
inline StoreV storeOf(Fam f) { return colwise(f) ? StoreV::Columnwise : StoreV::Rowwise; }
// elementary reflectors H_i = I - tau_i v_i v_i^H
template <class W> struct Refl {
    size_t ord = 0;
    std::vector<std::vector<W>> v;
    std::vector<W> tau;
    bool forward = true, adj = false;  // Q = H1 H2..Hk (forward) or Hk..H1; adj: product of H_i^H instead
    // C := H_i C or H_i^H C
    void one(size_t i, bool h, Dense<W>& C) const
    {
        W t = h ? cj(tau[i]) : tau[i];
        if (t == W(0)) return;
        for (size_t j = 0; j < C.n; ++j) {
            W s = 0;
            for (size_t l = 0; l < ord; ++l) if (v[i][l] != W(0)) s += cj(v[i][l]) * C(l, j);
            s *= t;
            for (size_t l = 0; l < ord; ++l) if (v[i][l] != W(0)) C(l, j) -= v[i][l] * s;
        }
    }
    // op: false Q C, true Q^H C.  In adj mode Q = Hk^H..H1^H (forward) or H1^H..Hk^H (backward), the Q of LQ and RQ
    void left(bool h, Dense<W>& C) const
    {
        size_t k = tau.size();
        bool hh = h != adj;
        // Q forward: rightmost factor applied first
        bool desc = forward;      // Q = H1..Hk: apply Hk first
        if (h) desc = !desc;
        if (adj) desc = !desc;
        for (size_t q = 0; q < k; ++q) one(desc ? k - 1 - q : q, hh, C);
    }
    void right(bool h, Dense<W>& C) const  // C := C Q (C Q^H)
    {
        Dense<W> X = ct(C);
        left(!h, X);
        C = ct(X);
    }
    Dense<W> full(bool h = false) const { Dense<W> I = eye<W>(ord); left(h, I); return I; }
    // largest deviation of a single reflector from unitarity
    double defect() const
    {
        double d = 0;
        for (size_t i = 0; i < tau.size(); ++i) {
            auto s = real_t<W>(0);
            for (auto& x : v[i]) s += re(x) * re(x) + im(x) * im(x);
            auto a2 = re(tau[i]) * re(tau[i]) + im(tau[i]) * im(tau[i]);
            double e = mag((real_t<W>(2) * re(tau[i]) - a2 * s) * s);
            if (!(e <= d)) d = e;
        }
        return d;
    }
};
// reflectors of a factorization from its stored form (documented storage); Q of the factorization itself
template <class W, class T> Refl<W> reflOf(Fam f, const Dense<T>& A, const std::vector<T>& tau)
{
    size_t m = A.m, n = A.n, k = tau.size();
    Refl<W> r;
    r.ord = colwise(f) ? m : n;
    r.forward = fwd(f);
    r.adj = !colwise(f);
    for (size_t i = 0; i < k; ++i) {
        std::vector<W> v(r.ord, W(0));
        size_t u = fwd(f) ? i : r.ord - k + i;
        v[u] = W(1);
        size_t lo = fwd(f) ? u + 1 : 0, hi = fwd(f) ? r.ord : u;
        for (size_t l = lo; l < hi; ++l) {
            if (f == QR) v[l] = widen<W>(A(l, i));
            if (f == LQ) v[l] = cj(widen<W>(A(i, l)));
            if (f == QL) v[l] = widen<W>(A(l, n - k + i));
            if (f == RQ) v[l] = cj(widen<W>(A(m - k + i, l)));
        }
        r.v.push_back(v);
        r.tau.push_back(widen<W>(tau[i]));
    }
    return r;
}
// triangular/trapezoidal factor, m by n, zero elsewhere
inline bool inFactor(Fam f, size_t m, size_t n, size_t i, size_t j)
{
    switch (f) {
        case QR: return i <= j;
        case LQ: return i >= j;
        case QL: return i + n >= j + m;
        default: return i + n <= j + m;
    }
}
template <class W, class T> Dense<W> factorOf(Fam f, const Dense<T>& A)
{
    Dense<W> R(A.m, A.n);
    for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) if (inFactor(f, A.m, A.n, i, j)) R(i, j) = widen<W>(A(i, j));
    return R;
}
// max over columns (byCol) or rows of ||E_j|| / (||A_j|| + tiny)
template <class W> double vecwise(bool byCol, const Dense<W>& E, const Dense<W>& A, double tiny)
{
    double r = 0;
    size_t p = byCol ? A.n : A.m;
    for (size_t q = 0; q < p; ++q) {
        Dense<W> e = byCol ? blockOf(E, 0, E.m, q, q + 1) : blockOf(E, q, q + 1, 0, E.n);
        Dense<W> a = byCol ? blockOf(A, 0, A.m, q, q + 1) : blockOf(A, q, q + 1, 0, A.n);
        double x = normF(e) / (normF(a) + tiny);
        if (!(x <= r)) r = x;
    }
    return r;
}
inline size_t dimF(Case& c)
{
    if (c.chance(1, 60)) return (size_t)c.range(40, 110);
    if (c.chance(1, 6)) return (size_t)c.range(13, 40);
    return (size_t)c.size(0, 12);
}
inline size_t genNb(Case& c) { return (size_t)c.pick<int>({1, 2, 3, 4, 5, 8, 16, 32, 7}); }
template <class T> int bigScale() { return sizeof(real_t<T>) == 4 ? 40 : 400; }
template <class T> double tinyOf() { return (double)std::numeric_limits<real_t<T>>::min() / eps<T>(); }
inline const char* FR() { return "both dimensions at least 2 and the matrix not zero"; }
