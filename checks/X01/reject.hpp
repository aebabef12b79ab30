// One routine call per case, built either fully valid or with exactly one argument made invalid.
#pragma once
#include "blasref.hpp"
#include <stdexcept>
using tlapack::StoreV;
struct Mut {
    Case& c;
    unsigned target, cnt = 0;
    std::string what;
    Mut(Case& c_, unsigned N) : c(c_) { target = c.chance(1, 4) ? 0 : (unsigned)c.range(1, N); }
    bool hit() { return ++cnt == target; }
    bool bad() const { return !what.empty(); }
    size_t small() { return c.chance(1, 6) ? 0 : (size_t)c.size(0, 7); }
    // any other value than v
    size_t dim(const char* nm, size_t v)
    {
        if (!hit()) return v;
        what = nm;
        if (v == 0 || c.coin()) return v + (size_t)c.range(1, 3);
        return c.chance(1, 3) ? v - 1 : (size_t)c.range(0, (int64_t)v - 1);
    }
    size_t less(const char* nm, size_t v)
    {
        if (!hit() || v == 0) return v + (bad() ? 0 : (c.chance(1, 3) ? (size_t)c.range(0, 3) : 0));
        what = nm;
        return c.coin() ? v - 1 : (size_t)c.range(0, (int64_t)v - 1);
    }
    // smaller only, exact otherwise
    size_t lessX(const char* nm, size_t v)
    {
        if (!hit() || v == 0) return v;
        what = nm;
        return c.coin() ? v - 1 : (size_t)c.range(0, (int64_t)v - 1);
    }
    template <class E> E en(const char* nm, E v, std::initializer_list<E> badv)
    {
        if (!hit()) return v;
        what = nm;
        return c.pick(badv);
    }
    // dead parameters (only invalid under a condition)
    bool cond(const char* nm, bool can)
    {
        if (!hit() || !can) return false;
        what = nm;
        return true;
    }
};
template <class T> constexpr T odd(char ch) { return (T)ch; }
#define BAD_UPLO {Uplo::General, Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower, odd<Uplo>('Q'), odd<Uplo>('u')}
#define BAD_UPLO_G {Uplo::UpperHessenberg, Uplo::LowerHessenberg, Uplo::StrictUpper, Uplo::StrictLower, odd<Uplo>('Q'), odd<Uplo>('l')}
#define BAD_SIDE {odd<Side>('X'), odd<Side>('l'), Side::Both}
#define BAD_OP3 {Op::Conj, odd<Op>('X'), odd<Op>('n')}
#define BAD_OP4 {odd<Op>('X'), odd<Op>('n'), odd<Op>(0)}
#define BAD_DIAG {odd<Diag>('X'), odd<Diag>('u'), odd<Diag>(0)}
#define BAD_DIR {odd<Direction>('X'), odd<Direction>('f'), odd<Direction>(0)}
#define BAD_STORE {odd<StoreV>('X'), odd<StoreV>('c'), odd<StoreV>(0)}
inline Uplo genUp(Case& c) { return c.coin() ? Uplo::Upper : Uplo::Lower; }
inline Diag genDg(Case& c) { return c.coin() ? Diag::Unit : Diag::NonUnit; }

template <class T, Layout L> void rnd(Case& c, GMat<T, L>& A) { for (size_t j = 0; j < A.n; ++j) for (size_t i = 0; i < A.m; ++i) A(i, j) = uni<T>(c) + T(i == j ? 2 : 0); }
template <class T, Direction Dr> void rnd(Case& c, GVec<T, Dr>& A) { for (size_t i = 0; i < A.n; ++i) A[i] = uni<T>(c); }
template <class Dr> struct IsBoolVec;
template <class A> void fillAll(Case& c, A& x) { rnd(c, x); }

// f: the call; ops: every operand (inputs and outputs), already filled
template <class F, class... Ops> void go(Case& c, Mut& mu, const char* nm, F&& f, Ops&... ops)
{
    (ops.snapshot(), ...);
    c.desc(nm, mu.bad() ? "invalid:" : "valid", mu.what);
    c.label(std::string(nm) + (mu.bad() ? " !" + mu.what : " ok"));
    c.nontrivial(mu.bad());
    int thrown = 0;
    std::string msg;
    try { f(); }
    catch (std::domain_error& e) { thrown = 1; msg = e.what(); }
    catch (std::exception& e) { thrown = 2; msg = e.what(); }
    std::string w = std::string(nm) + (mu.bad() ? "/" + mu.what : "/valid");
    if (!mu.bad()) {
        if (thrown == 1) c.fail(w + "-rejected", "valid call raised domain_error: ", msg);
        (ops.margins(c, w), ...);
        return;
    }
    if (thrown == 0) c.fail(w + "-accepted", "call with an invalid argument (", mu.what, ") was accepted");
    if (thrown == 2) c.fail(w + "-wrong-exception", "call with an invalid argument raised something else than domain_error: ", msg);
    (ops.unchanged(c, w + "-rejected"), ...);
}
// generous workspace
template <class T> struct Wk {
    std::vector<T> b = std::vector<T>(4096, T(7));
    tlapack::LegacyMatrix<T> v = tlapack::LegacyMatrix<T>(64, 64, b.data(), 64);
};
