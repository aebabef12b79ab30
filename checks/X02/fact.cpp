// X02: factorizations to trapezoidal, bidiagonal and Hessenberg form, inverses
#include "twin.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/hetrf.hpp"
#include "tlapack/lapack/householder_lq.hpp"
#include "tlapack/lapack/householder_ql.hpp"
#include "tlapack/lapack/householder_qr.hpp"
#include "tlapack/lapack/householder_rq.hpp"
using namespace tlapack;
#define CALL(query, wcall, scall, ...) twice<T, L>(c, nmv, query, [&](auto& work) { return wcall; }, [&]() { return scall; }, __VA_ARGS__)
template <class T, Layout L> void tOrtho(Case& c)
{
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    size_t nb = genNb(c);
    int v = (int)c.draw(16);
    Twin<T, L> A(c, m, n);
    A.set(anyMat<T>(c, m, n));
    TwinV<T> t(c, k);
    t.set(anyVec<T>(c, k));
    auto a = A.a.view(), b = A.b.view();
    auto ta = t.a.view(), tb = t.b.view();
    std::string nmv;
    c.desc(m, n, "nb", nb);
#define PAIR(i, f) \
    case i: nmv = #f; CALL(f##_worksize<T>(a, ta), f##_work(a, ta, work), f(b, tb), A, t); break;
#define PAIRO(i, f, O) \
    case i: { nmv = #f; O o{}; o.nb = nb; CALL(f##_worksize<T>(a, ta, o), f##_work(a, ta, work, o), f(b, tb, o), A, t); break; }
#define PAIRH(i, f, O, V, var) \
    case i: { nmv = std::string(#f) + (v % 2 ? "-level2" : "-blocked"); O o{}; o.nb = nb; o.variant = V::var; CALL(f##_worksize<T>(a, ta, o), f##_work(a, ta, work, o), f(b, tb, o), A, t); break; }
    switch (v) {
        PAIR(0, geqr2)
        PAIR(1, gelq2)
        PAIR(2, geql2)
        PAIR(3, gerq2)
        PAIRO(4, geqrf, GeqrfOpts)
        PAIRO(5, gelqf, GelqfOpts)
        PAIRO(6, geqlf, GeqlfOpts)
        PAIRO(7, gerqf, GerqfOpts)
        PAIRH(8, householder_qr, HouseholderQROpts, HouseholderQRVariant, Blocked)
        PAIRH(9, householder_qr, HouseholderQROpts, HouseholderQRVariant, Level2)
        PAIRH(10, householder_lq, HouseholderLQOpts, HouseholderLQVariant, Blocked)
        PAIRH(11, householder_lq, HouseholderLQOpts, HouseholderLQVariant, Level2)
        PAIRH(12, householder_ql, HouseholderQLOpts, HouseholderQLVariant, Blocked)
        PAIRH(13, householder_ql, HouseholderQLOpts, HouseholderQLVariant, Level2)
        PAIRH(14, householder_rq, HouseholderRQOpts, HouseholderRQVariant, Blocked)
        PAIRH(15, householder_rq, HouseholderRQOpts, HouseholderRQVariant, Level2)
    }
}
REG2("ortho", tOrtho)
template <class T, Layout L> void tGelqt(Case& c)
{
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n), nb = (size_t)c.range(1, (int64_t)std::max<size_t>(k, 1));
    Twin<T, L> A(c, m, n), TT(c, m, nb);
    A.set(anyMat<T>(c, m, n));
    TT.set(anyMat<T>(c, m, nb));
    auto a = A.a.view(), b = A.b.view(), ta = TT.a.view(), tb = TT.b.view();
    std::string nmv = "gelqt";
    c.desc(m, n, "nb", nb);
    if (!CALL(gelqt_worksize<T>(a, ta), gelqt_work(a, ta, work), gelqt(b, tb), A)) return;
    // the documented part of TT
    for (size_t j = 0; j < k; j += nb) for (size_t q = 0; q < std::min(nb, k - j); ++q) for (size_t i = 0; i <= q; ++i)
        if (!same(TT.a(j + i, q), TT.b(j + i, q))) c.fail("gelqt/differs-TT", "entry ", j + i, " ", q);
}
REG2("gelqt", tGelqt)
template <class T, Layout L> void tBidiag(Case& c)
{
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    size_t nb = genNb(c);
    Twin<T, L> A(c, m, n);
    A.set(anyMat<T>(c, m, n));
    TwinV<T> t(c, k), u(c, k);
    auto a = A.a.view(), b = A.b.view();
    auto ta = t.a.view(), tb = t.b.view(), ua = u.a.view(), ub = u.b.view();
    t.set(anyVec<T>(c, k)), u.set(anyVec<T>(c, k));
    std::string nmv;
    c.desc(m, n, "nb", nb);
    switch (c.draw(4)) {
        case 0: nmv = "gebd2"; CALL(gebd2_worksize<T>(a, ta, ua), gebd2_work(a, ta, ua, work), gebd2(b, tb, ub), A, t, u); break;
        case 1: { GebrdOpts o; o.nb = nb; nmv = "gebrd"; CALL(gebrd_worksize<T>(a, ta, ua, o), gebrd_work(a, ta, ua, work, o), gebrd(b, tb, ub, o), A, t, u); break; }
        case 2: { BidiagOpts o; o.nb = nb; o.variant = BidiagVariant::Blocked; nmv = "bidiag-blocked"; CALL(bidiag_worksize<T>(a, ta, ua, o), bidiag_work(a, ta, ua, work, o), bidiag(b, tb, ub, o), A, t, u); break; }
        default: { BidiagOpts o; o.nb = nb; o.variant = BidiagVariant::Level2; nmv = "bidiag-level2"; CALL(bidiag_worksize<T>(a, ta, ua, o), bidiag_work(a, ta, ua, work, o), bidiag(b, tb, ub, o), A, t, u); break; }
    }
}
REG2("bidiag", tBidiag)
template <class T, Layout L> void tHess(Case& c)
{
    size_t n = dimF(c), ilo = 0, ihi = n;
    if (n && c.coin()) ilo = (size_t)c.range(0, (int64_t)n - 1), ihi = (size_t)c.range((int64_t)ilo + 1, (int64_t)n);
    size_t nb = genNb(c), nx = (size_t)c.pick<int>({128, 2, 3, 5, 8, 1, 16});
    Twin<T, L> A(c, n, n);
    Dense<T> A0 = anyMat<T>(c, n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) if (j < ilo || i >= ihi) A0(i, j) = T(0);
    A.set(A0);
    TwinV<T> t(c, n ? n - 1 : 0);
    t.set(anyVec<T>(c, n ? n - 1 : 0));
    auto a = A.a.view(), b = A.b.view();
    auto ta = t.a.view(), tb = t.b.view();
    std::string nmv;
    c.desc(n, "ilo", ilo, ihi, "nb", nb, "nx", nx);
    switch (c.draw(4)) {
        case 0: nmv = "gehd2"; CALL(gehd2_worksize<T>(ilo, ihi, a, ta), gehd2_work(ilo, ihi, a, ta, work), gehd2(ilo, ihi, b, tb), A, t); break;
        case 1: { GehrdOpts o; o.nb = nb, o.nx_switch = nx; nmv = "gehrd"; CALL(gehrd_worksize<T>(ilo, ihi, a, ta, o), gehrd_work(ilo, ihi, a, ta, work, o), gehrd(ilo, ihi, b, tb, o), A, t); break; }
        case 2: { HessenbergOpts o; o.nb = nb, o.nx_switch = nx; o.variant = HessenbergVariant::Blocked; nmv = "hessenberg-blocked"; CALL(hessenberg_worksize<T>(ilo, ihi, a, ta, o), hessenberg_work(ilo, ihi, a, ta, work, o), hessenberg(ilo, ihi, b, tb, o), A, t); break; }
        default: { HessenbergOpts o; o.nb = nb, o.nx_switch = nx; o.variant = HessenbergVariant::Level2; nmv = "hessenberg-level2"; CALL(hessenberg_worksize<T>(ilo, ihi, a, ta, o), hessenberg_work(ilo, ihi, a, ta, work, o), hessenberg(ilo, ihi, b, tb, o), A, t); break; }
    }
}
REG2("hess", tHess)
template <class T, Layout L> void tGetri(Case& c)
{
    size_t n = dimF(c);
    Twin<T, L> A(c, n, n);
    Dense<T> A0 = anyMat<T>(c, n, n);
    for (size_t i = 0; i < n; ++i) if (!c.chance(1, 25)) A0(i, i) += T(real_t<T>(4));
    A.set(A0);
    std::vector<size_t> piv(n);
    for (size_t i = 0; i < n; ++i) piv[i] = (size_t)c.range((int64_t)i, (int64_t)n - 1);
    auto a = A.a.view(), b = A.b.view();
    std::string nmv;
    c.desc(n);
    switch (c.draw(3)) {
        case 0: nmv = "getri_uxli"; CALL(getri_uxli_worksize<T>(a), getri_uxli_work(a, work), getri_uxli(b), A); break;
        case 1: { GetriOpts o; o.variant = GetriVariant::UXLI; nmv = "getri-UXLI"; CALL(getri_worksize<T>(a, piv, o), getri_work(a, piv, work, o), getri(b, piv, o), A); break; }
        default: { GetriOpts o; o.variant = GetriVariant::UILI; nmv = "getri-UILI"; CALL(getri_worksize<T>(a, piv, o), getri_work(a, piv, work, o), getri(b, piv, o), A); break; }
    }
}
REG2("getri", tGetri)
template <class T, Layout L> void tHetrf(Case& c)
{
    size_t n = dimF(c);
    HetrfOpts o;
    o.nb = c.chance(1, 4) ? 32 : genNb(c);
    o.invariant = c.coin() ? Op::ConjTrans : Op::Trans;
    Uplo u = genUplo(c);
    Twin<T, L> A(c, n, n);
    Dense<T> A0 = anyMat<T>(c, n, n);
    for (size_t i = 0; i < n; ++i) if (c.coin()) A0(i, i) = T(0);
    A.set(A0);
    std::vector<int> p(n, -7777), q(n, 7777);
    auto a = A.a.view(), b = A.b.view();
    std::string nmv = u == Uplo::Upper ? "hetrf-U" : "hetrf-L";
    c.desc(n, "nb", o.nb);
    if (!CALL(hetrf_blocked_worksize<T>(a, o), hetrf_work(u, a, p, work, o), hetrf(u, b, q, o), A)) return;
    for (size_t i = 0; i < n; ++i) c.check(p[i] == q[i], nmv + "/differs-ipiv", "entry ", i, ": ", p[i], " and ", q[i]);
}
REG2("hetrf", tHetrf)
