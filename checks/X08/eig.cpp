// env: PBT_CPU_LIMIT=40
// X08: eigenvalue iterations on any data with any legal option values
#include "wild.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/steqr.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/trevc3.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
using namespace tlapack;
template <class T> bool zero(const T& x) { return x == T(0); }
// after success: no two consecutive nonzero subdiagonals (none at all if complex)
template <class T> void quasi(Case& c, const std::string& w, const Dense<T>& H, size_t ilo, size_t ihi)
{
    for (size_t j = ilo; j + 1 < ihi; ++j) {
        if (zero(H(j + 1, j))) continue;
        if (cplx<T>) c.fail(w + "/success-without-convergence", "subdiagonal entry ", j, " is not zero though success was reported");
        if (j + 2 < ihi && !zero(H(j + 2, j + 1))) c.fail(w + "/success-without-convergence", "subdiagonal entries ", j, " and ", j + 1, " are not zero though success was reported");
    }
}
inline FrancisOpts anyOpts(Case& c, size_t n)
{
    FrancisOpts o;
    size_t a = c.draw(n + 4), b = c.draw(n + 4);
    o.nshift_recommender = [a](size_t, size_t) { return a; };
    o.deflation_window_recommender = [b](size_t, size_t) { return b; };
    o.nmin = (size_t)c.range(0, 24);
    o.nibble = c.pick<size_t>({14, 0, 1, 50, 100, 1000});
    c.desc("ns", a, "nw", b, "nmin", o.nmin, "nibble", o.nibble);
    return o;
}
template <class T, Layout L> void tQr(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), v = (int)c.draw(3);
    size_t n = v == 0 ? c.size(0, 20) : (c.chance(1, 3) ? (size_t)c.range(0, 14) : (size_t)c.range(12, 24));
    bool wt = c.chance(3, 4), wz = c.chance(3, 4);
    size_t ilo = 0, ihi = n;
    if (n && c.chance(1, 4)) ilo = c.draw(n), ihi = ilo + c.draw(n - ilo + 1);
    Dense<T> H = wild<T>(c, n, n, kind);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) if (i > j + 1 || (i > j && !(j >= ilo && i < ihi))) H(i, j) = T(0);
    std::string w = v == 0 ? "lahqr" : v == 1 ? "multishift_qr" : "qr_iteration";
    c.desc(w, kn(kind), "n", n, "range", ilo, ihi, "T", wt, "Z", wz);
    c.label(w + " " + kn(kind));
    c.nontrivial(n > 2);
    auto a = gm<T, L>(c, H), z = gm<T, L>(c, eye<T>(n));
    auto av = a.view();
    auto zv = z.view();
    std::vector<complex_type<R>> s(n);
    FrancisOpts o = anyOpts(c, n);
    QRIterationOpts q;
    static_cast<FrancisOpts&>(q) = o;
    q.variant = c.coin() ? QRIterationVariant::MultiShift : QRIterationVariant::DoubleShift;
    int info = 0;
    Clock t(c, w, 10);
    bool ok = tries(c, [&] {
        if (v == 0) info = lahqr(wt, wz, ilo, ihi, av, s, zv);
        else if (v == 1) info = multishift_qr(wt, wz, ilo, ihi, av, s, zv, o);
        else info = qr_iteration(wt, wz, ilo, ihi, av, s, zv, q);
    });
    t.stop();
    if (!ok) info = -1;
    c.label(info == 0 ? "converged" : "failure reported");
    if (kind == Generic && info != 0) c.fail(w + "/no-convergence", "info ", info, " on a generic finite matrix");
    if (info == 0 && wt) {
        // overflow or NaN data: the shape is judged only if the result is finite
        auto Hout = a.get();
        if (allFinite(Hout.a)) quasi(c, w, Hout, ilo, ihi);
        Side side = c.pick({Side::Left, Side::Right, Side::Both});
        auto l = gm<T, L>(c, eye<T>(n)), r = gm<T, L>(c, eye<T>(n));
        auto lv = l.view(), rv = r.view();
        std::vector<bool> sel(n, true);
        Clock t2(c, "trevc3", 10);
        tries(c, [&] { trevc3(side, c.coin() ? HowMny::All : HowMny::Back, sel, av, lv, rv); });
        t2.stop();
        if (n && c.coin()) {
            size_t f = c.draw(n), to = c.draw(n);
            Clock t3(c, "schur_move", 10);
            tries(c, [&] { schur_move(wz, av, zv, f, to); });
            t3.stop();
        }
    }
}
template <class T, Layout L> void tQz(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c), kb = c.coin() ? Generic : anyKind(c), v = (int)c.draw(2);
    size_t n = v == 0 ? c.size(0, 16) : (c.chance(1, 3) ? (size_t)c.range(0, 14) : (size_t)c.range(12, 20));
    bool ws = c.chance(3, 4), wq = c.chance(3, 4), wz = c.chance(3, 4);
    size_t ilo = 0, ihi = n;
    if (n && c.chance(1, 4)) ilo = c.draw(n), ihi = ilo + c.draw(n - ilo + 1);
    Dense<T> H = wild<T>(c, n, n, kind), P = wild<T>(c, n, n, kb);
    for (size_t j = 0; j < n; ++j) {
        for (size_t i = 0; i < n; ++i) if (i > j + 1 || (i > j && !(j >= ilo && i < ihi))) H(i, j) = T(0);
        for (size_t i = j + 1; i < n; ++i) P(i, j) = T(0);
        if (kb == Generic) P(j, j) = T(P(j, j) + T(R(2)));
    }
    std::string w = v == 0 ? "lahqz" : "multishift_qz";
    c.desc(w, kn(kind), kn(kb), "n", n, "range", ilo, ihi, "S", ws, "Q", wq, "Z", wz);
    c.label(w + " " + kn(kind));
    c.nontrivial(n > 2);
    auto a = gm<T, L>(c, H), b = gm<T, L>(c, P), q = gm<T, L>(c, eye<T>(n)), z = gm<T, L>(c, eye<T>(n));
    auto av = a.view(), bv = b.view(), qv = q.view(), zv = z.view();
    std::vector<complex_type<R>> al(n);
    std::vector<T> be(n);
    FrancisOpts o = anyOpts(c, n);
    int info = 0;
    Clock t(c, w, 10);
    bool ok = tries(c, [&] {
        if (v == 0) info = lahqz(ws, wq, wz, ilo, ihi, av, bv, al, be, qv, zv);
        else info = multishift_qz(ws, wq, wz, ilo, ihi, av, bv, al, be, qv, zv, o);
    });
    t.stop();
    if (!ok) info = -1;
    c.label(info == 0 ? "converged" : "failure reported");
    if (kind == Generic && kb == Generic && info != 0) c.fail(w + "/no-convergence", "info ", info, " on a generic finite pencil");
    if (info == 0 && ws) {
        // zeros turn into NaN when a rotation with a NaN in it is applied to
        // their rows, so the shape is judged only if the result is finite
        auto Aout = a.get();
        if (allFinite(Aout.a) && allFinite(b.get().a)) quasi(c, w, Aout, ilo, ihi);
        if (n && c.coin()) {
            size_t f = c.draw(n), to = c.draw(n);
            Clock t3(c, "generalized_schur_move", 10);
            tries(c, [&] { generalized_schur_move(wq, wz, av, bv, qv, zv, f, to); });
            t3.stop();
        }
    }
}
template <class T, Layout L> void tSteqr(Case& c)
{
    using R = real_t<T>;
    int kind = anyKind(c);
    size_t n = c.size(0, 30);
    std::vector<R> d = wildV<R>(c, n, kind), e = wildV<R>(c, n ? n - 1 : 0, c.coin() ? kind : anyKind(c));
    bool fin = allFinite(d) && allFinite(e);
    bool wz = c.coin();
    c.desc("steqr", kn(kind), "n", n, "Z", wz);
    c.label(std::string("steqr ") + kn(kind));
    c.nontrivial(n > 2);
    auto z = gm<T, L>(c, eye<T>(n));
    auto zv = z.view();
    int info = 0;
    double big = 0;
    for (auto x : d) big = std::max(big, (double)std::fabs(x));
    for (auto x : e) big = std::max(big, (double)std::fabs(x));
    Clock t(c, "steqr", 10);
    if (!tries(c, [&] { info = steqr(wz, d, e, zv); })) info = -1;
    t.stop();
    c.label(info == 0 ? "converged" : "failure reported");
    if (kind == Generic && fin && big <= 1 && info != 0) c.fail("steqr/no-convergence", "info ", info, " on a generic finite matrix");
    if (info == 0) for (size_t i = 0; i + 1 < n; ++i) if (!zero(e[i])) c.fail("steqr/success-without-convergence", "off-diagonal entry ", i, " is ", e[i], " though success was reported");
}
REG8("qr", 1200, tQr, "n > 2")
REG8("qz", 800, tQz, "n > 2")
REG8("steqr", 3000, tSteqr, "n > 2")
