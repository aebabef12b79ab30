// flags: -O2
// Working sizes: default shift counts, deflation windows with nested eigenvalue problems, infinite eigenvalues.
#include "big.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    using CT = std::complex<real_t<T>>;
    size_t n = (size_t)c.range(100, c.chance(1, 4) ? 320 : 190), ilo = 0, ihi = n;
    if (c.chance(1, 3)) ilo = (size_t)c.draw(n / 8), ihi = n - (size_t)c.draw(n / 8);
    std::string kind;
    Dense<T> H0 = bigMat<T>(c, n, n, kind);
    if (kind != "gaussian" && kind != "integers") H0 = bigMat<T>(c, n, n, kind);
    std::string kb;
    Dense<T> B0 = bigMat<T>(c, n, n, kb);
    bool grow = c.coin();
    for (size_t j = 0; j < n; ++j) {
        for (size_t i = j + 1; i < n; ++i) {
            if (i > j + 1 || j < ilo || i >= ihi) H0(i, j) = T(0);
            B0(i, j) = T(0);
        }
        if (grow) B0(j, j) = B0(j, j) * T(real_t<T>(std::sqrt((double)(n - j))));
    }
    size_t sing = c.chance(1, 3) ? (size_t)c.range(1, 12) : 0;
    for (size_t q = 0; q < sing; ++q) { size_t i = (size_t)c.range((int64_t)ilo, (int64_t)ihi - 1); B0(i, i) = T(0); }
    FrancisOpts o;
    int mode = (int)c.draw(3);
    if (mode == 1) o.nmin = (size_t)c.range(12, 60);
    if (mode == 2) {
        size_t a = (size_t)c.range(2, 4), b = (size_t)c.range(3, 8);
        o.deflation_window_recommender = [a](size_t, size_t nh) -> size_t { return nh / a; };
        o.nshift_recommender = [b](size_t, size_t nh) -> size_t { return std::max<size_t>(2, nh / b); };
    }
    std::string w = "multishift_qz large";
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "A", kind, "B", kb, "zeros", sing, "mode", mode);
    c.label(mode == 0 ? "default options" : mode == 1 ? "small nmin" : "nested windows"), c.label("B " + kb);
    if (sing) c.label("singular B");
    c.nontrivial(n >= 100);
    GMat<T, L> GA(c, n, n), GB(c, n, n), GQ(c, n, n), GZ(c, n, n);
    GA.set(H0), GB.set(B0), GQ.set(eye<T>(n)), GZ.set(eye<T>(n));
    GVec<CT> ga(c, n);
    GVec<T> gb(c, n);
    for (size_t i = 0; i < n; ++i) ga[i] = nanT<CT>(), gb[i] = nanT<T>();
    auto A = GA.view(), B = GB.view(), Q = GQ.view(), Z = GZ.view();
    auto al = ga.view();
    auto be = gb.view();
    int info = multishift_qz(true, true, true, ilo, ihi, A, B, al, be, Q, Z, o);
    c.check(info == 0, w + "/no-convergence", "returned ", info);
    GA.margins(c, w + "/A"), GB.margins(c, w + "/B"), GQ.margins(c, w + "/Q"), GZ.margins(c, w + "/Z");
    Dense<T> S = GA.get(), P = GB.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (i > j + 1) S(i, j) = T(0);
        P(i, j) = T(0);
    }
    for (size_t j = 0; j + 1 < n; ++j) {
        if (S(j + 1, j) == T(0)) continue;
        c.check(!cplx<T>, w + "/not-triangular", "entry (", j + 1, ",", j, ")");
        if (j + 2 < n) c.check(S(j + 2, j + 1) == T(0), w + "/not-quasi-triangular", "at ", j);
    }
    for (size_t i = ilo; i < ihi; ++i) c.check(isfin(ga[i]) && isfin(gb[i]), w + "/eigenvalue-not-finite", "at ", i);
    c.ratio(w + "/Q-orthogonality", orthD(GQ.get()), bigTol<T>(n));
    c.ratio(w + "/Z-orthogonality", orthD(GZ.get()), bigTol<T>(n));
    c.ratio(w + "/A-backward-error", simErr(GQ.get(), S, GZ.get(), H0), bigTol<T>(n) / 6);
    c.ratio(w + "/B-backward-error", simErr(GQ.get(), P, GZ.get(), B0), bigTol<T>(n) / 10);
}
static pbt::Reg a1("large/float/Col", 30, 300, tLarge<F, LC>, BR());
static pbt::Reg a2("large/double/Row", 30, 300, tLarge<D, LR>, BR());
static pbt::Reg a3("large/cfloat/Row", 30, 200, tLarge<CF, LR>, BR());
static pbt::Reg a4("large/cdouble/Col", 30, 200, tLarge<CD, LC>, BR());
