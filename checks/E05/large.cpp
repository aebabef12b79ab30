// flags: -O2
// Working sizes: default shift counts, deflation windows with nested eigenvalue problems, default blocking.
#include "big.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/multishift_qr.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    using CT = std::complex<real_t<T>>;
    size_t n = (size_t)c.range(100, c.chance(1, 4) ? 420 : 220), ilo = 0, ihi = n;
    if (c.chance(1, 3)) ilo = (size_t)c.draw(n / 8), ihi = n - (size_t)c.draw(n / 8);
    std::string kind;
    Dense<T> H0 = bigMat<T>(c, n, n, kind);
    if (kind != "gaussian" && kind != "integers") H0 = bigMat<T>(c, n, n, kind);
    bool damp = c.coin();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (i > j + 1 || j < ilo || i >= ihi) H0(i, j) = T(0);
        else if (!damp) H0(i, j) = T(real_t<T>(std::sqrt((double)(n - j)))) * H0(i, j);
    }
    FrancisOpts o;
    int mode = (int)c.draw(3);
    if (mode == 1) o.nmin = (size_t)c.range(12, 60);
    if (mode == 2) {
        size_t a = (size_t)c.range(2, 4), b = (size_t)c.range(3, 8);
        o.deflation_window_recommender = [a](size_t, size_t nh) -> size_t { return nh / a; };
        o.nshift_recommender = [b](size_t, size_t nh) -> size_t { return std::max<size_t>(2, nh / b); };
    }
    std::string w = "multishift_qr large";
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, kind, "mode", mode);
    c.label(mode == 0 ? "default options" : mode == 1 ? "small nmin" : "nested windows"), c.label(kind);
    c.nontrivial(n >= 100);
    GMat<T, L> GA(c, n, n), GZ(c, n, n);
    GA.set(H0), GZ.set(eye<T>(n));
    GVec<CT> gw(c, n);
    for (size_t i = 0; i < n; ++i) gw[i] = CT(H0(i, i));
    auto A = GA.view(), Z = GZ.view();
    auto ev = gw.view();
    int info = multishift_qr(true, true, ilo, ihi, A, ev, Z, o);
    c.check(info == 0, w + "/no-convergence", "returned ", info);
    GA.margins(c, w + "/A"), GZ.margins(c, w + "/Z"), gw.margins(c, w + "/w");
    Dense<T> S = GA.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) S(i, j) = T(0);
    for (size_t j = 0; j + 1 < n; ++j) {
        if (S(j + 1, j) == T(0)) continue;
        c.check(!cplx<T>, w + "/not-triangular", "entry (", j + 1, ",", j, ")");
        if (j + 2 < n) c.check(S(j + 2, j + 1) == T(0), w + "/not-quasi-triangular", "at ", j);
        if (j >= ilo && j + 1 < ihi) {
            c.check(S(j, j) == S(j + 1, j + 1), w + "/block-not-standard", "at ", j);
            c.check(im(gw[j]) > 0 && im(gw[j + 1]) == -im(gw[j]), w + "/conjugate-pair", "at ", j);
        }
    }
    for (size_t i = ilo; i < ihi; ++i) c.check(re(gw[i]) == re(S(i, i)) || std::fabs(re(gw[i]) - re(S(i, i))) <= 4 * eps<T>() * std::abs(gw[i]), w + "/eigenvalue", "w[", i, "] is not on the diagonal");
    c.ratio(w + "/orthogonality", orthD(GZ.get()), bigTol<T>(n));
    c.ratio(w + "/backward-error", simErr(GZ.get(), S, GZ.get(), H0), bigTol<T>(n) / 6);
}
static pbt::Reg a1("large/float/Row", 40, 400, tLarge<F, LR>, BR());
static pbt::Reg a2("large/double/Col", 40, 400, tLarge<D, LC>, BR());
static pbt::Reg a3("large/cfloat/Col", 40, 300, tLarge<CF, LC>, BR());
static pbt::Reg a4("large/cdouble/Row", 40, 300, tLarge<CD, LR>, BR());
