// flags: -O2
// Working sizes: several panels of the default width, with and without an active block.
#include "big.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gghd3.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    size_t n = (size_t)c.range(100, 240), ilo = 0, ihi = n;
    if (c.coin()) ilo = (size_t)c.draw(n / 4), ihi = n - (size_t)c.draw(n / 4);
    std::string kind, kb;
    Dense<T> A0 = bigMat<T>(c, n, n, kind), B0 = bigMat<T>(c, n, n, kb);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (j < ilo || i >= ihi) A0(i, j) = T(0);
        B0(i, j) = T(0);
    }
    Gghd3Opts o;
    if (c.coin()) o.nb = (size_t)c.pick<int>({8, 16, 24, 48, 64, 100});
    std::string w = "gghd3 large";
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "A", kind, "B", kb, "nb", o.nb);
    c.label("A " + kind), c.label(o.nb == 32 ? "default width" : "chosen width");
    c.nontrivial(n >= 100);
    GMat<T, L> GA(c, n, n), GB(c, n, n), GQ(c, n, n), GZ(c, n, n);
    GA.set(A0), GB.set(B0), GQ.set(eye<T>(n)), GZ.set(eye<T>(n));
    auto A = GA.view(), B = GB.view(), Q = GQ.view(), Z = GZ.view();
    int info = gghd3(true, true, ilo, ihi, A, B, Q, Z, o);
    c.check(info == 0, w + "/info", "returned ", info);
    GA.margins(c, w + "/A"), GB.margins(c, w + "/B"), GQ.margins(c, w + "/Q"), GZ.margins(c, w + "/Z");
    Dense<T> S = GA.get(), P = GB.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (i > j + 1) c.check(S(i, j) == T(0), w + "/not-Hessenberg", "A(", i, ",", j, ")");
        c.check(P(i, j) == T(0), w + "/not-triangular", "B(", i, ",", j, ")");
    }
    c.ratio(w + "/Q-orthogonality", orthD(GQ.get()), bigTol<T>(n));
    c.ratio(w + "/Z-orthogonality", orthD(GZ.get()), bigTol<T>(n));
    c.ratio(w + "/A-backward-error", simErr(GQ.get(), S, GZ.get(), A0), bigTol<T>(n) / 10);
    c.ratio(w + "/B-backward-error", simErr(GQ.get(), P, GZ.get(), B0), bigTol<T>(n) / 10);
}
static pbt::Reg a1("large/float/Col", 40, 400, tLarge<F, LC>, BR());
static pbt::Reg a2("large/double/Row", 40, 400, tLarge<D, LR>, BR());
static pbt::Reg a3("large/cfloat/Row", 40, 300, tLarge<CF, LR>, BR());
static pbt::Reg a4("large/cdouble/Col", 40, 300, tLarge<CD, LC>, BR());
