// flags: -O2
// Working sizes: default block sizes and crossover points of the reductions.
#include "big.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/unghr.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    size_t n = (size_t)c.range(140, 300), ilo = 0, ihi = n;
    if (c.coin()) ilo = (size_t)c.draw(n / 4), ihi = n - (size_t)c.draw(n / 4);
    std::string kind;
    Dense<T> A0 = bigMat<T>(c, n, n, kind);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) if (j < ilo || i >= ihi) A0(i, j) = T(0);
    GehrdOpts o;
    if (c.chance(1, 3)) o.nb = (size_t)c.pick<int>({8, 16, 48, 64}), o.nx_switch = (size_t)c.pick<int>({16, 64, 100, 200});
    std::string w = "gehrd large";
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, kind, "nb", o.nb, "nx", o.nx_switch);
    c.label(kind), c.label(o.nx_switch == 128 ? "default options" : "chosen options");
    c.nontrivial(true);
    GMat<T, L> GA(c, n, n), GQ(c, n, n);
    GA.set(A0);
    GVec<T> gt(c, n);
    auto A = GA.view(), Q = GQ.view();
    auto t = gt.view();
    int info = gehrd(ilo, ihi, A, t, o);
    c.check(info == 0, w + "/info", "returned ", info);
    GA.margins(c, w + "/A"), gt.margins(c, w + "/tau");
    Dense<T> H = GA.get();
    GQ.set(H);
    info = unghr(ilo, ihi, Q, t);
    c.check(info == 0, w + "/unghr info", "returned ", info);
    GQ.margins(c, w + "/Q");
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) H(i, j) = T(0);
    c.ratio(w + "/orthogonality", orthD(GQ.get()), bigTol<T>(n) / 5);
    c.ratio(w + "/backward-error", simErr(GQ.get(), H, GQ.get(), A0), bigTol<T>(n) / 20);
}
static pbt::Reg a1("large/float/Col", 40, 800, tLarge<F, LC>, "order at least 140");
static pbt::Reg a2("large/double/Row", 40, 800, tLarge<D, LR>, "order at least 140");
static pbt::Reg a3("large/cfloat/Row", 30, 500, tLarge<CF, LR>, "order at least 140");
static pbt::Reg a4("large/cdouble/Col", 30, 500, tLarge<CD, LC>, "order at least 140");
