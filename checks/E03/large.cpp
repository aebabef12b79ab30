// flags: -O2
// Working sizes: default blocking of the bidiagonal reduction and of its factors.
#include "big.hpp"
#include "tlapack/lapack/gesvd.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    using R = real_t<T>;
    size_t m = (size_t)c.range(100, 230), n = c.chance(1, 4) ? m : (size_t)c.range(40, 230), k = std::min(m, n);
    if (c.coin()) std::swap(m, n);
    std::string kind;
    Dense<T> A0 = bigMat<T>(c, m, n, kind);
    size_t mu = c.coin() ? m : k, nv = c.coin() ? n : k;
    std::string w = "gesvd large";
    c.desc(w, "m", m, "n", n, "cols(U)", mu, "rows(Vt)", nv, kind);
    c.label(kind), c.label(m > n ? "tall" : m < n ? "wide" : "square");
    c.nontrivial(std::max(m, n) >= 100);
    GMat<T, L> GA(c, m, n), GU(c, m, mu), GV(c, nv, n);
    GA.set(A0);
    GU.fill(nanT<T>()), GV.fill(nanT<T>());
    GVec<R> gs(c, k);
    auto A = GA.view(), U = GU.view(), V = GV.view();
    auto s = gs.view();
    int info = gesvd(true, true, A, s, U, V);
    c.check(info == 0, w + "/info", "returned ", info);
    GA.margins(c, w + "/A"), GU.margins(c, w + "/U"), GV.margins(c, w + "/Vt"), gs.margins(c, w + "/s");
    Dense<T> S(mu, nv);
    for (size_t i = 0; i < k; ++i) {
        c.check(gs[i] >= 0 && isfin(gs[i]), w + "/nonnegative", "s[", i, "]");
        c.check(i == 0 || gs[i - 1] >= gs[i], w + "/order", "at ", i);
        S(i, i) = T(gs[i]);
    }
    c.ratio(w + "/U-unitary", orthD(GU.get()), bigTol<T>(m + n));
    c.ratio(w + "/V-unitary", orthD(ct(GV.get())), bigTol<T>(m + n));
    c.ratio(w + "/residual", simErr(GU.get(), S, ct(GV.get()), A0), bigTol<T>(m + n) / 10);
}
static const char* RL = "larger dimension at least 100 and the matrix not zero";
static pbt::Reg a1("large/float/Row", 40, 800, tLarge<F, LR>, RL);
static pbt::Reg a2("large/double/Col", 40, 800, tLarge<D, LC>, RL);
static pbt::Reg a3("large/cfloat/Col", 30, 500, tLarge<CF, LC>, RL);
static pbt::Reg a4("large/cdouble/Row", 30, 500, tLarge<CD, LR>, RL);
