#include "fact.hpp"
#include "tlapack/lapack/inv_house3.hpp"
using namespace tlapack;
// reflector that zeros the first column of a 2-by-3 matrix from the right
template <class T, Layout L> void tInv(Case& c)
{
    using W = wide<T>;
    Dense<T> A(2, 3);
    int k = (int)c.draw(8), dg = std::numeric_limits<real_t<T>>::digits, s = c.chance(1, 3) ? (int)c.range(-bigScale<T>(), bigScale<T>()) : 0;
    const char* names[] = {"uniform", "integers", "sparse integers", "spread", "rank one", "nearly rank one", "dependent last columns", "zero last columns"};
    for (auto& x : A.a) x = k == 1 ? smallInt<T>(c, 2) : k == 2 ? (c.coin() ? T(0) : smallInt<T>(c, 2)) : k == 3 ? scaleP2(uni<T>(c), -(int)c.range(0, 2 * dg)) : uni<T>(c);
    if (k == 4 || k == 5) { T f = smallInt<T>(c, 2); for (size_t j = 0; j < 3; ++j) A(1, j) = f * A(0, j); }
    if (k == 5) for (auto& x : A.a) x += scaleP2(uni<T>(c), -dg + 3);
    if (k == 6) { T f = smallInt<T>(c, 2); A(0, 1) = smallInt<T>(c, 3), A(1, 1) = smallInt<T>(c, 3); for (size_t i = 0; i < 2; ++i) A(i, 2) = f * A(i, 1); if (c.coin()) std::swap(A(0, 1), A(0, 2)), std::swap(A(1, 1), A(1, 2)); }
    if (k == 7) for (size_t i = 0; i < 2; ++i) for (size_t j = 1; j < 3; ++j) A(i, j) = T(0);
    for (auto& x : A.a) x = scaleP2(x, s);
    c.desc("inv_house3", names[k], "scale", s, show(A));
    c.label(names[k]);
    c.nontrivial(normMax(A) > 0);
    GMat<T, L> GA(c, 2, 3);
    GVec<T> gv(c, 3);
    GA.set(A);
    for (size_t i = 0; i < 3; ++i) gv[i] = nanT<T>();
    GA.snapshot();
    auto v = gv.view();
    T tau = nanT<T>();
    if (c.coin()) inv_house3(GA.cview(), v, tau);
    else { auto a = GA.view(); inv_house3(a, v, tau); }
    GA.unchanged(c, "inv_house3/A"), gv.margins(c, "inv_house3/v");
    W x[3] = {W(1), widen<W>(gv[1]), widen<W>(gv[2])}, t = widen<W>(tau);
    double d = 0;
    for (auto& q : x) d += mag(q) * mag(q);
    c.ratio("inv_house3/reflector", std::fabs(2 * (double)re(t) - mag(t) * mag(t) * d) * d, 60 * eps<T>() * std::max(1.0, d));
    // first column of A (I - tau x x^H)
    for (size_t i = 0; i < 2; ++i) {
        W sum = widen<W>(A(i, 0));
        for (size_t j = 0; j < 3; ++j) sum -= widen<W>(A(i, j)) * x[j] * t;
        c.ratio("inv_house3/annihilated", mag(sum), 30 * eps<T>() * (normMax(A) + tinyOf<T>()));
    }
}
static const char* RI = "the matrix is not zero";
static pbt::Reg i1("inv_house3/float/Row", 20000, 800000, tInv<F, LR>, RI);
static pbt::Reg i2("inv_house3/double/Col", 20000, 800000, tInv<D, LC>, RI);
static pbt::Reg i3("inv_house3/cfloat/Col", 20000, 800000, tInv<CF, LC>, RI);
static pbt::Reg i4("inv_house3/cdouble/Row", 20000, 800000, tInv<CD, LR>, RI);
