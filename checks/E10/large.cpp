// flags: -O2
// E10 at working sizes: default block sizes, several blocks of eigenvectors and of the solve, back-transformation.
#include "big.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/trevc3.hpp"
using namespace tlapack;
template <class T, Layout L> void tLarge(Case& c)
{
    using R = real_t<T>;
    using CW = std::complex<double>;
    size_t n = (size_t)c.range(100, 240);
    std::mt19937_64 g(c.draw(1ULL << 32));
    std::normal_distribution<double> N;
    int k = (int)c.draw(4);
    const char* names[] = {"gaussian", "small coupling", "spread diagonal", "near-equal diagonal"};
    double off = k == 1 ? 0.01 : k == 0 ? 1 : 0.2;
    Dense<T> S(n, n);
    std::vector<size_t> bs;
    for (size_t j = 0; j < n; ++j) {
        for (size_t i = 0; i < j; ++i) S(i, j) = mk<T>((R)(off * N(g)), (R)(off * N(g)));
        S(j, j) = mk<T>((R)(k == 2 ? (double)j : k == 3 ? 1 + 1e-5 * N(g) : N(g)), (R)N(g));
    }
    for (size_t j = 0; j < n;) {
        size_t b = !cplx<T> && j + 1 < n && g() % 3 == 0 ? 2 : 1;
        if (b == 2) S(j + 1, j + 1) = S(j, j), S(j, j + 1) = T((R)(0.1 + std::fabs(N(g)))), S(j + 1, j) = T((R)(-0.1 - std::fabs(N(g))));
        bs.push_back(b), j += b;
    }
    // three reflectors as the similarity
    Dense<T> Q0 = eye<T>(n);
    for (int r = 0; r < 3; ++r) {
        std::vector<Wd<T>> v(n), y(n, Wd<T>(0));
        double s = 0;
        for (auto& x : v) x = mk<Wd<T>>(N(g), N(g)), s += mag(x) * mag(x);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) y[j] += cj(v[i]) * widen<Wd<T>>(Q0(i, j));
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
            auto z = widen<Wd<T>>(Q0(i, j)) - 2.0 / s * v[i] * y[j];
            Q0(i, j) = mk<T>((R)re(z), (R)im(z));
        }
    }
    bool back = c.chance(2, 3);
    Trevc3Opts o;
    if (c.chance(1, 3)) o.block_size = (size_t)c.pick<int>({16, 32, 48, 100}), o.block_size_solve = (size_t)c.pick<int>({16, 24, 100});
    std::string w = "trevc3 large";
    c.desc(w, "n", n, names[k], "back", back, "nb", o.block_size, o.block_size_solve);
    c.label(names[k]), c.label(back ? "back-transformed" : "all"), c.label(o.block_size == 64 ? "default blocks" : "chosen blocks");
    c.nontrivial(true);
    GMat<T, L> GT(c, n, n), GL(c, n, n), GR(c, n, n);
    GT.set(S), GT.snapshot();
    GL.fill(nanT<T>()), GR.fill(nanT<T>());
    if (back) GL.set(Q0), GR.set(Q0);
    std::vector<bool> sel(n, true);
    auto Tm = GT.cview();
    auto Vl = GL.view(), Vr = GR.view();
    int info = trevc3(Side::Both, back ? HowMny::Back : HowMny::All, sel, Tm, Vl, Vr, o);
    c.check(info == 0, w + "/info", "returned ", info);
    GT.unchanged(c, w + "/T"), GL.margins(c, w + "/Vl"), GR.margins(c, w + "/Vr");
    Dense<CW> Sw = widenM<CW>(S), Qh = widenM<CW>(ct(Q0));
    double nS = normF(S);
    for (int side = 0; side < 2; ++side) {
        Dense<T> V = side ? GR.get() : GL.get();
        Dense<CW> X(n, bs.size());
        std::vector<CW> lam(bs.size());
        size_t p = 0;
        for (size_t b = 0; b < bs.size(); p += bs[b++]) {
            double mx = 0;
            for (size_t i = 0; i < n; ++i) {
                CW z = widen<CW>(V(i, p));
                if (bs[b] == 2) z += CW(0, (double)re(V(i, p + 1)));
                c.check(isfin(z), w + "/not-finite", "vector ", p);
                X(i, b) = z, mx = std::max(mx, std::abs(z));
            }
            c.check(mx > 0, w + "/zero", "vector ", p);
            for (size_t i = 0; i < n; ++i) X(i, b) /= mx;
            lam[b] = Sw(p, p);
            if (bs[b] == 2) lam[b] += CW(0, std::sqrt(std::abs(Sw(p, p + 1) * Sw(p + 1, p))));
        }
        if (back) X = mul(Qh, X);
        Dense<CW> Y = mul(side ? Sw : ct(Sw), X);
        double worst = 0;
        for (size_t b = 0; b < bs.size(); ++b) {
            double r = 0, nx = 0;
            CW l = side ? lam[b] : std::conj(lam[b]);
            for (size_t i = 0; i < n; ++i) r += std::norm(Y(i, b) - l * X(i, b)), nx += std::norm(X(i, b));
            worst = std::max(worst, std::sqrt(r / nx));
        }
        c.ratio(w + (side ? "/right" : "/left"), worst, bigTol<T>(n) / 100 * nS);
    }
}
static const char* RL = "order at least 100";
static pbt::Reg a1("large/float/Col", 30, 600, tLarge<F, LC>, RL);
static pbt::Reg a2("large/double/Row", 30, 600, tLarge<D, LR>, RL);
static pbt::Reg a3("large/cfloat/Row", 24, 400, tLarge<CF, LR>, RL);
static pbt::Reg a4("large/cdouble/Col", 24, 400, tLarge<CD, LC>, RL);
