// variant: level2 -DBLOCKED=0
// variant: blocked -DBLOCKED=1
// E10: eigenvectors of (quasi-)triangular matrices, level-2 and blocked: residuals, storage, selection, back-transformation.
#include "form.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#if BLOCKED
#include "tlapack/lapack/trevc3.hpp"
#else
#include "tlapack/lapack/trevc.hpp"
#endif
using namespace tlapack;
// Schur form with growth of the eigenvectors under control of the generator
template <class T> Form<T> genT(Case& c, size_t nb)
{
    using R = real_t<T>;
    Form<T> f = genForm<T>(c, nb);
    size_t n = f.S.n;
    bool f32 = sizeof(R) == 4;
    auto above = [&](size_t i, size_t j) { return i < j && !(i + 1 == j && f.S(j, i) != T(0)); };
    if (c.chance(1, 4)) {  // large couplings: the back substitution grows by a factor at each step
        int h = (int)c.range(1, f32 ? 30 : 250);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) if (above(i, j) && (c.chance(3, 4) || i + 1 == j)) f.S(i, j) = scaleP2(f.S(i, j), h);
        f.apart = false, c.label("large coupling"), c.desc("coupling", h);
    }
    if (c.chance(1, 8)) {  // zero couplings: solves with a vanishing right-hand side
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) if (above(i, j) && c.chance(3, 4)) f.S(i, j) = T(0);
        c.label("sparse");
    }
    if (c.chance(1, 10)) {  // unbalanced 2-by-2 blocks
        for (size_t j = 0; j + 1 < n; ++j) if (f.S(j + 1, j) != T(0)) {
            int h = (int)c.range(f32 ? -20 : -120, f32 ? 20 : 120);
            f.S(j, j + 1) = scaleP2(f.S(j, j + 1), h), f.S(j + 1, j) = scaleP2(f.S(j + 1, j), -h + (int)c.range(0, 4));
        }
        f.apart = false, c.label("unbalanced blocks");
    }
    if (c.chance(1, 5)) {
        // bring the largest entry to a chosen exponent
        int e = 0;
        double mx = normMax(f.S);
        if (mx > 0) std::frexp(mx, &e);
        int hi = f32 ? 110 : 1000, t = (int)c.pick<int>({-hi / 4, -hi / 2, hi / 4, hi / 2, hi});
        for (auto& x : f.S.a) x = scaleP2(x, t - e);
        c.desc("top exponent", t), f.apart = false, c.label("scaled");
    }
    return f;
}
template <class T> struct Blk { size_t at, size; };
// the residual of one computed eigenvector (or pair), in wide arithmetic after scaling it to norm about 1
template <class T> void checkVec(Case& c, const std::string& w, const Dense<T>& S, bool left, size_t k, bool pair, const Dense<T>& V, size_t col, bool back, const Dense<T>& Q0, bool apart)
{
    using W = wide<T>;
    using RW = real_t<W>;
    using CW = std::complex<RW>;
    size_t n = S.n;
    double e = eps<T>();
    std::string ww = w + (left ? "/left" : "/right") + (pair ? "/pair" : "/single");
    std::vector<CW> x(n);
    for (size_t i = 0; i < n; ++i) {
        c.check(isfin(V(i, col)) && (!pair || isfin(V(i, col + 1))), ww + "/not-finite", "eigenvector ", k, " entry ", i, ": ", V(i, col));
        x[i] = widen<CW>(V(i, col));
        if constexpr (!cplx<T>) if (pair) x[i] += CW(RW(0), RW(V(i, col + 1)));
    }
    RW mx = 0;
    for (auto& z : x) mx = std::max(mx, std::max(std::fabs(re(z)), std::fabs(im(z))));
    c.check(mx > 0, ww + "/zero", "eigenvector ", k, " is zero");
    for (auto& z : x) z /= mx;
    if (!back) {
        size_t lo = left ? k : 0, hi = left ? n : k + (pair ? 2 : 1);
        for (size_t i = 0; i < n; ++i) if (i < lo || i >= hi) c.check(x[i] == CW(0), ww + "/structure", "eigenvector ", k, " has a nonzero entry ", i);
        if (apart) c.check(x[k] != CW(0) || (pair && x[k + 1] != CW(0)), ww + "/vanishing-component", "eigenvector ", k);
    }
    else {
        // x := Q^H x for unitary Q
        std::vector<CW> y(n, CW(0));
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) y[j] += std::conj(widen<CW>(Q0(i, j))) * x[i];
        x = y;
    }
    RW wr, wi = 0;
    CW lam = widen<CW>(S(k, k));
    if constexpr (!cplx<T>) if (pair) wi = std::sqrt(std::fabs(RW(S(k, k + 1)))) * std::sqrt(std::fabs(RW(S(k + 1, k)))), lam += CW(0, wi);
    (void)wr;
    // componentwise scale of the products that enter each row
    RW den = 0, r = 0;
    for (size_t i = 0; i < n; ++i) {
        CW s = 0;
        RW d = std::abs(lam) * (back ? RW(1) : std::abs(x[i]));
        for (size_t j = 0; j < n; ++j) {
            CW t = left ? std::conj(widen<CW>(S(j, i))) : widen<CW>(S(i, j));
            s += t * x[j], d += std::abs(t) * (back ? RW(1) : std::abs(x[j]));
        }
        s -= (left ? std::conj(lam) : lam) * x[i];
        den = std::max(den, d), r = std::max(r, std::abs(s));
    }
    // the underflow threshold of the working precision relative to the vector actually returned
    double fl = 8 * (double)n * (double)std::numeric_limits<real_t<T>>::min() / std::min(1.0, (double)mx) + 4 * (double)n * (double)std::numeric_limits<real_t<T>>::denorm_min() * normMax(S) / (double)mx;
    c.ratio(ww + (back ? "/back" : "") + "/residual", (double)r, e * (double)(n + 8) * (double)den + fl);
}
template <class T, Layout L> void tTrevc(Case& c)
{
    size_t nb = c.chance(1, 40) ? (size_t)c.range(20, 60) : c.chance(1, 4) ? (size_t)c.range(6, 16) : (size_t)c.size(0, 6);
    Form<T> f = nb == 0 ? Form<T>{Dense<T>(0, 0), {}, "empty", false} : genT<T>(c, nb);
    size_t n = f.S.n;
    Side side = (Side)c.pick<char>({'L', 'R', 'B'});
    HowMny how = (HowMny)c.pick<char>({'A', 'B', 'S'});
#if BLOCKED
    const bool blocked = true;
    Trevc3Opts o;
    o.block_size = genNb(c), o.block_size_solve = genNb(c);
    if (c.chance(1, 3)) o.block_size = 64, o.block_size_solve = 64;
    c.desc("nb", o.block_size, o.block_size_solve);
#else
    const bool blocked = false;
#endif
    bool wl = side != Side::Right, wr = side != Side::Left;
    std::vector<bool> sel(n, false);
    size_t m = n;
    std::vector<Blk<T>> bl;
    size_t p = 0;
    for (size_t s : f.bs) bl.push_back({p, s}), p += s;
    std::vector<Blk<T>> want = bl;
    if (how == HowMny::Select) {
        int mode = (int)c.draw(5);
        want.clear(), m = 0;
        for (auto& b : bl) {
            bool in = mode == 0 ? false : mode == 1 ? true : mode == 2 ? c.chance(1, 5) : c.coin();
            if (!in) continue;
            if (b.size == 2) { int h = (int)c.draw(3); sel[b.at] = h != 1, sel[b.at + 1] = h != 0; }
            else sel[b.at] = true;
            want.push_back(b), m += b.size;
        }
    }
    size_t extra = how == HowMny::Back ? 0 : (size_t)c.pick<int>({0, 0, 2});
    std::string w = blocked ? "trevc3" : "trevc";
    c.desc(w, "n", n, "side", (char)side, "how", (char)how, f.kind, "m", m, "S", show(f.S, 8));
    c.label(w), c.label(f.kind), c.label(std::string("how ") + (char)how);
    bool ident = c.coin();
    Dense<T> Q0 = ident ? eye<T>(n) : genUnitary<T>(c, n);
    GMat<T, L> GT(c, n, n);
    GT.set(f.S), GT.snapshot();
    size_t cl = wl ? m + extra : (size_t)c.pick<int>({0, 1}), cr = wr ? m + extra : (size_t)c.pick<int>({0, 1});
    GMat<T, L> GL(c, n, cl), GR(c, n, cr);
    GL.fill(nanT<T>()), GR.fill(nanT<T>());
    if (how == HowMny::Back) {
        if (wl) GL.set(Q0);
        if (wr) GR.set(Q0);
    }
    GL.snapshot(), GR.snapshot();
    auto S = GT.cview();
    auto Vl = GL.view(), Vr = GR.view();
    c.nontrivial(n >= 3 && m > 0);
    auto sel0 = sel;
    int info;
    std::vector<real_t<T>> rw(n + 4, std::numeric_limits<real_t<T>>::quiet_NaN());
#if BLOCKED
    {
        if (c.coin()) info = trevc3(side, how, sel, S, Vl, Vr, o);
        else {
            WorkInfo wi = trevc3_worksize(side, how, sel, S, Vl, Vr, o);
            size_t q = (size_t)wi.m * wi.n;
            std::vector<T> wk(q + 8, nanT<T>());
            for (size_t i = 0; i < 4; ++i) wk[i] = wk[q + 4 + i] = T(real_t<T>(4321));
            LegacyVector<T> work(q, wk.data() + 4);
            LegacyVector<real_t<T>> rwork(n, rw.data());
            info = trevc3_work(side, how, sel, S, Vl, Vr, rwork, work, o);
            for (size_t i = 0; i < 4; ++i) c.check(wk[i] == T(real_t<T>(4321)) && wk[q + 4 + i] == T(real_t<T>(4321)), w + "/workspace-overrun", "queried size ", q);
        }
    }
#else
    {
        std::vector<T> wk(3 * n + 8, nanT<T>());
        for (size_t i = 0; i < 4; ++i) wk[i] = wk[3 * n + 4 + i] = T(real_t<T>(4321));
        LegacyVector<T> work(3 * n, wk.data() + 4);
        LegacyVector<real_t<T>> rwork(n, rw.data());
        info = trevc(side, how, sel, S, Vl, Vr, rwork, work);
        for (size_t i = 0; i < 4; ++i) c.check(wk[i] == T(real_t<T>(4321)) && wk[3 * n + 4 + i] == T(real_t<T>(4321)), w + "/workspace-overrun", "size 3n");
    }
#endif
    for (size_t i = n; i < n + 4; ++i) c.check(rw[i] != rw[i], w + "/rwork-overrun", "at ", i);
    c.check(info == 0, w + "/info", "returned ", info);
    GT.unchanged(c, w + "/T");
    GL.onlyChanged(c, w + "/Vl", [&](size_t, size_t j) { return wl && j < m; });
    GR.onlyChanged(c, w + "/Vr", [&](size_t, size_t j) { return wr && j < m; });
    if (how != HowMny::Select) c.check(sel == sel0, w + "/select-touched", "howmny is not Select");
    else for (auto& b : bl) {
        bool in = false;
        for (auto& q : want) in = in || q.at == b.at;
        c.check((bool)sel[b.at] == in, w + "/select-out", "select[", b.at, "] = ", (bool)sel[b.at]);
        if (b.size == 2 && !in) c.check(!sel[b.at + 1], w + "/select-out", "select[", b.at + 1, "] set for a pair that was not selected");
    }
    for (int s = 0; s < 2; ++s) {
        bool left = s == 0;
        if (!(left ? wl : wr)) continue;
        Dense<T> V = left ? GL.get() : GR.get();
        size_t col = 0;
        for (auto& b : want) {
            checkVec(c, w, f.S, left, b.at, b.size == 2, V, col, how == HowMny::Back, Q0, f.apart);
            col += b.size;
        }
    }
}
static const char* TR = "order at least 3 and at least one eigenvector requested";
static pbt::Reg a1("float/Col", 36000, 900000, tTrevc<F, LC>, TR);
static pbt::Reg a2("double/Row", 36000, 900000, tTrevc<D, LR>, TR);
static pbt::Reg a3("cfloat/Row", 24000, 600000, tTrevc<CF, LR>, TR);
static pbt::Reg a4("cdouble/Col", 24000, 600000, tTrevc<CD, LC>, TR);

