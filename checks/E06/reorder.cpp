#include "form.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/schur_move.hpp"
using namespace tlapack;
// solution of A11 X - X A22 = -A12 in complex wide arithmetic: norm of X and the separation
template <class T> void sepOf(const Dense<T>& S, size_t j0, size_t n1, size_t n2, double& xn, double& sep)
{
    using CW = std::complex<real_t<wide<T>>>;
    size_t N = n1 * n2;
    Dense<CW> M(N, N + 1);
    for (size_t a = 0; a < n1; ++a) for (size_t b = 0; b < n2; ++b) {
        size_t r = a + b * n1;
        for (size_t k = 0; k < n1; ++k) M(r, k + b * n1) += widen<CW>(S(j0 + a, j0 + k));
        for (size_t k = 0; k < n2; ++k) M(r, a + k * n1) -= widen<CW>(S(j0 + n1 + k, j0 + n1 + b));
        M(r, N) = -widen<CW>(S(j0 + a, j0 + n1 + b));
    }
    sep = 1e300;
    for (size_t i = 0; i < N; ++i) {  // complete pivoting
        size_t pi = i, pj = i;
        for (size_t j = i; j < N; ++j) for (size_t k = i; k < N; ++k) if (mag(M(k, j)) > mag(M(pi, pj))) pi = k, pj = j;
        for (size_t j = 0; j <= N; ++j) std::swap(M(i, j), M(pi, j));
        for (size_t k = 0; k < N; ++k) std::swap(M(k, i), M(k, pj));
        sep = std::min(sep, mag(M(i, i)));
        if (mag(M(i, i)) == 0) { xn = 1e300; return; }
        for (size_t k = 0; k < N; ++k) if (k != i) {
            CW m = M(k, i) / M(i, i);
            for (size_t j = i; j <= N; ++j) M(k, j) -= m * M(i, j);
        }
    }
    xn = 0;
    for (size_t i = 0; i < N; ++i) xn += std::pow(mag(M(i, N) / M(i, i)), 2);
    xn = std::sqrt(xn);
}
// structure of the form: sizes of the diagonal blocks; fails on anything that is not a standardized Schur form
template <class T> std::vector<size_t> blocksOf(Case& c, const std::string& w, const Dense<T>& S, bool standardized = true)
{
    size_t n = S.n;
    std::vector<size_t> r;
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) c.check(S(i, j) == T(0), w + "/below-subdiagonal", "entry (", i, ",", j, ") = ", S(i, j));
    for (size_t i = 0; i < n; ++i) {
        if (i + 1 >= n || S(i + 1, i) == T(0)) { r.push_back(1); continue; }
        if constexpr (cplx<T>) c.fail(w + "/not-triangular", "entry (", i + 1, ",", i, ") = ", S(i + 1, i));
        else {
            c.check(!(i + 2 < n && S(i + 2, i + 1) != T(0)), w + "/block-larger-than-2", "at ", i);
            if (standardized) {
                c.check(S(i, i) == S(i + 1, i + 1), w + "/not-standardized", "diagonal of the block at ", i, " differs");
                c.check((S(i, i + 1) > 0) != (S(i + 1, i) > 0) && S(i, i + 1) != 0, w + "/real-block", "block at ", i, " has off-diagonal entries ", S(i, i + 1), " ", S(i + 1, i));
            }
            r.push_back(2), ++i;
        }
    }
    return r;
}
template <class T> void checkSimilar(Case& c, const std::string& w, const Dense<T>& S0, const Dense<T>& S, const Dense<T>& Q0, const Dense<T>& Q, double steps)
{
    using W = wide<T>;
    double e = eps<T>();
    Dense<W> Zi = widenM<W>(Q0), Zw = widenM<W>(Q), Aw = widenM<W>(S0);
    double o0 = orthErr(Zi);
    c.ratio(w + "/orthogonality", orthErr(Zw), 20 * e * (1 + steps) + 2 * o0);
    Dense<W> U = mul(ct(Zi), Zw);
    c.ratio(w + "/residual", normF(sub(mul(mul(U, widenM<W>(S)), ct(U)), Aw)), (25 * e * (1 + steps) + 4 * o0) * (normF(Aw) + tinyOf<T>()));
}
template <class T> void scaleForm(Case& c, Form<T>& f)
{
    if (!c.chance(1, 6)) return;
    int s = (int)c.range(-1, 1) * (sizeof(real_t<T>) == 4 ? 40 : 400);
    for (auto& x : f.S.a) x = scaleP2(x, s);
    c.desc("scale", s);
}
template <class T, Layout L> void tSwap(Case& c)
{
    using CW = std::complex<real_t<wide<T>>>;
    size_t nb = (size_t)c.range(2, c.chance(1, 4) ? 7 : 4);
    Form<T> f = genForm<T>(c, nb);
    size_t b = (size_t)c.draw(nb - 1), j0 = 0, n = f.S.n, n1 = f.bs[b], n2 = f.bs[b + 1];
    for (size_t i = 0; i < b; ++i) j0 += f.bs[i];
    // two 1-by-1 blocks may be passed as one block of size two
    bool merged = false;
    if (!cplx<T> && n1 == 1 && b > 0 && f.bs[b - 1] == 1 && c.chance(1, 5)) n1 = 2, --j0, merged = true;
    if (!cplx<T> && n2 == 1 && b + 2 < nb && f.bs[b + 2] == 1 && c.chance(1, 5)) n2 = 2, merged = true;
    scaleForm(c, f);
    bool wq = !c.chance(1, 4);
    std::string w = "schur_swap/" + std::to_string(n1) + std::to_string(n2) + (merged ? "m" : "");
    c.desc(w, "n", n, "j0", j0, "Q", wq, f.kind, "S", show(f.S));
    c.label(w), c.label(f.kind);
    GMat<T, L> GA(c, n, n), GQ(c, n, n);
    Dense<T> Q0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
    GA.set(f.S);
    if (wq) GQ.set(Q0);
    else GQ.fill(nanT<T>());
    GA.snapshot(), GQ.snapshot();
    auto A = GA.view(), Q = GQ.view();
    c.nontrivial(n >= 3 && normMax(f.S) > 0);
    int r = schur_swap(wq, A, Q, j0, n1, n2);
    size_t j3 = j0 + n1 + n2;
    GA.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return (i >= j0 && i < j3 && j >= j0) || (j >= j0 && j < j3 && i < j3); });
    GQ.onlyChanged(c, w + "/Q", [&](size_t, size_t j) { return wq && j >= j0 && j < j3; });
    if (r != 0) {
        c.check(r == 1 && n1 == 2 && n2 == 2 && !merged, w + "/info", "returned ", r);
        GA.unchanged(c, w + "/rejected-A"), GQ.unchanged(c, w + "/rejected-Q");
        double xn, sep;
        sepOf(f.S, j0, n1, n2, xn, sep);
        c.check(sep < 0.01 * normMax(f.S), w + "/rejected-well-separated", "separation ", sep);
        c.label("rejected");
        return;
    }
    Dense<T> S = GA.get();
    auto bl = blocksOf(c, w, S);
    if (wq) checkSimilar(c, w, f.S, S, Q0, GQ.get(), 1);
    // the eigenvalues are exchanged
    double xn, sep, nf = normF(f.S), e = eps<T>();
    sepOf(f.S, j0, n1, n2, xn, sep);
    double cond = 1 + xn * xn;
    if (nf > 0 && 200 * e * nf * cond < 0.05 * sep) {
        c.label("well separated");
        auto inv = [&](const Dense<T>& M, size_t p, size_t k, CW& t, CW& q) {
            t = q = CW(0);
            for (size_t i = p; i < p + k; ++i) {
                t += widen<CW>(M(i, i)) / CW(real_t<wide<T>>(nf));
                for (size_t j = p; j < p + k; ++j) q += (widen<CW>(M(i, j)) / CW(real_t<wide<T>>(nf))) * (widen<CW>(M(j, i)) / CW(real_t<wide<T>>(nf)));
            }
        };
        CW t0, q0, t1, q1, u0, v0, u1, v1;
        inv(f.S, j0, n1, t0, q0), inv(S, j0 + n2, n1, t1, q1);
        inv(f.S, j0 + n1, n2, u0, v0), inv(S, j0, n2, u1, v1);
        double er = std::max(std::max(mag(t0 - t1), mag(q0 - q1)), std::max(mag(u0 - u1), mag(v0 - v1)));
        c.ratio(w + "/moved", er, 60 * e * cond);
    }
    (void)bl;
}
static const char* RS = "order at least 3 and the matrix not zero";
static pbt::Reg a1("swap/float/Col", 30000, 900000, tSwap<F, LC>, RS);
static pbt::Reg a2("swap/double/Row", 30000, 900000, tSwap<D, LR>, RS);
static pbt::Reg a3("swap/cfloat/Row", 10000, 300000, tSwap<CF, LR>, RS);
static pbt::Reg a4("swap/cdouble/Col", 10000, 300000, tSwap<CD, LC>, RS);
// a history of moves against a list model
template <class T, Layout L> void tMove(Case& c)
{
    size_t nb = (size_t)c.range(1, c.chance(1, 4) ? 14 : 6);
    Form<T> f = genForm<T>(c, nb);
    scaleForm(c, f);
    size_t n = f.S.n;
    bool wq = !c.chance(1, 4);
    std::string w = "schur_move";
    c.desc(w, "n", n, "Q", wq, f.kind, "S", show(f.S, 6));
    c.label(f.kind);
    GMat<T, L> GA(c, n, n), GQ(c, n, n);
    Dense<T> Q0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
    GA.set(f.S);
    if (wq) GQ.set(Q0);
    else GQ.fill(nanT<T>());
    GQ.snapshot();
    auto A = GA.view(), Q = GQ.view();
    struct B { size_t size; double re; };
    auto read = [&](const Dense<T>& S, const std::vector<size_t>& bs) {
        std::vector<B> v;
        size_t p = 0;
        for (size_t k : bs) v.push_back({k, (double)re(S(p, p))}), p += k;
        return v;
    };
    std::vector<B> model = read(f.S, f.bs);
    double unit = n ? 1e300 : 1;
    if (f.apart && n) { unit = 1e300; for (auto& b : model) unit = std::min(unit, std::fabs(b.re)); }  // smallest eigenvalue is 1 unit
    int steps = (int)c.range(1, 4);
    double done = 0;
    bool moved = false;
    for (int s = 0; s < steps; ++s) {
        size_t bf = (size_t)c.draw(model.size()), bt = (size_t)c.draw(model.size());
        size_t pf = 0, pt = 0;
        for (size_t i = 0; i < bf; ++i) pf += model[i].size;
        for (size_t i = 0; i < bt; ++i) pt += model[i].size;
        size_t ifst = pf, ilst = pt;
        if (model[bf].size == 2 && c.chance(1, 4)) ++ifst;  // the second row of a block is accepted
        if (model[bt].size == 2 && c.chance(1, 4)) ++ilst;
        c.desc("move", ifst, ilst);
        GA.snapshot();
        int r = schur_move(wq, A, Q, ifst, ilst);
        done += std::fabs((double)bf - (double)bt);
        if (bf != bt) moved = true;
        GA.margins(c, w + "/A"), GQ.margins(c, w + "/Q");
        Dense<T> S = GA.get();
        auto bl = blocksOf(c, w, S);
        if (wq) checkSimilar(c, w, f.S, S, Q0, GQ.get(), done);
        else GQ.unchanged(c, w + "/Q");
        c.check(ifst == pf, w + "/ifst", "block start reported as ", ifst, " instead of ", pf);
        if (r != 0) {
            c.check(r == 1 && !cplx<T>, w + "/info", "returned ", r);
            c.check(!f.apart, w + "/rejected-well-separated", "returned ", r);
            c.check(ilst < n, w + "/ilst", ilst);
            c.check(ilst == 0 || S(ilst, ilst - 1) == T(0), w + "/ilst-inside-block", "position ", ilst);
            c.label("rejected");
        }
        if (f.apart) {
            auto x = model[bf];
            model.erase(model.begin() + (long)bf), model.insert(model.begin() + (long)bt, x);
            size_t np = 0;
            for (size_t i = 0; i < bt; ++i) np += model[i].size;
            c.check(ilst == np, w + "/ilst", "final position reported as ", ilst, " instead of ", np);
            c.check(bl.size() == model.size(), w + "/blocks", "number of blocks changed");
            auto now = read(S, bl);
            for (size_t i = 0; i < model.size(); ++i) {
                c.check(now[i].size == model[i].size, w + "/order", "block ", i, " has size ", now[i].size);
                c.check(std::fabs(now[i].re - model[i].re) <= 0.1 * unit, w + "/order", "block ", i, " holds ", now[i].re, " instead of ", model[i].re);
            }
            model = now;
        }
        else model = read(S, bl);
        if (model.empty()) break;
    }
    c.nontrivial(moved && n >= 3 && normMax(f.S) > 0);
}
static const char* RM = "a block moved in a nonzero matrix of order at least 3";
static pbt::Reg b1("move/float/Row", 16000, 480000, tMove<F, LR>, RM);
static pbt::Reg b2("move/double/Col", 16000, 480000, tMove<D, LC>, RM);
static pbt::Reg b3("move/cfloat/Col", 8000, 240000, tMove<CF, LC>, RM);
static pbt::Reg b4("move/cdouble/Row", 8000, 240000, tMove<CD, LR>, RM);
// --- small Sylvester equations
template <class T, Layout L> void tSylv(Case& c)
{
    using W = wide<T>;
    size_t n1 = (size_t)c.pick<int>({2, 2, 2, 1, 0}), n2 = n1 == 2 ? 2 : n1 == 1 ? 1 : (size_t)c.range(0, 2);
    if (c.chance(1, 12)) n1 = (size_t)c.range(0, 2), n2 = (size_t)c.range(0, 2);
    Op ol = c.coin() ? Op::Trans : Op::NoTrans, orr = c.coin() ? Op::Trans : Op::NoTrans;
    int sg = c.coin() ? 1 : -1;
    int dg = std::numeric_limits<T>::digits, mx = sizeof(T) == 4 ? 55 : 480;
    auto mat = [&](size_t a, size_t b) {
        Dense<T> M(a, b);
        int k = (int)c.draw(4), s = c.chance(1, 3) ? (int)c.range(-mx, mx) : 0;
        for (auto& x : M.a) x = k == 0 ? smallInt<T>(c, 2) : k == 1 ? scaleP2(uni<T>(c), -(int)c.range(0, dg)) : uni<T>(c);
        for (auto& x : M.a) x = scaleP2(x, s);
        return M;
    };
    Dense<T> TL = mat(n1, n1), TR = mat(n2, n2), B = mat(n1, n2);
    int rel = (int)c.draw(5);
    if (n1 == n2 && rel >= 2) {  // common or nearly common eigenvalues
        for (size_t i = 0; i < TL.a.size(); ++i) TR.a[i] = -T(sg) * TL.a[i];
        if (rel == 3) for (auto& x : TR.a) x *= T(1) + scaleP2(uni<T>(c), -(int)c.range(1, 2 * dg));
        if (rel == 4 && n1) TR(0, 0) = TR(n1 - 1, n1 - 1);
    }
    c.desc("lasy2", n1, n2, nm(ol), nm(orr), sg, "TL", show(TL), "TR", show(TR), "B", show(B));
    GMat<T, L> gl(c, n1, n1), gr(c, n2, n2), gb(c, n1, n2), gx(c, n1, n2);
    gl.set(TL), gr.set(TR), gb.set(B), gx.fill(nanT<T>());
    gl.snapshot(), gr.snapshot(), gb.snapshot(), gx.snapshot();
    auto X = gx.view();
    T scale = nanT<T>(), xnorm = nanT<T>();
    int info;
    std::string w = "lasy2/" + std::to_string(n1) + std::to_string(n2);
    c.label(w);
    auto run = [&]() { return c.coin() ? lasy2(ol, orr, sg, gl.cview(), gr.cview(), gb.cview(), scale, X, xnorm) : [&]() { auto l = gl.view(), r = gr.view(), b = gb.view(); return lasy2(ol, orr, sg, l, r, b, scale, X, xnorm); }(); };
    if (n1 + n2 == 3 && n1 && n2) {
        bool thrown = false;
        try { info = run(); thrown = info != 0; }
        catch (std::runtime_error&) { thrown = true; }
        c.check(thrown, w + "/unimplemented", "the unimplemented sizes must be reported");
        return;
    }
    info = run();
    c.nontrivial(n1 > 0 && n2 > 0 && normMax(B) > 0);
    gl.unchanged(c, w + "/TL"), gr.unchanged(c, w + "/TR"), gb.unchanged(c, w + "/B"), gx.margins(c, w + "/X");
    c.check(scale > 0 && scale <= 1, w + "/scale", "scale = ", scale);
    c.check(info == 0 || info == 1, w + "/info", info);
    if (n1 == 0 || n2 == 0) { c.check(xnorm == 0 && scale == 1, w + "/empty", xnorm); return; }
    Dense<T> Xd = gx.get();
    c.check(allFinite(Xd), w + "/finite", "X is not finite: ", show(Xd));
    double e = eps<T>(), small = (double)safe_min<T>() / (double)ulp<T>();
    double xn = 0;
    for (size_t i = 0; i < n1; ++i) { double s = 0; for (size_t j = 0; j < n2; ++j) s += mag(Xd(i, j)); xn = std::max(xn, s); }
    c.check(std::fabs(xn - (double)xnorm) <= 4 * e * xn, w + "/xnorm", "xnorm ", xnorm, " but the infinity norm is ", xn);
    Dense<W> l = opM(ol, widenM<W>(TL)), r = opM(orr, widenM<W>(TR)), x = widenM<W>(Xd), b = widenM<W>(B);
    for (auto& v : b.a) v *= W(scale);
    Dense<W> q = mul(x, r);
    if (sg < 0) for (auto& v : q.a) v = -v;
    Dense<W> res = sub(mul(l, x), b);
    for (size_t i = 0; i < q.a.size(); ++i) res.a[i] += q.a[i];
    double tn = normMax(l) + normMax(r), den = (double)std::numeric_limits<T>::min();
    c.ratio(w + "/residual", normMax(res), 40 * (e * tn + small) * normMax(x) + 40 * e * normMax(b) + 16 * den * (1 + tn));
    // info = 1 is only for (nearly) common eigenvalues
    Dense<W> K(n1 * n2, n1 * n2);
    for (size_t a = 0; a < n1; ++a) for (size_t d = 0; d < n2; ++d) {
        size_t p = a + d * n1;
        for (size_t k = 0; k < n1; ++k) K(p, k + d * n1) += l(a, k);
        for (size_t k = 0; k < n2; ++k) K(p, a + k * n1) += W(sg) * r(k, d);
    }
    double smin = 1e300;
    size_t N = n1 * n2;
    for (size_t i = 0; i < N; ++i) {
        size_t pi = i, pj = i;
        for (size_t j = i; j < N; ++j) for (size_t k = i; k < N; ++k) if (mag(K(k, j)) > mag(K(pi, pj))) pi = k, pj = j;
        for (size_t j = 0; j < N; ++j) std::swap(K(i, j), K(pi, j));
        for (size_t k = 0; k < N; ++k) std::swap(K(k, i), K(k, pj));
        smin = std::min(smin, mag(K(i, i)));
        if (mag(K(i, i)) == 0) break;
        for (size_t k = i + 1; k < N; ++k) { W m = K(k, i) / K(i, i); for (size_t j = i; j < N; ++j) K(k, j) -= m * K(i, j); }
    }
    if (info) c.label("perturbed"), c.check(smin <= 16 * (e * tn + small), w + "/info-regular", "perturbed although the smallest pivot is ", smin, " norm ", tn);
    if (scale < 1) c.label("scaled");
}
static pbt::Reg s1("lasy2/float", 30000, 900000, tSylv<F, LC>, "both orders positive and the right-hand side not zero");
static pbt::Reg s2("lasy2/double", 30000, 900000, tSylv<D, LR>, "both orders positive and the right-hand side not zero");
