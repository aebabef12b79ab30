#include "fact.hpp"
#include "tlapack/lapack/bidiag.hpp"
#include "tlapack/lapack/ungbr.hpp"
using namespace tlapack;
template <class T, Layout L> void tBidiag(Case& c)
{
    using W = wide<T>;
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, bigScale<T>(), &kind);
    int variant = (int)c.draw(6);
    size_t nb = genNb(c);
    bool hb = c.coin();
    BidiagOpts bo;
    bo.nb = nb, bo.variant = hb ? BidiagVariant::Blocked : BidiagVariant::Level2;
    GebrdOpts go;
    go.nb = nb;
    const char* names[] = {"gebd2", "gebd2_work", "gebrd", "gebrd_work", "bidiag", "bidiag_work"};
    std::string w = names[variant];
    if (variant >= 4) w += hb ? "-blocked" : "-level2";
    w += m >= n ? " tall" : " wide";
    c.desc(w, "m", m, "n", n, "nb", nb, kind);
    c.label(w), c.label(kind);
    if (k > nb && (variant == 2 || variant == 3 || (variant >= 4 && hb))) c.label("several blocks");
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(m >= 2 && n >= 2 && normMax(Aw) > 0);
    GMat<T, L> G(c, m, n);
    G.set(A0);
    GVec<T> tq(c, k), tp(c, k);
    for (size_t i = 0; i < k; ++i) tq[i] = tp[i] = nanT<T>();
    auto A = G.view();
    auto q = tq.view(), p = tp.view();
    int info = 0;
    auto withWork = [&](const std::string& what, WorkInfo wi, auto&& call) {
        Dirty<T> d(c, wi);
        auto wk = d.view();
        info = call(wk);
        d.done(c, what);
    };
    switch (variant) {
        case 0: info = gebd2(A, q, p); break;
        case 1: withWork(w, gebd2_worksize<T>(A, q, p), [&](auto& wk) { return gebd2_work(A, q, p, wk); }); break;
        case 2: info = gebrd(A, q, p, go); break;
        case 3: withWork(w, gebrd_worksize<T>(A, q, p, go), [&](auto& wk) { return gebrd_work(A, q, p, wk, go); }); break;
        case 4: info = bidiag(A, q, p, bo); break;
        default: withWork(w, bidiag_worksize<T>(A, q, p, bo), [&](auto& wk) { return bidiag_work(A, q, p, wk, bo); });
    }
    c.check(info == 0, w + "/info", "returned ", info);
    G.margins(c, w + "/A"), tq.margins(c, w + "/tauq"), tp.margins(c, w + "/taup");
    Dense<T> S = G.get();
    bool up = m >= n;
    Dense<W> B(m, n);
    Refl<W> rq, rp;  // A = Q B P^H, both products of reflectors in increasing order
    rq.ord = m, rp.ord = n;
    for (size_t i = 0; i < k; ++i) {
        c.check(im(S(i, i)) == 0, w + "/diagonal", "not real at ", i);
        B(i, i) = widen<W>(S(i, i));
        size_t oi = up ? i : i + 1, oj = up ? i + 1 : i;
        if (i + 1 < k) {
            c.check(im(S(oi, oj)) == 0, w + "/off-diagonal", "not real at ", i);
            B(oi, oj) = widen<W>(S(oi, oj));
        }
        c.check(isfin(tq[i]) && isfin(tp[i]), w + "/tau-not-set", "tau ", i, " of ", k, " not set");
        size_t uq = up ? i : i + 1, upi = up ? i + 1 : i;
        if (uq < m) {
            std::vector<W> v(m, W(0));
            v[uq] = W(1);
            for (size_t l = uq + 1; l < m; ++l) v[l] = widen<W>(S(l, i));
            rq.v.push_back(v), rq.tau.push_back(widen<W>(tq[i]));
        }
        if (upi < n) {
            std::vector<W> v(n, W(0));
            v[upi] = W(1);
            for (size_t l = upi + 1; l < n; ++l) v[l] = cj(widen<W>(S(i, l)));
            rp.v.push_back(v), rp.tau.push_back(widen<W>(tp[i]));
        }
    }
    double e = eps<T>();
    c.ratio(w + "/unitary", std::max(rq.defect(), rp.defect()), 120 * e);
    Dense<W> R = B;
    rq.left(false, R), rp.right(true, R);
    c.ratio(w + "/residual", normF(sub(R, Aw)), (80 + 8.0 * k) * e * (normF(Aw) + tinyOf<T>()));
    if (std::max(m, n) > 40) return;
    // explicit factors of every documented size
    UngbrOpts uo;
    uo.nb = genNb(c);
    bool wk = c.coin();
    tq.snapshot(), tp.snapshot();
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(555));
    {
        size_t cols = up ? (size_t)c.range((int64_t)n, (int64_t)m) : m;
        std::string u = std::string("ungbr_q") + (wk ? "_work" : "") + (up ? cols == n ? " thin" : cols == m ? " full" : " between" : " wide");
        c.label(u), c.desc(u, "cols", cols, "nb", uo.nb);
        GMat<T, L> Qm(c, m, cols);
        Qm.fill(junk);
        for (size_t j = 0; j < cols && j < n; ++j) for (size_t i = j + 1; i < m; ++i) Qm(i, j) = S(i, j);
        auto Q = Qm.view();
        if (wk) withWork(u, ungbr_q_worksize<T>(n, Q, q, uo), [&](auto& k2) { return ungbr_q_work(n, Q, q, k2, uo); });
        else info = ungbr_q(n, Q, q, uo);
        c.check(info == 0, u + "/info");
        Qm.margins(c, u), tq.unchanged(c, u + "/tau");
        c.ratio(u, normF(sub(Qm.template getW<W>(), blockOf(rq.full(), 0, m, 0, cols))), (20 + 8.0 * k) * e);
    }
    {
        size_t rows = !up ? (size_t)c.range((int64_t)m, (int64_t)n) : n;
        std::string u = std::string("ungbr_p") + (wk ? "_work" : "") + (!up ? rows == m ? " thin" : rows == n ? " full" : " between" : " tall");
        c.label(u), c.desc(u, "rows", rows);
        GMat<T, L> Pm(c, rows, n);
        Pm.fill(junk);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j && i < m && i < rows; ++i) Pm(i, j) = S(i, j);
        auto P = Pm.view();
        if (wk) withWork(u, ungbr_p_worksize<T>(m, P, p, uo), [&](auto& k2) { return ungbr_p_work(m, P, p, k2, uo); });
        else info = ungbr_p(m, P, p, uo);
        c.check(info == 0, u + "/info");
        Pm.margins(c, u), tp.unchanged(c, u + "/tau");
        c.ratio(u, normF(sub(Pm.template getW<W>(), blockOf(ct(rp.full()), 0, rows, 0, n))), (20 + 8.0 * k) * e);
    }
}
static pbt::Reg a1("bidiag/float/Row", 15000, 300000, tBidiag<F, LR>, FR());
static pbt::Reg a2("bidiag/double/Col", 15000, 300000, tBidiag<D, LC>, FR());
static pbt::Reg a3("bidiag/cfloat/Col", 15000, 300000, tBidiag<CF, LC>, FR());
static pbt::Reg a4("bidiag/cdouble/Row", 15000, 300000, tBidiag<CD, LR>, FR());
