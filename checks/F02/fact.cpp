#include "fact.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/householder_lq.hpp"
#include "tlapack/lapack/householder_ql.hpp"
#include "tlapack/lapack/householder_qr.hpp"
#include "tlapack/lapack/householder_rq.hpp"
#include "tlapack/lapack/trge_qr2.hpp"
using namespace tlapack;
#define DISPATCH(QRX, LQX, QLX, RQX) (f == QR ? QRX : f == LQ ? LQX : f == QL ? QLX : RQX)
template <class T, class M, class V> int level2(Fam f, M& A, V& tau) { return DISPATCH(geqr2(A, tau), gelq2(A, tau), geql2(A, tau), gerq2(A, tau)); }
template <class T, class M, class V> WorkInfo level2w(Fam f, M& A, V& tau) { return DISPATCH(geqr2_worksize<T>(A, tau), gelq2_worksize<T>(A, tau), geql2_worksize<T>(A, tau), gerq2_worksize<T>(A, tau)); }
template <class T, Layout L> void tFact(Case& c)
{
    using W = wide<T>;
    Fam f = c.pick({QR, LQ, QL, RQ});
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    int variant = (int)c.draw(6);
    size_t nb = genNb(c);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, bigScale<T>(), &kind);
    const char* names[] = {"level2", "level2_work", "blocked", "blocked_work", "householder", "householder_work"};
    bool hb = c.coin();
    std::string w = std::string(nm(f)) + "/" + names[variant] + (variant >= 4 ? (hb ? "-blocked" : "-level2") : "");
    c.desc(w, "m", m, "n", n, "nb", nb, kind);
    c.label(w), c.label(kind);
    if (k > nb && variant >= 2) c.label("several blocks");
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(m >= 2 && n >= 2 && normMax(Aw) > 0);
    GMat<T, L> G(c, m, n);
    G.set(A0);
    GVec<T> tau(c, k);
    auto A = G.view();
    auto t = tau.view();
    int info = 0;
    auto withWork = [&](WorkInfo wi, auto&& call) {
        Dirty<T> d(c, wi);
        auto wk = d.view();
        info = call(wk);
        d.done(c, w);
    };
    HouseholderQROpts oqr; HouseholderLQOpts olq; HouseholderQLOpts oql; HouseholderRQOpts orq;
    oqr.variant = hb ? HouseholderQRVariant::Blocked : HouseholderQRVariant::Level2;
    olq.variant = hb ? HouseholderLQVariant::Blocked : HouseholderLQVariant::Level2;
    oql.variant = hb ? HouseholderQLVariant::Blocked : HouseholderQLVariant::Level2;
    orq.variant = hb ? HouseholderRQVariant::Blocked : HouseholderRQVariant::Level2;
    GeqrfOpts gqr; GelqfOpts glq; GeqlfOpts gql; GerqfOpts grq;
    oqr.nb = olq.nb = oql.nb = orq.nb = gqr.nb = glq.nb = gql.nb = grq.nb = nb;
    switch (variant) {
        case 0: info = level2<T>(f, A, t); break;
        case 1: withWork(level2w<T>(f, A, t), [&](auto& wk) { return DISPATCH(geqr2_work(A, t, wk), gelq2_work(A, t, wk), geql2_work(A, t, wk), gerq2_work(A, t, wk)); }); break;
        case 2: info = DISPATCH(geqrf(A, t, gqr), gelqf(A, t, glq), geqlf(A, t, gql), gerqf(A, t, grq)); break;
        case 3: withWork(DISPATCH(geqrf_worksize<T>(A, t, gqr), gelqf_worksize<T>(A, t, glq), geqlf_worksize<T>(A, t, gql), gerqf_worksize<T>(A, t, grq)),
                         [&](auto& wk) { return DISPATCH(geqrf_work(A, t, wk, gqr), gelqf_work(A, t, wk, glq), geqlf_work(A, t, wk, gql), gerqf_work(A, t, wk, grq)); }); break;
        case 4: info = DISPATCH(householder_qr(A, t, oqr), householder_lq(A, t, olq), householder_ql(A, t, oql), householder_rq(A, t, orq)); break;
        default: withWork(DISPATCH(householder_qr_worksize<T>(A, t, oqr), householder_lq_worksize<T>(A, t, olq), householder_ql_worksize<T>(A, t, oql), householder_rq_worksize<T>(A, t, orq)),
                          [&](auto& wk) { return DISPATCH(householder_qr_work(A, t, wk, oqr), householder_lq_work(A, t, wk, olq), householder_ql_work(A, t, wk, oql), householder_rq_work(A, t, wk, orq)); });
    }
    c.check(info == 0, w + "/info", "returned ", info);
    G.margins(c, w + "/A"), tau.margins(c, w + "/tau");
    Dense<T> S = G.get();
    Refl<W> r = reflOf<W>(f, S, tau.get());
    double e = eps<T>();
    c.ratio(w + "/unitary", r.defect(), 120 * e);
    Dense<W> P = factorOf<W>(f, S);
    if (colwise(f)) r.left(false, P);
    else r.right(false, P);
    c.ratio(w + "/residual", vecwise(colwise(f), sub(P, Aw), Aw, tinyOf<T>()), (150 + 10.0 * k) * e);
    // all variants agree where the problem determines the factors
    if (variant >= 2 && kind == "uniform" && (colwise(f) ? m >= 2 * n : n >= 2 * m) && k >= 2) {
        GMat<T, L> G2(c, m, n);
        G2.set(A0);
        GVec<T> tau2(c, k);
        auto A2 = G2.view();
        auto t2 = tau2.view();
        level2<T>(f, A2, t2);
        c.label("compared with level2");
        c.ratio(w + "/agree", normF(sub(widenM<W>(S), G2.template getW<W>())), 1e4 * k * e * normF(widenM<W>(S)));
    }
}
// compact-WY variants: Q from the stored triangular factors as well as from the scalar factors
template <class T, Layout L> void tRecursive(Case& c)
{
    using W = wide<T>;
    size_t n = std::max<size_t>(1, dimF(c)), m = n + dim(c);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, bigScale<T>(), &kind);
    Geqrt3Opts o;
    o.nx = (size_t)c.pick<int>({1, 1, 2, 3, 5, 8, 40});
    o.isw = c.chance(1, 4);
    std::string w = "geqrt3";
    c.desc(w, "m", m, "n", n, "nx", o.nx, "isw", (int)o.isw, kind);
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(n >= 2 && normMax(Aw) > 0);
    c.label(o.isw ? "isw" : n > o.nx ? "recursive" : "base");
    GMat<T, L> G(c, m, n), TT(c, n, n);
    G.set(A0);
    TT.fill(nanT<T>());
    auto A = G.view(), Tm = TT.view();
    geqrt3(A, Tm, o);
    G.margins(c, w + "/A"), TT.margins(c, w + "/T");
    Dense<T> S = G.get();
    std::vector<T> tau(n);
    for (size_t i = 0; i < n; ++i) tau[i] = TT(i, i);
    Refl<W> r = reflOf<W>(QR, S, tau);
    double e = eps<T>();
    c.ratio(w + "/unitary", r.defect(), 120 * e);
    Dense<W> P = factorOf<W>(QR, S);
    r.left(false, P);
    c.ratio(w + "/residual", vecwise(true, sub(P, Aw), Aw, tinyOf<T>()), (150 + 10.0 * n) * e);
    if (!o.isw && m <= 40) {
        Dense<W> V(m, n), Tw(n, n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) V(i, j) = r.v[j][i];
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) Tw(i, j) = widen<W>(TT(i, j));
        Dense<W> Q = sub(eye<W>(m), mul(mul(V, Tw), ct(V)));
        c.ratio(w + "/T", normF(sub(Q, r.full())), (30 + 10.0 * n) * e);
    }
}
template <class T, Layout L> void tGelqt(Case& c)
{
    using W = wide<T>;
    size_t m = dimF(c), n = dimF(c), k = std::min(m, n);
    size_t nb = std::min<size_t>(genNb(c), std::max<size_t>(k, 1));
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m, n, bigScale<T>(), &kind);
    bool work = c.coin();
    std::string w = work ? "gelqt_work" : "gelqt";
    c.desc(w, "m", m, "n", n, "nb", nb, kind);
    c.label(w);
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(m >= 2 && n >= 2 && normMax(Aw) > 0);
    GMat<T, L> G(c, m, n), TT(c, m, nb);
    G.set(A0);
    TT.fill(nanT<T>());
    auto A = G.view(), Tm = TT.view();
    int info;
    if (work) {
        Dirty<T> d(c, gelqt_worksize<T>(A, Tm));
        auto wk = d.view();
        info = gelqt_work(A, Tm, wk);
        d.done(c, w);
    }
    else info = gelqt(A, Tm);
    c.check(info == 0, w + "/info", "returned ", info);
    G.margins(c, w + "/A"), TT.margins(c, w + "/T");
    Dense<T> S = G.get();
    std::vector<T> tau(k);
    for (size_t i = 0; i < k; ++i) tau[i] = TT(i, i % nb);
    Refl<W> r = reflOf<W>(LQ, S, tau);
    double e = eps<T>();
    c.ratio(w + "/unitary", r.defect(), 120 * e);
    Dense<W> P = factorOf<W>(LQ, S);
    r.right(false, P);
    c.ratio(w + "/residual", vecwise(false, sub(P, Aw), Aw, tinyOf<T>()), (150 + 10.0 * k) * e);
    if (n <= 40) {
        // Q^H is the product of the block reflectors
        Dense<W> QH = eye<W>(n);
        for (size_t j = 0; j < k; j += nb) {
            size_t ib = std::min(nb, k - j);
            Dense<W> V(n, ib), Tw(ib, ib);
            for (size_t q = 0; q < ib; ++q) for (size_t i = 0; i < n; ++i) V(i, q) = r.v[j + q][i];
            for (size_t q = 0; q < ib; ++q) for (size_t i = 0; i <= q; ++i) Tw(i, q) = widen<W>(TT(j + i, q));
            QH = mul(QH, sub(eye<W>(n), mul(mul(V, Tw), ct(V))));
        }
        c.ratio(w + "/T", normF(sub(QH, r.full(true))), (30 + 10.0 * k) * e);
    }
}
// triangle on top of a full block
template <class T, Layout L> void tTrge(Case& c)
{
    using W = wide<T>;
    size_t n = std::max<size_t>(1, dim(c)), m = dim(c);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, m + n, n, bigScale<T>(), &kind);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) A0(i, j) = T(0);
    Dense<W> Aw = widenM<W>(A0);
    c.desc("trge_qr2", "m", m, "n", n, kind);
    c.nontrivial(n >= 2 && m >= 1 && normMax(Aw) > 0);
    GMat<T, L> G(c, m + n, n);
    G.set(A0);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) G(i, j) = nanT<T>();  // not referenced
    GVec<T> tau(c, n);
    G.snapshot();
    auto A = G.view();
    auto t = tau.view();
    trge_qr2(A, t);
    G.onlyChanged(c, "trge_qr2", [&](size_t i, size_t j) { return i <= j || i >= n; });
    tau.margins(c, "trge_qr2/tau");
    Refl<W> r;
    r.ord = m + n;
    for (size_t j = 0; j < n; ++j) {
        std::vector<W> v(m + n, W(0));
        v[j] = W(1);
        for (size_t i = n; i < m + n; ++i) v[i] = widen<W>(G(i, j));
        r.v.push_back(v), r.tau.push_back(widen<W>(tau[j]));
    }
    double e = eps<T>();
    c.ratio("trge_qr2/unitary", r.defect(), 120 * e);
    Dense<W> P(m + n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) P(i, j) = widen<W>(G(i, j));
    r.left(false, P);
    c.ratio("trge_qr2/residual", vecwise(true, sub(P, Aw), Aw, tinyOf<T>()), (150 + 10.0 * n) * e);
}
static pbt::Reg t1("trge/cdouble/Col", 6000, 100000, tTrge<CD, LC>, "at least two columns, not zero");
static pbt::Reg t2("trge/float/Row", 6000, 100000, tTrge<F, LR>, "at least two columns, not zero");
static pbt::Reg a1("fact/float/Col", 30000, 600000, tFact<F, LC>, FR());
static pbt::Reg a2("fact/double/Row", 30000, 600000, tFact<D, LR>, FR());
static pbt::Reg a3("fact/cfloat/Row", 30000, 600000, tFact<CF, LR>, FR());
static pbt::Reg a4("fact/cdouble/Col", 30000, 600000, tFact<CD, LC>, FR());
static pbt::Reg b1("geqrt3/double/Col", 8000, 160000, tRecursive<D, LC>, "at least two columns, not zero");
static pbt::Reg b2("geqrt3/cfloat/Row", 8000, 160000, tRecursive<CF, LR>, "at least two columns, not zero");
static pbt::Reg b3("geqrt3/cdouble/Col", 8000, 160000, tRecursive<CD, LC>, "at least two columns, not zero");
static pbt::Reg c1("gelqt/float/Row", 8000, 160000, tGelqt<F, LR>, FR());
static pbt::Reg c2("gelqt/cdouble/Col", 8000, 160000, tGelqt<CD, LC>, FR());
static pbt::Reg c3("gelqt/cfloat/Col", 8000, 160000, tGelqt<CF, LC>, FR());
