#include "fact.hpp"
#include "tlapack/lapack/hessenberg.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/ungtr.hpp"
#include "tlapack/lapack/unmhr.hpp"
using namespace tlapack;
static size_t order(Case& c)
{
    if (c.chance(1, 2000)) return (size_t)c.range(130, 160);
    if (c.chance(1, 50)) return (size_t)c.range(40, 90);
    if (c.chance(1, 5)) return (size_t)c.range(13, 40);
    return (size_t)c.size(0, 12);
}
template <class T, Layout L> void tHess(Case& c)
{
    using W = wide<T>;
    size_t n = order(c), ilo = 0, ihi = n;
    bool full = c.coin();
    if (!full && n > 0) {
        ihi = (size_t)c.range(0, (int64_t)n);
        ilo = (size_t)c.range(0, (int64_t)std::min(ihi, n - 1));
    }
    std::string kind;
    Dense<T> A0 = genMat<T>(c, n, n, bigScale<T>(), &kind);
    // condensed form outside the active block: triangular, possibly with a subdiagonal where documented
    bool sub1 = c.coin();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i)
        if ((j < ilo || i >= ihi) && !(sub1 && i == j + 1 && (i <= ilo || i > ihi))) A0(i, j) = T(0);
    int variant = (int)c.draw(6);
    GehrdOpts go;
    go.nb = (size_t)c.pick<int>({1, 2, 3, 4, 5, 8, 16, 32});
    go.nx_switch = (size_t)c.pick<int>({0, 1, 2, 3, 5, 8, 20, 128});
    HessenbergOpts ho;
    ho.nb = go.nb, ho.nx_switch = go.nx_switch;
    bool hb = c.coin();
    ho.variant = hb ? HessenbergVariant::Blocked : HessenbergVariant::Level2;
    const char* names[] = {"gehd2", "gehd2_work", "gehrd", "gehrd_work", "hessenberg", "hessenberg_work"};
    std::string w = names[variant];
    if (variant >= 4) w += hb ? "-blocked" : "-level2";
    bool blocked = variant == 2 || variant == 3 || (variant >= 4 && hb);
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "nb", go.nb, "nx", go.nx_switch, kind);
    c.label(w), c.label(kind);
    size_t act = ihi > ilo ? ihi - ilo : 0;
    if (blocked && act > 1 && std::max(std::min(go.nb, act - 1), go.nx_switch) < act - 1) c.label("blocked code runs");
    Dense<W> Aw = widenM<W>(A0);
    c.nontrivial(act >= 3 && normMax(Aw) > 0);
    GMat<T, L> G(c, n, n);
    G.set(A0);
    G.snapshot();
    GVec<T> tau(c, n > 0 ? n - 1 : 0);
    auto A = G.view();
    auto t = tau.view();
    int info = 0;
    auto withWork = [&](WorkInfo wi, auto&& call) {
        Dirty<T> d(c, wi);
        auto wk = d.view();
        info = call(wk);
        d.done(c, w);
    };
    switch (variant) {
        case 0: info = gehd2(ilo, ihi, A, t); break;
        case 1: withWork(gehd2_worksize<T>(ilo, ihi, A, t), [&](auto& wk) { return gehd2_work(ilo, ihi, A, t, wk); }); break;
        case 2: info = gehrd(ilo, ihi, A, t, go); break;
        case 3: withWork(gehrd_worksize<T>(ilo, ihi, A, t, go), [&](auto& wk) { return gehrd_work(ilo, ihi, A, t, wk, go); }); break;
        case 4: info = hessenberg(ilo, ihi, A, t, ho); break;
        default: withWork(hessenberg_worksize<T>(ilo, ihi, A, t, ho), [&](auto& wk) { return hessenberg_work(ilo, ihi, A, t, wk, ho); });
    }
    c.check(info == 0, w + "/info", "returned ", info);
    tau.margins(c, w + "/tau");
    // A := Q^H A Q with Q acting on ilo+1..ihi-1 only
    G.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return (j > ilo && j < ihi && i < ihi) || (i > ilo && i < ihi && j >= ilo); });
    Dense<T> S = G.get();
    Refl<W> r;
    r.ord = n;
    Dense<W> H(n, n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i)
        if (i <= j + 1 || j < ilo || i >= ihi) H(i, j) = widen<W>(S(i, j));
    for (size_t i = ilo; i + 1 < ihi; ++i) {
        std::vector<W> v(n, W(0));
        v[i + 1] = W(1);
        for (size_t l = i + 2; l < ihi; ++l) v[l] = widen<W>(S(l, i));
        r.v.push_back(v), r.tau.push_back(widen<W>(tau[i]));
    }
    double e = eps<T>(), tol = (80 + 8.0 * act) * e;
    c.ratio(w + "/unitary", r.defect(), 120 * e);
    Dense<W> B = H;
    r.left(false, B), r.right(true, B);
    c.ratio(w + "/residual", normF(sub(B, Aw)), tol * (normF(Aw) + tinyOf<T>()));
    if (n > 40) return;
    Dense<W> Q = r.full();
    if (c.coin()) {
        bool wk = c.coin();
        std::string q = wk ? "unghr_work" : "unghr";
        c.label(q);
        tau.snapshot();
        if (wk) withWork(unghr_worksize<T>(ilo, ihi, A, t), [&](auto& k) { return unghr_work(ilo, ihi, A, t, k); });
        else info = unghr(ilo, ihi, A, t);
        c.check(info == 0, q + "/info", "returned ", info);
        G.margins(c, q), tau.unchanged(c, q + "/tau");
        c.ratio(q, normF(sub(G.template getW<W>(), Q)), (20 + 8.0 * act) * e);
    }
    else {
        Side side = genSide(c);
        Op trans = cplx<T> ? c.pick({Op::NoTrans, Op::ConjTrans}) : c.pick({Op::NoTrans, Op::ConjTrans, Op::Trans});
        size_t p = dim(c), cm = side == Side::Left ? n : p, cn = side == Side::Left ? p : n;
        bool wk = c.coin();
        std::string q = std::string(wk ? "unmhr_work " : "unmhr ") + nm(side) + " " + nm(trans);
        c.label(q), c.desc("p", p);
        Dense<T> C0 = genMat<T>(c, cm, cn, bigScale<T>());
        GMat<T, L> Cm(c, cm, cn);
        Cm.set(C0);
        G.snapshot(), tau.snapshot();
        auto C = Cm.view();
        if (wk) withWork(unmhr_worksize<T>(side, trans, ilo, ihi, A, t, C), [&](auto& k) { return unmhr_work(side, trans, ilo, ihi, A, t, C, k); });
        else info = unmhr(side, trans, ilo, ihi, A, t, C);
        c.check(info == 0, q + "/info", "returned ", info);
        Cm.margins(c, q + "/C"), G.unchanged(c, q + "/A"), tau.unchanged(c, q + "/tau");
        Dense<W> want = widenM<W>(C0);
        if (side == Side::Left) r.left(trans != Op::NoTrans, want);
        else r.right(trans != Op::NoTrans, want);
        c.ratio(q, vecwise(side == Side::Left, sub(Cm.template getW<W>(), want), widenM<W>(C0), tinyOf<T>()), (20 + 8.0 * act) * e);
    }
}
template <class T, Layout L> void tTrid(Case& c)
{
    using W = wide<T>;
    size_t n = order(c);
    Uplo u = genUplo(c);
    std::string kind;
    Dense<T> A0 = genMat<T>(c, n, n, bigScale<T>(), &kind);
    Dense<W> Aw = symOf(u, true, widenM<W>(A0));
    T junk = c.coin() ? nanT<T>() : T(real_t<T>(777));
    bool clean = c.chance(1, 3);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) {
        if (!inTri(u, i, j)) A0(i, j) = junk;
        if (i == j && clean) A0(i, j) = T(re(A0(i, j)));
    }
    std::string w = std::string("hetd2 ") + nm(u);
    c.desc(w, "n", n, kind), c.label(w), c.label(kind);
    c.nontrivial(n >= 3 && normMax(Aw) > 0);
    GMat<T, L> G(c, n, n);
    G.set(A0);
    G.snapshot();
    GVec<T> tau(c, n > 0 ? n - 1 : 0);
    auto A = G.view();
    auto t = tau.view();
    c.check(hetd2(u, A, t) == 0, w + "/info");
    tau.margins(c, w + "/tau");
    G.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return inTri(u, i, j); });
    Dense<T> S = G.get();
    Dense<W> Tm(n, n);
    Refl<W> r;
    r.ord = n;
    r.forward = u == Uplo::Lower;
    for (size_t i = 0; i < n; ++i) {
        c.check(im(S(i, i)) == 0, w + "/diagonal", "not real at ", i);
        Tm(i, i) = widen<W>(S(i, i));
        if (i + 1 == n) break;
        std::vector<W> v(n, W(0));
        W o;
        if (u == Uplo::Lower) {
            o = widen<W>(S(i + 1, i)), Tm(i + 1, i) = o, Tm(i, i + 1) = cj(o);
            v[i + 1] = W(1);
            for (size_t l = i + 2; l < n; ++l) v[l] = widen<W>(S(l, i));
        }
        else {
            o = widen<W>(S(i, i + 1)), Tm(i, i + 1) = o, Tm(i + 1, i) = cj(o);
            v[i] = W(1);
            for (size_t l = 0; l < i; ++l) v[l] = widen<W>(S(l, i + 1));
        }
        c.check(im(o) == 0, w + "/off-diagonal", "not real at ", i);
        r.v.push_back(v), r.tau.push_back(widen<W>(tau[i]));
    }
    double e = eps<T>();
    c.ratio(w + "/unitary", r.defect(), 120 * e);
    Dense<W> B = Tm;
    r.left(false, B), r.right(true, B);
    c.ratio(w + "/residual", normF(sub(B, Aw)), (80 + 8.0 * n) * e * (normF(Aw) + tinyOf<T>()));
    if (n > 40) return;
    tau.snapshot();
    c.check(ungtr(u, A, t) == 0, w + "/ungtr-info");
    std::string q = std::string("ungtr ") + nm(u);
    G.margins(c, q), tau.unchanged(c, q + "/tau");
    c.ratio(q, normF(sub(G.template getW<W>(), r.full())), (20 + 8.0 * n) * e);
}
static const char* RH = "active block of order at least 3, matrix not zero";
static const char* RT = "order at least 3, matrix not zero";
static pbt::Reg h1("hess/float/Col", 12000, 300000, tHess<F, LC>, RH);
static pbt::Reg h2("hess/double/Row", 12000, 300000, tHess<D, LR>, RH);
static pbt::Reg h3("hess/cfloat/Row", 12000, 300000, tHess<CF, LR>, RH);
static pbt::Reg h4("hess/cdouble/Col", 12000, 300000, tHess<CD, LC>, RH);
static pbt::Reg t1("trid/float/Row", 10000, 200000, tTrid<F, LR>, RT);
static pbt::Reg t2("trid/double/Col", 10000, 200000, tTrid<D, LC>, RT);
static pbt::Reg t3("trid/cfloat/Col", 10000, 200000, tTrid<CF, LC>, RT);
static pbt::Reg t4("trid/cdouble/Row", 10000, 200000, tTrid<CD, LR>, RT);
