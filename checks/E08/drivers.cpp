#include "qz.hpp"
template <class T, Layout L> void tDriver(Case& c)
{
    using CT = cplxOf<T>;
    bool multi = c.coin();
    std::string w = multi ? "multishift_qz" : "lahqz", ka, kb;
    size_t n = multi ? (c.chance(1, 40) ? (size_t)c.range(60, 110) : c.chance(1, 2) ? (size_t)c.range(15, 45) : (size_t)c.size(0, 20)) : dimF(c);
    Dense<T> A0, B0;
    size_t ilo, ihi;
    genPencil(c, n, A0, B0, ilo, ihi, ka, kb);
    bool ws = !c.chance(1, 3), wq = !c.chance(1, 4), wz = !c.chance(1, 4);
    FrancisOpts o;
    bool defopt = c.chance(1, 4);
    if (!defopt) {
        size_t ns = (size_t)c.pick<int>({2, 4, 6, 8, 10, 3, 1}), nw = (size_t)c.pick<int>({2, 3, 4, 5, 6, 8, 10, 12, 1});
        o.nshift_recommender = [ns](size_t, size_t) { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
        o.nmin = (size_t)c.pick<int>({15, 15, 16, 20, 30, 75, 12, 3, 0});
        o.nibble = (size_t)c.pick<int>({14, 0, 100, 1000, 50});
        c.desc("ns", ns, "nw", nw, "nmin", o.nmin, "nibble", o.nibble);
    }
    bool degenerate = mayStall(ka, kb);
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "S", ws, "Q", wq, "Z", wz, "A", ka, "B", kb);
    c.label(w), c.label("A " + ka), c.label("B " + kb), c.label(ws ? "schur form" : "eigenvalues only");
    if (multi && n >= o.nmin && n >= 15) c.label("multishift on " + std::string(defopt ? "default" : "chosen") + " options");
    c.nontrivial(ihi - ilo >= 3 && normMax(A0) > 0);
    GMat<T, L> GA(c, n, n), GB(c, n, n), GQ(c, n, n), GZ(c, n, n);
    GA.set(A0), GB.set(B0);
    Dense<T> Q0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n), Z0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
    if (wq) GQ.set(Q0);
    else GQ.fill(nanT<T>());
    if (wz) GZ.set(Z0);
    else GZ.fill(nanT<T>());
    GA.snapshot(), GB.snapshot(), GQ.snapshot(), GZ.snapshot();
    GVec<CT> ga(c, n);
    GVec<T> gb(c, n);
    for (size_t i = 0; i < n; ++i) ga[i] = nanT<CT>(), gb[i] = nanT<T>();
    ga.snapshot(), gb.snapshot();
    auto A = GA.view(), B = GB.view(), Q = GQ.view(), Z = GZ.view();
    auto al = ga.view();
    auto be = gb.view();
    int info = 0;
    try {
        if (multi) info = multishift_qz(ws, wq, wz, ilo, ihi, A, B, al, be, Q, Z, o);
        else info = lahqz(ws, wq, wz, ilo, ihi, A, B, al, be, Q, Z);
    }
    catch (std::runtime_error& x) {
        c.check(degenerate, w + "/no-convergence", "reported failure: ", x.what());
        c.label("reported failure");
        return;
    }
    auto av = ga.get();
    auto bv = gb.get();
    if (info != 0) {
        c.check(degenerate, w + "/no-convergence", "returned ", info);
        c.label("reported failure");
        c.check(info > 0 && (size_t)info > ilo && (size_t)info <= ihi, w + "/info", "returned ", info);
        checkPairs(c, w + "/partial", A0, B0, ilo, ihi, av, bv, true, (size_t)info);
        return;
    }
    GA.margins(c, w + "/A"), GB.margins(c, w + "/B"), GQ.margins(c, w + "/Q"), GZ.margins(c, w + "/Z"), ga.margins(c, w + "/alpha"), gb.margins(c, w + "/beta");
    for (size_t i = 0; i < n; ++i) if (i < ilo || i >= ihi) c.check(same(ga[i], nanT<CT>()) && same(gb[i], nanT<T>()), w + "/alpha-outside", "pair ", i, " written");
    GQ.onlyChanged(c, w + "/Q", [&](size_t, size_t j) { return wq && j >= ilo && j < ihi; });
    GZ.onlyChanged(c, w + "/Z", [&](size_t, size_t j) { return wz && j >= ilo && j < ihi; });
    auto inside = [&](size_t i, size_t j) {
        bool ri = i >= ilo && i < ihi, cc = j >= ilo && j < ihi;
        return ws ? (ri && j >= ilo) || (cc && i < ihi) : ri && cc;
    };
    // the multishift algorithm documents the space below the subdiagonal as workspace
    GA.onlyChanged(c, w + "/A", [&](size_t i, size_t j) { return (multi && i > j + 1) || inside(i, j); });
    GB.onlyChanged(c, w + "/B", [&](size_t i, size_t j) { return (multi && i > j + 1) || inside(i, j); });
    checkPairs(c, w, A0, B0, ilo, ihi, av, bv);
    Dense<T> S = GA.get(), P = GB.get();
    if (multi) for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) S(i, j) = P(i, j) = T(0);
    double k = (double)(ihi - ilo);
    if (!ws) {
        using W = wide<T>;
        if (wq) c.ratio(w + "/Q-orthogonality", orthErr(GQ.template getW<W>()), (120 + 30 * k) * eps<T>() + orthErr(widenM<W>(Q0)) * 2);
        if (wz) c.ratio(w + "/Z-orthogonality", orthErr(GZ.template getW<W>()), (120 + 30 * k) * eps<T>() + orthErr(widenM<W>(Z0)) * 2);
        return;
    }
    checkForm(c, w, S, P, av, bv, ilo, ihi);
    if (ilo > 0 && ilo < n) c.check(S(ilo, ilo - 1) == T(0), w + "/coupling", "A(ilo,ilo-1) filled");
    if (ihi > 0 && ihi < n) c.check(S(ihi, ihi - 1) == T(0), w + "/coupling", "A(ihi,ihi-1) filled");
    checkPair(c, w, A0, B0, S, P, wq, wz, Q0, GQ.get(), Z0, GZ.get(), 3 * k + 6);
}
static const char* RULE = "active block of order at least 3 and A not zero";
static pbt::Reg a1("schur/float/Row", 6000, 180000, tDriver<F, LR>, RULE);
static pbt::Reg a2("schur/double/Col", 6000, 180000, tDriver<D, LC>, RULE);
static pbt::Reg a3("schur/cfloat/Col", 6000, 180000, tDriver<CF, LC>, RULE);
static pbt::Reg a4("schur/cdouble/Row", 6000, 180000, tDriver<CD, LR>, RULE);
