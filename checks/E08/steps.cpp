#include "qz.hpp"
// one sweep with given shifts, one deflation pass
template <class T, Layout L> void tStep(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    bool aed = c.coin();
    bool large = aed && c.chance(1, 12);  // windows large enough for the recursive call
    size_t n = large ? (size_t)c.range(50, 70) : (size_t)c.range(aed ? 6 : 12, c.chance(1, 5) ? 60 : 24);
    std::string ka, kb;
    Dense<T> A0, B0;
    size_t ilo, ihi;
    genPencil(c, n, A0, B0, ilo, ihi, ka, kb);
    bool ws = !c.chance(1, 4), wq = !c.chance(1, 6), wz = !c.chance(1, 6);
    std::string w = aed ? "aggressive_early_deflation_generalized" : "multishift_QZ_sweep";
    size_t nw = large ? (size_t)c.range(15, 22) : (size_t)c.range(1, (int64_t)n), nsh = 2 * (size_t)c.range(1, 6);
    FrancisOpts o;
    if (c.coin() || large) o.nmin = (size_t)c.pick<int>({15, 16, 20});
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "S", ws, "Q", wq, "Z", wz, "A", ka, "B", kb, "nw", nw, "shifts", nsh);
    c.label(w), c.label("A " + ka), c.label("B " + kb);
    if (aed && ihi == ilo) throw pbt::Discard();
    bool singular = false;
    for (size_t i = ilo; i < ihi; ++i) singular |= B0(i, i) == T(0);
    c.nontrivial(ihi - ilo >= 3 && normMax(A0) > 0);
    GMat<T, L> GA(c, n, n), GB(c, n, n), GQ(c, n, n), GZ(c, n, n);
    GA.set(A0), GB.set(B0);
    Dense<T> Q0 = eye<T>(n), Z0 = eye<T>(n);
    if (wq) GQ.set(Q0);
    else GQ.fill(nanT<T>());
    if (wz) GZ.set(Z0);
    else GZ.fill(nanT<T>());
    GA.snapshot(), GB.snapshot(), GQ.snapshot(), GZ.snapshot();
    auto A = GA.view(), B = GB.view(), Q = GQ.view(), Z = GZ.view();
    size_t ls = 99999, ld = 99999;
    GVec<CT> ga(c, aed ? n : nsh);
    GVec<T> gb(c, aed ? n : nsh);
    for (size_t i = 0; i < ga.n; ++i) ga[i] = nanT<CT>(), gb[i] = nanT<T>();
    if (!aed) {
        int how = (int)c.draw(5);
        double sa = normMax(A0), sb = normMax(B0);
        auto val = [&]() { return uni<CT>(c) * CT(sa); };
        for (size_t i = 0; i < nsh; i += 2) {
            gb[i] = gb[i + 1] = T(std::fabs(uni<real_t<T>>(c)) * sb);
            ga[i] = val();
            if (!cplx<T>) ga[i + 1] = std::conj(ga[i]);
            else ga[i + 1] = how == 1 ? ga[i] : val();
            if (!cplx<T> && how != 0) ga[i] = CT(re(val())), ga[i + 1] = how == 1 ? ga[i] : CT(re(val())), gb[i + 1] = T(std::fabs(uni<real_t<T>>(c)) * sb);
            if (how == 2 && ihi > ilo) {
                // a pair from the diagonal: may hit a shift exactly
                size_t q = (size_t)c.range((int64_t)ilo, (int64_t)ihi - 1), r = c.coin() ? ilo : (size_t)c.range((int64_t)ilo, (int64_t)ihi - 1);
                ga[i] = widen<CT>(A0(r, r)), gb[i] = B0(r, r), ga[i + 1] = widen<CT>(A0(q, q)), gb[i + 1] = B0(q, q);
            }
            if (how == 3) gb[i] = T(0), ga[i] = CT(sa);                                     // infinite shift
            if (how == 4) ga[i] = ga[i + 1] = CT(0), gb[i] = gb[i + 1] = T(1);
            if (!cplx<T> && how >= 2) ga[i] = CT(re(ga[i])), ga[i + 1] = CT(re(ga[i + 1]));
        }
        c.desc("how", how);
    }
    ga.snapshot(), gb.snapshot();
    auto al = ga.view();
    auto be = gb.view();
    if (aed) {
        try {
            aggressive_early_deflation_generalized(ws, wq, wz, ilo, ihi, nw, A, B, al, be, Q, Z, ls, ld, o);
        }
        catch (std::runtime_error& x) {
            c.check(mayStall(ka, kb), w + "/no-convergence", "reported failure: ", x.what());
            c.label("reported failure");
            return;
        }
    }
    else multishift_QZ_sweep(ws, wq, wz, ilo, ihi, A, B, al, be, Q, Z);
    GA.margins(c, w + "/A"), GB.margins(c, w + "/B"), GQ.margins(c, w + "/Q"), GZ.margins(c, w + "/Z"), ga.margins(c, w + "/alpha"), gb.margins(c, w + "/beta");
    if (!aed) ga.unchanged(c, w + "/shifts"), gb.unchanged(c, w + "/shifts");
    auto inside = [&](size_t i, size_t j) {
        if (i > j + 1) return true;
        bool ri = i >= ilo && i < ihi, cc = j >= ilo && j < ihi;
        return ws ? (ri && j >= ilo) || (cc && i < ihi) : ri && cc;
    };
    GA.onlyChanged(c, w + "/A", inside), GB.onlyChanged(c, w + "/B", inside);
    GQ.onlyChanged(c, w + "/Q", [&](size_t, size_t j) { return wq && j >= ilo && j < ihi; });
    GZ.onlyChanged(c, w + "/Z", [&](size_t, size_t j) { return wz && j >= ilo && j < ihi; });
    Dense<T> S = GA.get(), P = GB.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) S(i, j) = P(i, j) = T(0);
    for (size_t j = 0; j + 1 < n; ++j) c.check(P(j + 1, j) == T(0), w + "/B-not-triangular", "B(", j + 1, ",", j, ") = ", P(j + 1, j));
    if (ilo > 0 && ilo < n) c.check(S(ilo, ilo - 1) == T(0), w + "/coupling", "A(ilo,ilo-1) filled");
    if (ihi > 0 && ihi < n) c.check(S(ihi, ihi - 1) == T(0), w + "/coupling", "A(ihi,ihi-1) filled");
    size_t k = ihi - ilo;
    // every accepted swap of diagonal blocks may contribute its own backward error
    double kk = 2.0 * k + 6;
    if (aed) {
        size_t jw = std::min(std::min(nw, k), (n - 3) / 3);
        kk += 4.0 * std::min<size_t>(jw * jw, 100);
        c.check(ls + ld <= jw, w + "/counts", "ns ", ls, " nd ", ld, " window ", jw);
        c.check(ls + ld == jw || mayStall(ka, kb), w + "/counts", "ns ", ls, " nd ", ld, " do not cover the window ", jw);
        if (ld > 0) c.label("deflated some");
        if (ld > 0 && ld < jw) c.label("deflated part of the window");
        if (jw >= std::max<size_t>(15, o.nmin)) c.label("recursive window");
        for (size_t i = 0; i < n; ++i) if (i + jw < ihi || i >= ihi) c.check(same(ga[i], nanT<CT>()) && same(gb[i], nanT<T>()), w + "/alpha-outside", "pair ", i, " written");
        for (size_t i = ihi - ls - ld; i < ihi; ++i) c.check(isfin(ga[i]) && isfin(gb[i]), w + "/alpha-not-set", "pair ", i);
        size_t d0 = ihi - ld;
        if (ld > 0) {
            if (d0 > ilo) c.check(S(d0, d0 - 1) == T(0), w + "/deflated-coupling", "entry (", d0, ",", d0 - 1, ") = ", S(d0, d0 - 1));
            checkForm(c, w + "/deflated", S, P, ga.get(), gb.get(), d0, ihi);
        }
    }
    if (ws) {
        checkPair(c, w, A0, B0, S, P, wq, wz, Q0, GQ.get(), Z0, GZ.get(), kk);
        return;
    }
    Dense<T> q = GQ.get(), z = GZ.get();
    auto cut = [&](const Dense<T>& M) { return blockOf(M, ilo, ihi, ilo, ihi); };
    checkPair(c, w + "/block", cut(A0), cut(B0), cut(S), cut(P), wq, wz, cut(Q0), cut(q), cut(Z0), cut(z), kk);
}
static const char* RULE = "active block of order at least 3 and A not zero";
static pbt::Reg b1("step/float/Col", 5000, 150000, tStep<F, LC>, RULE);
static pbt::Reg b2("step/double/Row", 5000, 150000, tStep<D, LR>, RULE);
static pbt::Reg b3("step/cfloat/Row", 5000, 150000, tStep<CF, LR>, RULE);
static pbt::Reg b4("step/cdouble/Col", 5000, 150000, tStep<CD, LC>, RULE);
