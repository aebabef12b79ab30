#include "schur.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
using namespace tlapack;
// A0: Hessenberg in [ilo,ihi), (quasi-)triangular outside, full above
template <class T> void genActive(Case& c, size_t n, Dense<T>& A, size_t& ilo, size_t& ihi, std::string& kind)
{
    A = Dense<T>(n, n);
    ilo = 0, ihi = n;
    if (n && c.chance(1, 3)) {
        ilo = (size_t)c.range(0, (int64_t)n);
        ihi = (size_t)c.range((int64_t)ilo, (int64_t)n);
    }
    bool ints = c.chance(1, 4);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) if (i < ilo || j >= ihi) A(i, j) = ints ? smallInt<T>(c, 3) : uni<T>(c);
    fillSchur(c, A, 0, ilo, ints);
    fillSchur(c, A, ihi, n, ints);
    genHess(c, A, ilo, ihi, kind);
    if (c.chance(1, 5)) {
        int sc = (int)c.range(-1, 1) * (sizeof(real_t<T>) == 4 ? 30 : 300);
        for (auto& x : A.a) x = scaleP2(x, sc);
    }
}
template <class T, class V>
void checkEigs(Case& c, const std::string& w, const Dense<T>& A0, size_t ilo, size_t ihi, const V& ev, size_t from = 0)
{
    using CW2 = std::complex<real_t<wide<T>>>;
    size_t k = ihi - ilo;
    if (k == 0) return;
    Dense<CW2> H = widenM<CW2>(blockOf(A0, ilo, ihi, ilo, ihi));
    double nf = normF(H), e = eps<T>(), tiny = tinyOf<T>();
    CW2 tr = 0, t2 = 0, str = 0, st2 = 0;
    for (size_t i = 0; i < k; ++i) {
        if (ilo + i < from) continue;
        c.check(isfin(ev[ilo + i]), w + "/eigenvalue-not-finite", "w[", ilo + i, "]");
        CW2 z = widen<CW2>(ev[ilo + i]);
        str += z, st2 += z * z;
        tr += H(i, i);
        for (size_t j = 0; j < k; ++j) t2 += H(i, j) * H(j, i);
    }
    if (from == 0) c.ratio(w + "/trace", mag(str - tr), (40 + 8.0 * k) * e * (nf + tiny) * std::sqrt((double)k + 1));
    if (from == 0 && nf < 1e15 && nf > 1e-15) c.ratio(w + "/trace-square", mag(st2 - t2), 2 * (40 + 8.0 * k) * e * (nf + tiny) * (nf + tiny));
    for (size_t i = 0; i < k; ++i) {
        if (ilo + i < from) continue;
        if (k > 8 && !c.chance(4, (uint64_t)k)) continue;
        Dense<CW2> M = H;
        for (size_t j = 0; j < k; ++j) M(j, j) -= widen<CW2>(ev[ilo + i]);
        c.ratio(w + "/eigenvalue-backward-error", sigmaMin(M, nf + tiny), (40 + 8.0 * k) * e * (nf + tiny));
    }
    if constexpr (!cplx<T>)
        for (size_t i = std::max(ilo, from); i < ihi; ++i)
            if (im(ev[i]) != 0) {
                c.check(i + 1 < ihi && re(ev[i]) == re(ev[i + 1]) && im(ev[i]) == -im(ev[i + 1]), w + "/conjugate-pair", "w[", i, "] has no adjacent conjugate");
                ++i;
            }
}
// exactly defective or highly structured matrices may stall the shift strategy: failure must then be reported
static bool mayStall(const std::string& kind)
{
    return kind != "uniform" && kind != "graded rows" && kind != "small subdiagonals" && kind != "nearly triangular" && kind != "zero subdiagonals";
}
template <class T, Layout L> void tDriver(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    int variant = (int)c.draw(7);
    const char* names[] = {"lahqr", "multishift_qr", "multishift_qr_work", "qr_iteration-multi", "qr_iteration_work-multi", "qr_iteration-double", "qr_iteration_work-double"};
    std::string w = names[variant];
    bool multi = variant >= 1 && variant <= 4;
    size_t n = multi ? (c.chance(1, 40) ? (size_t)c.range(60, 110) : c.chance(1, 2) ? (size_t)c.range(15, 45) : (size_t)c.size(0, 20)) : dimF(c);
    std::string kind;
    Dense<T> A0;
    size_t ilo, ihi;
    genActive(c, n, A0, ilo, ihi, kind);
    bool wt = !c.chance(1, 3), wz = !c.chance(1, 4);
    QRIterationOpts o;
    bool defopt = c.chance(1, 4);
    if (!defopt) {
        size_t ns = (size_t)c.pick<int>({2, 4, 6, 8, 10, 3, 1}), nw = (size_t)c.pick<int>({2, 3, 4, 5, 6, 8, 10, 12, 1});
        o.nshift_recommender = [ns](size_t, size_t) { return ns; };
        o.deflation_window_recommender = [nw](size_t, size_t) { return nw; };
        o.nmin = (size_t)c.pick<int>({15, 15, 16, 20, 30, 75, 12, 3, 0});
        o.nibble = (size_t)c.pick<int>({14, 0, 100, 1000, 50});
        c.desc("ns", ns, "nw", nw, "nmin", o.nmin, "nibble", o.nibble);
    }
    bool degenerate = mayStall(kind);
    o.variant = variant >= 5 ? QRIterationVariant::DoubleShift : QRIterationVariant::MultiShift;
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "T", wt, "Z", wz, kind);
    c.label(w), c.label(kind), c.label(wt ? "schur form" : "eigenvalues only");
    if (multi && n >= o.nmin && n >= 15) c.label("multishift on " + std::string(defopt ? "default" : "chosen") + " options");
    c.nontrivial(ihi - ilo >= 3 && normMax(A0) > 0);
    GMat<T, L> GA(c, n, n), GZ(c, n, n);
    GA.set(A0);
    Dense<T> Z0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
    if (!wz) GZ.fill(nanT<T>());
    else GZ.set(Z0);
    GZ.snapshot(), GA.snapshot();
    GVec<CT> gw(c, n);
    for (size_t i = 0; i < n; ++i) gw[i] = nanT<CT>();
    gw.snapshot();
    auto A = GA.view(), Z = GZ.view();
    auto ev = gw.view();
    int info = 0;
    try {
        switch (variant) {
            case 0: info = lahqr(wt, wz, ilo, ihi, A, ev, Z); break;
            case 1: info = multishift_qr(wt, wz, ilo, ihi, A, ev, Z, o); break;
            case 3:
            case 5: info = qr_iteration(wt, wz, ilo, ihi, A, ev, Z, o); break;
            case 2: {
                Dirty<T> d(c, multishift_qr_worksize<T>(wt, wz, ilo, ihi, A, ev, Z, o));
                auto wk = d.view();
                info = multishift_qr_work(wt, wz, ilo, ihi, A, ev, Z, wk, o);
                d.done(c, w);
                break;
            }
            default: {
                Dirty<T> d(c, qr_iteration_worksize<T>(wt, wz, ilo, ihi, A, ev, Z, o));
                auto wk = d.view();
                info = qr_iteration_work(wt, wz, ilo, ihi, A, ev, Z, wk, o);
                d.done(c, w);
            }
        }
    }
    catch (std::runtime_error& x) {
        c.check(degenerate, w + "/no-convergence", "reported failure: ", x.what());
        c.label("reported failure");
        return;
    }
    if (info != 0) {
        // elements info:ihi of w have been computed
        c.check(degenerate, w + "/no-convergence", "returned ", info);
        c.label("reported failure");
        c.check(info > 0 && (size_t)info > ilo && (size_t)info <= ihi, w + "/info", "returned ", info);
        auto evv = gw.get();
        checkEigs(c, w + "/partial", A0, ilo, ihi, evv, (size_t)info);
        return;
    }
    GA.margins(c, w + "/A"), GZ.margins(c, w + "/Z"), gw.margins(c, w + "/w");
    if (!wz) GZ.unchanged(c, w + "/Z");
    for (size_t i = 0; i < n; ++i) if (i < ilo || i >= ihi) c.check(same(gw[i], nanT<CT>()), w + "/w-outside", "w[", i, "] written");
    auto evv = gw.get();
    checkEigs(c, w, A0, ilo, ihi, evv);
    bool junk = multi;
    if (!wt) {
        if (!junk) GA.onlyChanged(c, w + "/outside", [&](size_t i, size_t j) { return i >= ilo && i < ihi && j >= ilo && j < ihi; });
        else GA.onlyChanged(c, w + "/outside", [&](size_t i, size_t j) { return i > j + 1 || (i >= ilo && i < ihi && j >= ilo && j < ihi); });
        if (wz) c.ratio(w + "/orthogonality", orthErr(GZ.template getW<W>()), (60 + 12.0 * (ihi - ilo)) * eps<T>() + orthErr(widenM<W>(Z0)) * 2);
        return;
    }
    GA.onlyChanged(c, w + "/outside", [&](size_t i, size_t j) {
        if (junk && i > j + 1) return true;
        bool ri = i >= ilo && i < ihi, cj2 = j >= ilo && j < ihi;
        return (ri && j >= ilo) || (cj2 && i < ihi);
    });
    Dense<T> S = GA.get();
    if (junk) for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) S(i, j) = T(0);
    checkSchur(c, w, S, evv, ilo, ihi);
    if (ilo > 0 && ilo < n) c.check(S(ilo, ilo - 1) == T(0), w + "/coupling", "A(ilo,ilo-1) filled");
    if (ihi > 0 && ihi < n) c.check(S(ihi, ihi - 1) == T(0), w + "/coupling", "A(ihi,ihi-1) filled");
    if (!wz) return;
    double e = eps<T>();
    Dense<W> Zw = GZ.template getW<W>(), Zi = widenM<W>(Z0);
    double o0 = orthErr(Zi);
    for (size_t j = 0; j < n; ++j) if (j < ilo || j >= ihi) for (size_t i = 0; i < n; ++i) c.check(same(GZ(i, j), Z0(i, j)), w + "/Z-outside", "column ", j, " of Z changed");
    c.ratio(w + "/orthogonality", orthErr(Zw), (60 + 12.0 * (ihi - ilo)) * e + 2 * o0);
    Dense<W> U = mul(ct(Zi), Zw), Aw = widenM<W>(A0);
    Dense<W> Rs = sub(mul(mul(U, widenM<W>(S)), ct(U)), Aw);
    c.ratio(w + "/residual", normF(Rs), ((40 + 8.0 * (ihi - ilo)) * e + 4 * o0) * (normF(Aw) + tinyOf<T>()));
}
static const char* RULE = "active block of order at least 3 and the matrix not zero";
static pbt::Reg a1("schur/float/Row", 8000, 240000, tDriver<F, LR>, RULE);
static pbt::Reg a2("schur/double/Col", 8000, 240000, tDriver<D, LC>, RULE);
static pbt::Reg a3("schur/cfloat/Col", 8000, 240000, tDriver<CF, LC>, RULE);
static pbt::Reg a4("schur/cdouble/Row", 8000, 240000, tDriver<CD, LR>, RULE);
// one sweep with given shifts, one deflation pass
template <class T, Layout L> void tStep(Case& c)
{
    using W = wide<T>;
    using CT = cplxOf<T>;
    bool aed = c.coin(), wk = c.coin();
    size_t n = (size_t)c.range(aed ? 6 : 12, c.chance(1, 5) ? 60 : 24);
    std::string kind;
    Dense<T> A0;
    size_t ilo, ihi;
    genActive(c, n, A0, ilo, ihi, kind);
    bool wt = !c.chance(1, 4), wz = !c.chance(1, 6);
    std::string w = std::string(aed ? "aggressive_early_deflation" : "multishift_QR_sweep") + (wk ? "_work" : "");
    size_t nw = (size_t)c.range(1, (int64_t)n), nsh = 2 * (size_t)c.range(1, 6);
    FrancisOpts o;
    if (c.coin()) o.nmin = (size_t)c.pick<int>({15, 16, 20});
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "T", wt, "Z", wz, kind, "nw", nw, "shifts", nsh);
    c.label(w), c.label(kind);
    if (aed && ihi == ilo) throw pbt::Discard();
    c.nontrivial(ihi - ilo >= 3 && normMax(A0) > 0);
    GMat<T, L> GA(c, n, n), GZ(c, n, n);
    GA.set(A0);
    Dense<T> Z0 = eye<T>(n);
    if (!wz) GZ.fill(nanT<T>());
    else GZ.set(Z0);
    GZ.snapshot(), GA.snapshot();
    auto A = GA.view(), Z = GZ.view();
    double e = eps<T>();
    size_t ls = 99999, ld = 99999;
    GVec<CT> gw(c, aed ? n : nsh);
    double sc = normMax(A0);
    for (size_t i = 0; i < gw.n; ++i) gw[i] = nanT<CT>();
    if (!aed) {
        int how = (int)c.draw(4);
        for (size_t i = 0; i < nsh; i += 2) {
            if (cplx<T>) gw[i] = uni<CT>(c) * CT(sc), gw[i + 1] = how == 1 ? gw[i] : uni<CT>(c) * CT(sc);
            else if (how == 0) gw[i] = uni<CT>(c) * CT(sc), gw[i + 1] = std::conj(gw[i]);
            else gw[i] = CT(uni<real_t<T>>(c)) * CT(sc), gw[i + 1] = how == 1 ? gw[i] : CT(uni<real_t<T>>(c)) * CT(sc);
            if (how == 3 && ihi > ilo) gw[i] = gw[i + 1] = widen<CT>(A0((size_t)c.range((int64_t)ilo, (int64_t)ihi - 1), (size_t)c.range((int64_t)ilo, (int64_t)ihi - 1)));
            if (!cplx<T> && im(gw[i]) != 0) gw[i + 1] = std::conj(gw[i]);
        }
    }
    gw.snapshot();
    auto ev = gw.view();
    if (aed) {
        try {
            if (wk) {
                Dirty<T> d(c, aggressive_early_deflation_worksize<T>(wt, wz, ilo, ihi, nw, A, ev, Z, ls, ld, o));
                auto k = d.view();
                aggressive_early_deflation_work(wt, wz, ilo, ihi, nw, A, ev, Z, ls, ld, k, o);
                d.done(c, w);
            }
            else aggressive_early_deflation(wt, wz, ilo, ihi, nw, A, ev, Z, ls, ld, o);
        }
        catch (std::runtime_error& x) {
            c.check(mayStall(kind), w + "/no-convergence", "reported failure: ", x.what());
            c.label("reported failure");
            return;
        }
    }
    else if (wk) {
        Dirty<T> d(c, multishift_QR_sweep_worksize<T>(wt, wz, ilo, ihi, A, ev, Z));
        auto k = d.view();
        multishift_QR_sweep_work(wt, wz, ilo, ihi, A, ev, Z, k);
        d.done(c, w);
    }
    else multishift_QR_sweep(wt, wz, ilo, ihi, A, ev, Z);
    GA.margins(c, w + "/A"), GZ.margins(c, w + "/Z"), gw.margins(c, w + "/w");
    if (!wz) GZ.unchanged(c, w + "/Z");
    if (!aed) gw.unchanged(c, w + "/shifts");
    GA.onlyChanged(c, w + "/outside", [&](size_t i, size_t j) {
        if (i > j + 1) return true;
        bool ri = i >= ilo && i < ihi, cj2 = j >= ilo && j < ihi;
        return wt ? (ri && j >= ilo) || (cj2 && i < ihi) : ri && cj2;
    });
    Dense<T> S = GA.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 2; i < n; ++i) S(i, j) = T(0);
    if (ilo > 0 && ilo < n) c.check(S(ilo, ilo - 1) == T(0), w + "/coupling", "A(ilo,ilo-1) filled");
    if (ihi > 0 && ihi < n) c.check(S(ihi, ihi - 1) == T(0), w + "/coupling", "A(ihi,ihi-1) filled");
    size_t k = ihi - ilo;
    if (aed) {
        size_t jw = std::min(std::min(nw, k), (n - 3) / 3);
        c.check(ls + ld <= jw, w + "/counts", "ns ", ls, " nd ", ld, " window ", jw);
        c.check(ls + ld == jw || mayStall(kind), w + "/counts", "ns ", ls, " nd ", ld, " do not cover the window ", jw);
        if (ld > 0) c.label("deflated some");
        if (ld > 0 && ld < jw) c.label("deflated part of the window");
        for (size_t i = 0; i < n; ++i) if (i + jw < ihi || i >= ihi) c.check(same(gw[i], nanT<CT>()), w + "/s-outside", "s[", i, "] written");
        for (size_t i = ihi - ls - ld; i < ihi; ++i) c.check(isfin(gw[i]), w + "/s-not-set", "s[", i, "]");
        auto evv = gw.get();
        size_t d0 = ihi - ld;
        if (ld > 0) {
            if (d0 > ilo) c.check(S(d0, d0 - 1) == T(0), w + "/deflated-coupling", "entry (", d0, ",", d0 - 1, ") = ", S(d0, d0 - 1));
            checkSchur(c, w + "/deflated", S, evv, d0, ihi);
        }
    }
    if (!wz) return;
    for (size_t j = 0; j < n; ++j) if (j < ilo || j >= ihi) for (size_t i = 0; i < n; ++i) c.check(same(GZ(i, j), Z0(i, j)), w + "/Z-outside", "column ", j, " of Z changed");
    Dense<W> Zw = GZ.template getW<W>(), Aw = widenM<W>(A0), Sw = widenM<W>(S);
    c.ratio(w + "/orthogonality", orthErr(Zw), (60 + 6.0 * k) * e);
    if (!wt) {  // only the active block is transformed
        Zw = blockOf(Zw, ilo, ihi, ilo, ihi), Aw = blockOf(Aw, ilo, ihi, ilo, ihi), Sw = blockOf(Sw, ilo, ihi, ilo, ihi);
    }
    c.ratio(w + "/residual", normF(sub(mul(mul(Zw, Sw), ct(Zw)), Aw)), (40 + 4.0 * k) * e * (normF(Aw) + 4.0 * n * tinyOf<T>()));
}
static pbt::Reg b1("step/float/Col", 6000, 180000, tStep<F, LC>, RULE);
static pbt::Reg b2("step/double/Row", 6000, 180000, tStep<D, LR>, RULE);
static pbt::Reg b3("step/cfloat/Row", 6000, 180000, tStep<CF, LR>, RULE);
static pbt::Reg b4("step/cdouble/Col", 6000, 180000, tStep<CD, LC>, RULE);
