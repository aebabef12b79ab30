// flags: -DTLAPACK_CHECK_INPUT
#include "blasref.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larft.hpp"
using tlapack::StoreV;
using CWL = std::complex<long double>;
// I - tau v v^H applied one at a time: reference operator of order n for reflectors given as explicit columns
template <class W> Dense<W> reflector(const std::vector<W>& v, W tau)
{
    size_t n = v.size();
    Dense<W> H = eye<W>(n);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < n; ++i) H(i, j) -= tau * v[i] * std::conj(v[j]);
    return H;
}
// tau making I - tau v v^H unitary for the given v (random unitary phase for complex types)
template <class T> T unitaryTau(Case& c, const std::vector<T>& v)
{
    long double s = 0;
    for (auto& x : v) s += (long double)re(x) * re(x) + (long double)im(x) * im(x);
    // |tau|^2 s = 2 Re tau  with tau = t e^{i p}: t = 2 cos p / s
    double p = cplx<T> ? (unit01<double>(c) - 0.5) * 3 : 0;
    long double t = 2 * std::cos((long double)p) / s;
    return mk<T>(real_t<T>(t * std::cos((long double)p)), real_t<T>(t * std::sin((long double)p)));
}
template <class W> double limExact() { return 0; }
template <class T> double exactLimit() { return sizeof(real_t<T>) == 4 ? double(1 << 22) : 1e15; }
// ---- one reflector
template <class T, Layout L> void tLarf(Case& c)
{
    Side side = genSide(c);
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    Direction dir = c.pick({Direction::Forward, Direction::Backward});
    bool split = c.coin(), exact = c.coin(), work = c.coin();
    size_t m = dim(c), n = dim(c);
    size_t& q = side == Side::Left ? m : n;
    if (split && q == 0) q = 1;
    size_t ord = q, p = side == Side::Left ? n : m;
    if (split) dir = Direction::Forward;
    size_t i1 = dir == Direction::Forward ? 0 : (ord ? ord - 1 : 0);
    std::vector<T> v(ord);
    for (auto& x : v) x = exact ? smallInt<T>(c, 2) : uni<T>(c);
    std::vector<T> ve = v;
    if (ord) ve[i1] = T(1);
    T tau = exact ? smallInt<T>(c, 2) : unitaryTau(c, ve);
    if (c.chance(1, 10)) tau = T(0);
    Dense<T> C0 = exact ? intMat<T>(c, m, n) : genMat<T>(c, m, n);
    std::string w = std::string("larf") + (split ? "-split " : " ") + nm(side) + (st == StoreV::Columnwise ? " Col" : " Row") + (dir == Direction::Forward ? " F" : " B");
    c.desc(w, work ? "work" : "", "m", m, "n", n, exact ? "exact" : "float");
    c.label(w);
    c.nontrivial(ord >= 2 && p >= 1 && tau != T(0));
    // Columnwise: H = I - tau v v^H; Rowwise: the stored vector is v^H
    std::vector<CWL> vw(ord);
    for (size_t i = 0; i < ord; ++i) { vw[i] = widen<CWL>(ve[i]); if (st == StoreV::Rowwise) vw[i] = std::conj(vw[i]); }
    Dense<CWL> H = reflector(vw, widen<CWL>(tau)), Cw = widenM<CWL>(C0);
    Dense<CWL> want = side == Side::Left ? mul(H, Cw) : mul(Cw, H);
    Dense<T> got(m, n);
    if (!split) {
        GVec<T> x(c, ord);
        for (size_t i = 0; i < ord; ++i) x[i] = v[i];
        if (ord) x[i1] = nanT<T>();  // the unit entry is not stored
        GMat<T, L> C(c, m, n);
        C.set(C0);
        x.snapshot();
        auto X = x.view();
        auto Cv = C.view();
        if (!work) tlapack::larf(side, dir, st, X, tau, Cv);
        else {
            tlapack::WorkInfo wi = tlapack::larf_worksize<T>(side, dir, st, X, tau, Cv);
            GVec<T> wk(c, wi.size(), true);
            for (size_t i = 0; i < wi.size(); ++i) wk[i] = nanT<T>();
            auto W = wk.view();
            tlapack::larf_work(side, dir, st, X, tau, Cv, W);
            wk.margins(c, w + "/work");
        }
        x.unchanged(c, w + "/v"), C.margins(c, w);
        got = C.get();
    }
    else {
        GVec<T> x(c, ord - 1), c0(c, p);
        size_t m1 = side == Side::Left ? m - 1 : m, n1 = side == Side::Left ? n : n - 1;
        GMat<T, L> C1(c, m1, n1);
        for (size_t i = 1; i < ord; ++i) x[i - 1] = v[i];
        for (size_t i = 0; i < p; ++i) c0[i] = side == Side::Left ? C0(0, i) : C0(i, 0);
        for (size_t j = 0; j < n1; ++j) for (size_t i = 0; i < m1; ++i) C1(i, j) = side == Side::Left ? C0(i + 1, j) : C0(i, j + 1);
        x.snapshot();
        auto X = x.view(), Y = c0.view();
        auto Cv = C1.view();
        if (!work) tlapack::larf(side, st, X, tau, Y, Cv);
        else {
            tlapack::WorkInfo wi = tlapack::larf_worksize<T>(side, st, X, tau, Y, Cv);
            GVec<T> wk(c, wi.size(), true);
            for (size_t i = 0; i < wi.size(); ++i) wk[i] = nanT<T>();
            auto W = wk.view();
            tlapack::larf_work(side, st, X, tau, Y, Cv, W);
            wk.margins(c, w + "/work");
        }
        x.unchanged(c, w + "/x"), c0.margins(c, w + "/C0"), C1.margins(c, w + "/C1");
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i)
            got(i, j) = side == Side::Left ? (i == 0 ? c0[j] : C1(i - 1, j)) : (j == 0 ? c0[i] : C1(i, j - 1));
    }
    if (exact) expectEqual(c, w, got, want);
    else c.ratio(w, normF(sub(widenM<CWL>(got), want)), (8 + 2.0 * ord) * eps<T>() * normF(Cw) + std::numeric_limits<double>::min());
}
// ---- block of reflectors
template <class T, Layout L, Layout LV> void tBlock(Case& c)
{
    Side side = genSide(c);
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    Direction dir = c.pick({Direction::Forward, Direction::Backward});
    Op trans = cplx<T> ? c.pick({Op::NoTrans, Op::ConjTrans}) : c.pick({Op::NoTrans, Op::ConjTrans, Op::Trans});
    bool exact = c.coin(), work = c.coin();
    size_t ord = exact ? (size_t)c.size(1, 7) : (size_t)c.size(1, 40), p = dim(c);
    size_t k = exact ? (size_t)c.range(0, (int64_t)std::min<size_t>(ord, 4)) : (size_t)c.range(0, (int64_t)std::min<size_t>(ord, 20));
    size_t m = side == Side::Left ? ord : p, n = side == Side::Left ? p : ord;
    // k explicit reflector vectors with unit entries in place
    std::vector<std::vector<CWL>> vs(k, std::vector<CWL>(ord, CWL(0)));
    std::vector<T> tau(k);
    GMat<T, LV> V(c, st == StoreV::Columnwise ? ord : k, st == StoreV::Columnwise ? k : ord);
    V.fill(c.coin() ? nanT<T>() : mk<T>(real_t<T>(91), real_t<T>(17)));
    for (size_t q = 0; q < k; ++q) {
        size_t iu = dir == Direction::Forward ? q : ord - k + q;
        size_t lo = dir == Direction::Forward ? iu + 1 : 0, hi = dir == Direction::Forward ? ord : iu;
        std::vector<T> e(ord, T(0));
        e[iu] = T(1);
        for (size_t i = lo; i < hi; ++i) {
            e[i] = exact ? smallInt<T>(c, 1) : uni<T>(c);
            if (st == StoreV::Columnwise) V(i, q) = e[i];
            else V(q, i) = e[i];
        }
        tau[q] = exact ? smallInt<T>(c, 1) : unitaryTau(c, e);
        if (c.chance(1, 12)) tau[q] = T(0);
        for (size_t i = 0; i < ord; ++i) vs[q][i] = st == StoreV::Columnwise ? widen<CWL>(e[i]) : std::conj(widen<CWL>(e[i]));
    }
    Dense<T> C0 = exact ? intMat<T>(c, m, n) : genMat<T>(c, m, n);
    std::string fl = std::string(nm(side)) + " " + nm(trans) + (st == StoreV::Columnwise ? " Col" : " Row") + (dir == Direction::Forward ? " F" : " B");
    c.desc("larft+larfb", fl, work ? "work" : "", "m", m, "n", n, "k", k, exact ? "exact" : "float");
    c.label("block " + fl);
    c.nontrivial(k >= 2 && p >= 1);
    // H = H1 H2 ... Hk (Forward), Hk ... H1 (Backward)
    Dense<CWL> H = eye<CWL>(ord);
    double big = 0;
    for (size_t q = 0; q < k; ++q) {
        Dense<CWL> Hq = reflector(vs[q], widen<CWL>(tau[q]));
        H = dir == Direction::Forward ? mul(H, Hq) : mul(Hq, H);
        big = std::max(big, normMax(H));
    }
    // triangular factor
    GMat<T, L> Tm(c, k, k);
    T junk = c.coin() ? nanT<T>() : mk<T>(real_t<T>(33), real_t<T>(-9));
    Tm.fill(junk);
    Tm.snapshot(), V.snapshot();
    GVec<T> tv(c, k);
    tv.set(tau), tv.snapshot();
    auto Vv = V.view();
    auto Tv = Tm.view();
    auto tt = tv.view();
    tlapack::larft(dir, st, Vv, tt, Tv);
    V.unchanged(c, "larft/V"), tv.unchanged(c, "larft/tau");
    Uplo tu = dir == Direction::Forward ? Uplo::Upper : Uplo::Lower;
    Tm.onlyChanged(c, "larft/T", [&](size_t i, size_t j) { return inTri(tu, i, j); });
    for (size_t q = 0; q < k; ++q) c.check(same(Tm(q, q), tau[q]), "larft/diagonal", q);
    // H = I - V T V^H
    Dense<CWL> Vw(ord, k), Tw = triOf(tu, Diag::NonUnit, Tm.template getW<CWL>());
    for (size_t q = 0; q < k; ++q) for (size_t i = 0; i < ord; ++i) Vw(i, q) = vs[q][i];
    Dense<CWL> HT = sub(eye<CWL>(ord), mul(mul(Vw, Tw), ct(Vw)));
    double nv = normF(Vw);
    // every intermediate is bounded by these
    double bound = (1 + normMax(Tw)) * (1 + big) * (double)(ord * ord * (k + 1)) * 16;
    bool ex = exact && bound < exactLimit<T>();
    if (ex) c.label("block exact compared");
    std::string wt = std::string("larft") + (st == StoreV::Columnwise ? " Col" : " Row") + (dir == Direction::Forward ? " F" : " B");
    if (ex) expectEqual(c, wt, HT, H);
    else if (!exact) c.ratio(wt, normF(sub(HT, H)), 8 * eps<T>() * (double)(ord + k + 4) * std::sqrt((double)ord));
    // application
    GMat<T, L> C(c, m, n);
    C.set(C0);
    Tm.snapshot();
    auto Cv = C.view();
    if (!work) tlapack::larfb(side, trans, dir, st, Vv, Tv, Cv);
    else {
        tlapack::WorkInfo wi = tlapack::larfb_worksize<T>(side, trans, dir, st, Vv, Tv, Cv);
        GVec<T> wk(c, wi.size(), true);
        for (size_t i = 0; i < wi.size(); ++i) wk[i] = nanT<T>();
        tlapack::LegacyMatrix<T, size_t, Layout::ColMajor> W(wi.m, wi.n, wk.buf.data() + wk.off, wi.m ? wi.m : 1);
        tlapack::larfb_work(side, trans, dir, st, Vv, Tv, Cv, W);
        wk.margins(c, "larfb/work");
    }
    V.unchanged(c, "larfb/V"), Tm.unchanged(c, "larfb/T"), C.margins(c, "larfb/C");
    Dense<CWL> Ho = opM(trans, HT), Cw = widenM<CWL>(C0);
    Dense<CWL> want = side == Side::Left ? mul(Ho, Cw) : mul(Cw, Ho);
    if (ex) expectEqual(c, "larfb " + fl, C.get(), want);
    else if (!exact) c.ratio("larfb " + fl, normF(sub(C.template getW<CWL>(), want)), 8 * eps<T>() * (double)(ord + k + 4) * (1 + nv * nv * normF(Tw)) * normF(Cw) + std::numeric_limits<double>::min());
}
static const char* RULE = "reflector of order at least 2 (block of at least 2 reflectors) applied to a non-empty matrix";
static pbt::Reg a1("larf/double/Col", 12000, 250000, tLarf<D, LC>, RULE);
static pbt::Reg a2("larf/cdouble/Row", 12000, 250000, tLarf<CD, LR>, RULE);
static pbt::Reg a3("larf/float/Row", 12000, 250000, tLarf<F, LR>, RULE);
static pbt::Reg a4("larf/cfloat/Col", 12000, 250000, tLarf<CF, LC>, RULE);
static pbt::Reg b1("block/double/ColCol", 8000, 150000, tBlock<D, LC, LC>, RULE);
static pbt::Reg b2("block/cdouble/ColRow", 8000, 150000, tBlock<CD, LC, LR>, RULE);
static pbt::Reg b3("block/float/RowCol", 8000, 150000, tBlock<F, LR, LC>, RULE);
static pbt::Reg b4("block/cfloat/RowRow", 8000, 150000, tBlock<CF, LR, LR>, RULE);
