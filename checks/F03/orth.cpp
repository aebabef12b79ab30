#include "fact.hpp"
#include "tlapack/lapack/gen_householder_q.hpp"
#include "tlapack/lapack/householder_q_mul.hpp"
#include "tlapack/lapack/larfg.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/unglq.hpp"
#include "tlapack/lapack/ungql.hpp"
#include "tlapack/lapack/ungqr.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/ungrq.hpp"
#include "tlapack/lapack/unm2l.hpp"
#include "tlapack/lapack/unm2r.hpp"
#include "tlapack/lapack/unml2.hpp"
#include "tlapack/lapack/unmlq.hpp"
#include "tlapack/lapack/unmql.hpp"
#include "tlapack/lapack/unmqr.hpp"
#include "tlapack/lapack/unmr2.hpp"
#include "tlapack/lapack/unmrq.hpp"
#include "tlapack/lapack/trge_ung2r.hpp"
using namespace tlapack;
#define DISPATCH(QRX, LQX, QLX, RQX) (f == QR ? QRX : f == LQ ? LQX : f == QL ? QLX : RQX)
// scalar factor making I - tau v v^H unitary (random phase for complex types)
template <class T> T unitaryTau(Case& c, long double s)
{
    double p = cplx<T> ? (unit01<double>(c) - 0.5) * 3 : 0;
    long double t = 2 * std::cos((long double)p) / s;
    return mk<T>(real_t<T>(t * std::cos((long double)p)), real_t<T>(t * std::sin((long double)p)));
}
// random reflectors in the documented storage of factorization f, inside an m by n matrix (the rest is junk)
template <class T> void randomRefl(Case& c, Fam f, Dense<T>& A, std::vector<T>& tau, size_t ord)
{
    size_t k = tau.size(), m = A.m, n = A.n;
    int style = (int)c.draw(3);
    for (size_t i = 0; i < k; ++i) {
        size_t u = fwd(f) ? i : ord - k + i, lo = fwd(f) ? u + 1 : 0, hi = fwd(f) ? ord : u;
        long double s = 1;
        bool zero = c.chance(1, 10);
        for (size_t l = lo; l < hi; ++l) {
            T x = zero ? T(0) : style == 1 ? smallInt<T>(c, 1) : uni<T>(c);
            s += (long double)mag(x) * mag(x);
            if (f == QR) A(l, i) = x;
            if (f == LQ) A(i, l) = x;
            if (f == QL) A(l, n - k + i) = x;
            if (f == RQ) A(m - k + i, l) = x;
        }
        tau[i] = c.chance(1, 10) ? T(0) : unitaryTau<T>(c, s);
    }
}
template <class T, Layout L> void tGen(Case& c)
{
    using W = wide<T>;
    Fam f = c.pick({QR, LQ, QL, RQ});
    size_t ord = dimF(c), p = (size_t)c.range(0, (int64_t)ord), k = c.coin() ? p : (size_t)c.range(0, (int64_t)p);
    size_t m = colwise(f) ? ord : p, n = colwise(f) ? p : ord, nb = genNb(c);
    int variant = (int)c.draw(8);
    const char* names[] = {"ung2x", "ung2x_work", "ungxx", "ungq", "ungq_work", "ungq_level2", "ungq_level2_work", "gen_householder_q"};
    std::string w = std::string(nm(f)) + "/" + names[variant];
    bool hb = c.coin(), hw = c.coin();
    c.desc(w, "m", m, "n", n, "k", k, "nb", nb, hb ? "b" : "2", hw ? "w" : "");
    c.label(w);
    if (k < p) c.label("more columns than reflectors");
    c.nontrivial(k >= 1 && p >= 2);
    Dense<T> A0(m, n, c.coin() ? nanT<T>() : T(real_t<T>(77)));
    std::vector<T> tau(k);
    randomRefl(c, f, A0, tau, ord);
    // Q of the factorization; its leading / trailing p columns or rows
    Dense<T> V = colwise(f) ? (fwd(f) ? blockOf(A0, 0, m, 0, k) : blockOf(A0, 0, m, n - k, n)) : (fwd(f) ? blockOf(A0, 0, k, 0, n) : blockOf(A0, m - k, m, 0, n));
    Refl<W> r = reflOf<W>(f, V, tau);
    Dense<W> E(ord, p);
    for (size_t j = 0; j < p; ++j) E(fwd(f) ? j : ord - p + j, j) = W(1);
    Dense<W> want;
    if (colwise(f)) want = E, r.left(false, want);
    else want = ct(E), r.right(false, want);
    GMat<T, L> G(c, m, n);
    G.set(A0);
    GVec<T> tv(c, k);
    tv.set(tau);
    tv.snapshot();
    auto A = G.view();
    auto t = tv.view();
    Direction d = dirOf(f);
    StoreV st = storeOf(f);
    int info = 0;
    auto withWork = [&](WorkInfo wi, auto&& call) {
        Dirty<T> dw(c, wi);
        auto wk = dw.view();
        info = call(wk);
        dw.done(c, w);
    };
    UngqOpts uo;
    uo.nb = nb;
    GenHouseholderQOpts go;
    go.nb = nb;
    go.variant = hb ? GenHouseholderQVariant::Blocked : GenHouseholderQVariant::Level2;
    UngqrOpts o1; UnglqOpts o2; UngqlOpts o3; UngrqOpts o4;
    o1.nb = o2.nb = o3.nb = o4.nb = nb;
    switch (variant) {
        case 0: info = DISPATCH(ung2r(A, t), ungl2(A, t), ung2l(A, t), ungr2(A, t)); break;
        case 1: withWork(DISPATCH(ung2r_worksize<T>(A, t), ungl2_worksize<T>(A, t), ung2l_worksize<T>(A, t), ungr2_worksize<T>(A, t)),
                         [&](auto& wk) { return DISPATCH(ung2r_work(A, t, wk), ungl2_work(A, t, wk), ung2l_work(A, t, wk), ungr2_work(A, t, wk)); }); break;
        case 2: info = DISPATCH(ungqr(A, t, o1), unglq(A, t, o2), ungql(A, t, o3), ungrq(A, t, o4)); break;
        case 3: info = ungq(d, st, A, t, uo); break;
        case 4: withWork(ungq_worksize<T>(d, st, A, t, uo), [&](auto& wk) { return ungq_work(d, st, A, t, wk, uo); }); break;
        case 5: info = ungq_level2(d, st, A, t); break;
        case 6: withWork(ungq_level2_worksize<T>(d, st, A, t), [&](auto& wk) { return ungq_level2_work(d, st, A, t, wk); }); break;
        default:
            if (hw) withWork(gen_householder_q_worksize<T>(d, st, A, t, go), [&](auto& wk) { return gen_householder_q_work(d, st, A, t, wk, go); });
            else info = gen_householder_q(d, st, A, t, go);
    }
    c.check(info == 0, w + "/info", "returned ", info);
    G.margins(c, w + "/A"), tv.unchanged(c, w + "/tau");
    c.ratio(w + "/value", normF(sub(G.template getW<W>(), want)), (30 + 10.0 * k) * eps<T>());
}
template <class T, Layout L, Layout LV> void tMul(Case& c)
{
    using W = wide<T>;
    Fam f = c.pick({QR, LQ, QL, RQ});
    Side side = genSide(c);
    Op trans = cplx<T> ? c.pick({Op::NoTrans, Op::ConjTrans}) : c.pick({Op::NoTrans, Op::ConjTrans, Op::Trans});
    size_t ord = dimF(c), q = dim(c), k = (size_t)c.range(0, (int64_t)ord), nb = genNb(c);
    size_t m = side == Side::Left ? ord : q, n = side == Side::Left ? q : ord;
    int variant = (int)c.draw(7);
    const char* names[] = {"unm2x", "unmxx", "unmq", "unmq_work", "unmq_level2", "unmq_level2_work", "householder_q_mul"};
    bool hb = c.coin(), hw = c.coin();
    std::string w = std::string(nm(f)) + "/" + names[variant] + " " + nm(side) + " " + nm(trans);
    c.desc(w, "m", m, "n", n, "k", k, "nb", nb, hb ? "b" : "2", hw ? "w" : "");
    c.label(w);
    c.nontrivial(k >= 1 && q >= 1);
    if (k > nb) c.label("several blocks");
    Dense<T> V0 = colwise(f) ? Dense<T>(ord, k) : Dense<T>(k, ord);
    for (auto& x : V0.a) x = nanT<T>();
    if (c.coin()) for (auto& x : V0.a) x = T(real_t<T>(55));
    std::vector<T> tau(k);
    randomRefl(c, f, V0, tau, ord);
    Dense<T> C0 = genMat<T>(c, m, n, bigScale<T>());
    Refl<W> r = reflOf<W>(f, V0, tau);
    Dense<W> want = widenM<W>(C0);
    if (side == Side::Left) r.left(trans != Op::NoTrans, want);
    else r.right(trans != Op::NoTrans, want);
    GMat<T, LV> Vm(c, V0.m, V0.n);
    GMat<T, L> Cm(c, m, n);
    Vm.set(V0), Cm.set(C0);
    GVec<T> tv(c, k);
    tv.set(tau);
    Vm.snapshot(), tv.snapshot();
    const auto V = Vm.cview();
    auto C = Cm.view();
    const auto t = tv.view();
    Direction d = dirOf(f);
    StoreV st = storeOf(f);
    int info = 0;
    auto withWork = [&](WorkInfo wi, auto&& call) {
        Dirty<T> dw(c, wi);
        auto wk = dw.view();
        info = call(wk);
        dw.done(c, w);
    };
    UnmqOpts uo;
    uo.nb = nb;
    HouseholderQMulOpts ho;
    ho.nb = nb;
    ho.variant = hb ? HouseholderQMulVariant::Blocked : HouseholderQMulVariant::Level2;
    UnmqrOpts o1; UnmlqOpts o2; UnmqlOpts o3; UnmrqOpts o4;
    o1.nb = o2.nb = o3.nb = o4.nb = nb;
    switch (variant) {
        case 0: info = DISPATCH(unm2r(side, trans, V, t, C), unml2(side, trans, V, t, C), unm2l(side, trans, V, t, C), unmr2(side, trans, V, t, C)); break;
        case 1: info = DISPATCH(unmqr(side, trans, V, t, C, o1), unmlq(side, trans, V, t, C, o2), unmql(side, trans, V, t, C, o3), unmrq(side, trans, V, t, C, o4)); break;
        case 2: info = unmq(side, trans, d, st, V, t, C, uo); break;
        case 3: withWork(unmq_worksize<T>(side, trans, d, st, V, t, C, uo), [&](auto& wk) { return unmq_work(side, trans, d, st, V, t, C, wk, uo); }); break;
        case 4: info = unmq_level2(side, trans, d, st, V, t, C); break;
        case 5: withWork(unmq_level2_worksize<T>(side, trans, d, st, V, t, C), [&](auto& wk) { return unmq_level2_work(side, trans, d, st, V, t, C, wk); }); break;
        default:
            if (hw) withWork(householder_q_mul_worksize<T>(side, trans, d, st, V, t, C, ho), [&](auto& wk) { return householder_q_mul_work(side, trans, d, st, V, t, C, wk, ho); });
            else info = householder_q_mul(side, trans, d, st, V, t, C, ho);
    }
    c.check(info == 0, w + "/info", "returned ", info);
    Cm.margins(c, w + "/C"), Vm.unchanged(c, w + "/V"), tv.unchanged(c, w + "/tau");
    Dense<W> Cw = widenM<W>(C0);
    c.ratio(w + "/value", vecwise(side == Side::Left, sub(Cm.template getW<W>(), want), Cw, tinyOf<T>()), (30 + 10.0 * k) * eps<T>());
}
// triangle-on-top-of-full storage
template <class T, Layout L> void tTrge(Case& c)
{
    using W = wide<T>;
    size_t n = (size_t)c.size(1, 10), m = dim(c), k = n + (size_t)c.range(0, (int64_t)m);
    c.desc("trge_ung2r", "m", m, "n", n, "k", k);
    c.nontrivial(n >= 2 && m >= 1);
    if (k > n) c.label("extra columns");
    GMat<T, L> G(c, m + n, k);
    G.fill(nanT<T>());
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) G(i, j) = T(0);
    std::vector<T> tv(n), tau0;
    Refl<W> r;
    r.ord = m + n;
    for (size_t j = 0; j < n; ++j) {
        std::vector<W> v(m + n, W(0));
        v[j] = W(1);
        long double s = 1;
        for (size_t i = n; i < m + n; ++i) {
            G(i, j) = uni<T>(c);
            v[i] = widen<W>(G(i, j));
            s += (long double)mag(G(i, j)) * mag(G(i, j));
        }
        tv[j] = unitaryTau<T>(c, s);
        r.v.push_back(v), r.tau.push_back(widen<W>(tv[j]));
    }
    tau0 = tv;
    Dense<W> want(m + n, k);
    for (size_t j = 0; j < k; ++j) want(j, j) = W(1);
    r.left(false, want);
    auto A = G.view();
    trge_ung2r(A, tv);
    G.margins(c, "trge_ung2r"), c.check(tv == tau0, "trge_ung2r/tau-changed");
    c.ratio("trge_ung2r", normF(sub(G.template getW<W>(), want)), (30 + 10.0 * n) * eps<T>());
}
static const char* RG = "at least one reflector and a result with at least two columns or rows";
static const char* RM = "at least one reflector and a nonempty operand";
static pbt::Reg a1("gen/float/Row", 20000, 400000, tGen<F, LR>, RG);
static pbt::Reg a2("gen/double/Col", 20000, 400000, tGen<D, LC>, RG);
static pbt::Reg a3("gen/cfloat/Col", 20000, 400000, tGen<CF, LC>, RG);
static pbt::Reg a4("gen/cdouble/Row", 20000, 400000, tGen<CD, LR>, RG);
static pbt::Reg b1("mul/float/CC", 25000, 400000, tMul<F, LC, LC>, RM);
static pbt::Reg b2("mul/double/RC", 25000, 400000, tMul<D, LR, LC>, RM);
static pbt::Reg b3("mul/cfloat/CR", 25000, 400000, tMul<CF, LC, LR>, RM);
static pbt::Reg b4("mul/cdouble/CC", 25000, 400000, tMul<CD, LC, LC>, RM);
static pbt::Reg t1("trge/cdouble/Col", 6000, 100000, tTrge<CD, LC>, "two reflectors or more");
static pbt::Reg t2("trge/float/Row", 6000, 100000, tTrge<F, LR>, "two reflectors or more");
