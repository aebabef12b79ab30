// X02: applying and generating orthogonal factors
#include "twin.hpp"
#include "tlapack/lapack/gen_householder_q.hpp"
#include "tlapack/lapack/householder_q_mul.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larft.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/unm2l.hpp"
#include "tlapack/lapack/unm2r.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/unml2.hpp"
#include "tlapack/lapack/unmlq.hpp"
#include "tlapack/lapack/unmql.hpp"
#include "tlapack/lapack/unmqr.hpp"
#include "tlapack/lapack/unmr2.hpp"
#include "tlapack/lapack/unmrq.hpp"
using namespace tlapack;
#define CALL(query, wcall, scall, ...) twice<T, L>(c, nmv, query, [&](auto& work) { return wcall; }, [&]() { return scall; }, __VA_ARGS__)
#define DISPATCH(QRX, LQX, QLX, RQX) (f == QR ? QRX : f == LQ ? LQX : f == QL ? QLX : RQX)
template <class T> std::vector<T> taus(Case& c, size_t k) { auto v = anyVec<T>(c, k); for (auto& x : v) if (c.chance(1, 8)) x = T(0); return v; }
inline Op trans2(Case& c, bool cx) { return cx ? c.pick({Op::NoTrans, Op::ConjTrans}) : c.pick({Op::NoTrans, Op::ConjTrans, Op::Trans}); }
template <class T, Layout L> void tLarf(Case& c)
{
    size_t m = (size_t)c.size(1, 12), n = (size_t)c.size(1, 12);
    Side side = genSide(c);
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    Direction d = c.pick({Direction::Forward, Direction::Backward});
    size_t ord = side == Side::Left ? m : n, p = side == Side::Left ? n : m;
    T tau = uni<T>(c);
    std::string nmv;
    c.desc(m, n, nm(side), (char)st, (char)d);
    if (c.coin()) {
        Twin<T, L> C(c, m, n);
        C.set(anyMat<T>(c, m, n));
        GVec<T> x(c, ord);
        x.set(anyVec<T>(c, ord));
        auto v = x.view();
        auto a = C.a.view(), b = C.b.view();
        nmv = "larf";
        CALL(larf_worksize<T>(side, d, st, v, tau, a), (larf_work(side, d, st, v, tau, a, work), 0), (larf(side, d, st, v, tau, b), 0), C);
    }
    else {
        size_t m1 = side == Side::Left ? m - 1 : m, n1 = side == Side::Left ? n : n - 1;
        Twin<T, L> C(c, m1, n1);
        C.set(anyMat<T>(c, m1, n1));
        TwinV<T> C0(c, p);
        C0.set(anyVec<T>(c, p));
        GVec<T> x(c, ord - 1);
        x.set(anyVec<T>(c, ord - 1));
        auto v = x.view(), y = C0.a.view(), z = C0.b.view();
        auto a = C.a.view(), b = C.b.view();
        nmv = "larf-split";
        CALL(larf_worksize<T>(side, st, v, tau, y, a), (larf_work(side, st, v, tau, y, a, work), 0), (larf(side, st, v, tau, z, b), 0), C, C0);
    }
}
REG2("larf", tLarf)
template <class T, Layout L> void tLarfb(Case& c)
{
    Side side = genSide(c);
    StoreV st = c.pick({StoreV::Columnwise, StoreV::Rowwise});
    Direction d = c.pick({Direction::Forward, Direction::Backward});
    size_t m = dimF(c), n = dimF(c), ord = side == Side::Left ? m : n, k = (size_t)c.range(0, (int64_t)ord);
    Op tr = trans2(c, cplx<T>);
    GMat<T, L> V(c, st == StoreV::Columnwise ? ord : k, st == StoreV::Columnwise ? k : ord), Tm(c, k, k);
    V.set(anyMat<T>(c, V.m, V.n)), Tm.set(anyMat<T>(c, k, k));
    Twin<T, L> C(c, m, n);
    C.set(anyMat<T>(c, m, n));
    auto v = V.view(), tm = Tm.view(), a = C.a.view(), b = C.b.view();
    std::string nmv = "larfb";
    c.desc(m, n, k, nm(side), nm(tr), (char)d, (char)st);
    CALL(larfb_worksize<T>(side, tr, d, st, v, tm, a), larfb_work(side, tr, d, st, v, tm, a, work), larfb(side, tr, d, st, v, tm, b), C);
}
REG2("larfb", tLarfb)
template <class T, Layout L> void tMul(Case& c)
{
    Fam f = c.pick({QR, LQ, QL, RQ});
    Side side = genSide(c);
    Op trans = trans2(c, cplx<T>);
    size_t m = dimF(c), n = dimF(c), ord = side == Side::Left ? m : n, k = (size_t)c.range(0, (int64_t)ord), nb = genNb(c);
    GMat<T, L> Vm(c, colwise(f) ? ord : k, colwise(f) ? k : ord);
    Vm.set(anyMat<T>(c, Vm.m, Vm.n));
    GVec<T> tv(c, k);
    tv.set(taus<T>(c, k));
    Twin<T, L> C(c, m, n);
    C.set(anyMat<T>(c, m, n));
    auto V = Vm.view(), a = C.a.view(), b = C.b.view();
    auto t = tv.view();
    Direction d = dirOf(f);
    StoreV st = storeOf(f);
    std::string nmv;
    c.desc(nm(f), m, n, k, nm(side), nm(trans), "nb", nb);
    UnmqrOpts o1; UnmlqOpts o2; UnmqlOpts o3; UnmrqOpts o4;
    o1.nb = o2.nb = o3.nb = o4.nb = nb;
    switch (c.draw(7)) {
        case 0: { UnmqOpts o; o.nb = nb; nmv = "unmq"; CALL(unmq_worksize<T>(side, trans, d, st, V, t, a, o), unmq_work(side, trans, d, st, V, t, a, work, o), unmq(side, trans, d, st, V, t, b, o), C); break; }
        case 1: nmv = "unmq_level2"; CALL(unmq_level2_worksize<T>(side, trans, d, st, V, t, a), unmq_level2_work(side, trans, d, st, V, t, a, work), unmq_level2(side, trans, d, st, V, t, b), C); break;
        case 2: { HouseholderQMulOpts o; o.nb = nb; o.variant = HouseholderQMulVariant::Blocked; nmv = "householder_q_mul-blocked"; CALL(householder_q_mul_worksize<T>(side, trans, d, st, V, t, a, o), householder_q_mul_work(side, trans, d, st, V, t, a, work, o), householder_q_mul(side, trans, d, st, V, t, b, o), C); break; }
        case 3: { HouseholderQMulOpts o; o.nb = nb; o.variant = HouseholderQMulVariant::Level2; nmv = "householder_q_mul-level2"; CALL(householder_q_mul_worksize<T>(side, trans, d, st, V, t, a, o), householder_q_mul_work(side, trans, d, st, V, t, a, work, o), householder_q_mul(side, trans, d, st, V, t, b, o), C); break; }
        // the query of one routine, the call of the general one it is defined by
        case 4: { UnmqOpts o; o.nb = nb; nmv = "unmxx"; CALL(DISPATCH(unmqr_worksize<T>(side, trans, V, t, a, o1), unmlq_worksize<T>(side, trans, V, t, a, o2), unmql_worksize<T>(side, trans, V, t, a, o3), unmrq_worksize<T>(side, trans, V, t, a, o4)),
                     unmq_work(side, trans, d, st, V, t, a, work, o), DISPATCH(unmqr(side, trans, V, t, b, o1), unmlq(side, trans, V, t, b, o2), unmql(side, trans, V, t, b, o3), unmrq(side, trans, V, t, b, o4)), C); break; }
        case 5: nmv = "unm2x"; CALL(DISPATCH(unm2r_worksize<T>(side, trans, V, t, a), unml2_worksize<T>(side, trans, V, t, a), unm2l_worksize<T>(side, trans, V, t, a), unmr2_worksize<T>(side, trans, V, t, a)),
                     unmq_level2_work(side, trans, d, st, V, t, a, work), DISPATCH(unm2r(side, trans, V, t, b), unml2(side, trans, V, t, b), unm2l(side, trans, V, t, b), unmr2(side, trans, V, t, b)), C); break;
        default: {
            size_t q = ord, ilo = 0, ihi = q;
            if (q == 0) throw pbt::Discard();
            if (c.coin()) ilo = (size_t)c.range(0, (int64_t)q - 1), ihi = (size_t)c.range((int64_t)ilo + 1, (int64_t)q);
            GMat<T, L> H(c, q, q);
            H.set(anyMat<T>(c, q, q));
            GVec<T> th(c, q - 1);
            th.set(taus<T>(c, q - 1));
            auto h = H.view();
            auto tt = th.view();
            Op t2 = cplx<T> ? c.pick({Op::NoTrans, Op::ConjTrans}) : c.pick({Op::NoTrans, Op::ConjTrans, Op::Trans});
            nmv = "unmhr";
            c.desc("ilo", ilo, ihi);
            CALL(unmhr_worksize<T>(side, t2, ilo, ihi, h, tt, a), unmhr_work(side, t2, ilo, ihi, h, tt, a, work), unmhr(side, t2, ilo, ihi, h, tt, b), C);
        }
    }
}
REG2("mul", tMul)
template <class T, Layout L> void tGen(Case& c)
{
    Fam f = c.pick({QR, LQ, QL, RQ});
    size_t ord = dimF(c), p = (size_t)c.range(0, (int64_t)ord), k = c.coin() ? p : (size_t)c.range(0, (int64_t)p), nb = genNb(c);
    size_t m = colwise(f) ? ord : p, n = colwise(f) ? p : ord;
    Twin<T, L> A(c, m, n);
    A.set(anyMat<T>(c, m, n));
    GVec<T> tv(c, k);
    tv.set(taus<T>(c, k));
    auto a = A.a.view(), b = A.b.view();
    auto t = tv.view();
    Direction d = dirOf(f);
    StoreV st = storeOf(f);
    std::string nmv;
    c.desc(nm(f), m, n, k, "nb", nb);
    switch (c.draw(8)) {
        case 0: { UngqOpts o; o.nb = nb; nmv = "ungq"; CALL(ungq_worksize<T>(d, st, a, t, o), ungq_work(d, st, a, t, work, o), ungq(d, st, b, t, o), A); break; }
        case 1: nmv = "ungq_level2"; CALL(ungq_level2_worksize<T>(d, st, a, t), ungq_level2_work(d, st, a, t, work), ungq_level2(d, st, b, t), A); break;
        case 2: { GenHouseholderQOpts o; o.nb = nb; o.variant = GenHouseholderQVariant::Blocked; nmv = "gen_householder_q-blocked"; CALL(gen_householder_q_worksize<T>(d, st, a, t, o), gen_householder_q_work(d, st, a, t, work, o), gen_householder_q(d, st, b, t, o), A); break; }
        case 3: { GenHouseholderQOpts o; o.nb = nb; o.variant = GenHouseholderQVariant::Level2; nmv = "gen_householder_q-level2"; CALL(gen_householder_q_worksize<T>(d, st, a, t, o), gen_householder_q_work(d, st, a, t, work, o), gen_householder_q(d, st, b, t, o), A); break; }
        case 4: nmv = "ung2x"; CALL(DISPATCH(ung2r_worksize<T>(a, t), ungl2_worksize<T>(a, t), ung2l_worksize<T>(a, t), ungr2_worksize<T>(a, t)),
                    DISPATCH(ung2r_work(a, t, work), ungl2_work(a, t, work), ung2l_work(a, t, work), ungr2_work(a, t, work)), DISPATCH(ung2r(b, t), ungl2(b, t), ung2l(b, t), ungr2(b, t)), A); break;
        case 5: {
            size_t q = dimF(c), ilo = 0, ihi = q;
            if (q == 0) throw pbt::Discard();
            if (c.coin()) ilo = (size_t)c.range(0, (int64_t)q - 1), ihi = (size_t)c.range((int64_t)ilo + 1, (int64_t)q);
            Twin<T, L> H(c, q, q);
            H.set(anyMat<T>(c, q, q));
            GVec<T> th(c, q - 1);
            th.set(taus<T>(c, q - 1));
            auto h = H.a.view(), g = H.b.view();
            auto tt = th.view();
            nmv = "unghr";
            c.desc(q, "ilo", ilo, ihi);
            CALL(unghr_worksize<T>(ilo, ihi, h, tt), unghr_work(ilo, ihi, h, tt, work), unghr(ilo, ihi, g, tt), H);
            break;
        }
        default: {
            // Q of size m x n (m >= n >= min(m,k)) or square, P likewise
            bool isq = c.coin(), sq = c.coin();
            size_t r = dimF(c), kk, mm, nn;
            if (sq) { mm = nn = r; kk = r; if (c.coin()) kk = (size_t)c.range(0, (int64_t)r); else kk = r + (size_t)c.range(0, 3); }
            else { size_t s = (size_t)c.range(0, (int64_t)r); kk = (size_t)c.range(0, (int64_t)s); mm = isq ? r : s, nn = isq ? s : r; }
            Twin<T, L> B(c, mm, nn);
            B.set(anyMat<T>(c, mm, nn));
            UngbrOpts o;
            o.nb = nb;
            nmv = isq ? "ungbr_q" : "ungbr_p";
            auto x = B.a.view(), y = B.b.view();
            c.desc(mm, nn, "k", kk);
            size_t len = isq ? (mm >= kk ? kk : (mm ? mm - 1 : 0)) : (kk < nn ? kk : (nn ? nn - 1 : 0));
            GVec<T> tb(c, len);
            tb.set(taus<T>(c, len));
            auto tt = tb.view();
            if (isq) CALL(ungbr_q_worksize<T>(kk, x, tt, o), ungbr_q_work(kk, x, tt, work, o), ungbr_q(kk, y, tt, o), B);
            else CALL(ungbr_p_worksize<T>(kk, x, tt, o), ungbr_p_work(kk, x, tt, work, o), ungbr_p(kk, y, tt, o), B);
        }
    }
}
REG2("gen", tGen)
