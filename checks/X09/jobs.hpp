// A job: a call (or short chain of calls) on operands of its own, whose result
// is a string of bytes.
#pragma once
#include "la.hpp"
#include "tlapack/plugins/legacyArray.hpp"
#include "tlapack/plugins/stdvector.hpp"
#include "tlapack/legacy_api/blas.hpp"
#include "tlapack/legacy_api/lapack.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/rotmg.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/getrf.hpp"
#include "tlapack/lapack/getri.hpp"
#include "tlapack/lapack/potrf.hpp"
#include "tlapack/lapack/potrs.hpp"
#include "tlapack/lapack/potri.hpp"
#include "tlapack/lapack/pbtrf_with_workspace.hpp"
#include "tlapack/lapack/trtri_recursive.hpp"
#include "tlapack/lapack/lauum_recursive.hpp"
#include "tlapack/lapack/mult_llh.hpp"
#include "tlapack/lapack/mult_uhu.hpp"
#include "tlapack/lapack/mult_hehe.hpp"
#include "tlapack/lapack/lu_mult.hpp"
#include "tlapack/lapack/ul_mult.hpp"
#include "tlapack/lapack/gemmtr.hpp"
#include "tlapack/lapack/hemm2.hpp"
#include "tlapack/lapack/trsm_tri.hpp"
#include "tlapack/lapack/trmm_out.hpp"
#include "tlapack/lapack/geqrf.hpp"
#include "tlapack/lapack/gelqf.hpp"
#include "tlapack/lapack/geqlf.hpp"
#include "tlapack/lapack/gerqf.hpp"
#include "tlapack/lapack/geqr2.hpp"
#include "tlapack/lapack/ungq.hpp"
#include "tlapack/lapack/ungq_level2.hpp"
#include "tlapack/lapack/unmq.hpp"
#include "tlapack/lapack/unmq_level2.hpp"
#include "tlapack/lapack/gelqt.hpp"
#include "tlapack/lapack/geqrt3.hpp"
#include "tlapack/lapack/gehrd.hpp"
#include "tlapack/lapack/gehd2.hpp"
#include "tlapack/lapack/unghr.hpp"
#include "tlapack/lapack/unmhr.hpp"
#include "tlapack/lapack/gebrd.hpp"
#include "tlapack/lapack/ungbr.hpp"
#include "tlapack/lapack/gesvd.hpp"
#include "tlapack/lapack/svd_qr.hpp"
#include "tlapack/lapack/hetd2.hpp"
#include "tlapack/lapack/ungtr.hpp"
#include "tlapack/lapack/steqr.hpp"
#include "tlapack/lapack/qr_iteration.hpp"
#include "tlapack/lapack/trevc3.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
#include "tlapack/lapack/tik_qr.hpp"
#include "tlapack/lapack/tik_svd.hpp"
#include "tlapack/lapack/tik_bidiag_elden.hpp"
#include "tlapack/lapack/larnv.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/lange.hpp"
#include "tlapack/lapack/lantr.hpp"
#include "tlapack/lapack/lansy.hpp"
#include "tlapack/lapack/lanhe.hpp"
#include "tlapack/lapack/transpose.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
#include "tlapack/lapack/laed4.hpp"
#include "tlapack/lapack/lasrt.hpp"
#include "tlapack/lapack/rscl.hpp"
#include "tlapack/lapack/hetrf.hpp"
#include "tlapack/lapack/gebd2.hpp"
#include "tlapack/lapack/gelq2.hpp"
#include "tlapack/lapack/geql2.hpp"
#include "tlapack/lapack/gerq2.hpp"
#include "tlapack/lapack/ung2r.hpp"
#include "tlapack/lapack/ungl2.hpp"
#include "tlapack/lapack/ung2l.hpp"
#include "tlapack/lapack/ungr2.hpp"
#include "tlapack/lapack/unm2r.hpp"
#include "tlapack/lapack/unml2.hpp"
#include "tlapack/lapack/unm2l.hpp"
#include "tlapack/lapack/unmr2.hpp"
#include "tlapack/lapack/larf.hpp"
#include "tlapack/lapack/larfb.hpp"
#include "tlapack/lapack/larft.hpp"
#include <functional>
namespace tl = tlapack;
using namespace la;
using pbt::Case;
template <class X> X canonical(X x) { return x != x ? std::numeric_limits<X>::quiet_NaN() : x; }
struct Sink {
    std::string b;
    void raw(const void* p, size_t n) { b.append((const char*)p, n); }
    template <class X> void put(const X& x)
    {
        if constexpr (std::is_floating_point_v<X>) { X y = canonical(x); raw(&y, sizeof y); }
        else if constexpr (cplx<X>) put(x.real()), put(x.imag());
        else raw(&x, sizeof x);
    }
    template <class X> void vec(const std::vector<X>& v) { for (auto x : v) put(x); }
};
struct Job {
    std::string name;
    std::function<void(Sink&)> run;
    std::string result() const
    {
        Sink s;
        try { run(s); }
        catch (const std::exception& e) { s.b += "exception "; s.b += e.what(); }
        return s.b;
    }
};
template <class T> using LM = tl::LegacyMatrix<T, size_t, (sizeof(T) % 8 ? tl::Layout::ColMajor : cplx<T> ? tl::Layout::ColMajor : tl::Layout::RowMajor)>;
// a matrix of a job's own
template <class T> struct Mx {
    size_t m, n, ld;
    std::vector<T> s;
    LM<T> v;
    static constexpr bool col = sizeof(T) % 8 || cplx<T>;
    Mx(const Dense<T>& A, size_t pad = 1) : m(A.m), n(A.n), ld((col ? m : n) + pad), s(ld * (col ? n : m) + 1, T(real_t<T>(7))), v(m, n, s.data(), ld)
    {
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) v(i, j) = A(i, j);
    }
    void to(Sink& o) const { o.vec(s); }
};
template <class T, class M> Dense<T> densify(const M& v, size_t m, size_t n) { Dense<T> A(m, n); for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) A(i, j) = v(i, j); return A; }
constexpr int KINDS = 47;
template <class T> Job makeJob(Case& c, int kind, size_t cap)
{
    using namespace tlapack;
    using R = real_t<T>;
    using C = std::complex<R>;
    size_t m = c.size(1, cap), n = c.size(1, cap), k = c.size(1, cap), p = std::min(m, n), nb = (size_t)c.range(1, 6);
    bool bad = c.chance(1, 12);
    auto mat = [&](size_t a, size_t b) {
        Dense<T> A(a, b);
        for (auto& x : A.a) x = uni<T>(c);
        if (bad && a * b) A.a[c.draw(a * b)] = T(c.coin() ? std::numeric_limits<R>::quiet_NaN() : std::numeric_limits<R>::infinity());
        return A;
    };
    auto vecR = [&](size_t a) { std::vector<R> v(a); for (auto& x : v) x = uniR<R>(c); return v; };
    Uplo u = c.coin() ? Uplo::Upper : Uplo::Lower;
    Side sd = c.coin() ? Side::Left : Side::Right;
    Diag dg = c.coin() ? Diag::Unit : Diag::NonUnit;
    Op o1 = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}), o2 = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans});
    int q = (int)c.draw(8);
    T al = uni<T>(c), be = uni<T>(c);
    R ar = uniR<R>(c), br = uniR<R>(c);
    auto herm = [&](bool pd) {
        Dense<T> A = mat(n, n);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) { if (i < j) A(j, i) = cj(A(i, j)); else A(i, i) = T(re(A(i, i)) + (pd ? R(2 * n) : R(0))); }
        return A;
    };
    auto tri = [&](size_t a) { Dense<T> A = mat(a, a); for (size_t j = 0; j < a; ++j) A(j, j) = T(A(j, j) + T(R(3))); return A; };
    auto hess = [&](size_t a) { Dense<T> A = mat(a, a); for (size_t j = 0; j < a; ++j) for (size_t i = j + 2; i < a; ++i) A(i, j) = T(0); return A; };
    std::string tn = typeid(T).name();
    auto J = [&](const std::string& nm, std::function<void(Sink&)> f) { return Job{nm + "<" + tn + ">", f}; };
    switch (kind) {
        case 0: {
            auto A = o1 == Op::NoTrans ? mat(m, k) : mat(k, m), B = o2 == Op::NoTrans ? mat(k, n) : mat(n, k), D = mat(m, n);
            return J("gemm", [=](Sink& o) { Mx<T> a(A), b(B), d(D); gemm(o1, o2, al, a.v, b.v, be, d.v); d.to(o); });
        }
        case 1: {
            auto A = tri(sd == Side::Left ? m : n), B = mat(m, n);
            return J(q < 4 ? "trmm" : "trsm", [=](Sink& o) { Mx<T> a(A), b(B); if (q < 4) trmm(sd, u, o1, dg, al, a.v, b.v); else trsm(sd, u, o1, dg, al, a.v, b.v); b.to(o); });
        }
        case 2: {
            auto A = mat(sd == Side::Left ? m : n, sd == Side::Left ? m : n), B = mat(m, n), D = mat(m, n);
            return J("symm/hemm", [=](Sink& o) { Mx<T> a(A), b(B), d(D); if (q < 4) symm(sd, u, al, a.v, b.v, be, d.v); else hemm(sd, u, al, a.v, b.v, be, d.v); d.to(o); });
        }
        case 3: {
            auto A = mat(n, k), B = mat(n, k), D = mat(n, n);
            return J("rank-k", [=](Sink& o) { Mx<T> a(A), b(B), d(D);
                if (q < 2) syrk(u, Op::NoTrans, al, a.v, be, d.v); else if (q < 4) herk(u, Op::NoTrans, ar, a.v, br, d.v);
                else if (q < 6) syr2k(u, Op::NoTrans, al, a.v, b.v, be, d.v); else her2k(u, Op::NoTrans, al, a.v, b.v, br, d.v);
                d.to(o); });
        }
        case 4: {
            auto A = mat(m, n), x = mat(n, 1), y = mat(m, 1);
            return J("gemv/ger", [=](Sink& o) { Mx<T> a(A); auto xv = x.a, yv = y.a; if (q < 4) gemv(Op::NoTrans, al, a.v, xv, be, yv); else ger(al, yv, xv, a.v); a.to(o); o.vec(yv); });
        }
        case 5: {
            auto A = tri(n), x = mat(n, 1), y = mat(n, 1);
            return J("level2 tri/sym", [=](Sink& o) { Mx<T> a(A); auto xv = x.a, yv = y.a;
                switch (q) { case 0: trmv(u, o1, dg, a.v, xv); break; case 1: trsv(u, o1, dg, a.v, xv); break; case 2: symv(u, al, a.v, xv, be, yv); break; case 3: hemv(u, al, a.v, xv, be, yv); break;
                    case 4: her(u, ar, xv, a.v); break; case 5: her2(u, al, xv, yv, a.v); break; case 6: syr(u, al, xv, a.v); break; default: syr2(u, al, xv, yv, a.v); break; }
                a.to(o); o.vec(xv); o.vec(yv); });
        }
        case 6: {
            auto x = mat(n, 1), y = mat(n, 1);
            return J("level1", [=](Sink& o) { auto xv = x.a, yv = y.a;
                switch (q) { case 0: o.put(dot(xv, yv)); break; case 1: o.put(dotu(xv, yv)); break; case 2: o.put(nrm2(xv)); break; case 3: o.put(asum(xv)); break;
                    case 4: o.put(iamax(xv)); break; case 5: axpy(al, xv, yv); break; case 6: rot(xv, yv, ar, al); break; default: { T a1 = xv[0], b1 = yv[0], s1; R c1; rotg(a1, b1, c1, s1); o.put(a1), o.put(c1), o.put(s1); } }
                o.vec(xv); o.vec(yv); });
        }
        case 7: case 8: {
            auto A = kind == 7 ? mat(m, n) : mat(n, n);
            GetrfOpts g;
            g.variant = q < 4 ? GetrfVariant::Recursive : GetrfVariant::Level0;
            GetriOpts gi;
            gi.variant = q % 2 ? GetriVariant::UILI : GetriVariant::UXLI;
            bool sq = kind == 8;
            return J("getrf/getri", [=](Sink& o) { Mx<T> a(A); std::vector<size_t> pv(std::min(a.m, a.n)); o.put(getrf(a.v, pv, g)); o.vec(pv); if (sq) o.put(getri(a.v, pv, gi)); a.to(o); });
        }
        case 9: case 10: {
            auto A = herm(q != 0), B = mat(n, k);
            PotrfOpts po;
            po.nb = nb;
            po.variant = q < 2 ? PotrfVariant::Blocked : q < 4 ? PotrfVariant::Recursive : q < 6 ? PotrfVariant::Level2 : PotrfVariant::RightLooking;
            return J("potrf/potrs", [=](Sink& o) { Mx<T> a(A), b(B); int info = potrf(u, a.v, po); o.put(info); if (info == 0) potrs(u, a.v, b.v); a.to(o); b.to(o); });
        }
        case 11: {
            auto A = tri(n);
            return J("triangular in place", [=](Sink& o) { Mx<T> a(A);
                switch (q) { case 0: case 1: o.put(trtri_recursive(u, dg, a.v)); break; case 2: o.put(lauum_recursive(u, a.v)); break; case 3: mult_llh(a.v); break; case 4: mult_uhu(a.v); break; case 5: lu_mult(a.v); break; case 6: ul_mult(a.v); break; default: potri(u, a.v); break; }
                a.to(o); });
        }
        case 12: {
            auto A = herm(true);
            size_t kd = c.draw(n);
            BlockedBandedCholeskyOpts bo;
            bo.nb = nb;
            return J("pbtrf", [=](Sink& o) { Mx<T> a(A); pbtrf_with_workspace(u, a.v, kd, bo); a.to(o); });
        }
        case 13: {
            auto A = tri(n), B = tri(n), D = mat(n, n);
            return J("two-operand products", [=](Sink& o) { Mx<T> a(A), b(B), d(D);
                switch (q) { case 0: case 1: mult_hehe(u, al, a.v, b.v, be, d.v); break; case 2: case 3: gemmtr(u, Op::NoTrans, Op::ConjTrans, al, a.v, b.v, be, d.v); break; case 4: case 5: hemm2(sd, u, Op::NoTrans, al, a.v, b.v, be, d.v); break; case 6: trsm_tri(sd, u, Op::NoTrans, Diag::NonUnit, al, a.v, b.v); break; default: trmm_out(sd, u, Op::NoTrans, dg, Op::NoTrans, al, a.v, b.v, be, d.v); break; }
                b.to(o); d.to(o); });
        }
        case 14: case 15: case 16: {
            auto A = mat(m, n), D = mat(m, k), E = mat(n, k);
            int f = (int)c.draw(4);
            return J("orthogonal factorization", [=](Sink& o) {
                Mx<T> a(A);
                std::vector<T> tau(p);
                GeqrfOpts g0; g0.nb = nb; GelqfOpts g1; g1.nb = nb; GeqlfOpts g2; g2.nb = nb; GerqfOpts g3; g3.nb = nb;
                o.put(f == 0 ? geqrf(a.v, tau, g0) : f == 1 ? gelqf(a.v, tau, g1) : f == 2 ? geqlf(a.v, tau, g2) : gerqf(a.v, tau, g3));
                a.to(o), o.vec(tau);
                Direction dir = f == 0 || f == 1 ? (f == 0 ? Direction::Forward : Direction::Forward) : Direction::Backward;
                StoreV st = f == 0 || f == 2 ? StoreV::Columnwise : StoreV::Rowwise;
                bool cw = st == StoreV::Columnwise;
                // the reflectors alone, p of them
                size_t r0 = cw || f == 1 ? 0 : m - p, c0 = !cw || f == 0 ? 0 : n - p;
                auto V = slice(a.v, std::pair<size_t, size_t>(r0, r0 + (cw ? m : p)), std::pair<size_t, size_t>(c0, c0 + (cw ? p : n)));
                Mx<T> d(cw ? D : E);
                UnmqOpts um; um.nb = nb;
                if (nb % 2) unmq(Side::Left, Op::ConjTrans, dir, st, V, tau, d.v, um);
                else unmq_level2(Side::Left, Op::ConjTrans, dir, st, V, tau, d.v);
                d.to(o);
                UngqOpts ug; ug.nb = nb;
                if (nb % 3) ungq(dir, st, V, tau, ug);
                else ungq_level2(dir, st, V, tau);
                a.to(o);
            });
        }
        case 17: {
            if (m < n) std::swap(m, n);
            auto A = mat(m, n), W = mat(n, n);
            return J("geqrt3", [=](Sink& o) { Mx<T> a(A), w(W); geqrt3(a.v, w.v); a.to(o), w.to(o); });
        }
        case 18: {
            auto A = mat(m, n), W = mat(m, std::min(nb, p));
            return J("gelqt", [=](Sink& o) { Mx<T> a(A), w(W); gelqt(a.v, w.v); a.to(o), w.to(o); });
        }
        case 19: case 20: {
            n = std::max<size_t>(n, 2);
            auto A = mat(n, n), D = mat(n, n);
            GehrdOpts g;
            g.nb = nb;
            g.nx_switch = c.draw(n + 2);
            return J("gehrd", [=](Sink& o) { Mx<T> a(A), d(D); std::vector<T> tau(n - 1); if (q < 3) gehd2(0, n, a.v, tau); else gehrd(0, n, a.v, tau, g); a.to(o), o.vec(tau); unmhr(Side::Left, Op::NoTrans, 0, n, a.v, tau, d.v); d.to(o); unghr(0, n, a.v, tau); a.to(o); });
        }
        case 21: {
            auto A = mat(m, n);
            GebrdOpts g;
            g.nb = nb;
            return J("gebrd", [=](Sink& o) { Mx<T> a(A); std::vector<T> t1(p), t2(p); gebrd(a.v, t1, t2, g); a.to(o), o.vec(t1), o.vec(t2); if (m >= n) { ungbr_q(n, a.v, t1); a.to(o); } });
        }
        case 22: case 23: {
            auto A = mat(m, n);
            return J("gesvd", [=](Sink& o) { Mx<T> a(A), U(Dense<T>(m, m)), V(Dense<T>(n, n)); std::vector<R> s(p); o.put(gesvd(q & 1, q & 2, a.v, s, U.v, V.v)); o.vec(s), U.to(o), V.to(o); });
        }
        case 24: case 25: {
            auto A = herm(false);
            return J("hetd2/steqr", [=](Sink& o) {
                Mx<T> a(A);
                std::vector<T> tau(n - 1);
                hetd2(u, a.v, tau);
                std::vector<R> d(n), e(n - 1);
                for (size_t i = 0; i < n; ++i) d[i] = re(a.v(i, i));
                for (size_t i = 0; i + 1 < n; ++i) e[i] = re(u == Uplo::Upper ? a.v(i, i + 1) : a.v(i + 1, i));
                a.to(o), o.vec(tau);
                ungtr(u, a.v, tau);
                o.put(steqr(true, d, e, a.v));
                o.vec(d), o.vec(e), a.to(o);
            });
        }
        case 26: case 27: case 28: {
            bool ms = kind == 28;
            if (ms) n = 14 + c.draw(12), bad = false;
            auto H = hess(n);
            if (bad) for (auto& x : H.a) if (!isfin(x)) x = T(1);
            QRIterationOpts g;
            g.variant = ms ? QRIterationVariant::MultiShift : QRIterationVariant::DoubleShift;
            g.nmin = 12;
            g.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
            g.deflation_window_recommender = [](size_t, size_t) { return (size_t)6; };
            size_t f = c.draw(n), t = c.draw(n);
            return J(ms ? "multishift qr" : "lahqr", [=](Sink& o) {
                Mx<T> a(H), z(eye<T>(n)), l(eye<T>(n)), r(eye<T>(n));
                std::vector<C> s(n);
                QRIterationOpts gg = g; int info = qr_iteration(true, true, 0, n, a.v, s, z.v, gg);
                o.put(info), o.vec(s), a.to(o), z.to(o);
                if (info) return;
                std::vector<bool> sel(n, true);
                trevc3(Side::Both, HowMny::All, sel, a.v, l.v, r.v);
                l.to(o), r.to(o);
                size_t f1 = f, t1 = t;
                o.put(schur_move(true, a.v, z.v, f1, t1));
                o.put(f1), o.put(t1), a.to(o), z.to(o);
            });
        }
        case 29: case 30: case 31: {
            bool ms = kind == 31;
            if (ms) n = 14 + c.draw(8);
            bad = false;
            n = std::max<size_t>(n, 2);
            auto A = mat(n, n), B = tri(n);
            for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) B(i, j) = T(0);
            FrancisOpts g;
            g.nmin = 12;
            g.nshift_recommender = [](size_t, size_t) { return (size_t)4; };
            g.deflation_window_recommender = [](size_t, size_t) { return (size_t)6; };
            Gghd3Opts h;
            h.nb = nb;
            size_t f = c.draw(n), t = c.draw(n);
            return J(ms ? "multishift qz" : "lahqz", [=](Sink& o) {
                Mx<T> a(A), b(B), Q(eye<T>(n)), z(eye<T>(n));
                if (q < 4) gghrd(true, true, 0, n, a.v, b.v, Q.v, z.v); else gghd3(true, true, 0, n, a.v, b.v, Q.v, z.v, h);
                a.to(o), b.to(o);
                std::vector<C> s(n);
                std::vector<T> w(n);
                FrancisOpts gg = g; int info = ms ? multishift_qz(true, true, true, 0, n, a.v, b.v, s, w, Q.v, z.v, gg) : lahqz(true, true, true, 0, n, a.v, b.v, s, w, Q.v, z.v);
                o.put(info), o.vec(s), o.vec(w), a.to(o), b.to(o), Q.to(o), z.to(o);
                if (info) return;
                size_t f1 = f, t1 = t;
                o.put(generalized_schur_move(true, true, a.v, b.v, Q.v, z.v, f1, t1));
                a.to(o), b.to(o);
            });
        }
        case 32: {
            if (m < n) std::swap(m, n);
            auto A = mat(m, n), B = mat(m, 2);
            return J("tik", [=](Sink& o) { Mx<T> a(A), b(B); if (q < 3) tik_qr(a.v, b.v, R(0.5)); else if (q < 6) tik_svd(a.v, b.v, R(0.5)); else tik_bidiag_elden(a.v, b.v, R(0.5)); b.to(o); });
        }
        case 33: {
            int seed = (int)c.range(0, 4095);
            return J("larnv", [=](Sink& o) { std::vector<T> x(n); int sv = seed; if (q % 3 == 0) larnv<1>(sv, x); else if (q % 3 == 1) larnv<2>(sv, x); else larnv<3>(sv, x); o.vec(x), o.put(sv); larnv<2>(sv, x); o.vec(x), o.put(sv); });
        }
        case 34: {
            auto A = mat(m, n);
            Norm nr = c.pick({Norm::Max, Norm::One, Norm::Inf, Norm::Fro});
            return J("norms", [=](Sink& o) { Mx<T> a(A); o.put(lange(nr, a.v)); o.put(lantr(nr, u, dg, a.v)); auto S = slice(a.v, std::pair<size_t, size_t>(0, p), std::pair<size_t, size_t>(0, p)); o.put(lansy(nr, u, S)); o.put(lanhe(nr, u, S)); });
        }
        case 35: {
            auto A = mat(m, n);
            return J("copies", [=](Sink& o) { Mx<T> a(A), b(Dense<T>(m, n)), d(Dense<T>(n, m)); lascl(u, R(3), R(2), a.v); lacpy(u, a.v, b.v); TransposeOpts t; t.nx = 2 + nb; if (q < 4) transpose(a.v, d.v, t); else conjtranspose(a.v, d.v, t); laset(u, al, be, a.v); a.to(o), b.to(o), d.to(o); });
        }
        case 36: {
            m = std::max<size_t>(m, 2), n = std::max<size_t>(n, 2);
            auto A = mat(m, n);
            size_t len = sd == Side::Left ? m - 1 : n - 1;
            size_t l = (size_t)c.range(1, 4);
            Dense<R> G(len, l), S(len, l);
            for (size_t i = 0; i < G.a.size(); ++i) { R t = uniR<R>(c); G.a[i] = std::cos(t), S.a[i] = std::sin(t); }
            Direction dir = c.coin() ? Direction::Forward : Direction::Backward;
            return J("rot_sequence", [=](Sink& o) { Mx<T> a(A); Mx<R> g(G), s(S); if (q < 4) rot_sequence3(sd, dir, g.v, s.v, a.v); else { auto gc = colVec(std::vector<R>(G.a.begin(), G.a.begin() + len)).a; auto sc = std::vector<R>(S.a.begin(), S.a.begin() + len); rot_sequence(sd, dir, gc, sc, a.v); } a.to(o); });
        }
        case 37: {
            auto z = vecR(n), d = vecR(n);
            std::sort(d.begin(), d.end());
            for (size_t i = 0; i < n; ++i) d[i] += R(i);
            return J("laed4", [=](Sink& o) { auto dv = d, zv = z; for (size_t i = 0; i < n; ++i) { std::vector<R> de(n); R lam; o.put(laed4(n, i, dv, zv, de, R(1), lam)); o.put(lam), o.vec(de); } });
        }
        case 38: {
            auto A = mat(m, k), B = mat(k, n), D = mat(m, n);
            return J("pointer gemm", [=](Sink& o) { auto a = A.a, b = B.a, d = D.a; legacy::gemm(Layout::ColMajor, Op::NoTrans, Op::NoTrans, m, n, k, al, a.data(), m, b.data(), k, be, d.data(), m); o.vec(d); });
        }
        case 39: {
            auto A = mat(m, n);
            return J("pointer geqr2/lange", [=](Sink& o) { auto a = A.a; std::vector<T> tau(p + 1); o.put(legacy::lange(Norm::One, m, n, a.data(), m)); legacy::geqr2(m, n, a.data(), m, tau.data()); o.vec(a), o.vec(tau); });
        }
        case 40: {
            auto A = mat(m, n), B = mat(m + 1, n);
            return J("rejected calls", [=](Sink& o) {
                Mx<T> a(A), b(B);
                std::vector<T> tau(p + 3);
                try { gemm(Op::NoTrans, Op::NoTrans, al, a.v, b.v, be, b.v); o.put(1); } catch (const std::domain_error& e) { o.b += e.what(); }
                try { geqrf(a.v, tau); o.put(2); } catch (const std::domain_error& e) { o.b += e.what(); }
                try { potrf(u, b.v); o.put(3); } catch (const std::domain_error& e) { o.b += e.what(); }
                a.to(o), b.to(o);
            });
        }
        case 41: case 42: {
            bad = false;
            bool inv = c.coin();  // symmetric or Hermitian
            auto A = mat(n, n);
            if (c.coin()) for (size_t i = 0; i < n; ++i) A(i, i) = T(0);
            for (size_t j = 0; j < n; ++j) { for (size_t i = 0; i < j; ++i) A(j, i) = inv ? A(i, j) : cj(A(i, j)); if (!inv) A(j, j) = T(re(A(j, j))); }
            HetrfOpts ho;
            ho.nb = std::max<size_t>(nb, 2);
            ho.invariant = inv ? Op::Trans : Op::ConjTrans;
            return J("hetrf", [=](Sink& o) { Mx<T> a(A); std::vector<int> pv(n); o.put(hetrf(u, a.v, pv, ho)); a.to(o), o.vec(pv); });
        }
        case 43: {
            auto A = mat(m, n), D = mat(m, k), E = mat(n, k);
            int f = (int)c.draw(4);
            return J("level-2 orthogonal", [=](Sink& o) {
                Mx<T> a(A);
                std::vector<T> tau(p);
                o.put(f == 0 ? geqr2(a.v, tau) : f == 1 ? gelq2(a.v, tau) : f == 2 ? geql2(a.v, tau) : gerq2(a.v, tau));
                a.to(o), o.vec(tau);
                bool cw = f == 0 || f == 2;
                size_t r0 = cw || f == 1 ? 0 : m - p, c0 = !cw || f == 0 ? 0 : n - p;
                auto V = slice(a.v, std::pair<size_t, size_t>(r0, r0 + (cw ? m : p)), std::pair<size_t, size_t>(c0, c0 + (cw ? p : n)));
                Mx<T> d(cw ? D : E);
                if (f == 0) unm2r(Side::Left, Op::ConjTrans, V, tau, d.v); else if (f == 1) unml2(Side::Left, Op::ConjTrans, V, tau, d.v);
                else if (f == 2) unm2l(Side::Left, Op::ConjTrans, V, tau, d.v); else unmr2(Side::Left, Op::ConjTrans, V, tau, d.v);
                d.to(o);
                if (f == 0) ung2r(V, tau); else if (f == 1) ungl2(V, tau); else if (f == 2) ung2l(V, tau); else ungr2(V, tau);
                a.to(o);
            });
        }
        case 44: {
            auto A = mat(m, n);
            return J("gebd2/ungbr", [=](Sink& o) {
                Mx<T> a(A), b(Dense<T>(n, n));
                std::vector<T> t1(p), t2(p);
                o.put(gebd2(a.v, t1, t2));
                a.to(o), o.vec(t1), o.vec(t2);
                for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < std::min(m, n); ++i) b.v(i, j) = a.v(i, j);
                if (m >= n) { ungbr_p(m, b.v, t2); b.to(o); }
            });
        }
        case 45: {
            if (m < k) std::swap(m, k);
            auto V = mat(m, k), D = mat(m, n), E = mat(n, m);
            auto tau = mat(k, 1).a;
            Direction dir = c.coin() ? Direction::Forward : Direction::Backward;
            return J("larf/larft/larfb", [=](Sink& o) {
                Mx<T> v(V), t(Dense<T>(k, k)), d(D), e(E);
                larft(dir, StoreV::Columnwise, v.v, tau, t.v);
                t.to(o);
                larfb(Side::Left, o1 == Op::Trans && cplx<T> ? Op::ConjTrans : o1, dir, StoreV::Columnwise, v.v, t.v, d.v);
                larfb(Side::Right, o2 == Op::Trans && cplx<T> ? Op::ConjTrans : o2, dir, StoreV::Columnwise, v.v, t.v, e.v);
                auto x = col(v.v, 0);
                larf(Side::Left, dir, StoreV::Columnwise, x, tau[0], d.v);
                larf(Side::Right, dir, StoreV::Columnwise, x, tau[0], e.v);
                d.to(o), e.to(o);
            });
        }
        default: {
            R d1 = std::fabs(ar), d2 = std::fabs(br), x1 = uniR<R>(c), y1 = uniR<R>(c);
            auto x = mat(n, 1);
            return J("rotmg/rscl", [=](Sink& o) { R e1 = d1, e2 = d2, f1 = x1; R h[4] = {0, 0, 0, 0}; o.put(rotmg(e1, e2, f1, y1, h)); for (R v : h) o.put(v); o.put(e1), o.put(e2), o.put(f1); auto xv = x.a; rscl(al, xv); o.vec(xv); });
        }
    }
}
inline Job anyJob(Case& c, size_t cap)
{
    int k = (int)c.draw(KINDS);
    switch ((int)c.draw(4)) {
        case 0: return makeJob<double>(c, k, cap);
        case 1: return makeJob<float>(c, k, cap);
        case 2: return makeJob<std::complex<double>>(c, k, cap);
        default: return makeJob<std::complex<float>>(c, k, cap);
    }
}
