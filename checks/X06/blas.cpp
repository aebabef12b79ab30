// flags: -O0
// variant: d
// variant: c -DX6_C
// variant: l -DUM_LEGACY
// variant: i -DX6_I
// variant: e -DX6_E -isystem /usr/include/eigen3
#include "store.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/blas/symm.hpp"
#include "tlapack/blas/hemm.hpp"
#include "tlapack/blas/syrk.hpp"
#include "tlapack/blas/herk.hpp"
#include "tlapack/blas/syr2k.hpp"
#include "tlapack/blas/her2k.hpp"
#include "tlapack/blas/trmm.hpp"
#include "tlapack/blas/trsm.hpp"
#include "tlapack/blas/gemv.hpp"
#include "tlapack/blas/hemv.hpp"
#include "tlapack/blas/symv.hpp"
#include "tlapack/blas/trmv.hpp"
#include "tlapack/blas/trsv.hpp"
#include "tlapack/blas/ger.hpp"
#include "tlapack/blas/geru.hpp"
#include "tlapack/blas/her.hpp"
#include "tlapack/blas/syr.hpp"
#include "tlapack/blas/her2.hpp"
#include "tlapack/blas/syr2.hpp"
#include "tlapack/blas/dot.hpp"
#include "tlapack/blas/dotu.hpp"
#include "tlapack/blas/axpy.hpp"
#include "tlapack/blas/copy.hpp"
#include "tlapack/blas/swap.hpp"
#include "tlapack/blas/scal.hpp"
#include "tlapack/blas/rot.hpp"
#include "tlapack/blas/iamax.hpp"
#include "tlapack/blas/asum.hpp"
#include "tlapack/blas/nrm2.hpp"
using namespace tlapack;
using tlapack::real_type;
template <class T> std::vector<T> rv(Case& c, size_t n) { return genMat<T>(c, n, 1).a; }
template <class T> Dense<T> dom(Case& c, Dense<T> A) { for (size_t i = 0; i < A.n; ++i) A(i, i) = T(real_t<T>(2) + re(A(i, i))); return A; }
template <class T> T sc(Case& c) { return c.pick<int>({0, 1, 2}) == 0 ? T(real_t<T>(1)) : genMat<T>(c, 1, 1)(0, 0); }

template <class T> void tB3(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(0, 12), n = c.size(0, 12), k = c.size(0, 12);
    int f = (int)c.draw(9);
    Op oa = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans}), ob = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans});
    Uplo u = genUplo(c);
    Side s = genSide(c);
    Diag d = genDiag(c);
    T al = sc<T>(c), be = sc<T>(c);
    R ar = re(al), br = re(be);
    c.desc("level 3", f, m, n, k, nm(u), nm(s), nm(d), nm(oa), nm(ob));
    c.nontrivial(m > 1 && n > 1 && k > 1);
    auto dims = [](Op o, size_t p, size_t q) { return o == Op::NoTrans ? std::make_pair(p, q) : std::make_pair(q, p); };
    size_t na = s == Side::Left ? m : n;
    auto gen = [&](size_t p, size_t q) { return genMat<T>(c, p, q); };
    Dense<T> A, B, C = gen(m, n);
    bool kk = f >= 3 && f <= 6;  // rank-k updates of an n x n matrix
    if (f == 4 && oa == Op::Trans) oa = Op::ConjTrans;
    if (f == 6 && oa == Op::Trans) oa = Op::ConjTrans;
    if ((f == 3 || f == 5) && oa == Op::ConjTrans) oa = Op::Trans;
    if (f == 0) { auto p = dims(oa, m, k), q = dims(ob, k, n); A = gen(p.first, p.second), B = gen(q.first, q.second); }
    else if (kk) { auto p = dims(oa, n, k); A = gen(p.first, p.second), B = gen(p.first, p.second), C = gen(n, n); }
    else A = dom<T>(c, gen(na, na)), B = gen(m, n);
    sweep<T>(c, "level3-" + std::to_string(f), [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A), b = mat(c, sb, B), e = mat(c, sd, C);
        auto&& av = a.view();
        auto&& bv = b.view();
        auto&& ev = e.view();
        switch (f) {
            case 0: gemm(oa, ob, al, av, bv, be, ev); break;
            case 1: symm(s, u, al, av, bv, be, ev); break;
            case 2: hemm(s, u, al, av, bv, be, ev); break;
            case 3: syrk(u, oa, al, av, be, ev); break;
            case 4: herk(u, oa, ar, av, br, ev); break;
            case 5: syr2k(u, oa, al, av, bv, be, ev); break;
            case 6: her2k(u, oa, al, av, bv, br, ev); break;
            case 7: trmm(s, u, oa, d, al, av, bv); break;
            default: trsm(s, u, oa, d, al, av, bv); break;
        }
        Out o;
        o.add("A", a.get());
        o.add("B", b.get());
        o.add("C", e.get());
        a.margins(c, "A"), b.margins(c, "B"), e.margins(c, "C");
        return o;
    });
}
template <class T> void tB2(Case& c)
{
    using R = real_t<T>;
    size_t m = c.size(0, 14), n = c.size(0, 14);
    int f = (int)c.draw(11);
    if (f != 0 && f != 5 && f != 6) m = n;
    Op oa = c.pick({Op::NoTrans, Op::Trans, Op::ConjTrans, Op::Conj});
    Uplo u = genUplo(c);
    Diag d = genDiag(c);
    T al = sc<T>(c), be = sc<T>(c);
    R ar = re(al);
    c.desc("level 2", f, m, n, nm(u), nm(d), nm(oa));
    c.nontrivial(m > 1 && n > 1);
    bool tr = f == 0 && (oa == Op::Trans || oa == Op::ConjTrans);
    Dense<T> A = genMat<T>(c, m, n);
    if (f == 4) A = dom<T>(c, A);
    // x of the length of the right dimension
    std::vector<T> x = rv<T>(c, f == 5 || f == 6 ? m : tr ? m : n), y = rv<T>(c, f == 5 || f == 6 ? n : tr ? n : m);
    sweep<T>(c, "level2-" + std::to_string(f), [&](auto sa, auto sb, auto sd) {
        auto a = mat(c, sa, A);
        auto b = vec(c, sb, x), e = vec(c, sd, y);
        auto&& av = a.view();
        auto&& bv = b.view();
        auto&& ev = e.view();
        switch (f) {
            case 0: gemv(oa, al, av, bv, be, ev); break;
            case 1: hemv(u, al, av, bv, be, ev); break;
            case 2: symv(u, al, av, bv, be, ev); break;
            case 3: trmv(u, oa, d, av, bv); break;
            case 4: trsv(u, oa, d, av, bv); break;
            case 5: ger(al, bv, ev, av); break;
            case 6: geru(al, bv, ev, av); break;
            case 7: her(u, ar, bv, av); break;
            case 8: syr(u, al, bv, av); break;
            case 9: her2(u, al, bv, ev, av); break;
            default: syr2(u, al, bv, ev, av); break;
        }
        Out o;
        o.add("A", a.get());
        o.add("x", b.get());
        o.add("y", e.get());
        a.margins(c, "A"), b.margins(c, "x"), e.margins(c, "y");
        return o;
    });
}
template <class T> void tB1(Case& c)
{
    using R = real_t<T>;
    size_t n = c.size(0, 20);
    int f = (int)c.draw(9);
    T al = sc<T>(c);
    std::vector<T> x = rv<T>(c, n), y = rv<T>(c, n);
    R cs(0.6f), sn(0.8f);
    c.desc("level 1", f, n);
    c.nontrivial(n > 1);
    sweep<T>(c, "level1-" + std::to_string(f), [&](auto sa, auto sb, auto) {
        auto a = vec(c, sa, x), b = vec(c, sb, y);
        auto&& av = a.view();
        auto&& bv = b.view();
        Out o;
        switch (f) {
            case 0: o.add("dot", std::vector<T>{dot(av, bv)}); break;
            case 1: o.add("dotu", std::vector<T>{dotu(av, bv)}); break;
            case 2: axpy(al, av, bv); break;
            case 3: tlapack::copy(av, bv); break;
            case 4: tlapack::swap(av, bv); break;
            case 5: scal(al, av); break;
            case 6: rot(av, bv, cs, T(sn)); break;
            case 7: o.num("iamax", (long double)iamax(av)); break;
            default: o.add("norms", std::vector<R>{asum(av), nrm2(av)});
        }
        o.add("x", a.get());
        o.add("y", b.get());
        a.margins(c, "x"), b.margins(c, "y");
        return o;
    });
}
#ifdef X6_C
using XT = std::complex<float>;
#else
using XT = double;
#endif
static pbt::Reg a1("level3", 12000, 400000, tB3<XT>, "all dimensions at least 2");
static pbt::Reg b1("level2", 12000, 400000, tB2<XT>, "all dimensions at least 2");
static pbt::Reg c1("level1", 12000, 400000, tB1<XT>, "n > 1");
