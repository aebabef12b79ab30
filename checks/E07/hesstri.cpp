// libs: -lquadmath
#include "pencil.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/gghd3.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/inv_house3.hpp"
#include "range.hpp"
using namespace tlapack;
template <class T, Layout L> void tHT(Case& c)
{
    size_t n = c.chance(1, 3) ? (size_t)c.range(8, 40) : dimF(c);
    size_t ilo = 0, ihi = n;
    if (n && c.chance(1, 2)) ilo = (size_t)c.range(0, (int64_t)n - 1), ihi = (size_t)c.range((int64_t)ilo + 1, (int64_t)n);
    bool blocked = c.chance(2, 3);
    std::string w = blocked ? "gghd3" : "gghrd", kb, ka;
    bool wq = !c.chance(1, 4), wz = !c.chance(1, 4);
    Dense<T> B0 = genTriB<T>(c, n, kb), A0 = genMat<T>(c, n, n, 0, &ka);
    int sa = c.chance(1, 6) ? (int)c.range(-1, 1) * bigScale<T>() : 0, sb = c.chance(1, 6) ? (int)c.range(-1, 1) * bigScale<T>() : 0;
    for (auto& x : A0.a) x = scaleP2(x, sa);
    for (auto& x : B0.a) x = scaleP2(x, sb);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) if (j < ilo || i >= ihi) A0(i, j) = T(0);
    Gghd3Opts o;
    o.nb = genNb(c);
    c.desc(w, "n", n, "ilo", ilo, "ihi", ihi, "Q", wq, "Z", wz, "nb", o.nb, "A", ka, "B", kb);
    c.label(w), c.label("B " + kb), c.label(wq ? wz ? "both factors" : "Q only" : wz ? "Z only" : "no factors");
    c.nontrivial(ihi - ilo >= 3 && normMax(A0) > 0);
    if (blocked && ihi - ilo > o.nb + 2) c.label("several panels");
    GMat<T, L> GA(c, n, n), GB(c, n, n), GQ(c, n, n), GZ(c, n, n);
    GA.set(A0), GB.set(B0);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) GB(i, j) = nanT<T>();  // overwritten by zeros
    Dense<T> Q0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n), Z0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
    if (wq) GQ.set(Q0);
    else GQ.fill(nanT<T>());
    if (wz) GZ.set(Z0);
    else GZ.fill(nanT<T>());
    GA.snapshot(), GB.snapshot(), GQ.snapshot(), GZ.snapshot();
    auto A = GA.view(), B = GB.view(), Q = GQ.view(), Z = GZ.view();
    int info = !blocked ? gghrd(wq, wz, ilo, ihi, A, B, Q, Z) : c.coin() ? gghd3(wq, wz, ilo, ihi, A, B, Q, Z, o) : (o.nb = 32, gghd3(wq, wz, ilo, ihi, A, B, Q, Z));
    c.check(info == 0, w + "/info", info);
    auto outside = [&](size_t i, size_t j) { bool ri = i >= ilo && i < ihi, cc = j >= ilo && j < ihi; return (ri && j >= ilo) || (cc && i < ihi); };
    GA.onlyChanged(c, w + "/A", outside);
    GB.onlyChanged(c, w + "/B", [&](size_t i, size_t j) { return i > j || outside(i, j); });
    GQ.onlyChanged(c, w + "/Q", [&](size_t, size_t j) { return wq && j >= ilo && j < ihi; });
    GZ.onlyChanged(c, w + "/Z", [&](size_t, size_t j) { return wz && j >= ilo && j < ihi; });
    Dense<T> H = GA.get(), R = GB.get();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (i > j + 1) c.check(H(i, j) == T(0), w + "/not-Hessenberg", "A(", i, ",", j, ") = ", H(i, j));
        c.check(R(i, j) == T(0), w + "/not-triangular", "B(", i, ",", j, ") = ", R(i, j));
    }
    checkPair(c, w, A0, B0, H, R, wq, wz, Q0, GQ.get(), Z0, GZ.get(), (double)n);
}
static const char* RULE = "active block of order at least 3 and A not zero";
static pbt::Reg a1("gghrd-gghd3/float/Col", 8000, 240000, tHT<F, LC>, RULE);
static pbt::Reg a2("gghrd-gghd3/double/Row", 8000, 240000, tHT<D, LR>, RULE);
static pbt::Reg a3("gghrd-gghd3/cfloat/Row", 8000, 240000, tHT<CF, LR>, RULE);
static pbt::Reg a4("gghrd-gghd3/cdouble/Col", 8000, 240000, tHT<CD, LC>, RULE);
// --- rotations from the left moved to the right
template <class T, Layout L> void tHRQ(Case& c)
{
    using W = wide<T>;
    using R = real_t<T>;
    size_t n = c.chance(1, 4) ? (size_t)c.range(10, 40) : (size_t)c.range(1, 10);
    std::string kb;
    Dense<T> T0 = genTriB<T>(c, n, kb);
    std::vector<R> cl(n - 1);
    std::vector<T> sl(n - 1);
    for (size_t i = 0; i + 1 < n; ++i) {
        T a = uni<T>(c), b = uni<T>(c);
        int k = (int)c.draw(6);
        if (k == 1) b = T(0);
        if (k == 2) a = T(0);
        if (k == 3) a = scaleP2(a, -(int)c.range(0, 60));
        long double ra = mag(a), rb = mag(b), q = std::sqrt(ra * ra + rb * rb);
        if (q == 0) { cl[i] = 1, sl[i] = T(0); continue; }
        cl[i] = (R)(ra / q);
        sl[i] = scaleP2(b, 0) / (R)q;
    }
    c.desc("hessenberg_rq n", n, kb, "T", show(T0));
    c.nontrivial(n >= 2 && normMax(T0) > 0);
    c.label(kb);
    GMat<T, L> GT(c, n, n);
    GVec<R> gcl(c, n - 1), gcr(c, n - 1);
    GVec<T> gsl(c, n - 1), gsr(c, n - 1);
    GT.set(T0), gcl.set(cl), gsl.set(sl);
    for (size_t i = 0; i + 1 < n; ++i) gcr[i] = nanT<R>(), gsr[i] = nanT<T>();
    gcl.snapshot(), gsl.snapshot(), GT.snapshot();
    auto t = GT.view();
    auto vcl = gcl.view(), vcr = gcr.view();
    auto vsl = gsl.view(), vsr = gsr.view();
    hessenberg_rq(t, vcl, vsl, vcr, vsr);
    gcl.unchanged(c, "hessenberg_rq/cl"), gsl.unchanged(c, "hessenberg_rq/sl"), gcr.margins(c, "hessenberg_rq/cr"), gsr.margins(c, "hessenberg_rq/sr");
    GT.onlyChanged(c, "hessenberg_rq/T", [&](size_t i, size_t j) { return i <= j + 1; });
    Dense<W> X = widenM<W>(T0), Y = GT.template getW<W>();
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) c.check(Y(i, j) == W(0), "hessenberg_rq/not-triangular", "T(", i, ",", j, ") = ", (double)mag(Y(i, j)));
    double e = eps<T>(), nf = normF(X) + tinyOf<T>();
    // left side, forward direction: row pairs (0,1), (1,2), ... processed from the last pair (P_0 P_1 ... applied as documented by rot_sequence)
    for (size_t q = n - 1; q-- > 0;) for (size_t j = 0; j < n; ++j) {
        W cc = W(real_t<W>(cl[q])), s = widen<W>(sl[q]), a = X(q, j), b = X(q + 1, j);
        X(q, j) = cc * a + s * b, X(q + 1, j) = -cj(s) * a + cc * b;
    }
    for (size_t q = 0; q + 1 < n; ++q) {
        W cc = W(real_t<W>(gcr[q])), s = widen<W>(gsr[q]);
        c.ratio("hessenberg_rq/rotation", std::fabs(mag(cc) * mag(cc) + mag(s) * mag(s) - 1), 20 * e);
    }
    // Y with the right rotations applied (forward) reproduces X: columns (q,q+1), q = 0..n-2
    for (size_t q = 0; q + 1 < n; ++q) for (size_t i = 0; i < n; ++i) {
        W cc = W(real_t<W>(gcr[q])), s = widen<W>(gsr[q]), a = Y(i, q), b = Y(i, q + 1);
        Y(i, q) = cc * a - cj(s) * b, Y(i, q + 1) = s * a + cc * b;
    }
    c.ratio("hessenberg_rq/residual", normF(sub(X, Y)), (20 + 2.0 * n) * e * nf);
}
static const char* RH = "order at least 2 and a nonzero matrix";
static pbt::Reg h1("hessenberg_rq/float/Row", 6000, 180000, tHRQ<F, LR>, RH);
static pbt::Reg h2("hessenberg_rq/double/Col", 6000, 180000, tHRQ<D, LC>, RH);
static pbt::Reg h3("hessenberg_rq/cfloat/Col", 6000, 180000, tHRQ<CF, LC>, RH);
static pbt::Reg h4("hessenberg_rq/cdouble/Row", 6000, 180000, tHRQ<CD, LR>, RH);
