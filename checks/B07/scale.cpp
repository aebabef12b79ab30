// flags: -DTLAPACK_CHECK_INPUT
// libs: -lquadmath
#include "blasref.hpp"
#include "tlapack/blas/nrm2.hpp"
#include "tlapack/lapack/ladiv.hpp"
#include "tlapack/lapack/lapy2.hpp"
#include "tlapack/lapack/lapy3.hpp"
#include "tlapack/lapack/lascl.hpp"
#include "tlapack/lapack/lassq.hpp"
#include "tlapack/lapack/rscl.hpp"
#include "range.hpp"
// --- Euclidean norm and scaled sum of squares
template <class T> void tNrm2(Case& c)
{
    using R = real_t<T>;
    size_t n = c.chance(1, 20) ? (size_t)c.range(10, 200) : (size_t)c.size(0, 12);
    Spread s = genSpread<R>(c);
    GVec<T> x(c, n);
    Q sum = 0;
    bool nan = false, inf = false;
    int special = c.chance(1, 12) ? (int)c.range(1, 2) : 0;
    for (size_t i = 0; i < n; ++i) x[i] = genT<T>(c, s);
    while (special-- > 0 && n) {
        R v = genSpecial<R>(c);
        size_t i = c.draw(n);
        if constexpr (cplx<T>) x[i] = c.coin() ? T(v, x[i].imag()) : T(x[i].real(), v);
        else x[i] = v;
    }
    for (size_t i = 0; i < n; ++i) {
        nan |= isnanT(x[i]), inf |= !isnanT(x[i]) && !isfin(x[i]);
        if constexpr (cplx<T>) inf |= std::isinf(x[i].real()) || std::isinf(x[i].imag());
        if (isfin(x[i])) sum += (Q)re(x[i]) * (Q)re(x[i]) + (Q)im(x[i]) * (Q)im(x[i]);
    }
    int op = (int)c.draw(3);
    const char* names[] = {"nrm2", "lassq", "lassq-absF"};
    R scl = 1, ssq = 0;
    if (op) {
        int k = (int)c.draw(4);
        if (k == 1) scl = 0, ssq = R(c.range(0, 3));
        if (k >= 2) scl = std::fabs(genR<R>(c, s)), ssq = std::fabs(genR<R>(c, k == 2 ? Spread{0, 6} : genSpread<R>(c)));
    }
    Q prev = (Q)scl * (Q)scl * (Q)ssq;
    c.desc(names[op], "n", n, "inc", x.inc, "scale", scl, "sumsq", ssq, "x", show(colVec(x.get())));
    c.label(names[op] + std::string(nan ? " NaN" : inf ? " Inf" : ""));
    c.nontrivial(n >= 2 && sum > 0 && (sum > MAXQ<R>() / 16 || sum < (Q)Lim<R>::min() * 16 || nan || inf));
    auto X = x.view();
    x.snapshot();
    double k = 4 + 1.0 * n;
    if (op == 0) {
        R r = tlapack::nrm2(X);
        if (nan) c.check(r != r || (cplx<T> && inf && std::isinf(r)), "nrm2/nan-lost", "got ", r);
        else if (inf) c.check(std::isinf(r) && r > 0, "nrm2/inf-lost", "got ", r);
        else near(c, "nrm2", r, sqrtq(sum), k, 4 + 2 * std::sqrt((double)n));
    }
    else {
        if (sqrtq(prev) > MAXQ<R>() / 4) throw pbt::Discard();
        // the existing sum must be representable in scaled form
        if (op == 1) tlapack::lassq(X, scl, ssq);
        else tlapack::lassq(X, scl, ssq, [](const T& v) -> R { return std::abs(v); });
        if (nan) c.check(scl != scl || ssq != ssq || (cplx<T> && inf && std::isinf(ssq)), "lassq/nan-lost", "scale ", scl, " sumsq ", ssq);
        else if (inf) c.check(!std::isfinite(scl) || !std::isfinite(ssq), "lassq/inf-lost", "scale ", scl, " sumsq ", ssq);
        else {
            Q want = sqrtq(sum + prev), got = (Q)scl * sqrtq((Q)ssq);
            if (want > MAXQ<R>() * (1 - 200 * EPS<R>())) return;
            Q tol = k * EPS<R>() * want + (4 + 2 * std::sqrt((double)n)) * DEN<R>();
            c.check(got == got && qabs(got - want) <= tol, "lassq/value", "got ", qs(got), " want ", qs(want), " scale ", scl, " sumsq ", ssq);
            c.ratio("lassq", (double)(qabs(got - want) / tol), 1);
        }
    }
    x.unchanged(c, names[op]);
}
template <class R> void tHypot(Case& c)
{
    Spread s = genSpread<R>(c);
    R v[3];
    for (auto& x : v) x = genR<R>(c, s);
    bool three = c.coin();
    if (c.chance(1, 10)) v[c.draw(3)] = genSpecial<R>(c);
    if (!three) v[2] = 0;
    bool nan = std::isnan(v[0]) || std::isnan(v[1]) || std::isnan(v[2]), inf = std::isinf(v[0]) || std::isinf(v[1]) || std::isinf(v[2]);
    c.desc(three ? "lapy3" : "lapy2", v[0], v[1], v[2]);
    Q sum = (Q)v[0] * v[0] + (Q)v[1] * v[1] + (Q)v[2] * v[2];
    c.nontrivial(nan || inf || sum > MAXQ<R>() / 16 || sum < (Q)Lim<R>::min() * 16);
    c.label(std::string(three ? "lapy3" : "lapy2") + (nan ? " NaN" : inf ? " Inf" : ""));
    R r = three ? tlapack::lapy3(v[0], v[1], v[2]) : tlapack::lapy2(v[0], v[1]);
    if (nan) c.check(r != r || (inf && std::isinf(r)), "hypot/nan-lost", "got ", r);
    else if (inf) c.check(!std::isfinite(r), "hypot/inf-lost", "got ", r);
    else near(c, three ? "lapy3" : "lapy2", r, sqrtq(sum), 6, 3);
}
template <class R> void tLadiv(Case& c)
{
    Spread s1 = genSpread<R>(c), s2 = c.coin() ? s1 : genSpread<R>(c);
    Spread s3 = c.coin() ? s1 : genSpread<R>(c), s4 = c.coin() ? s2 : genSpread<R>(c);
    R a = genR<R>(c, s1), b = genR<R>(c, s3), e = genR<R>(c, s2), d = genR<R>(c, s4), p = 77, q = 77;
    bool cx = c.coin();
    int special = c.chance(1, 12) ? 1 : 0;
    if (special) { R v = Lim<R>::quiet_NaN(); int k = (int)c.draw(4); (k == 0 ? a : k == 1 ? b : k == 2 ? e : d) = v; }
    c.desc("ladiv", a, b, e, d, cx ? "complex" : "real");
    if (e == 0 && d == 0) throw pbt::Discard();
    if (cx) { auto z = tlapack::ladiv(std::complex<R>(a, b), std::complex<R>(e, d)); p = z.real(), q = z.imag(); }
    else tlapack::ladiv(a, b, e, d, p, q);
    if (special) { c.nontrivial(); c.label("ladiv NaN"); c.check(p != p || q != q, "ladiv/nan-lost", "got ", p, ",", q); return; }
    Q den = (Q)e * e + (Q)d * d, P = ((Q)a * e + (Q)b * d) / den, S = ((Q)b * e - (Q)a * d) / den, mod = sqrtq(P * P + S * S);
    c.nontrivial(den > MAXQ<R>() / 16 || den < (Q)Lim<R>::min() * 16 || (mod != 0 && (mod < (Q)Lim<R>::min() * 16 || mod > MAXQ<R>() / 16)));
    c.label("ladiv");
    near(c, "ladiv-re", p, P, 16, 8, mod);
    near(c, "ladiv-im", q, S, 16, 8, mod);
    // componentwise where the two terms of the numerator do not cancel
    // and no operand, ratio or product of the algorithm is itself subnormal
    if (mod > MAXQ<R>() * (1 - 200 * EPS<R>())) return;
    Q mn = (Q)Lim<R>::min(), hi = std::max(qabs(e), qabs(d)), lo = std::min(qabs(e), qabs(d)), ab = std::max(qabs(a), qabs(b));
    Q small = 4 * (Q)tlapack::safe_min<R>() / EPS<R>();
    if (hi >= MAXQ<R>() / 4 || ab >= MAXQ<R>() / 4 || hi <= small || ab <= small) return;
    for (Q x : {(Q)a, (Q)b, (Q)e, (Q)d, lo / hi}) if (x != 0 && qabs(x) < 4 * mn) return;
    for (Q x : {a * (lo / hi), b * (lo / hi)}) if (qabs(x) < 4 * mn && qabs(x) >= DEN<R>() / 4) return;
    if ((Q)a * e * ((Q)b * d) >= 0) c.label("ladiv componentwise"), near(c, "ladiv-re-component", p, P, 16, 8);
    if ((Q)b * e * ((Q)a * d) <= 0) near(c, "ladiv-im-component", q, S, 16, 8);
}
template <class T, class TA> void tRscl(Case& c)
{
    using R = real_t<T>;
    size_t n = c.chance(1, 40) ? (size_t)c.range(10, 150) : (size_t)c.size(0, 6);
    Spread s1 = genSpread<R>(c), s2 = c.coin() ? s1 : genSpread<R>(c);
    TA al = genT<TA>(c, s1);
    if (c.chance(1, 6)) al = mk<TA>(re(al), R(0));
    if (c.chance(1, 6)) al = mk<TA>(R(0), im(al));
    if (al == TA(0)) throw pbt::Discard();
    GVec<T> x(c, n);
    for (size_t i = 0; i < n; ++i) x[i] = genT<T>(c, s2);
    auto x0 = x.get();
    c.desc("rscl alpha", re(al), im(al), "n", n, "inc", x.inc, "x", show(colVec(x0)));
    c.nontrivial(n >= 1 && (mag(al) < (double)Lim<R>::min() * 16 || mag(al) > (double)Lim<R>::max() / 16 || (im(al) != 0 && re(al) != 0)));
    c.label(cplx<TA> ? "rscl complex" : "rscl real");
    auto X = x.view();
    tlapack::rscl(al, X);
    Q e = re(al), d = im(al), den = e * e + d * d;
    // the signature names the branch of the complex algorithm that is exercised
    Q sm = tlapack::safe_min<R>(), hi = qabs(e) > qabs(d) ? qabs(e) : qabs(d), lo = qabs(e) > qabs(d) ? qabs(d) : qabs(e);
    std::string w = "rscl";
    if (lo > 0 || (e == 0 && hi > 0)) {
        if (hi < 4 * sm / EPS<R>()) w = "rscl-complex-tiny-alpha";
        else if (lo > 0 && hi * (hi / lo) > 1 / sm / 4 && hi * 4 <= 1 / sm) w = "rscl-complex-mixed-alpha";
        else w = "rscl-complex";
    }
    c.label(w);
    for (size_t i = 0; i < n; ++i) {
        Q a = re(x0[i]), b = im(x0[i]);
        Q P = (a * e + b * d) / den, S = (b * e - a * d) / den, mod = sqrtq(P * P + S * S);
        near(c, w, re(x[i]), P, 12, 6, mod);
        if (cplx<T>) near(c, w, im(x[i]), S, 12, 6, mod);
    }
    x.margins(c, "rscl");
}
template <class T, Layout L> void tLascl(Case& c)
{
    using R = real_t<T>;
    size_t m = c.chance(1, 40) ? (size_t)c.range(10, 70) : (size_t)c.size(0, 6), n = c.chance(1, 40) ? (size_t)c.range(10, 70) : (size_t)c.size(0, 6);
    Spread s1 = genSpread<R>(c), s2 = c.coin() ? s1 : genSpread<R>(c), s3 = genSpread<R>(c);
    R a = genR<R>(c, s1), b = genR<R>(c, s2);
    if (b == 0) b = 1;
    bool band = c.coin() && m > 0 && n > 0;
    size_t kl = 0, ku = 0;
    if (band) kl = c.draw(m), ku = c.draw(n);
    tlapack::Uplo u = c.pick({Uplo::General, Uplo::Upper, Uplo::Lower, Uplo::StrictUpper, Uplo::StrictLower, Uplo::UpperHessenberg, Uplo::LowerHessenberg});
    GMat<T, L> A(c, m, n);
    Dense<T> A0(m, n);
    for (auto& v : A0.a) v = genT<T>(c, s3);
    auto in = [&](size_t i_, size_t j_) {
        long i = (long)i_, j = (long)j_;
        if (band) return i - j <= (long)kl && j - i <= (long)ku;
        switch (u) {
            case Uplo::Upper: return i <= j;
            case Uplo::Lower: return i >= j;
            case Uplo::StrictUpper: return i < j;
            case Uplo::StrictLower: return i > j;
            case Uplo::UpperHessenberg: return i <= j + 1;
            case Uplo::LowerHessenberg: return j <= i + 1;
            default: return true;
        }
    };
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (!in(i, j)) A0(i, j) = nanT<T>();
    A.set(A0), A.snapshot();
    c.desc("lascl", band ? "band" : "uplo", (int)(char)u, kl, ku, "b", b, "a", a, "A", show(A0));
    c.label(band ? "lascl band" : std::string("lascl ") + (char)u);
    Q r = (Q)a / (Q)b;
    c.nontrivial(m >= 1 && n >= 1 && a != 0 && (qabs(r) > MAXQ<R>() || qabs(r) < (Q)Lim<R>::min()));
    auto Av = A.view();
    int info = band ? tlapack::lascl(tlapack::BandAccess{kl, ku}, b, a, Av) : tlapack::lascl(u, b, a, Av);
    c.check(info == 0, "lascl/info", info);
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < m; ++i) if (in(i, j)) {
        near(c, "lascl", re(A(i, j)), (Q)re(A0(i, j)) * r, 4, 4);
        if (cplx<T>) near(c, "lascl", im(A(i, j)), (Q)im(A0(i, j)) * r, 4, 4);
    }
    A.onlyChanged(c, "lascl", in);
}
static const char* RN = "at least two entries and the plain sum of squares over/underflows, or a NaN/Inf is present";
static const char* RH = "the plain sum of squares over/underflows, or a NaN/Inf is present";
static const char* RD = "|divisor|^2 or the quotient is near or beyond the range limits, or a NaN is present";
static const char* RR = "non-empty vector and alpha extreme or fully complex";
static const char* RL = "non-empty matrix and a/b itself over/underflows";
static pbt::Reg n1("nrm2/float", 60000, 1500000, tNrm2<float>, RN);
static pbt::Reg n2("nrm2/double", 60000, 1500000, tNrm2<double>, RN);
static pbt::Reg n3("nrm2/cfloat", 60000, 1500000, tNrm2<CF>, RN);
static pbt::Reg n4("nrm2/cdouble", 60000, 1500000, tNrm2<CD>, RN);
static pbt::Reg h1("hypot/float", 60000, 3000000, tHypot<float>, RH);
static pbt::Reg h2("hypot/double", 60000, 3000000, tHypot<double>, RH);
static pbt::Reg d1("ladiv/float", 100000, 5000000, tLadiv<float>, RD);
static pbt::Reg d2("ladiv/double", 100000, 5000000, tLadiv<double>, RD);
static pbt::Reg r1("rscl/float", 60000, 1500000, tRscl<float, float>, RR);
static pbt::Reg r2("rscl/cdouble-real", 60000, 1500000, tRscl<CD, double>, RR);
static pbt::Reg r3("rscl/cfloat", 60000, 1500000, tRscl<CF, CF>, RR);
static pbt::Reg r4("rscl/cdouble", 60000, 1500000, tRscl<CD, CD>, RR);
static pbt::Reg l1("lascl/float", 60000, 1500000, tLascl<float, LC>, RL);
static pbt::Reg l2("lascl/double", 60000, 1500000, tLascl<double, LR>, RL);
static pbt::Reg l3("lascl/cfloat", 40000, 1500000, tLascl<CF, LR>, RL);
static pbt::Reg l4("lascl/cdouble", 40000, 1500000, tLascl<CD, LC>, RL);
