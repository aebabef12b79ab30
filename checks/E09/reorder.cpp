#include "pencil.hpp"
#include "tlapack/blas/gemm.hpp"
#include "tlapack/lapack/lacpy.hpp"
#include "tlapack/lapack/laset.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
using namespace tlapack;
template <class T> struct Form {
    Dense<T> S, P;
    std::vector<size_t> bs;
    std::string kind;
    bool apart = false;  // eigenvalues 0, 1, 2, ... (one may be infinite), weakly coupled
};
template <class T> Form<T> genForm(Case& c, size_t nb)
{
    using R = real_t<T>;
    Form<T> f;
    size_t n = 0;
    for (size_t i = 0; i < nb; ++i) f.bs.push_back(!cplx<T> && c.chance(2, 5) ? 2 : 1), n += f.bs.back();
    Dense<T> S(n, n), P(n, n);
    const char* names[] = {"apart", "uniform", "integers", "close", "equal", "graded", "weak coupling", "infinite and zero", "identity B"};
    int k = (int)c.draw(9), dg = std::numeric_limits<R>::digits, g = (int)c.range(1, dg);
    f.kind = names[k], f.apart = k == 0;
    std::vector<size_t> perm(nb);
    for (size_t i = 0; i < nb; ++i) perm[i] = i;
    for (size_t i = nb; i > 1; --i) std::swap(perm[i - 1], perm[c.draw(i)]);
    auto pos = [&]() { return std::fabs(uni<R>(c)) / 2 + R(0.5); };
    T base = uni<T>(c);
    R bb = pos(), cc = pos(), pb = pos();
    bool inf = c.coin();
    auto off = [&](int which) -> T {
        if (k == 8 && which) return T(0);
        switch (k) {
            case 0: return uni<T>(c) * R(0.125);
            case 2: return smallInt<T>(c, 3);
            case 6: return scaleP2(uni<T>(c), -(int)c.range(0, dg));
            default: return uni<T>(c);
        }
    };
    for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) S(i, j) = off(0), P(i, j) = off(1);
    size_t p = 0;
    for (size_t b = 0; b < nb; ++b) {
        T d, q0 = pos(), q1 = pos();
        R x = pos(), y = pos();
        switch (k) {
            case 0: d = T(R(perm[b])); break;
            case 2: d = smallInt<T>(c, 3), x = R(c.range(1, 3)), y = R(c.range(1, 3)), q0 = T(R(c.range(1, 3))), q1 = T(R(c.range(1, 3))); break;
            case 3: d = base + scaleP2(uni<T>(c), -g), x = bb * (R(1) + scaleP2(uni<R>(c), -g)), y = cc * (R(1) + scaleP2(uni<R>(c), -g)), q0 = q1 = T(1); break;
            case 4: d = base, x = bb, y = cc, q0 = q1 = T(pb); break;
            default: d = uni<T>(c);
        }
        if (k == 8) q0 = q1 = T(1);
        if (f.bs[b] == 2) {
            if constexpr (!cplx<T>) {  // eigenvalues d +- i sqrt(x y)
                bool s = c.coin();
                P(p, p) = q0, P(p + 1, p + 1) = q1, P(p, p + 1) = T(0);
                S(p, p) = q0 * d, S(p + 1, p + 1) = q1 * d, S(p, p + 1) = s ? x : -x, S(p + 1, p) = s ? -y : y;
            }
        }
        else {
            S(p, p) = q0 * d, P(p, p) = q0;
            if (k == 0 && inf && perm[b] == nb - 1) S(p, p) = q0, P(p, p) = T(0);
            if (k == 7 || k == 2) {
                if (c.chance(1, 3)) P(p, p) = T(0);
                if (c.chance(1, 3)) S(p, p) = T(0);
            }
            if (k == 1 && c.chance(1, 2)) P(p, p) = scaleP2(P(p, p), -(int)c.range(0, dg));
            if (k == 1 && c.chance(1, 2)) S(p, p) = scaleP2(S(p, p), -(int)c.range(0, dg));
            if (k == 1 && c.chance(1, 4)) P(p, p) = -P(p, p);
        }
        p += f.bs[b];
    }
    if (k == 5) {  // graded columns of either factor
        int ga = (int)c.range(0, 6), gb = (int)c.range(0, 6);
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i < j; ++i) {
            S(i, j) = scaleP2(S(i, j), -(int)std::min<size_t>(40, (size_t)ga * (n - j)) * (S(j, i) == T(0)));
            P(i, j) = scaleP2(P(i, j), -(int)std::min<size_t>(40, (size_t)gb * (n - j)) * (P(i, j) != T(0)));
        }
    }
    f.S = S, f.P = P;
    if (c.chance(1, 5)) {
        int m = sizeof(R) == 4 ? 24 : 200, s = (int)c.range(-1, 1) * m, t = (int)c.range(-1, 1) * m;
        for (auto& x : f.S.a) x = scaleP2(x, s);
        for (auto& x : f.P.a) x = scaleP2(x, t);
        c.desc("scale", s, t);
    }
    return f;
}
// coupled Sylvester equations A11 X - Y A22 = -A12, B11 X - Y B22 = -B12 after scaling the factors to norm 1
template <class T> void difOf(const Form<T>& f, size_t j0, size_t n1, size_t n2, double& xn, double& dif)
{
    using CW = std::complex<real_t<wide<T>>>;
    using RW = real_t<wide<T>>;
    size_t m = n1 * n2, N = 2 * m;
    RW na = normF(f.S), nbb = normF(f.P);
    if (na == 0 || nbb == 0) { xn = 1e300, dif = 0; return; }
    Dense<CW> M(N, N + 1);
    for (int h = 0; h < 2; ++h) {
        const Dense<T>& S = h ? f.P : f.S;
        RW sc = h ? nbb : na;
        for (size_t a = 0; a < n1; ++a) for (size_t b = 0; b < n2; ++b) {
            size_t r = h * m + a + b * n1;
            for (size_t k = 0; k < n1; ++k) M(r, k + b * n1) += widen<CW>(S(j0 + a, j0 + k)) / sc;
            for (size_t k = 0; k < n2; ++k) M(r, m + a + k * n1) -= widen<CW>(S(j0 + n1 + k, j0 + n1 + b)) / sc;
            M(r, N) = -widen<CW>(S(j0 + a, j0 + n1 + b)) / sc;
        }
    }
    dif = 1e300;
    for (size_t i = 0; i < N; ++i) {
        size_t pi = i, pj = i;
        for (size_t j = i; j < N; ++j) for (size_t k = i; k < N; ++k) if (mag(M(k, j)) > mag(M(pi, pj))) pi = k, pj = j;
        for (size_t j = 0; j <= N; ++j) std::swap(M(i, j), M(pi, j));
        for (size_t k = 0; k < N; ++k) std::swap(M(k, i), M(k, pj));
        dif = std::min(dif, mag(M(i, i)));
        if (mag(M(i, i)) == 0) { xn = 1e300; return; }
        for (size_t k = 0; k < N; ++k) if (k != i) {
            CW q = M(k, i) / M(i, i);
            for (size_t j = i; j <= N; ++j) M(k, j) -= q * M(i, j);
        }
    }
    xn = 0;
    for (size_t i = 0; i < N; ++i) xn += std::pow(mag(M(i, N) / M(i, i)), 2);
    xn = std::sqrt(xn);
}
template <class T> std::vector<size_t> blocksOf(Case& c, const std::string& w, const Dense<T>& S, const Dense<T>& P)
{
    size_t n = S.n;
    std::vector<size_t> r;
    for (size_t j = 0; j < n; ++j) {
        for (size_t i = j + 2; i < n; ++i) c.check(S(i, j) == T(0), w + "/A-below-subdiagonal", "entry (", i, ",", j, ") = ", S(i, j));
        for (size_t i = j + 1; i < n; ++i) c.check(P(i, j) == T(0), w + "/B-not-triangular", "entry (", i, ",", j, ") = ", P(i, j));
    }
    for (size_t i = 0; i < n; ++i) {
        if (i + 1 >= n || S(i + 1, i) == T(0)) { r.push_back(1); continue; }
        if constexpr (cplx<T>) c.fail(w + "/not-triangular", "entry (", i + 1, ",", i, ") = ", S(i + 1, i));
        else {
            c.check(!(i + 2 < n && S(i + 2, i + 1) != T(0)), w + "/block-larger-than-2", "at ", i);
            c.check(P(i, i + 1) == T(0) && P(i, i) > 0 && P(i + 1, i + 1) > 0, w + "/block-not-standardized", "B block ", P(i, i), " ", P(i, i + 1), " ", P(i + 1, i + 1));
            long double h = ((long double)S(i, i) / P(i, i) - (long double)S(i + 1, i + 1) / P(i + 1, i + 1)) / 2, o = ((long double)S(i, i + 1) / P(i, i)) * ((long double)S(i + 1, i) / P(i + 1, i + 1));
            c.check(h * h + o <= 200 * eps<T>() * (h * h + std::fabs(o)), w + "/real-block", "block at ", i, " has real eigenvalues");
            r.push_back(2), ++i;
        }
    }
    return r;
}
template <class T, Layout L> struct Mats {
    GMat<T, L> A, B, Q, Z;
    Dense<T> Q0, Z0;
    bool wq, wz;
    Mats(Case& c, const Form<T>& f) : A(c, f.S.n, f.S.n), B(c, f.S.n, f.S.n), Q(c, f.S.n, f.S.n), Z(c, f.S.n, f.S.n)
    {
        size_t n = f.S.n;
        wq = !c.chance(1, 4), wz = !c.chance(1, 4);
        c.desc("Q", wq, "Z", wz);
        Q0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n), Z0 = c.coin() ? eye<T>(n) : genUnitary<T>(c, n);
        A.set(f.S), B.set(f.P);
        if (wq) Q.set(Q0);
        else if (c.coin()) Q.fill(nanT<T>());
        else Q.set(genUnitary<T>(c, n));
        if (wz) Z.set(Z0);
        else if (c.coin()) Z.fill(nanT<T>());
        else Z.set(genUnitary<T>(c, n));
        A.snapshot(), B.snapshot(), Q.snapshot(), Z.snapshot();
    }
};
template <class T, Layout L> void tSwap(Case& c)
{
    using CW = std::complex<real_t<wide<T>>>;
    using RW = real_t<wide<T>>;
    size_t nb = (size_t)c.range(2, c.chance(1, 4) ? 7 : 4);
    Form<T> f = genForm<T>(c, nb);
    size_t b = (size_t)c.draw(nb - 1), j0 = 0, n = f.S.n, n1 = f.bs[b], n2 = f.bs[b + 1];
    for (size_t i = 0; i < b; ++i) j0 += f.bs[i];
    bool merged = false;
    if (!cplx<T> && n1 == 1 && b > 0 && f.bs[b - 1] == 1 && c.chance(1, 5)) n1 = 2, --j0, merged = true;
    if (!cplx<T> && n2 == 1 && b + 2 < nb && f.bs[b + 2] == 1 && c.chance(1, 5)) n2 = 2, merged = true;
    std::string w = "generalized_schur_swap/" + std::to_string(n1) + std::to_string(n2) + (merged ? "m" : "");
    c.desc(w, "n", n, "j0", j0, f.kind, "A", show(f.S), "B", show(f.P));
    c.label(w), c.label(f.kind);
    Mats<T, L> m(c, f);
    auto A = m.A.view(), B = m.B.view(), Q = m.Q.view(), Z = m.Z.view();
    c.nontrivial(n >= 3 && normMax(f.S) > 0 && normMax(f.P) > 0);
    int r = generalized_schur_swap(m.wq, m.wz, A, B, Q, Z, j0, n1, n2);
    size_t j3 = j0 + n1 + n2;
    auto in = [&](size_t i, size_t j) { return (i >= j0 && i < j3 && j >= j0) || (j >= j0 && j < j3 && i < j3); };
    m.A.onlyChanged(c, w + "/A", in), m.B.onlyChanged(c, w + "/B", in);
    m.Q.onlyChanged(c, w + "/Q", [&](size_t, size_t j) { return m.wq && j >= j0 && j < j3; });
    m.Z.onlyChanged(c, w + "/Z", [&](size_t, size_t j) { return m.wz && j >= j0 && j < j3; });
    double xn, dif, e = eps<T>();
    difOf(f, j0, n1, n2, xn, dif);
    if (r != 0) {
        c.check(r == 1 && n1 + n2 > 2, w + "/info", "returned ", r);
        c.label("rejected");
        if (merged) {  // the exchanges made before the rejected one stay
            blocksOf(c, w, m.A.get(), m.B.get());
            checkPair(c, w, f.S, f.P, m.A.get(), m.B.get(), m.wq, m.wz, m.Q0, m.Q.get(), m.Z0, m.Z.get(), 2);
            c.check(dif < 0.01, w + "/rejected-well-separated", "separation ", dif);
            return;
        }
        m.A.unchanged(c, w + "/rejected-A"), m.B.unchanged(c, w + "/rejected-B"), m.Q.unchanged(c, w + "/rejected-Q"), m.Z.unchanged(c, w + "/rejected-Z");
        c.check(dif < 0.01, w + "/rejected-well-separated", "separation ", dif);
        return;
    }
    Dense<T> S = m.A.get(), P = m.B.get();
    c.check(allFinite(S) && allFinite(P), w + "/finite", show(S), " ", show(P));
    checkPair(c, w, f.S, f.P, S, P, m.wq, m.wz, m.Q0, m.Q.get(), m.Z0, m.Z.get(), 2);
    blocksOf(c, w, S, P);
    double cond = (1 + xn) * (1 + xn);
    if (normF(f.S) > 0 && normF(f.P) > 0 && 400 * e * cond < 0.05 * dif) {
        c.label("well separated");
        RW na = normF(f.S), nbn = normF(f.P);
        // coefficients of det(s A - t B) of a block
        auto coef = [&](const Dense<T>& Sx, const Dense<T>& Px, size_t p, size_t k) {
            auto s = [&](size_t i, size_t j) { return widen<CW>(Sx(p + i, p + j)) / na; };
            auto t = [&](size_t i, size_t j) { return widen<CW>(Px(p + i, p + j)) / nbn; };
            if (k == 1) return std::vector<CW>{s(0, 0), t(0, 0)};
            return std::vector<CW>{s(0, 0) * s(1, 1) - s(0, 1) * s(1, 0), s(0, 0) * t(1, 1) + t(0, 0) * s(1, 1) - s(0, 1) * t(1, 0) - t(0, 1) * s(1, 0), t(0, 0) * t(1, 1) - t(0, 1) * t(1, 0)};
        };
        auto cmp = [&](const std::vector<CW>& u, const std::vector<CW>& v) {
            double nu = 0, nv = 0, x = 0;
            for (auto& q : u) nu = std::max(nu, mag(q));
            for (auto& q : v) nv = std::max(nv, mag(q));
            for (size_t i = 0; i < u.size(); ++i) for (size_t j = 0; j < i; ++j) x = std::max(x, mag(u[i] * v[j] - u[j] * v[i]));
            return x / (nu + nv + 1e-300);
        };
        double er = std::max(cmp(coef(f.S, f.P, j0, n1), coef(S, P, j0 + n2, n1)), cmp(coef(f.S, f.P, j0 + n1, n2), coef(S, P, j0, n2)));
        c.ratio(w + "/moved", er, 100 * e * cond);
    }
}
static const char* RS = "order at least 3 and both factors nonzero";
static pbt::Reg a1("swap/float/Col", 30000, 900000, tSwap<F, LC>, RS);
static pbt::Reg a2("swap/double/Row", 30000, 900000, tSwap<D, LR>, RS);
static pbt::Reg a3("swap/cfloat/Row", 12000, 360000, tSwap<CF, LR>, RS);
static pbt::Reg a4("swap/cdouble/Col", 12000, 360000, tSwap<CD, LC>, RS);
template <class T, Layout L> void tMove(Case& c)
{
    size_t nb = (size_t)c.range(1, c.chance(1, 4) ? 14 : 6);
    Form<T> f = genForm<T>(c, nb);
    size_t n = f.S.n;
    std::string w = "generalized_schur_move";
    c.desc(w, "n", n, f.kind, "A", show(f.S, 6), "B", show(f.P, 6));
    c.label(f.kind);
    Mats<T, L> m(c, f);
    auto A = m.A.view(), B = m.B.view(), Q = m.Q.view(), Z = m.Z.view();
    struct Bl { size_t size; double ev; };
    double na = normF(f.S), nbn = normF(f.P);
    // generalized eigenvalues of the blocks (real parts), infinite ones as 1e9
    auto read = [&](const Dense<T>& S, const Dense<T>& P, const std::vector<size_t>& bs) {
        std::vector<Bl> v;
        size_t p = 0;
        for (size_t k : bs) {
            std::complex<long double> l = 0;
            bool inf = false;
            for (size_t q = p; q < p + k; ++q) {
                if (f.apart && mag(P(q, q)) / nbn <= 0.01 * mag(S(q, q)) / na / (1.0 + nb)) inf = true;
                else if (P(q, q) != T(0)) l += widen<std::complex<long double>>(S(q, q)) / widen<std::complex<long double>>(P(q, q)) / (long double)k;
            }
            v.push_back({k, inf ? 1e9 : (double)l.real()}), p += k;
        }
        return v;
    };
    double unit = 1;
    std::vector<Bl> model = read(f.S, f.P, f.bs);
    if (f.apart) { unit = 0; for (auto& b : model) if (b.ev != 1e9) for (auto& d : model) if (d.ev != 1e9 && b.ev != d.ev) { double g = std::fabs(b.ev - d.ev); unit = unit == 0 ? g : std::min(unit, g); } if (unit == 0 && nbn > 0) unit = na / nbn; }
    int steps = (int)c.range(1, 4);
    double done = 0;
    bool moved = false;
    for (int s = 0; s < steps; ++s) {
        size_t bf = (size_t)c.draw(model.size()), bt = (size_t)c.draw(model.size()), pf = 0, pt = 0;
        for (size_t i = 0; i < bf; ++i) pf += model[i].size;
        for (size_t i = 0; i < bt; ++i) pt += model[i].size;
        size_t ifst = pf, ilst = pt;
        if (model[bf].size == 2 && c.chance(1, 4)) ++ifst;
        if (model[bt].size == 2 && c.chance(1, 4)) ++ilst;
        c.desc("move", ifst, ilst);
        m.A.snapshot(), m.B.snapshot();
        int r = generalized_schur_move(m.wq, m.wz, A, B, Q, Z, ifst, ilst);
        done += std::fabs((double)bf - (double)bt);
        if (bf != bt) moved = true;
        m.A.margins(c, w + "/A"), m.B.margins(c, w + "/B"), m.Q.margins(c, w + "/Q"), m.Z.margins(c, w + "/Z");
        if (!m.wq) m.Q.unchanged(c, w + "/Q");
        if (!m.wz) m.Z.unchanged(c, w + "/Z");
        Dense<T> S = m.A.get(), P = m.B.get();
        c.check(allFinite(S) && allFinite(P), w + "/finite", show(S), " ", show(P));
        auto bl = blocksOf(c, w, S, P);
        checkPair(c, w, f.S, f.P, S, P, m.wq, m.wz, m.Q0, m.Q.get(), m.Z0, m.Z.get(), 2 + done);
        c.check(ifst == pf, w + "/ifst", "block start reported as ", ifst, " instead of ", pf);
        if (r != 0) {
            c.check(r == 1 && !cplx<T>, w + "/info", "returned ", r);
            c.check(!f.apart, w + "/rejected-well-separated", "returned ", r);
            c.check(ilst < n, w + "/ilst", ilst);
            c.check(ilst == 0 || S(ilst, ilst - 1) == T(0), w + "/ilst-inside-block", "position ", ilst);
            c.label("rejected");
        }
        if (f.apart) {
            auto x = model[bf];
            model.erase(model.begin() + (long)bf), model.insert(model.begin() + (long)bt, x);
            size_t np = 0;
            for (size_t i = 0; i < bt; ++i) np += model[i].size;
            c.check(ilst == np, w + "/ilst", "final position reported as ", ilst, " instead of ", np);
            c.check(bl.size() == model.size(), w + "/blocks", "number of blocks changed");
            auto now = read(S, P, bl);
            for (size_t i = 0; i < model.size(); ++i) {
                c.check(now[i].size == model[i].size, w + "/order", "block ", i, " has size ", now[i].size);
                c.check(now[i].ev == 1e9 ? model[i].ev == 1e9 : std::fabs(now[i].ev - model[i].ev) <= 0.2 * unit, w + "/order", "block ", i, " holds ", now[i].ev, " instead of ", model[i].ev);
            }
            c.label("order checked against the model");
        }
        else model = read(S, P, bl);
        if (model.empty()) break;
    }
    c.nontrivial(moved && n >= 3 && normMax(f.S) > 0 && normMax(f.P) > 0);
}
static const char* RM = "a block moved in a nonzero pencil of order at least 3";
static pbt::Reg b1("move/float/Row", 16000, 480000, tMove<F, LR>, RM);
static pbt::Reg b2("move/double/Col", 16000, 480000, tMove<D, LC>, RM);
static pbt::Reg b3("move/cfloat/Col", 8000, 240000, tMove<CF, LC>, RM);
static pbt::Reg b4("move/cdouble/Row", 8000, 240000, tMove<CD, LR>, RM);
