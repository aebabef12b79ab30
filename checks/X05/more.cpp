// X05: further factorizations and drivers in the precision of the scalar type
// cxx: g++
// libs: -lquadmath -lmpfr -lgmp
// variant: ld -O1
// variant: quad -DX5_QUAD -std=gnu++20 -O0
// variant: mp -DX5_MP=256 -O0
#include "types.hpp"
#include "tlapack/lapack/gghrd.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include "tlapack/lapack/lahqz.hpp"
#include "tlapack/lapack/hetrf.hpp"
#include "tlapack/lapack/tik_qr.hpp"
#include "tlapack/lapack/tik_svd.hpp"
#include "tlapack/lapack/tik_bidiag_elden.hpp"
#include "tlapack/lapack/schur_move.hpp"
#include "tlapack/lapack/generalized_schur_move.hpp"
#include "tlapack/lapack/multishift_qz.hpp"
using namespace tlapack;
using tlapack::real_type;
constexpr size_t NM = DIG > 200 ? 12 : 18;

// symmetric-indefinite factorization, reassembled from the documented storage
template <class T> void tLdl(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(1, NM);
    Uplo u = genUplo(c);
    bool herm = c.coin(), up = u == Uplo::Upper;
    Dense<T> A = gen<T>(c, n, n, kind);
    for (size_t j = 0; j < n; ++j) {
        for (size_t i = 0; i < j; ++i) A(j, i) = herm ? T(cj(A(i, j))) : A(i, j);
        if (herm) A(j, j) = T(re(A(j, j)));
        if (c.chance(1, 3)) A(j, j) = T(R(0));
    }
    HetrfOpts o;
    o.nb = c.chance(1, 4) ? 32 : (size_t)c.range(2, 8);
    o.invariant = herm ? Op::ConjTrans : Op::Trans;
    c.desc("ldl", n, nm(u), herm, "nb", o.nb, kind);
    GM<T> G(c, n, n);
    G.set(A);
    auto Gv = G.view();
    std::vector<int> piv(n, 4711);
    int info = hetrf(u, Gv, piv, o);
    if (info < 0 || info > (int)n) c.fail("ldl/info", info);
    Dense<T> S = G.get(), M(n, n);
    double grow = nrm(A);
    for (size_t q = 0; q < n; ++q) {
        size_t i = up ? q : n - 1 - q;
        bool two = piv[i] < 0;
        M(i, i) = S(i, i);
        if (!two) continue;
        size_t s = up ? i + 1 : i - 1;
        c.check(s < n && piv[s] == piv[i], "ldl/pair", i);
        M(s, s) = S(s, s);
        T x = up ? S(i, s) : S(i, s), y = herm ? T(cj(x)) : x;
        M(i, s) = x, M(s, i) = y;
        ++q;
    }
    for (auto& x : M.a) grow = std::max(grow, mag(x));
    Dense<T> Lm = eye<T>(n);
    double ln = 1;
    for (size_t q = 0; q < n; ++q) {
        size_t i = up ? q : n - 1 - q, b = piv[i] < 0 ? 2 : 1, lo = up ? i : i + 1 - b;
        q += b - 1;
        size_t r0 = up ? 0 : lo + b, r1 = up ? lo : n;
        for (size_t j = 0; j < n; ++j) for (size_t k = lo; k < lo + b; ++k) for (size_t r = r0; r < r1; ++r) M(r, j) = T(M(r, j) + S(r, k) * M(k, j));
        for (size_t k = lo; k < lo + b; ++k) for (size_t r = r0; r < r1; ++r) {
            T l = herm ? T(cj(S(r, k))) : S(r, k);
            ln = std::max(ln, mag(l));
            for (size_t j = 0; j < n; ++j) M(j, r) = T(M(j, r) + M(j, k) * l);
        }
        size_t s = up ? lo : lo + b - 1, p = (size_t)(piv[i] < 0 ? -piv[i] - 1 : piv[i]);
        c.check(p < n, "ldl/pivot", p);
        if (s != p) {
            for (size_t j = 0; j < n; ++j) std::swap(M(s, j), M(p, j));
            for (size_t j = 0; j < n; ++j) std::swap(M(j, s), M(j, p));
        }
    }
    res(c, "ldl-residual", sub(M, A), grow, 4 * n, 60);
    c.nontrivial(n > 1);
}
// regularized least squares: gradient of the objective
template <class T> void tTik(Case& c)
{
    using R = real_t<T>;
    std::string kind, k2;
    size_t n = c.size(1, NM - 4), m = n + c.size(0, 8), k = c.size(1, 3);
    Dense<T> A = gen<T>(c, m, n, kind), B = gen<T>(c, m, k, k2);
    R lam = full<R>(c);
    if (lam < R(0)) lam = -lam;
    lam = R(lam + R(1)) * pow2<R>((int)c.range(-6, 6));
    int v = (int)c.draw(3);
    const char* w_[] = {"tik_qr", "tik_bidiag_elden", "tik_svd"};
    std::string w = w_[v];
    c.desc(w, m, n, k, "lambda", (double)lam, kind);
    GM<T> Ag(c, m, n), Bg(c, m, k);
    Ag.set(A), Bg.set(B);
    auto Av = Ag.view(), Bv = Bg.view();
    if (v == 0) tik_qr(Av, Bv, lam);
    else if (v == 1) tik_bidiag_elden(Av, Bv, lam);
    else tik_svd(Av, Bv, lam);
    Dense<T> X = blockOf(Bg.get(), 0, n, 0, k), G = mul(ct(A), sub(mul(A, X), B));
    for (size_t j = 0; j < k; ++j) for (size_t i = 0; i < n; ++i) G(i, j) = T(G(i, j) + lam * lam * X(i, j));
    double l = (double)lam, a = nrm(A), s = (a * a + l * l) * nrm(X) + a * nrm(B);
    // the error of a stable method: the gradient of a slightly perturbed problem (observed up to 30; the singular value route allows itself 100)
    res(c, w, G, s * (1 + a / l), m, 300);
    c.nontrivial(n > 1);
}
template <class T> bool schurOk(Case& c, const std::string& w, const Dense<T>& S)
{
    for (size_t j = 0; j < S.n; ++j) for (size_t i = j + 1; i < S.m; ++i) {
        if (S(i, j) == T(real_t<T>(0))) continue;
        if (cplx<T> || i > j + 1 || (i < S.m - 1 && S(i + 1, i) != T(real_t<T>(0)))) c.fail(w + "/shape", "entry ", i, " ", j);
    }
    return true;
}
// reordering
template <class T> void tMove(Case& c)
{
    using R = real_t<T>;
    std::string kind;
    size_t n = c.size(2, NM);
    Dense<T> A = gen<T>(c, n, n, kind);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) A(i, j) = T(R(0));
    if constexpr (!cplx<T>) for (size_t j = 0; j + 1 < n; ++j) if (c.chance(1, 3)) {
        // standardized block: equal diagonal, off-diagonal entries of opposite sign
        A(j + 1, j + 1) = A(j, j);
        R x = full<R>(c), y = full<R>(c);
        if (x < R(0)) x = -x;
        if (y > R(0)) y = -y;
        A(j, j + 1) = R(x + R(0.25)), A(j + 1, j) = R(y - R(0.25));
        ++j;
    }
    size_t f = c.range(0, (int64_t)n - 1), l = c.range(0, (int64_t)n - 1);
    c.desc("schur_move", n, kind, (int)f, (int)l);
    GM<T> Ag(c, n, n), Qg(c, n, n);
    Ag.set(A), Qg.set(eye<T>(n));
    auto Av = Ag.view(), Qv = Qg.view();
    int info = schur_move(true, Av, Qv, f, l);
    c.label(info ? "rejected" : "moved");
    Dense<T> S = Ag.get(), Q = Qg.get();
    schurOk(c, "schur_move", S);
    res(c, "schur_move-residual", sub(mul(mul(Q, S), ct(Q)), A), nrm(A), n, 40);
    unit(c, "schur_move-orth", Q, 20);
    c.nontrivial(n > 2 && f != l);
}
// generalized Schur form by the multishift algorithm, then reordering
template <class T> void tGen(Case& c)
{
    using R = real_t<T>;
    std::string kind, kb;
    size_t n = c.size(2, DIG > 200 ? 9 : 16);
    Dense<T> A = gen<T>(c, n, n, kind), B = gen<T>(c, n, n, kb);
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) B(i, j) = T(R(0));
    GM<T> Ag(c, n, n), Bg(c, n, n), Qg(c, n, n), Zg(c, n, n);
    Ag.set(A), Bg.set(B), Qg.set(eye<T>(n)), Zg.set(eye<T>(n));
    auto Av = Ag.view(), Bv = Bg.view(), Qv = Qg.view(), Zv = Zg.view();
    gghrd(true, true, 0, n, Av, Bv, Qv, Zv);
    std::vector<complex_type<R>> al(n);
    std::vector<T> be(n);
    FrancisOpts o;
    o.nmin = c.coin() ? 6 : 1000;
    bool few = c.coin();
    o.nshift_recommender = [few](auto, auto nh) { return (std::decay_t<decltype(nh)>)(nh > 8 && !few ? 4 : 2); };
    o.deflation_window_recommender = [](auto, auto nh) { return (std::decay_t<decltype(nh)>)(nh > 8 ? 5 : 3); };
    size_t f = c.range(0, (int64_t)n - 1), l = c.range(0, (int64_t)n - 1);
    c.desc("multishift_qz", n, kind, kb, "nmin", (int)o.nmin, (int)f, (int)l);
    int info;
    try { info = multishift_qz(true, true, true, 0, n, Av, Bv, al, be, Qv, Zv, o); }
    catch (const std::runtime_error&) { info = 1; }
    if (info != 0) {
        if (kind == "uniform" && kb == "uniform") c.fail("mqz/converge", "no convergence on a generic pencil, info ", info);
        throw Discard();
    }
    // the multishift driver uses the space below the quasi-triangle as workspace
    for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
        if (i > j + 1 || cplx<T>) Av(i, j) = T(R(0));
        Bv(i, j) = T(R(0));
    }
    for (int pass = 0; pass < 2; ++pass) {
        std::string w = pass ? "gmove" : "mqz";
        Dense<T> S = Ag.get(), W = Bg.get(), Q = Qg.get(), Z = Zg.get();
        for (size_t j = 0; j < n; ++j) for (size_t i = j + 1; i < n; ++i) {
            if (W(i, j) != T(R(0))) c.fail(w + "/shape-B", "entry below the diagonal at ", i, " ", j);
            if (S(i, j) != T(R(0)) && (i > j + 1 || cplx<T>)) c.fail(w + "/shape-A", "entry below the Schur form at ", i, " ", j);
        }
        res(c, w + "-A", sub(mul(mul(Q, S), ct(Z)), A), nrm(A), n, 40);
        res(c, w + "-B", sub(mul(mul(Q, W), ct(Z)), B), nrm(B), n, 40);
        unit(c, w + "-Q", Q, 20);
        unit(c, w + "-Z", Z, 20);
        if (!pass) { int r = generalized_schur_move(true, true, Av, Bv, Qv, Zv, f, l); c.label(r ? "rejected" : "moved"); }
    }
    c.nontrivial(n > 2);
}
#ifdef X5_MP
#define C_(a, b) (a / 8), (b / 8)
#elif defined(X5_QUAD)
#define C_(a, b) (a / 2), (b / 2)
#else
#define C_(a, b) a, b
#endif
#define R5(k, T, s) \
    static Reg k##1("ldl" s, C_(2400, 100000), tLdl<T>, "n > 1"); \
    static Reg k##2("tik" s, C_(1600, 60000), tTik<T>, "more than one unknown"); \
    static Reg k##3("move" s, C_(2400, 100000), tMove<T>, "n > 2 and the block moves"); \
    static Reg k##4("gen" s, C_(800, 40000), tGen<T>, "n > 2");
R5(r, Rl, "/real")
R5(z, std::complex<Rl>, "/complex")
