// flags: -DTLAPACK_CHECK_INPUT
#include "blasref.hpp"
#include "tlapack/lapack/rot_sequence.hpp"
#include "tlapack/lapack/rot_sequence3.hpp"
// one rotation at a time, in long double
template <class T> using W = std::complex<long double>;
template <class T>
void refSeq(Side side, Direction dir, const std::vector<real_t<T>>& cs, const std::vector<T>& sn, Dense<std::complex<long double>>& A)
{
    using WT = std::complex<long double>;
    size_t k = cs.size();
    for (size_t q = 0; q < k; ++q) {
        size_t i = dir == Direction::Forward ? k - 1 - q : q;
        // Forward: P = P(0)...P(k-1), the first one applied is P(k-1)
        long double c_ = cs[i];
        WT s = widen<WT>(sn[i]);
        if (side == Side::Left)
            for (size_t j = 0; j < A.n; ++j) {
                WT x = A(i, j), y = A(i + 1, j);
                A(i, j) = c_ * x + s * y, A(i + 1, j) = c_ * y - std::conj(s) * x;
            }
        else  // A := A P^H, same order of application
            for (size_t j = 0; j < A.m; ++j) {
                WT x = A(j, i), y = A(j, i + 1);
                A(j, i) = c_ * x + std::conj(s) * y, A(j, i + 1) = c_ * y - s * x;
            }
    }
}
template <class T, Layout L, Layout LCS, bool BIG> void tSeq(Case& c)
{
    using R = real_t<T>;
    using WT = std::complex<long double>;
    Side side = genSide(c);
    Direction dir = c.pick({Direction::Forward, Direction::Backward});
    size_t m, n, l;
    if (BIG) {
        size_t big = (size_t)c.range(250, 530), sm = (size_t)c.range(2, 12);
        m = side == Side::Left ? sm : big, n = side == Side::Left ? big : sm, l = (size_t)c.range(2, 8);
    }
    else
        m = (size_t)c.size(1, 17), n = (size_t)c.size(1, 17), l = (size_t)c.size(0, 9);
    size_t k = (side == Side::Left ? m : n) - 1;
    bool three = BIG || c.coin();
    if (!three) l = 1;
    bool exact = !BIG && c.coin();
    GMat<R, LCS> C(c, k, l);
    GMat<T, LCS> S(c, k, l);
    GMat<T, L> A(c, m, n);
    Dense<R> Cd(k, l);
    Dense<T> Sd(k, l);
    for (size_t i = 0; i < k * l; ++i) {
        if (exact) {
            int w = (int)c.draw(5);
            Cd.a[i] = R(w == 0 ? 1 : 0);
            Sd.a[i] = w == 0 ? T(0) : w == 1 ? T(1) : w == 2 ? T(-1) : cplx<T> ? mk<T>(0, R(w == 3 ? 1 : -1)) : T(1);
            if (w == 4) Cd.a[i] = R(-1), Sd.a[i] = T(0);
        }
        else {
            double th = unit01<double>(c) * 6.283185307, ph = unit01<double>(c) * 6.283185307;
            Cd.a[i] = R(std::cos(th)), Sd.a[i] = mk<T>(R(std::sin(th) * (cplx<T> ? std::cos(ph) : 1)), R(std::sin(th) * std::sin(ph)));
        }
    }
    Dense<T> a = exact ? intMat<T>(c, m, n, 9) : genMat<T>(c, m, n);
    C.set(Cd), S.set(Sd), A.set(a);
    C.snapshot(), S.snapshot();
    c.desc(three ? "rot_sequence3" : "rot_sequence", nm(side), dir == Direction::Forward ? "Forward" : "Backward", "m", m, "n", n, "l", l, exact ? "exact" : "float");
    c.nontrivial(k >= 2 && l >= 1 && (side == Side::Left ? n : m) >= 1);
    std::string w = three ? (l > 1 && k >= l ? "rot_sequence3 blocked" : "rot_sequence3") : "rot_sequence";
    c.label(w + " " + nm(side) + (dir == Direction::Forward ? " F" : " B"));
    Dense<WT> ref = widenM<WT>(a);
    for (size_t q = 0; q < l; ++q) {
        std::vector<R> cv(k);
        std::vector<T> sv(k);
        for (size_t i = 0; i < k; ++i) cv[i] = Cd(i, q), sv[i] = Sd(i, q);
        refSeq<T>(side, dir, cv, sv, ref);
    }
    auto Av = A.view();
    auto Cv = C.view();
    auto Sv = S.view();
    if (three) tlapack::rot_sequence3(side, dir, Cv, Sv, Av);
    else {
        auto cc = tlapack::col(Cv, 0);
        auto ss = tlapack::col(Sv, 0);
        int info = tlapack::rot_sequence(side, dir, cc, ss, Av);
        c.check(info == 0, "rot_sequence/info", info);
    }
    if (exact) expectEqual(c, w, A.get(), ref);
    else {
        double err = normF(sub(A.template getW<WT>(), ref)), thr = 4 * eps<T>() * (double)(k + l + 3) * normF(ref) + std::numeric_limits<double>::min();
        c.ratio(w, err, thr);
    }
    A.margins(c, w), C.unchanged(c, w + "/C"), S.unchanged(c, w + "/S");
}
static const char* RULE = "at least two rotations applied to a non-empty matrix";
static pbt::Reg a1("rotseq/double/Col", 12000, 200000, tSeq<D, LC, LC, false>, RULE);
static pbt::Reg a2("rotseq/cdouble/Col", 12000, 200000, tSeq<CD, LC, LR, false>, RULE);
static pbt::Reg a3("rotseq/float/Row", 12000, 200000, tSeq<F, LR, LC, false>, RULE);
static pbt::Reg a4("rotseq/cfloat/Row", 12000, 200000, tSeq<CF, LR, LR, false>, RULE);
static pbt::Reg b1("rotseq-wide/double/Col", 300, 8000, tSeq<D, LC, LC, true>, RULE);
static pbt::Reg b2("rotseq-wide/cdouble/Row", 300, 8000, tSeq<CD, LR, LC, true>, RULE);
static pbt::Reg b3("rotseq-wide/cfloat/Col", 300, 8000, tSeq<CF, LC, LC, true>, RULE);
static pbt::Reg b4("rotseq-wide/float/Row", 300, 8000, tSeq<F, LR, LR, true>, RULE);
