// flags: -O0
// X09: the result of a call in a new process equals the result after other calls
#include "jobs.hpp"
#include "tlapack/lapack/lahqr.hpp"
#include <sys/wait.h>
#include <unistd.h>
// run the jobs in a new process; the result is that of the last one
static std::string inNewProcess(const std::vector<const Job*>& js)
{
    int fd[2];
    if (pipe(fd)) throw std::runtime_error("pipe");
    pid_t p = fork();
    if (p < 0) throw std::runtime_error("fork");
    if (p == 0) {
        std::string r;
        for (auto* j : js) r = j->result();
        r = "ok" + r;
        size_t q = 0;
        while (q < r.size()) { ssize_t w = write(fd[1], r.data() + q, r.size() - q); if (w <= 0) break; q += (size_t)w; }
        _exit(0);
    }
    close(fd[1]);
    std::string s;
    char b[65536];
    ssize_t w;
    while ((w = read(fd[0], b, sizeof b)) > 0) s.append(b, (size_t)w);
    close(fd[0]);
    int st;
    waitpid(p, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) s = "died";
    return s;
}
static Job typed(Case& c, int t, int kind, size_t cap)
{
    return t == 0 ? makeJob<double>(c, kind, cap) : t == 1 ? makeJob<float>(c, kind, cap) : t == 2 ? makeJob<std::complex<double>>(c, kind, cap) : makeJob<std::complex<float>>(c, kind, cap);
}
static void judge(Case& c, std::vector<Job>& before, Job& j)
{
    std::string nm = j.name.substr(0, j.name.find('<')), d;
    std::vector<const Job*> h;
    for (auto& b : before) h.push_back(&b), d += b.name + " ";
    h.push_back(&j);
    c.desc("before", d, "call", j.name);
    c.label(nm);
    c.nontrivial(true);
    std::string a = inNewProcess({&j}), b = inNewProcess(h);
    if (a != b) {
        size_t q = 0;
        while (q < a.size() && q < b.size() && a[q] == b[q]) ++q;
        c.fail(nm + "/differs-from-new-process", "the call ", j.name, " after ", d, "differs at byte ", q, " of ", a.size(), " from the same call in a new process");
    }
}
void tFresh(Case& c)
{
    int t = (int)c.draw(4), kind = (int)c.draw(KINDS);
    std::vector<Job> before;
    if (c.chance(2, 3)) before.push_back(typed(c, t, kind, (size_t)c.pick<int>({2, 6, 12})));
    else for (int64_t i = c.range(1, 3); i-- > 0;) before.push_back(anyJob(c, 10));
    Job j = typed(c, t, kind, (size_t)c.pick<int>({10, 24, 40}));
    judge(c, before, j);
}
// iterative drivers: a small problem, then one that needs many iterations
template <class T>
Job iter(Case& c, int kind, size_t n)
{
    using namespace tlapack;
    using R = real_type<T>;
    std::mt19937_64 g(c.draw(1u << 30));
    std::normal_distribution<double> N;
    auto rnd = [&]() -> T { if constexpr (is_complex<T>) { double x = N(g), y = N(g); return T((R)x, (R)y); } else return (T)N(g); };
    const char* nm[] = {"lahqr", "lahqz", "steqr", "svd_qr", "multishift_qr"};
    Job j;
    j.name = std::string(nm[kind]) + "<" + (is_complex<T> ? "c" : "r") + (sizeof(R) == 4 ? "4" : "8") + "> n=" + std::to_string(n);
    std::vector<T> A(n * n, T(0)), B(n * n, T(0));
    for (size_t q = 0; q < n; ++q)
        for (size_t i = 0; i < n; ++i) {
            if (i <= q + 1) A[i + q * n] = rnd();
            if (i <= q) B[i + q * n] = rnd();
        }
    std::vector<R> d(n), e(n ? n - 1 : 0);
    for (auto& x : d) x = (R)N(g);
    for (auto& x : e) x = (R)N(g);
    j.run = [=](Sink& o) {
        std::vector<T> a = A, b = B, z(1);
        LegacyMatrix<T> a_(n, n, a.data(), n ? n : 1), b_(n, n, b.data(), n ? n : 1);
        std::vector<complex_type<T>> w(n);
        std::vector<T> be(n);
        std::vector<R> dd = d, ee = e;
        int info = 0;
        switch (kind) {
            case 0: info = lahqr(false, false, (size_t)0, n, a_, w, a_); break;
            case 1: info = lahqz(false, false, false, (size_t)0, n, a_, b_, w, be, a_, b_); break;
            case 2: info = steqr(false, dd, ee, a_); break;
            case 3: info = svd_qr(Uplo::Upper, false, false, dd, ee, a_, b_); break;
            default: { FrancisOpts op; op.nmin = 30; info = multishift_qr(false, false, (size_t)0, n, a_, w, a_, op); }
        }
        o.put(info), o.vec(w), o.vec(be), o.vec(dd);
    };
    return j;
}
void tIter(Case& c)
{
    int t = (int)c.draw(4), kind = (int)c.draw(5);
    size_t small = (size_t)c.range(1, 12), big = (size_t)(kind == 0 || kind == 4 ? c.range(150, 230) : kind == 1 ? c.range(150, 170) : c.range(60, 300));
    auto mk = [&](size_t n) { return t == 0 ? iter<double>(c, kind, n) : t == 1 ? iter<float>(c, kind, n) : t == 2 ? iter<std::complex<double>>(c, kind, n) : iter<std::complex<float>>(c, kind, n); };
    std::vector<Job> before{mk(small)};
    Job j = mk(big);
    judge(c, before, j);
}
static pbt::Reg r1("fresh", 2000, 100000, tFresh, "always");
static pbt::Reg r2("fresh-iterative", 48, 1500, tIter, "always");
