// flags: -O0
// variant: plain -pthread
// variant: tsan -pthread -fsanitize=thread -DX9_TSAN
// env: TSAN_OPTIONS=halt_on_error=1:abort_on_error=1
// X09: calls on disjoint data at the same time in several threads
#include "jobs.hpp"
#include <atomic>
#include <thread>
#ifdef X9_TSAN
constexpr int QUICK = 900, REP = 2;
#else
constexpr int QUICK = 2000, REP = 6;
#endif
void tThreads(Case& c)
{
    size_t k = (size_t)c.range(2, 4);
    std::vector<Job> js;
    int mode = (int)c.draw(3);  // the same call on copies of the data, the same routine and type with different data, or any mixture
    if (mode == 0) js.assign(k, anyJob(c, 10));
    else if (mode == 1) {
        int kind = (int)c.draw(KINDS), t = (int)c.draw(4);
        for (size_t i = 0; i < k; ++i) js.push_back(t == 0 ? makeJob<double>(c, kind, 10) : t == 1 ? makeJob<float>(c, kind, 10) : t == 2 ? makeJob<std::complex<double>>(c, kind, 10) : makeJob<std::complex<float>>(c, kind, 10));
    }
    else for (size_t i = 0; i < k; ++i) js.push_back(anyJob(c, 10));
    std::string d;
    for (auto& j : js) d += j.name + " ", c.label(j.name.substr(0, j.name.find('<')));
    c.desc("threads", d);
    c.nontrivial(true);
    std::vector<std::string> first(k);
    for (size_t i = 0; i < k; ++i) first[i] = js[i].result();
    std::vector<std::thread> ts;
    std::vector<int> bad(k, 0);
    std::atomic<int> ready(0);
    for (size_t i = 0; i < k; ++i)
        ts.emplace_back([&, i] {
            ++ready;
            while (ready < (int)k) std::this_thread::yield();
            for (int r = 0; r < REP; ++r) if (js[i].result() != first[i]) bad[i] = 1;
        });
    for (auto& t : ts) t.join();
    for (size_t i = 0; i < k; ++i) {
        std::string nm = js[i].name;
        if (bad[i]) c.fail(nm.substr(0, nm.find('<')) + "/differs-in-threads", "job ", i, " (", nm, ") gives another result while others run");
    }
}
static pbt::Reg t1("threads", QUICK, 60000, tThreads, "always (at least two threads)");
