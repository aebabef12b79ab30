// flags: -O0
// X09: histories of calls in one thread
#include "jobs.hpp"
#include <cfenv>
#include <malloc.h>
#include <xmmintrin.h>
// fill the stack below with a pattern
__attribute__((noinline)) void soilStack(unsigned char v)
{
    volatile unsigned char b[200000];
    for (size_t i = 0; i < sizeof b; ++i) b[i] = v;
}
void tHistory(Case& c)
{
    size_t k = (size_t)c.range(2, 6);
    std::vector<Job> js;
    for (size_t i = 0; i < k; ++i) js.push_back(anyJob(c, c.chance(1, 6) ? 24 : 10));
    size_t steps = (size_t)c.range((int64_t)k, 3 * (int64_t)k);
    std::vector<size_t> order;
    for (size_t i = 0; i < steps; ++i) order.push_back(c.draw(k));
    std::string d;
    for (auto& j : js) d += j.name + " ", c.label(j.name.substr(0, j.name.find('<')));
    std::string od;
    for (auto i : order) od += std::to_string(i) + " ";
    c.desc("jobs", d, "order", od);
    c.nontrivial(true);
    unsigned csr = _mm_getcsr() & ~0x3fu;
    int rnd = fegetround();
    std::vector<std::string> first(k);
    for (size_t i = 0; i < k; ++i) {
        mallopt(M_PERTURB, 0);
        soilStack(0);
        first[i] = js[i].result();
    }
    for (size_t i = 0; i < order.size(); ++i) {
        unsigned char v = i % 3 == 0 ? 0xff : i % 3 == 1 ? 0x3f : 0x81;
        mallopt(M_PERTURB, v);
        soilStack(v);
        std::string r = js[order[i]].result();
        std::string nm = js[order[i]].name;
        nm = nm.substr(0, nm.find('<'));
        if (r != first[order[i]]) {
            size_t q = 0;
            while (q < r.size() && q < first[order[i]].size() && r[q] == first[order[i]][q]) ++q;
            mallopt(M_PERTURB, 0);
            c.fail(nm + "/differs-in-history", "call ", i, " of job ", order[i], " (", js[order[i]].name, ") differs from its first result at byte ", q, " of ", r.size());
        }
        if ((_mm_getcsr() & ~0x3fu) != csr || fegetround() != rnd) c.fail(nm + "/floating-point-mode", "the floating-point control state changed");
    }
    mallopt(M_PERTURB, 0);
}
static pbt::Reg h1("history", 4000, 400000, tHistory, "always (at least two jobs)");
