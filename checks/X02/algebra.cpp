// X02: combining workspace queries.  A tree of queries is combined with minMax and +=; storage of the combined size
// must serve every part: each side of a minMax from the whole of it, both sides of a sum from disjoint pieces.
#include <set>
#include "twin.hpp"
using namespace tlapack;
struct Node {
    int op = 0;  // 0 leaf vector, 1 leaf matrix, 2 max, 3 sum
    size_t m = 0, n = 1;
    bool contig = false;
    std::vector<Node> kid;
};
static size_t need(const Node& t) { return t.op < 2 ? t.m * t.n : t.op == 2 ? std::max(need(t.kid[0]), need(t.kid[1])) : need(t.kid[0]) + need(t.kid[1]); }
static bool needsContig(const Node& t) { return t.op < 2 ? t.contig && t.m * t.n > 0 : needsContig(t.kid[0]) || needsContig(t.kid[1]); }
static size_t sz(Case& c) { return c.chance(1, 10) ? 0 : (size_t)c.size(1, 6); }
static Node gen(Case& c, int depth)
{
    Node t;
    if (depth == 0 || c.chance(1, 4)) {
        t.op = (int)c.draw(2);
        t.m = sz(c);
        if (t.op) t.n = sz(c);
        t.contig = c.chance(1, 8);
        return t;
    }
    t.op = 2 + (int)c.draw(2);
    t.kid.push_back(gen(c, depth - 1));
    t.kid.push_back(gen(c, depth - 1));
    return t;
}
static WorkInfo eval(const Node& t)
{
    if (t.op < 2) {
        WorkInfo w = t.op ? WorkInfo(t.m, t.n) : WorkInfo(t.m);
        w.isContiguous = t.contig;
        return w;
    }
    WorkInfo a = eval(t.kid[0]), b = eval(t.kid[1]);
    if (t.op == 2) a.minMax(b);
    else a += b;
    return a;
}
static std::string str(const Node& t)
{
    std::ostringstream o;
    if (t.op == 0) o << "v" << t.m;
    else if (t.op == 1) o << t.m << "x" << t.n;
    else o << (t.op == 2 ? "max(" : "sum(") << str(t.kid[0]) << "," << str(t.kid[1]) << ")";
    if (t.contig) o << "!";
    return o.str();
}
// carve the parts out of a workspace; marks which storage each leaf received
template <class W> void serve(Case& c, const Node& t, W& work, std::vector<int>& owner, const float* base, int id, bool& ok)
{
    if (t.op == 0) {
        auto [v, rest] = reshape(work, t.m);
        c.check((size_t)size(v) == t.m, "reshape-length");
        for (size_t i = 0; i < t.m; ++i) {
            long p = &v[i] - base;
            c.check(p >= 0 && p < (long)owner.size(), "outside", "element ", p, " of ", owner.size());
        }
        return;
    }
    if (t.op == 1) {
        auto [v, rest] = reshape(work, t.m, t.n);
        c.check((size_t)nrows(v) == t.m && (size_t)ncols(v) == t.n, "reshape-shape");
        for (size_t j = 0; j < t.n; ++j) for (size_t i = 0; i < t.m; ++i) {
            long p = &v(i, j) - base;
            c.check(p >= 0 && p < (long)owner.size(), "outside", "element ", p, " of ", owner.size());
        }
        return;
    }
    if (t.op == 2) { serve(c, t.kid[0], work, owner, base, id, ok), serve(c, t.kid[1], work, owner, base, id, ok); return; }
    // split: the first part's storage, the rest for the second
    size_t k = need(t.kid[0]);
    auto [first, rest] = reshape(work, k, 1);
    for (size_t i = 0; i < k; ++i) {
        long p = &first(i, 0) - base;
        c.check(p >= 0 && p < (long)owner.size(), "outside", "element ", p, " of ", owner.size());
    }
    serve(c, t.kid[0], first, owner, base, id, ok);
    serve(c, t.kid[1], rest, owner, base, id, ok);
}
template <Layout L> void tTree(Case& c)
{
    Node t = gen(c, (int)c.range(1, 3));
    WorkInfo w = eval(t);
    c.desc(str(t), "->", w.m, w.n, w.isContiguous);
    c.nontrivial(t.op >= 2 && need(t.kid[0]) > 0 && need(t.kid[1]) > 0);
    c.label(t.op == 2 ? "max" : t.op == 3 ? "sum" : "leaf");
    c.check(w.size() >= need(t), "size", "combined query holds ", w.size(), " elements, the parts need ", need(t));
    c.check(w.isContiguous || !needsContig(t), "contiguity-lost");
    std::vector<float> b(w.size() + 8);
    std::vector<int> owner(w.size());
    LegacyMatrix<float, size_t, L> work(w.m, w.n, b.data(), L == Layout::ColMajor ? w.m : w.n);
    bool ok = true;
    try { serve(c, t, work, owner, b.data(), 0, ok); }
    catch (std::domain_error& e) { c.fail("rejected", "storage of the combined size refused a part: ", e.what()); }
}
// two parts, storage with a leading dimension when the combined query does not ask for contiguity
template <Layout L> void tPair(Case& c)
{
    Node a = gen(c, 0), b = gen(c, 0);
    bool sum = c.coin();
    Node t;
    t.op = sum ? 3 : 2, t.kid = {a, b};
    WorkInfo w = eval(t);
    c.desc(str(t), "->", w.m, w.n, w.isContiguous);
    c.nontrivial(need(a) > 0 && need(b) > 0);
    c.label(std::string(sum ? "sum" : "max") + (w.isContiguous ? " contiguous" : " strided"));
    c.check(w.isContiguous || !(needsContig(a) || needsContig(b)), "contiguity-lost");
    c.check(w.size() >= need(t), "size", "combined query holds ", w.size(), " elements, the parts need ", need(t));
    if (w.isContiguous || need(a) == 0 || need(b) == 0) return;
    size_t lead = L == Layout::ColMajor ? w.m : w.n, other = L == Layout::ColMajor ? w.n : w.m, ld = lead + (size_t)c.range(1, 2);
    // shapes: every part must fit in the w.m by w.n rectangle (a vector in either direction); for a sum, next to each other
    auto fits = [&](const Node& p, size_t m, size_t n) { return (p.m <= m && p.n <= n) || (p.op == 0 && p.m <= n && m >= 1); };
    if (!sum) { c.check(fits(a, w.m, w.n) && fits(b, w.m, w.n), "max-shape", "a part does not fit"); return; }
    auto beside = [&](size_t m1, size_t n1, size_t m2, size_t n2) { return (m1 + m2 <= w.m && std::max(n1, n2) <= w.n) || (std::max(m1, m2) <= w.m && n1 + n2 <= w.n); };
    bool fit = beside(a.m, a.n, b.m, b.n) || (a.op == 0 && beside(a.n, a.m, b.m, b.n)) || (b.op == 0 && beside(a.m, a.n, b.n, b.m)) || (a.op == 0 && b.op == 0 && beside(a.n, a.m, b.n, b.m));
    c.check(fit, "sum-shape", "the two parts do not fit next to each other");
    // splitting it may be refused, but never hands out shared storage
    std::vector<float> buf(ld * other);
    bool done = false;
    for (int order = 0; order < 2 && !done; ++order) {
        const Node &p = order ? b : a, &q = order ? a : b;
        std::set<const float*> own;
        LegacyMatrix<float, size_t, L> work(w.m, w.n, buf.data(), ld);
        size_t cnt = 0;
        auto take = [&](const Node& x, auto& from, auto&& next) {
            if (x.op == 0) { auto [v, rest] = reshape(from, x.m); for (size_t i = 0; i < x.m; ++i) own.insert(&v[i]), ++cnt; next(rest); }
            else { auto [v, rest] = reshape(from, x.m, x.n); for (size_t j = 0; j < x.n; ++j) for (size_t i = 0; i < x.m; ++i) own.insert(&v(i, j)), ++cnt; next(rest); }
        };
        try { take(p, work, [&](auto& r) { take(q, r, [](auto&) {}); }); done = true; }
        catch (std::domain_error&) { continue; }
        c.check(own.size() == cnt, "sum-overlap", "the two parts share storage");
    }
    c.label(done ? "split" : "split refused");
}
static const char* WT = "a combination of two nonempty parts";
static pbt::Reg a1("tree/Col", 40000, 2000000, tTree<Layout::ColMajor>, WT);
static pbt::Reg a2("tree/Row", 40000, 2000000, tTree<Layout::RowMajor>, WT);
static pbt::Reg a3("pair/Col", 20000, 1000000, tPair<Layout::ColMajor>, WT);
static pbt::Reg a4("pair/Row", 20000, 1000000, tPair<Layout::RowMajor>, WT);
