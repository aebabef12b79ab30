// Choice-sequence property-based testing engine (single header).
// A case is the sequence of integers returned by Case::draw(); random generation, replay and shrinking all act on it.
#pragma once
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifdef PBT_VALGRIND
#include <valgrind/memcheck.h>
#endif
#include <cstdint>
#include <new>
#include <stdexcept>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
    std::string sig;  // short stable signature: what failed
    std::string msg;  // details
};
struct Discard {};

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline uint64_t hashstr(const std::string& s)
{
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return h;
}

// Shared-memory record of the running case, so that a crash does not lose it.
struct Shared {
    uint64_t index;
    uint64_t count;
    uint64_t cap;
    uint64_t v[1];
};
inline Shared*& shared() { static Shared* s = nullptr; return s; }
constexpr uint64_t SHARED_CAP = 1u << 20;

struct Stats {
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> ratios;  // max of value/threshold
};

inline char*& descBuf() { static char* b = nullptr; return b; }  // where a forked child leaves the description
constexpr size_t DESC_CAP = 1 << 14;

class Case {
   public:
    // random case
    Case(uint64_t seed, Stats* st) : state_(seed), replay_(false), st_(st) {}
    // replay case
    Case(const std::vector<uint64_t>& c, Stats* st) : in_(c), replay_(true), st_(st) {}

    uint64_t draw(uint64_t n)
    {
        uint64_t v;
        if (n <= 1) return 0;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (v >= n) v = n - 1;
            ++pos_;
        }
        else {
            state_ += 0x9e3779b97f4a7c15ULL;
            uint64_t r = mix(state_);
            v = n > (1ULL << 32) ? r % n : ((r >> 32) * n) >> 32;
        }
        if (rec_.size() < SHARED_CAP - 8) {
            rec_.push_back(v);
            if (Shared* s = shared()) {
                s->v[rec_.size() - 1] = v;
                s->count = rec_.size();
            }
        }
        return v;
    }
    // integer in [lo,hi]; lo is the simplest
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)draw((uint64_t)(hi - lo + 1)); }
    bool coin() { return draw(2) == 1; }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    template <class T>
    T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    // size biased to small values and to "special" ones
    int64_t size(int64_t lo, int64_t hi)
    {
        switch (draw(4)) {
            case 0: return range(lo, std::min<int64_t>(hi, lo + 3));
            case 1: return range(lo, std::min<int64_t>(hi, lo + 10));
            default: return range(lo, hi);
        }
    }
    void label(const std::string& s) { if (st_) st_->labels[s]++; }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    bool isNontrivial() const { return nontrivial_; }
    template <class... A>
    void desc(const A&... a)
    {
        std::ostringstream o;
        o.precision(17);
        ((o << a << ' '), ...);
        if (!desc_.empty()) desc_ += " ";
        desc_ += o.str();
        if (char* b = descBuf()) {
            size_t n = std::min(desc_.size(), DESC_CAP - 1);
            memcpy(b, desc_.data(), n);
            b[n] = 0;
        }
    }
    const std::string& description() const { return desc_; }
    template <class... A>
    [[noreturn]] void fail(const std::string& sig, const A&... a)
    {
        std::ostringstream o;
        o.precision(17);
        ((o << a), ...);
        throw Failure{sig, o.str()};
    }
    template <class... A>
    void check(bool ok, const std::string& sig, const A&... a)
    {
        if (!ok) fail(sig, a...);
    }
    // value must be <= thr (NaN fails); keeps the largest value/thr seen
    template <class... A>
    void ratio(const std::string& name, double value, double thr, const A&... a)
    {
        double r = value / thr;
        if (!(value <= thr)) fail(name, "value=", value, " > threshold=", thr, " ", a...);
        if (st_) { double& m = st_->ratios[name]; if (r > m) m = r; }
    }
    void discard() { throw Discard{}; }
    const std::vector<uint64_t>& record() const { return rec_; }
    int wild = -1;  // PBT_WILD: whether this case uses non-finite and extreme data

   private:
    uint64_t state_ = 0;
    std::vector<uint64_t> in_, rec_;
    size_t pos_ = 0;
    bool replay_;
    bool nontrivial_ = false;
    std::string desc_;
    Stats* st_;
};

struct Sub {
    std::string name;
    uint64_t quick;     // cases in the quick tier
    uint64_t thorough;  // cases in the thorough tier
    std::function<void(Case&)> fn;
    std::string rule;
};
inline std::vector<Sub>& subs() { static std::vector<Sub> s; return s; }
struct Reg {
    Reg(const std::string& n, uint64_t q, uint64_t t, std::function<void(Case&)> f, const std::string& rule = "")
    {
#ifdef PBT_SCALE
        auto few = [](uint64_t k, double lo) { return (uint64_t)std::max(lo, k * (double)(PBT_SCALE)); };
        q = few(q, 20), t = few(t, 100);
#endif
        subs().push_back({n, q, t, f, rule});
    }
};

enum Outcome { PASS, FAIL, DISCARD, CRASH };
struct Result {
    Outcome o = PASS;
    std::string sig, msg, desc;
    bool nontrivial = false;
};

inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

// PBT_SAN: only memory errors, undefined behaviour, assertions and index errors count; what the calls compute is not judged
inline Result runCase(const Sub& s, Case& c)
{
    Result r;
#ifdef PBT_VALGRIND
    unsigned errs = VALGRIND_COUNT_ERRORS;
#endif
    try {
        s.fn(c);
    }
    catch (Discard&) { r.o = DISCARD; }
#ifdef PBT_SAN
    catch (Failure&) { c.label("not judged"); }
    catch (std::out_of_range& e) { r.o = FAIL; r.sig = "index"; r.msg = e.what(); }
    catch (std::length_error& e) { r.o = FAIL; r.sig = "length"; r.msg = e.what(); }
    catch (std::bad_alloc& e) { r.o = FAIL; r.sig = "allocation"; r.msg = e.what(); }
    catch (std::exception&) { c.label("not judged"); }
#endif
    catch (Failure& f) { r.o = FAIL; r.sig = f.sig; r.msg = f.msg; }
    catch (std::exception& e) { r.o = FAIL; r.sig = "exception"; r.msg = std::string("unexpected exception: ") + e.what(); }
    catch (...) { r.o = FAIL; r.sig = "exception"; r.msg = "unexpected exception"; }
#ifdef PBT_VALGRIND
    if (VALGRIND_COUNT_ERRORS != errs && r.o != FAIL) { r.o = FAIL; r.sig = "memcheck"; r.msg = "memcheck reported an error during the call (run the replay under valgrind for details)"; }
#endif
    r.desc = c.description();
    r.nontrivial = c.isNontrivial();
    return r;
}

constexpr int HANG_CODE = 97;
inline double& cpuLimit() { static double l = 60; return l; }
inline void onHang(int) { _exit(HANG_CODE); }
inline void armTimer(double sec)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (long)sec;
    it.it_value.tv_usec = (long)((sec - (long)sec) * 1e6);
    setitimer(ITIMER_PROF, &it, nullptr);
}

// Runs a choice sequence in a forked child.
inline Result runForked(const Sub& s, const std::vector<uint64_t>& ch, std::vector<uint64_t>* used = nullptr)
{
    static char* buf = nullptr;
    static const size_t BUF = 1 << 16;
    static uint64_t* usedbuf = nullptr;
    if (!buf) {
        buf = (char*)mmap(nullptr, BUF, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        usedbuf = (uint64_t*)mmap(nullptr, 8 * (SHARED_CAP + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    memset(buf, 0, BUF);
    usedbuf[0] = 0;
    static char* dbuf = nullptr;
    static int errfd = -1;
    if (!dbuf) {
        dbuf = (char*)mmap(nullptr, DESC_CAP, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        char name[] = "/tmp/pbt-err-XXXXXX";
        errfd = mkstemp(name);
        unlink(name);
    }
    dbuf[0] = 0;
    if (ftruncate(errfd, 0)) {}
    lseek(errfd, 0, SEEK_SET);
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (!getenv("PBT_VERBOSE")) dup2(errfd, 2);
        descBuf() = dbuf;
        signal(SIGPROF, onHang);
        armTimer(cpuLimit());
        struct Watch {};
        Case c(ch, nullptr);
        // record what is actually drawn into the shared buffer
        Shared* old = shared();
        shared() = nullptr;
        Result r = runCase(s, c);
        shared() = old;
        usedbuf[0] = c.record().size();
        memcpy(usedbuf + 1, c.record().data(), 8 * c.record().size());
        buf[0] = (char)r.o;
        std::string t = r.sig + '\1' + r.msg + '\1' + r.desc;
        if (t.size() > BUF - 8) t.resize(BUF - 8);
        memcpy(buf + 1, t.c_str(), t.size() + 1);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    Result r;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
        r.o = (Outcome)buf[0];
        std::string t(buf + 1);
        size_t a = t.find('\1'), b = a == std::string::npos ? a : t.find('\1', a + 1);
        r.sig = t.substr(0, a);
        if (a != std::string::npos) r.msg = t.substr(a + 1, b - a - 1);
        if (b != std::string::npos) r.desc = t.substr(b + 1);
        if (used) used->assign(usedbuf + 1, usedbuf + 1 + usedbuf[0]);
    }
    else {
        r.o = CRASH;
        if (WIFEXITED(st) && WEXITSTATUS(st) == HANG_CODE) { r.sig = "hang"; r.msg = "no result within the CPU-time limit"; }
        else if (WIFSIGNALED(st)) { r.sig = "crash-signal-" + std::to_string(WTERMSIG(st)); r.msg = "killed by signal"; }
        else { r.sig = "crash-exit"; r.msg = "abnormal exit " + std::to_string(WEXITSTATUS(st)); }
        r.desc = dbuf;
        char eb[8192];
        ssize_t k = pread(errfd, eb, sizeof eb - 1, 0);
        if (k > 0) {
            eb[k] = 0;
            std::string e(eb);
            for (const char* key : {"Assertion `", "ERROR: AddressSanitizer:", "runtime error:", "WARNING: ThreadSanitizer:", "WARNING: MemorySanitizer:", "terminate called"}) {
                size_t q = e.find(key);
                if (q == std::string::npos) continue;
                size_t z = e.find('\n', q);
                std::string line = e.substr(q, z == std::string::npos ? z : z - q);
                // keep only what is stable from run to run
                std::string t;
                for (size_t i = 0; i < line.size() && t.size() < 90; ++i)
                    if (line.compare(i, 2, "0x") == 0 || line.compare(i, 4, "(pid") == 0) break;
                    else t += line[i];
                r.sig += ": " + t;
                r.msg += "; " + line.substr(0, 300);
                break;
            }
        }
        if (used) *used = ch;
    }
    return r;
}

inline bool bad(const Result& r) { return r.o == FAIL || r.o == CRASH; }

inline std::vector<uint64_t> shrink(const Sub& s, std::vector<uint64_t> cur, const std::string& sig, Result& best,
                                    int maxTries = 1500, double maxSec = 25)
{
    int tries = 0;
    time_t t0 = time(nullptr);
    double saved = cpuLimit();
    if (sig == "hang") { cpuLimit() = std::min(saved, 20.0); maxTries = 0; }
    auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](const std::vector<uint64_t>& cand) {
        if (tries >= maxTries || time(nullptr) - t0 > maxSec) return false;
        ++tries;
        std::vector<uint64_t> used;
        Result r = runForked(s, cand, &used);
        if (bad(r) && r.sig == sig) {
            while (!used.empty() && used.back() == 0) used.pop_back();
            const std::vector<uint64_t>& nw = better(used, cand) ? used : cand;
            if (better(nw, cur)) { cur = nw; best = r; return true; }
        }
        return false;
    };
    bool progress = true;
    while (progress && tries < maxTries && time(nullptr) - t0 <= maxSec) {
        progress = false;
        // zero blocks / delete blocks
        for (size_t k = std::max<size_t>(1, cur.size() / 2); k >= 1; k /= 2) {
            for (size_t i = 0; i + k <= cur.size() && tries < maxTries;) {
                std::vector<uint64_t> cand = cur;
                cand.erase(cand.begin() + i, cand.begin() + i + k);
                if (attempt(cand)) { progress = true; continue; }
                cand = cur;
                bool any = false;
                for (size_t j = i; j < i + k; ++j) { any = any || cand[j]; cand[j] = 0; }
                if (any && attempt(cand)) progress = true;
                i += k;
            }
            if (k == 1) break;
        }
        // reduce single values (first the early, structural ones)
        for (size_t i = 0; i < cur.size() && i < 400 && tries < maxTries; ++i) {
            while (i < cur.size() && cur[i] > 0) {
                std::vector<uint64_t> cand = cur;
                cand[i] = cur[i] / 2;
                if (attempt(cand)) { progress = true; continue; }
                cand = cur;
                cand[i] = cur[i] - 1;
                if (attempt(cand)) { progress = true; continue; }
                break;
            }
        }
    }
    cpuLimit() = saved;
    return cur;
}

inline void writeReplay(FILE* f, const Sub& s, const std::vector<uint64_t>& ch, const Result& r)
{
    fprintf(f, "{\"sub\":\"%s\",\"sig\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"choices\":[", jesc(s.name).c_str(),
            jesc(r.sig).c_str(), jesc(r.msg).c_str(), jesc(r.desc).c_str());
    for (size_t i = 0; i < ch.size(); ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)ch[i]);
    fprintf(f, "]}");
}

inline const Sub* findSub(const std::string& n)
{
    for (auto& s : subs()) if (s.name == n) return &s;
    fprintf(stderr, "no such sub-check: %s\n", n.c_str());
    exit(2);
}
inline std::vector<uint64_t> readChoices(const char* path)
{
    std::vector<uint64_t> v;
    FILE* f = fopen(path, "r");
    if (!f) { perror(path); exit(2); }
    unsigned long long x;
    while (fscanf(f, "%llu", &x) == 1) v.push_back(x);
    fclose(f);
    return v;
}

// Usage:
//  bin --list
//  bin --run SUB SEED START COUNT OUT PROGRESS MAXFAIL
//  bin --exec SUB CHOICESFILE            (replay: prints outcome, exit 0 pass / 1 fail)
//  bin --shrink SUB CHOICESFILE OUT      (for crashes: shrink and write replay json)
inline int main_(int argc, char** argv)
{
    std::string cmd = argc > 1 ? argv[1] : "";
    if (const char* e = getenv("PBT_CPU_LIMIT")) cpuLimit() = atof(e);
    if (cmd == "--list") {
        printf("[");
        bool first = true;
        for (auto& s : subs()) {
            printf("%s{\"name\":\"%s\",\"quick\":%llu,\"thorough\":%llu,\"rule\":\"%s\"}", first ? "" : ",", jesc(s.name).c_str(),
                   (unsigned long long)s.quick, (unsigned long long)s.thorough, jesc(s.rule).c_str());
            first = false;
        }
        printf("]\n");
        return 0;
    }
    if (cmd == "--exec" && argc >= 4) {
        const Sub* s = findSub(argv[2]);
        Result r = runForked(*s, readChoices(argv[3]));
        const char* names[] = {"PASS", "FAIL", "DISCARD", "CRASH"};
        printf("%s sig=%s\ncase: %s\n%s\n", names[r.o], r.sig.c_str(), r.desc.c_str(), r.msg.c_str());
        return bad(r) ? 1 : 0;
    }
    if (cmd == "--shrink" && argc >= 5) {
        const Sub* s = findSub(argv[2]);
        auto ch = readChoices(argv[3]);
        Result r = runForked(*s, ch);
        if (!bad(r)) { fprintf(stderr, "not reproducible\n"); return 3; }
        Result best = r;
        auto sh = shrink(*s, ch, r.sig, best);
        FILE* f = fopen(argv[4], "w");
        writeReplay(f, *s, sh, best);
        fclose(f);
        return 0;
    }
    if (cmd == "--run" && argc >= 9) {
        const Sub* s = findSub(argv[2]);
        uint64_t seed = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10);
        const char* out = argv[6];
        const char* prog = argv[7];
        int maxFail = atoi(argv[8]);
        int fd = open(prog, O_RDWR | O_CREAT | O_TRUNC, 0644);
        size_t sz = sizeof(Shared) + 8 * SHARED_CAP;
        if (ftruncate(fd, sz)) { perror("ftruncate"); return 2; }
        shared() = (Shared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        shared()->cap = SHARED_CAP;
        signal(SIGPROF, onHang);
        Stats st;
        uint64_t evals = 0, discards = 0, nontriv = 0;
        std::unordered_set<uint64_t> seen;
        std::vector<std::string> samples;
        std::map<std::string, int> failsBySig;
        FILE* f = fopen(out, "w");
        fprintf(f, "{\"failures\":[");
        bool firstF = true;
        struct timespec ts0, ts1;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts0);
        uint64_t i = start;
        for (; i < start + count; ++i) {
            uint64_t cs = mix(mix(seed) ^ hashstr(s->name) ^ mix(i * 2654435761ULL + 17));
            Case c(cs, &st);
            shared()->index = i;
            shared()->count = 0;
            armTimer(cpuLimit());
            Result r = runCase(*s, c);
            armTimer(0);
            if (r.o == DISCARD) { ++discards; continue; }
            ++evals;
            if (r.nontrivial) {
                ++nontriv;
                uint64_t h = 7;
                for (uint64_t v : c.record()) h = mix(h ^ v) + 0x1234567;
                seen.insert(h);
                if (samples.size() < 2 && r.o == PASS && !r.desc.empty()) samples.push_back(r.desc);
            }
            if (r.o == FAIL) {
                int& n = failsBySig[r.sig];
                if (++n > 1 && maxFail > 0) {
                    uint64_t tot = 0;
                    for (auto& kv : failsBySig) tot += kv.second;
                    if (tot >= (uint64_t)maxFail) break;
                    continue;
                }
                Shared* sv = shared();
                shared() = nullptr;
                Result best = r;
                // confirm in a forked child, then shrink
                Result again = runForked(*s, c.record());
                std::vector<uint64_t> sh = c.record();
                if (bad(again)) sh = shrink(*s, c.record(), again.sig, best);
                shared() = sv;
                fprintf(f, "%s", firstF ? "" : ",\n");
                firstF = false;
                writeReplay(f, *s, sh, best);
                if (failsBySig.size() >= 6) { ++i; break; }
            }
        }
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts1);
        fprintf(f, "],\n\"next\":%llu,\"evaluations\":%llu,\"discards\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"cpu\":%.3f,", (unsigned long long)i,
                (unsigned long long)evals, (unsigned long long)discards, (unsigned long long)nontriv,
                (unsigned long long)seen.size(), (ts1.tv_sec - ts0.tv_sec) + 1e-9 * (ts1.tv_nsec - ts0.tv_nsec));
        fprintf(f, "\"labels\":{");
        bool first = true;
        for (auto& kv : st.labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
        fprintf(f, "},\"ratios\":{");
        first = true;
        for (auto& kv : st.ratios) { fprintf(f, "%s\"%s\":%.6g", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
        fprintf(f, "},\"failsigs\":{");
        first = true;
        for (auto& kv : failsBySig) { fprintf(f, "%s\"%s\":%d", first ? "" : ",", jesc(kv.first).c_str(), kv.second); first = false; }
        fprintf(f, "},\"samples\":[");
        first = true;
        for (auto& x : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(x).c_str()); first = false; }
        fprintf(f, "]}\n");
        fclose(f);
        FILE* h = fopen((std::string(out) + ".h").c_str(), "wb");
        for (uint64_t v : seen) fwrite(&v, 8, 1, h);
        fclose(h);
        return 0;
    }
    fprintf(stderr, "usage error\n");
    return 2;
}
}  // namespace pbt

#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
