// Small property-based testing engine.
//
// Every generated case is a pure function of a sequence of bounded integer
// choices drawn through Src.  A case seed expands to a choice sequence; a
// failing sequence is shrunk (delete / zero / lower choices, always re-running
// the property in a forked child so crashes and hangs shrink too) and written
// out as the replay file.  Replaying feeds the recorded choices back.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

// `#if VP(G01)`: a harness file is compiled either whole or for one property (-DVP_ONLY=1 -DVP_G01=1)
#ifndef VP_ONLY
#define VP_ALL 1
#else
#define VP_ALL 0
#endif
#define VP(id) (VP_ALL || VP_##id)

// Fresh heap memory is filled with 0xff (NaN as a double), so that reading it before writing shows, and shows the same way every time.
#if !defined(VP_ASAN) && !defined(VP_TSAN) && defined(__GLIBC__)
namespace pbt { inline volatile int heap_fill = 0xff; }
extern "C" void *__libc_malloc(size_t);
extern "C" void __libc_free(void *);
extern "C" void *__libc_calloc(size_t, size_t);
extern "C" void *__libc_realloc(void *, size_t);
namespace pbt { inline long &live_blocks() { static thread_local long n = 0; return n; } }
extern "C" void *malloc(size_t n) { void *p = __libc_malloc(n); if (p) { ++pbt::live_blocks(); if (pbt::heap_fill >= 0) memset(p, pbt::heap_fill, n); } return p; }
extern "C" void *calloc(size_t n, size_t k) { void *p = __libc_calloc(n, k); if (p) ++pbt::live_blocks(); return p; }
extern "C" void *realloc(void *q, size_t n) { void *p = __libc_realloc(q, n); if (!q && p) ++pbt::live_blocks(); if (q && !n) --pbt::live_blocks(); return p; }
extern "C" void free(void *p) { if (p) --pbt::live_blocks(); __libc_free(p); }
#define VP_HEAP_FILL 1
#endif

namespace pbt {

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hashs(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return mix(h);
}

struct Fail { std::string key, msg; };

struct Case;
using PropFn = std::function<void(Case &)>;

// shared recording area (mmap MAP_SHARED) so a crashed child still leaves its choices
struct Shared {
    static const size_t CAP = 1 << 18;
    volatile uint64_t n;
    volatile int status;      // 0 running 1 ok 2 fail 3 discarded
    char key[128];
    char msg[3072];
    char desc[6144];
    uint64_t c[CAP];
};

struct Case {
    // --- choice source
    uint64_t seed = 0, ctr = 0;
    bool replay = false;
    std::vector<uint64_t> in;
    std::vector<uint64_t> rec;
    Shared *sh = nullptr;
    // --- reporting
    std::vector<std::string> labels;
    bool nontriv = false;
    bool verbose = false;
    std::ostringstream desc;
    size_t size = 30;   // structural size hint (varies with the case index)

    uint64_t raw(uint64_t max) { // uniform in [0,max]
        uint64_t v;
        if (replay) {
            v = rec.size() < in.size() ? in[rec.size()] : 0;
            if (v > max) v = max;
        } else {
            uint64_t r = mix(seed ^ mix(++ctr));
            v = max == UINT64_MAX ? r : (uint64_t)(((unsigned __int128)r * ((unsigned __int128)max + 1)) >> 64);
        }
        if (sh && rec.size() < (size_t)Shared::CAP) { sh->c[rec.size()] = v; sh->n = rec.size() + 1; }
        rec.push_back(v);
        return v;
    }
    // integer in [lo,hi]; shrinks towards lo
    int64_t in_range(int64_t lo, int64_t hi) { return lo + (int64_t)raw((uint64_t)(hi - lo)); }
    bool coin() { return raw(1) == 1; }
    // true with probability num/den; shrinks to false
    bool chance(int num, int den) { return raw(den - 1) >= (uint64_t)(den - num); }
    template <class T> const T &pick(const std::vector<T> &v) { return v[raw(v.size() - 1)]; }
    template <class T> const T &pick(std::initializer_list<T> l) { return *(l.begin() + raw(l.size() - 1)); }
    // weighted index; shrinks to 0
    size_t weighted(std::initializer_list<int> w) {
        int64_t tot = 0; for (int x : w) tot += x;
        int64_t r = (int64_t)raw(tot - 1); size_t i = 0;
        for (int x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    // real in [-s,s], shrinking towards 0 (sign and magnitude in one choice)
    double sym(double s) {
        uint64_t k = raw((1ULL << 41) - 1);
        double m = (double)(k >> 1) / (double)((1ULL << 40) - 1);
        return (k & 1) ? -m * s : m * s;
    }
    // real in [0,1], shrinking towards 0
    double unit() { return (double)raw((1ULL << 40) - 1) / (double)((1ULL << 40) - 1); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    // log-uniform positive magnitude, shrinking to lo
    double logmag(double lo, double hi) { return lo * std::pow(hi / lo, unit()); }
    // approximately standard normal
    double normal() { return (sym(1) + sym(1) + sym(1)); } // variance 1
    void label(const std::string &l) { labels.push_back(l); }
    void label(const char *l, bool on) { if (on) labels.push_back(l); }
    void nontrivial(bool b = true) { nontriv = nontriv || b; }
    std::ostream &d() { return desc; }
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
    void check(bool ok, const std::string &key, const std::string &msg = "") { if (!ok) throw Fail{key, msg}; }
};

struct Sub {
    std::string prop, name;
    double weight;      // relative share of the case budget
    PropFn fn;
    double cpu_limit;   // seconds of CPU per case before it counts as non-terminating
};
inline std::vector<Sub> &registry() { static std::vector<Sub> r; return r; }
struct Reg {
    Reg(const char *p, const char *n, double w, PropFn f, double lim = 40) { registry().push_back({p, n, w, std::move(f), lim}); }
};
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PROPERTY(id, name, weight) \
    static void id##_##name(pbt::Case &); \
    static pbt::Reg PBT_CAT(reg_, PBT_CAT(id, PBT_CAT(_, name)))(#id, #name, weight, id##_##name); \
    static void id##_##name(pbt::Case &g)

// ---------------------------------------------------------------- execution
struct Outcome { int status = 0; /*1 ok 2 fail 3 crash 4 hang*/ std::string key, msg, desc; std::vector<uint64_t> choices; };

inline size_t case_size(uint64_t idx) { static const size_t s[] = {4, 8, 12, 20, 30, 45}; return s[idx % 6]; }

inline void arm(double sec) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = (time_t)sec; it.it_value.tv_usec = (suseconds_t)((sec - (time_t)sec) * 1e6);
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

inline void run_case(const Sub &s, Case &c) { s.fn(c); }

inline Shared *shared_area() {
    static Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return sh;
}
// the description goes straight to the shared area in a forked child, so that it survives a crash
struct SharedBuf : std::streambuf {
    Shared *sh; size_t n = 0;
    explicit SharedBuf(Shared *s) : sh(s) {}
    int overflow(int ch) override { if (ch != EOF && n + 1 < sizeof sh->desc) { sh->desc[n++] = (char)ch; sh->desc[n] = 0; } return ch == EOF ? 0 : ch; }
    std::streamsize xsputn(const char *p, std::streamsize k) override { for (std::streamsize i = 0; i < k; ++i) overflow((unsigned char)p[i]); return k; }
};
// run one case in a forked child
inline bool &crash_only() { static bool b = false; return b; }
// (after `earlier` cases in the same process, for failures that depend on what ran before)
struct Position { const Sub *s; uint64_t seed; size_t size; uint64_t idx; };
inline Outcome exec_forked(const Sub &s, const std::vector<uint64_t> *choices, uint64_t seed, size_t size, const std::vector<Position> *earlier = nullptr) {
    Shared *sh = shared_area();
    sh->n = 0; sh->status = 0; sh->key[0] = sh->msg[0] = sh->desc[0] = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        Case c; c.sh = sh; c.size = size; c.seed = seed; c.verbose = true;
        SharedBuf sb(sh); static_cast<std::ostream &>(c.desc).rdbuf(&sb);
        if (choices) { c.replay = true; c.in = *choices; }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        if (earlier) for (auto &p : *earlier) {
            Case e; e.seed = p.seed; e.size = p.size; arm(p.s->cpu_limit);
            try { run_case(*p.s, e); } catch (const Fail &) {} catch (const std::exception &) {}
        }
        arm(s.cpu_limit);
        try { run_case(s, c); sh->status = 1; }
        catch (const Fail &f) {
            snprintf(sh->key, sizeof sh->key, "%s", f.key.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str());
            sh->status = 2;
        } catch (const std::exception &e) {
            snprintf(sh->key, sizeof sh->key, "exception");
            snprintf(sh->msg, sizeof sh->msg, "unexpected exception: %s", e.what());
            sh->status = 2;
        }
        if (crash_only() && sh->status == 2) sh->status = 1;
        _exit(0);
    }
    int st = 0; waitpid(pid, &st, 0);
    Outcome o;
    o.choices.assign(sh->c, sh->c + std::min<uint64_t>((uint64_t)sh->n, (uint64_t)Shared::CAP));
    o.desc = sh->desc;
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        o.status = sig == SIGVTALRM ? 4 : 3;
        o.key = sig == SIGVTALRM ? "hang" : "crash";
        o.msg = sig == SIGVTALRM ? "case used more than its CPU limit (does not terminate)" : std::string("terminated by signal ") + strsignal(sig);
    } else if (sh->status == 2) { o.status = 2; o.key = sh->key; o.msg = sh->msg; }
    else if (sh->status == 1) o.status = 1;
    else { o.status = 3; o.key = "crash"; o.msg = "process exited during the case (status " + std::to_string(WEXITSTATUS(st)) + ")"; }
    return o;
}

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string jesc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += ch;
    }
    return o;
}

// shrink keeping "fails with the same key"
inline Outcome shrink(const Sub &s, Outcome best, size_t size, double budget_s) {
    double t0 = now();
    int attempts = 0;
    auto simpler = [](const std::vector<uint64_t> &a, const std::vector<uint64_t> &b) {
        if (a.size() != b.size()) return a.size() < b.size();
        return a < b;
    };
    auto attempt = [&](std::vector<uint64_t> c) {
        if (now() - t0 > budget_s || attempts > 6000) return false;
        ++attempts;
        Outcome o = exec_forked(s, &c, 0, size);
        if (o.status >= 2 && o.key == best.key && simpler(o.choices, best.choices)) { best = o; return true; }
        return false;
    };
    bool improved = true;
    while (improved && now() - t0 < budget_s) {
        improved = false;
        // delete chunks
        for (size_t len = std::max<size_t>(1, best.choices.size() / 2); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size();) {
                auto c = best.choices; c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) improved = true; else i += len;
                if (now() - t0 > budget_s) break;
            }
            if (len == 1) break;
        }
        // zero chunks
        for (size_t len = std::max<size_t>(1, best.choices.size() / 4); len >= 1; len /= 2) {
            for (size_t i = 0; i + len <= best.choices.size(); i += len) {
                auto c = best.choices; bool nz = false;
                for (size_t k = i; k < i + len; ++k) { nz = nz || c[k]; c[k] = 0; }
                if (nz && attempt(c)) improved = true;
                if (now() - t0 > budget_s) break;
            }
            if (len == 1) break;
        }
        // lower single choices
        for (size_t i = 0; i < best.choices.size(); ++i) {
            uint64_t lo = 0;
            for (int k = 0; k < 20 && i < best.choices.size() && best.choices[i] > lo; ++k) {
                auto c = best.choices; uint64_t mid = lo + (c[i] - lo) / 2; c[i] = mid;
                if (attempt(c)) improved = true; else lo = mid + 1;
                if (now() - t0 > budget_s) break;
            }
            if (now() - t0 > budget_s) break;
        }
    }
    return best;
}

inline std::set<std::string> load_known(const std::string &file, const std::string &prop) {
    std::set<std::string> k; std::ifstream f(file); std::string line;
    while (std::getline(f, line)) {
        if (line.rfind("known:", 0) != 0) continue;
        std::istringstream is(line); std::string tok, p, key;
        while (is >> tok) { if (tok.rfind("property=", 0) == 0) p = tok.substr(9); if (tok.rfind("key=", 0) == 0) key = tok.substr(4); }
        if (p == prop && !key.empty()) k.insert(key);
    }
    return k;
}

struct SubStat { uint64_t cases = 0, nontriv = 0, known = 0; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::unordered_set<uint64_t> distinct; };

// Driver.  usage: BIN PROP --seed S --cases N --workers W --budget SEC --out stats.json --replay-out file --known file
//                 BIN PROP --replay FILE        BIN --list
inline int driver(int argc, char **argv) {
    std::map<std::string, std::string> a; std::string prop;
    for (int i = 1; i < argc; ++i) {
        std::string s = argv[i];
        if (s.rfind("--", 0) == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i];
        else if (s.rfind("--", 0) == 0) a[s.substr(2)] = "1";
        else prop = s;
    }
    if (a.count("list")) { for (auto &s : registry()) printf("%s %s %g\n", s.prop.c_str(), s.name.c_str(), s.weight); return 0; }
    crash_only() = a.count("crash-only") > 0;
    // the library prints progress on std::cout: silence it, keep fd 1 for the driver
    std::cout.setstate(std::ios_base::failbit);
    std::vector<Sub> subs;
    for (auto &s : registry()) if ((prop == "ALL" || s.prop == prop) && (!a.count("sub") || s.name == a["sub"])) subs.push_back(s);
    if (subs.empty()) { fprintf(stderr, "no such property %s\n", prop.c_str()); return 2; }
    if (a.count("replay")) {
        std::ifstream f(a["replay"]); std::string line, sub; size_t size = 30; std::vector<uint64_t> ch; uint64_t v; std::vector<Position> hist;
        while (std::getline(f, line)) {
            std::istringstream is(line); std::string k; is >> k;
            if (k == "sub") is >> sub; else if (k == "size") is >> size; else if (k == "choices") while (is >> v) ch.push_back(v);
            else if (k == "case") { std::string n; Position p{nullptr, 0, 0, 0}; is >> n >> p.idx >> p.size >> p.seed; for (auto &s : subs) if (s.name == n) p.s = &s; if (p.s) hist.push_back(p); }
        }
        for (auto &s : subs) if (s.name == sub) {
            Outcome o;
            if (hist.empty()) o = exec_forked(s, &ch, 0, size);
            else { Position last = hist.back(); hist.pop_back(); o = exec_forked(*last.s, nullptr, last.seed, last.size, &hist); }
            printf("%s %s: %s %s\n%s\n%s\n", s.prop.c_str(), s.name.c_str(), o.status == 1 ? "HOLDS" : "FAILS", o.key.c_str(), o.msg.c_str(), o.desc.c_str());
            return o.status == 1 ? 0 : 1;
        }
        fprintf(stderr, "replay: unknown sub-check %s\n", sub.c_str());
        return 2;
    }
    uint64_t seed = std::stoull(a.count("seed") ? a["seed"] : "1");
    uint64_t cases = std::stoull(a.count("cases") ? a["cases"] : "1000");
    int W = std::stoi(a.count("workers") ? a["workers"] : "8");
    double budget = std::stod(a.count("budget") ? a["budget"] : "600");
    std::set<std::string> known; if (a.count("known")) known = load_known(a["known"], prop);
    struct Slot { volatile uint64_t sub, idx; volatile int failed; volatile int stop; char what[4000]; };
    Slot *slots = (Slot *)mmap(nullptr, sizeof(Slot) * (W + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void *)slots, 0, sizeof(Slot) * (W + 1));
    volatile int *stop = &slots[W].stop;
    double t0 = now();
    std::string tmp = (a.count("out") ? a["out"] : "/tmp/pbt") + "." + std::to_string(getpid());
    auto cseed = [&](const Sub &s, uint64_t i) { return mix(seed * 0x9e37ULL + hashs(s.prop + "/" + s.name)) ^ mix(i + 17); };
    auto ncases = [&](const Sub &s) { return std::max<uint64_t>(1, (uint64_t)(cases * s.weight)); };
    std::vector<pid_t> pids;
    fflush(nullptr);
    for (int w = 0; w < W; ++w) {
        pid_t pid = fork();
        if (pid) { pids.push_back(pid); continue; }
        struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
        std::vector<SubStat> st(subs.size());
        int rc = 0;
        // interleave the sub-checks so that a time budget starves none of them
        uint64_t rounds = 0; for (auto &s : subs) rounds = std::max(rounds, ncases(s));
        const uint64_t B = std::max<uint64_t>(1, rounds / 50);
        for (uint64_t r = 0; r * B < rounds && !rc; ++r) {
            for (size_t si = 0; si < subs.size() && !rc; ++si) {
                const Sub &s = subs[si];
                uint64_t n = ncases(s), lo = n * r * B / rounds, hi = std::min<uint64_t>(n, n * ((r + 1) * B) / rounds);
                if ((r + 1) * B >= rounds) hi = n;
                for (uint64_t i = lo; i < hi; ++i) {
                    if ((int)(i % W) != w) continue;
                    if (*stop || now() - t0 > budget) { r = rounds; break; }
                    slots[w].sub = si; slots[w].idx = i;
                    Case c; c.seed = cseed(s, i); c.size = case_size(i / W);
                    arm(s.cpu_limit);
                    bool bad = false; std::string key, why;
                    try { run_case(s, c); }
                    catch (const Fail &f) { bad = true; key = f.key; why = f.msg; }
                    catch (const std::exception &e) { bad = true; key = "exception"; why = e.what(); }
                    SubStat &q = st[si];
                    q.cases++;
                    if (bad && crash_only()) { bad = false; c.label("stopped early by a check of another property"); }
                    if (bad && known.count(key)) { q.known++; bad = false; }
                    if (bad) { snprintf(slots[w].what, sizeof slots[w].what, "%s: %s", key.c_str(), why.c_str()); slots[w].failed = 1; *stop = 1; rc = 3; break; }
                    for (auto &l : c.labels) q.labels[l]++;
                    if (c.nontriv) {
                        uint64_t h = 7; for (auto v : c.rec) h = mix(h ^ v);
                        if (q.distinct.insert(h).second) q.nontriv++;
                        if (q.samples.size() < 1 && c.desc.tellp() > 0) q.samples.push_back(c.desc.str().substr(0, 1200));
                    }
                }
            }
        }
        arm(0);
        std::ofstream f(tmp + "." + std::to_string(w));
        for (size_t si = 0; si < subs.size(); ++si) {
            f << "S " << si << " " << st[si].cases << " " << st[si].nontriv << " " << st[si].known << "\n";
            for (auto &l : st[si].labels) f << "L " << si << " " << l.second << " " << l.first << "\n";
            for (auto &x : st[si].samples) f << "X " << si << " " << jesc(x) << "\n";
        }
        f.close();
        {   // hashes of the non-trivial cases, so that distinctness is counted across workers
            std::ofstream hf(tmp + "." + std::to_string(w) + ".h", std::ios::binary);
            for (size_t si = 0; si < subs.size(); ++si)
                for (uint64_t h : st[si].distinct) { h = mix(h + si); hf.write((const char *)&h, sizeof h); }
        }
        _exit(rc);
    }
    int failw = -1; bool crash = false;
    for (int w = 0; w < W; ++w) {
        int st; waitpid(pids[w], &st, 0);
        bool c = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3);
        if (c) { snprintf(slots[w].what, sizeof slots[w].what, "worker ended with wait status %d", st); slots[w].failed = 1; *stop = 1; crash = true; }
    }
    (void)crash;
    // lowest failing case first
    for (int w = 0; w < W; ++w) if (slots[w].failed) {
        if (failw < 0 || std::make_pair(slots[w].sub, slots[w].idx) < std::make_pair(slots[failw].sub, slots[failw].idx)) failw = w;
    }
    double gen_s = now() - t0;
    // merge
    std::unordered_set<uint64_t> alld;
    for (int w = 0; w < W; ++w) {
        std::string hn = tmp + "." + std::to_string(w) + ".h";
        { std::ifstream hf(hn, std::ios::binary); uint64_t h; while (hf.read((char *)&h, sizeof h)) alld.insert(h); }
        unlink(hn.c_str());
    }
    std::vector<SubStat> tot(subs.size());
    for (int w = 0; w < W; ++w) {
        std::ifstream f(tmp + "." + std::to_string(w)); std::string line;
        while (std::getline(f, line)) {
            std::istringstream is(line); char k; size_t si; is >> k >> si;
            if (k == 'S') { uint64_t x, y, z; is >> x >> y >> z; tot[si].cases += x; tot[si].nontriv += y; tot[si].known += z; }
            if (k == 'L') { uint64_t n; is >> n; std::string l; std::getline(is, l); tot[si].labels[l.substr(1)] += n; }
            if (k == 'X' && tot[si].samples.size() < 2) { std::string l; std::getline(is, l); tot[si].samples.push_back(l.substr(1)); }
        }
        f.close(); unlink((tmp + "." + std::to_string(w)).c_str());
    }
    // the cases worker w ran up to case i of sub-check si, in order
    auto history = [&](int w, uint64_t si, uint64_t i) {
        std::vector<Position> h; uint64_t rounds = 0; for (auto &s : subs) rounds = std::max(rounds, ncases(s));
        const uint64_t B = std::max<uint64_t>(1, rounds / 50);
        for (uint64_t r = 0; r * B < rounds; ++r) for (size_t k = 0; k < subs.size(); ++k) {
            const Sub &s = subs[k]; uint64_t n = ncases(s), lo = n * r * B / rounds, hi = std::min<uint64_t>(n, n * ((r + 1) * B) / rounds); if ((r + 1) * B >= rounds) hi = n;
            for (uint64_t j = lo; j < hi; ++j) if ((int)(j % W) == w) { h.push_back({&s, cseed(s, j), case_size(j / W), j}); if (k == si && j == i) return h; }
        }
        return h;
    };
    // shortest failing tail of a history, in place
    auto replay_history = [&](std::vector<Position> &h, Outcome &o, double limit) {
        double t1 = now(); Position last = h.back();
        auto tail = [&](size_t n, Outcome &r) { std::vector<Position> e(h.end() - 1 - n, h.end() - 1); r = exec_forked(*last.s, nullptr, last.seed, last.size, &e); return r.status >= 2; };
        size_t bad = 0, good = 0; bool found = false; Outcome r;
        for (size_t n = 1; ; n *= 4) {
            n = std::min(n, h.size() - 1);
            if (tail(n, r)) { bad = n; o = r; found = true; break; }
            good = n;
            if (n == h.size() - 1 || now() - t1 > limit) break;
        }
        if (!found) return false;
        while (bad - good > 1 && now() - t1 < limit) { size_t m = good + (bad - good) / 2; if (tail(m, r)) { bad = m; o = r; } else good = m; }
        std::vector<Position> k(h.end() - 1 - bad, h.end()); h = k;
        // drop cases that are not needed
        for (size_t len = h.size() / 2; len >= 1; len /= 2) for (size_t i = 0; i + len < h.size() && now() - t1 < limit;) {
            std::vector<Position> c = h; c.erase(c.begin() + i, c.begin() + i + len); std::vector<Position> e(c.begin(), c.end() - 1);
            if ((r = exec_forked(*last.s, nullptr, last.seed, last.size, &e)).status >= 2) { h = c; o = r; } else i += len;
        }
        return true;
    };
    int rc = 0;
    std::string vmsg, vkey, vsub; std::vector<Position> hist;
    if (failw >= 0) {
        const Sub &s = subs[slots[failw].sub]; uint64_t i = slots[failw].idx;
        size_t size = case_size(i / W);
        Outcome o = exec_forked(s, nullptr, cseed(s, i), size);
        if (o.status == 1) { // did not reproduce from the seed in a fresh child
            for (int k = 0; k < 3 && o.status == 1; ++k) o = exec_forked(s, nullptr, cseed(s, i), size);
        }
        if (o.status >= 2) {
            Outcome m = o;
            if (o.choices.size() < (size_t)Shared::CAP) m = shrink(s, o, size, a.count("shrink") ? std::stod(a["shrink"]) : 40);
            vkey = m.key; vmsg = m.msg; vsub = s.name; rc = 1;
            std::ofstream f(a.count("replay-out") ? a["replay-out"] : "/tmp/pbt.replay");
            f << "property " << s.prop << "\nsub " << s.name << "\nsize " << size << "\nchoices";
            for (auto v : m.choices) f << " " << v;
            f << "\n# key: " << m.key << "\n# message: " << m.msg << "\n# case:\n";
            std::istringstream ds(m.desc); std::string l; while (std::getline(ds, l)) f << "#   " << l << "\n";
        } else if (replay_history(hist = history(failw, slots[failw].sub, i), o, 90)) {
            auto &h = hist;
            // the case only fails after others in the same process: the history is the reproduction
            vkey = o.key; vsub = s.name; rc = 1; vmsg = o.msg + " (only after the " + std::to_string(h.size() - 1) + " cases before it in the same process)";
            std::ofstream f(a.count("replay-out") ? a["replay-out"] : "/tmp/pbt.replay");
            f << "property " << s.prop << "\nsub " << s.name << "\n";
            for (auto &p : h) f << "case " << p.s->name << " " << p.idx << " " << p.size << " " << p.seed << "\n";
            f << "# key: " << o.key << "\n# message: " << vmsg << "\n# last case:\n";
            std::istringstream ds(o.desc); std::string l; while (std::getline(ds, l)) f << "#   " << l << "\n";
        } else { vmsg = "failure in sub-check " + s.name + " case " + std::to_string(i) + " did not reproduce (" + slots[failw].what + ")"; rc = 4; }
    }
    if (a.count("out")) {
        std::ofstream f(a["out"]);
        uint64_t ev = 0, nt = 0, kn = 0;
        f << "{\"subs\":[";
        for (size_t si = 0; si < subs.size(); ++si) {
            ev += tot[si].cases; nt += tot[si].nontriv; kn += tot[si].known;
            f << (si ? "," : "") << "{\"name\":\"" << subs[si].name << "\",\"planned\":" << ncases(subs[si]) << ",\"cases\":" << tot[si].cases
              << ",\"distinct_nontrivial\":" << tot[si].nontriv << ",\"known\":" << tot[si].known << ",\"labels\":{";
            bool first = true; for (auto &l : tot[si].labels) { f << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
            f << "},\"samples\":[";
            first = true; for (auto &x : tot[si].samples) { f << (first ? "" : ",") << "\"" << x << "\""; first = false; }
            f << "]}";
        }
        f << "],\"evaluations\":" << ev << ",\"distinct_nontrivial\":" << alld.size() << ",\"known\":" << kn << ",\"rc\":" << rc << ",\"gen_s\":" << gen_s
          << ",\"fail\":{\"sub\":\"" << jesc(vsub) << "\",\"key\":\"" << jesc(vkey) << "\",\"msg\":\"" << jesc(vmsg) << "\"}}\n";
    }
    return rc;
}
} // namespace pbt
#define PBT_MAIN int main(int argc, char **argv) { return pbt::driver(argc, argv); }
