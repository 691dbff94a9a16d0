// Shared runtime for the monitors: deterministic case generation, case bookkeeping that survives a
// crash of the code under test, violation reporting and coverage accounting.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <functional>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <time.h>
#include <iostream>

// ---------------------------------------------------------------- random numbers
static inline uint64_t vh_mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t vh_str(const char* s) {
    uint64_t h = 1469598103934665603ULL;
    for (; *s; ++s) { h ^= (unsigned char)*s; h *= 1099511628211ULL; }
    return h;
}
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(vh_mix(seed)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ULL; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return (int)((int64_t)a + (int64_t)(next() % (uint64_t)((int64_t)b - a + 1))); } // inclusive
    bool p(double q) { return u() < q; }
    double sgn() { return (next() & 1) ? 1.0 : -1.0; }
    template <class T> void shuffle(std::vector<T>& v) { for (size_t k = v.size(); k > 1; --k) std::swap(v[k-1], v[next() % k]); }
};

// ---------------------------------------------------------------- hashing of inputs (distinctness)
struct Hash {
    uint64_t h;
    Hash() : h(0x1234567) {}
    void add(uint64_t x) { h = vh_mix(h ^ vh_mix(x)); }
    void addi(long x) { add((uint64_t)x); }
    void addd(double x) { uint64_t b; memcpy(&b, &x, 8); add(b); }
    void addv(const std::vector<double>& v) { for (size_t i = 0; i < v.size(); ++i) addd(v[i]); }
    void addv(const std::vector<int>& v) { for (size_t i = 0; i < v.size(); ++i) addi(v[i]); }
    void adds(const std::string& s) { add(vh_str(s.c_str())); }
};

static inline std::string jesc(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r;
}
static inline std::string fmt(const char* f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap); return buf;
}

// Sizes: the `big` workloads run the same cases with larger inputs
static double vh_big = 1;
static inline int BG(int n) { return (int)(n*vh_big); }
static int vh_huge = 0; // more than 65536 cells, nodes, segments...
struct HugeScope { HugeScope() { vh_huge = 1; } ~HugeScope() { vh_huge = 0; } };
#define HUGE_CASE(name, fn) static void name(Harness& H, Rng& r, long c) { HugeScope b; fn(H, r, c); }
struct BigScope { explicit BigScope(double f) { vh_big = f; } ~BigScope() { vh_big = 1; } };
#define BIGGER(name, fn, f) static void name(Harness& H, Rng& r, long c) { BigScope b(f); fn(H, r, c); }

// ---------------------------------------------------------------- harness
struct Harness;
// != 0: the objects of this case have a history (see api.h); set for a fifth of the cases of some properties
static uint64_t vh_dirty = 0;
static inline bool vh_history(const std::string& p) { static const char* const ps[] = { "C01","C02","C03","C04","C06","C07","C08","C09","C10","C11","C19","C34" }; for (size_t k = 0; k < sizeof ps/sizeof *ps; ++k) if (p == ps[k]) return true; return false; }
typedef void (*CaseFn)(Harness&, Rng&, long);
struct Workload { std::string name; CaseFn fn; long nquick, nthorough; };

struct Shared { char workload[64]; long index; long ordinal; long started, finished; char note[256]; };

struct Harness {
    std::string prop, tier; uint64_t seed; int shard, nshards; FILE* out;
    Shared* sh;
    std::vector<Workload> workloads;
    std::map<std::string, long> counters;
    std::unordered_set<uint64_t> distinct, states;
    long evaluations, nviol; int nsamples;
    std::string curW; long curI; bool replay;
    std::set<std::string> seenKeys;
    std::map<std::string, int> sampleCount;

    Harness() : seed(1), shard(0), nshards(1), out(stdout), sh(0), evaluations(0), nviol(0), nsamples(0), curI(0), replay(false) {}
    void add(const char* n, CaseFn f, long q, long t) { Workload w; w.name = n; w.fn = f; w.nquick = q; w.nthorough = t; workloads.push_back(w); }
    void count(const std::string& k, long n = 1) { counters[k] += n; }
    bool thorough() const { return tier == "thorough"; }
    // one evaluated case; nontrivial cases contribute a distinct hash
    void eval(uint64_t h, bool nontrivial) { ++evaluations; if (nontrivial) distinct.insert(h); }
    void state(uint64_t h) { states.insert(h); }
    // note shown when the code under test dies during this case
    void note(const std::string& s) { if (sh) { strncpy(sh->note, s.c_str(), sizeof(sh->note) - 1); sh->note[sizeof(sh->note)-1] = 0; } }
    void sample(const std::string& text) {
        int& c = sampleCount[curW];
        if (c >= 1 && !replay) return;
        ++c;
        fprintf(out, "{\"t\":\"sample\",\"w\":\"%s\",\"i\":%ld,\"text\":\"%s\"}\n", curW.c_str(), curI, jesc(text).c_str());
    }
    void fail(const std::string& key, const std::string& detail) {
        ++nviol;
        std::string k = curW + "/" + key;
        if (seenKeys.count(k) && !replay) return;
        seenKeys.insert(k);
        fprintf(out, "{\"t\":\"viol\",\"w\":\"%s\",\"i\":%ld,\"key\":\"%s\",\"detail\":\"%s\"}\n",
                curW.c_str(), curI, jesc(key).c_str(), jesc(detail).c_str());
        fflush(out);
    }
    Rng caseRng(const std::string& w, long i) { return Rng(vh_mix(vh_mix(seed) ^ ((uint64_t)i * 0x9e3779b97f4a7c15ULL)) ^ vh_str((prop + ":" + w).c_str())); }
    void runCase(const Workload& w, long i, long ord = 0) {
        curW = w.name; curI = i;
        if (sh) { strncpy(sh->workload, w.name.c_str(), 63); sh->index = i; sh->ordinal = ord; sh->note[0] = 0; __sync_synchronize(); sh->started++; }
        Rng r = caseRng(w.name, i);
        vh_dirty = 0; if (vh_history(prop)) { Rng q = caseRng(w.name + ":history", i); if (q.p(.2)) { vh_dirty = q.next() | 1; count("cases-on-used-objects"); } }
        w.fn(*this, r, i); vh_dirty = 0;
        if (sh) sh->finished++;
    }
    void finish(const char* distinctFile) {
        fprintf(out, "{\"t\":\"end\",\"evaluations\":%ld,\"violations\":%ld,\"counters\":{", evaluations, nviol);
        bool first = true;
        for (std::map<std::string, long>::iterator it = counters.begin(); it != counters.end(); ++it) {
            fprintf(out, "%s\"%s\":%ld", first ? "" : ",", jesc(it->first).c_str(), it->second); first = false;
        }
        fprintf(out, "}}\n"); fflush(out);
        if (distinctFile && *distinctFile) {
            FILE* f = fopen(distinctFile, "wb");
            if (f) {
                uint64_t n = distinct.size(); fwrite(&n, 8, 1, f);
                for (std::unordered_set<uint64_t>::iterator it = distinct.begin(); it != distinct.end(); ++it) { uint64_t v = *it; fwrite(&v, 8, 1, f); }
                n = states.size(); fwrite(&n, 8, 1, f);
                for (std::unordered_set<uint64_t>::iterator it = states.begin(); it != states.end(); ++it) { uint64_t v = *it; fwrite(&v, 8, 1, f); }
                fclose(f);
            }
        }
    }
};

void registerWorkloads(Harness& H);

// The library prints progress and warnings on stdout/stderr: silence it, keep our own channel.
// Cases are run in rounds that interleave the workloads; every case has an ordinal, so that a run can resume after
// the case that killed it. Case k of a workload depends only on (property, workload, seed, k).
static inline int harness_main(int argc, char** argv) {
    Harness H; std::string outFile, stateFile, distFile, onlyW; bool nobig = false, nohuge = false; long onlyI = -1; long from = -1; double scale = 1.0, budget = 0;
    for (int a = 1; a < argc; ++a) {
        std::string s = argv[a]; std::string v = a + 1 < argc ? argv[a+1] : "";
        if (s == "--prop") { H.prop = v; ++a; }
        else if (s == "--tier") { H.tier = v; ++a; }
        else if (s == "--seed") { H.seed = strtoull(v.c_str(), 0, 10); ++a; }
        else if (s == "--shard") { H.shard = atoi(v.c_str()); ++a; }
        else if (s == "--nshards") { H.nshards = atoi(v.c_str()); ++a; }
        else if (s == "--out") { outFile = v; ++a; }
        else if (s == "--state") { stateFile = v; ++a; }
        else if (s == "--distinct") { distFile = v; ++a; }
        else if (s == "--workload") { onlyW = v; ++a; }
        else if (s == "--case") { onlyI = atol(v.c_str()); ++a; }
        else if (s == "--from") { from = atol(v.c_str()); ++a; }
        else if (s == "--scale") { scale = atof(v.c_str()); ++a; }
        else if (s == "--nobig") nobig = true; // for runs under valgrind
        else if (s == "--nohuge") nohuge = true; // for sanitizer runs
        else if (s == "--budget") { budget = atof(v.c_str()); ++a; }
    }
    if (!outFile.empty()) { H.out = fopen(outFile.c_str(), "w"); if (!H.out) { fprintf(stderr, "cannot open %s\n", outFile.c_str()); return 3; } }
    if (!stateFile.empty()) {
        int fd = open(stateFile.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 3;
        void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED) return 3;
        H.sh = (Shared*)p; close(fd);
    }
    std::cout.rdbuf(0); std::cerr.rdbuf(0);
    registerWorkloads(H);
    if (onlyI >= 0) {
        H.replay = true;
        for (size_t k = 0; k < H.workloads.size(); ++k) if (H.workloads[k].name == onlyW) H.runCase(H.workloads[k], onlyI);
        H.finish(distFile.c_str());
        return 0;
    }
    struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
    const long rounds = 16; long ord = 0; bool stop = false;
    for (long rd = 0; rd < rounds && !stop; ++rd) for (size_t k = 0; k < H.workloads.size() && !stop; ++k) {
        const Workload& w = H.workloads[k];
        if (!onlyW.empty() && w.name != onlyW) continue;
        if (nobig && (w.name == "thin" || w.name == "large" || (w.name.size() >= 3 && w.name.substr(w.name.size()-3) == "big"))) continue;
        bool huge = w.name.size() >= 4 && w.name.substr(w.name.size()-4) == "huge";
        if ((nobig || nohuge) && huge) continue;
        long n = H.thorough() ? w.nthorough : w.nquick;
        if (scale != 1.0 && !huge) n = std::max(1L, (long)(n * scale));
        for (long i = n*rd/rounds; i < n*(rd+1)/rounds; ++i, ++ord) {
            if (ord % H.nshards != H.shard || ord < from) continue;
            if (budget > 0) { clock_gettime(CLOCK_MONOTONIC, &t1); if ((t1.tv_sec - t0.tv_sec) + 1e-9*(t1.tv_nsec - t0.tv_nsec) > budget) { stop = true; H.count("stopped-by-time-budget"); break; } }
            H.runCase(w, i, ord);
            H.count("cases-" + w.name);
        }
    }
    H.finish(distFile.c_str());
    return 0;
}
#endif
