// C27 objects are independent of each other, within one thread and across threads, deterministic, and leave inputs alone
// C29 inputs given to setters are copied
#include "life.h"
#include <thread>
#include <atomic>
thread_local int vl_in_lib = 0;
struct NullBuf : std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) { return n; } };
static NullBuf nullbuf;
static int firstDiff(const std::vector<double>& a, const std::vector<double>& b) { size_t k = 0; while (k < a.size() && k < b.size() && !memcmp(&a[k], &b[k], 8)) ++k; return (int)k; }
static std::string diffText(const std::vector<double>& a, const std::vector<double>& b) { int k = firstDiff(a, b); return fmt("entry %d of %d/%d: %.17g and %.17g; ", k, (int)a.size(), (int)b.size(), k < (int)a.size() ? a[k] : -0.0, k < (int)b.size() ? b[k] : -0.0); }
// kinds that work together more often: the same class twice or thrice
static std::vector<std::pair<int, uint64_t> > pick(Rng& r, int n) { std::vector<std::pair<int, uint64_t> > v; int k = r.i(0, LIFE_KINDS-1); for (int i = 0; i < n; ++i) { if (i && r.p(.4)) k = r.i(0, LIFE_KINDS-1); v.push_back(std::make_pair(k, r.next())); } return v; }

static void interleave(Harness& H, Rng& r, long) {
    std::vector<std::pair<int, uint64_t> > w = pick(r, r.i(2, 5)); std::vector<LifeP> a, b; std::string log; H.note("alone");
    for (size_t k = 0; k < w.size(); ++k) { a.push_back(makeLife(w[k].first, w[k].second)); a[k]->run(); b.push_back(makeLife(w[k].first, w[k].second)); log += a[k]->kind + "(" + a[k]->log + ") "; if (!a[k]->inputsIntact()) { H.fail("input-modified-" + a[k]->kind, log); return; } }
    std::vector<size_t> pos(w.size(), 0); std::string sched; H.note("interleaved " + log.substr(0, 200)); size_t open = w.size(); Hash z;
    while (open) { int k = r.i(0, (int)w.size()-1); if (pos[k] > b[k]->steps.size()) continue; z.addi(k); if (sched.size() < 200) sched += fmt("%d", k); if (pos[k] < b[k]->steps.size()) b[k]->steps[pos[k]](); else { b[k]->del(); --open; } ++pos[k]; }
    long vals = 0; for (size_t k = 0; k < w.size(); ++k) { vals += a[k]->out.size(); if (!sameBits(a[k]->out, b[k]->out)) { H.fail("interleaving-changes-" + a[k]->kind, diffText(a[k]->out, b[k]->out) + "schedule " + sched + "; " + log); return; } if (!b[k]->inputsIntact()) { H.fail("input-modified-" + a[k]->kind, log); return; } }
    H.count("values-compared", vals); H.count("objects-interleaved", w.size()); Hash h; h.adds(log); h.addi(z.h & 0x7fffffff); H.eval(h.h, vals > 0); H.state(z.h); H.sample("schedule " + sched + " of " + log);
}
static void threads(Harness& H, Rng& r, long) {
    std::cout.rdbuf(&nullbuf); std::cerr.rdbuf(&nullbuf); std::cout.clear(); std::cerr.clear();
    int nt = r.i(2, 4), per = r.i(4, 12); std::vector<std::vector<LifeP> > a(nt), b(nt); std::string log; H.note("alone"); int same = r.p(.5) ? r.i(0, LIFE_KINDS-1) : -1;
    for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) { int kind = same >= 0 && r.p(.8) ? same : r.i(0, LIFE_KINDS-1); uint64_t s = r.next(); a[t].push_back(makeLife(kind, s)); a[t].back()->run(); b[t].push_back(makeLife(kind, s)); if (log.size() < 500) log += fmt("t%d:", t) + a[t].back()->kind + " "; }
    H.note("threads " + log); std::atomic<int> ready(0); std::vector<std::thread> th;
    for (int t = 0; t < nt; ++t) th.push_back(std::thread([&, t]() { ++ready; while (ready < nt) {} for (int k = 0; k < per; ++k) b[t][k]->run(); }));
    for (int t = 0; t < nt; ++t) th[t].join(); long vals = 0;
    for (int t = 0; t < nt; ++t) for (int k = 0; k < per; ++k) { vals += a[t][k]->out.size(); if (!sameBits(a[t][k]->out, b[t][k]->out)) { H.fail("threads-change-" + a[t][k]->kind, diffText(a[t][k]->out, b[t][k]->out) + a[t][k]->log + "; " + log); return; } if (!b[t][k]->inputsIntact()) { H.fail("input-modified-" + a[t][k]->kind, log); return; } }
    H.count("values-compared", vals); H.count("concurrent-lives", nt*per); Hash h; h.adds(log); h.addi(vals); H.eval(h.h, vals > 0); H.sample(log);
}
static void copies(Harness& H, Rng& r, long c) {
    int kind = c % LIFE_KINDS; uint64_t s = r.next(); LifeP a = makeLife(kind, s), b = makeLife(kind, s, true); H.note("inputs kept"); a->run(); H.note("inputs thrown away: " + a->kind + " " + a->log); b->run();
    if (!sameBits(a->out, b->out)) { H.fail("depends-on-the-callers-arrays-" + a->kind, diffText(a->out, b->out) + a->log); return; }
    H.count("copies-" + a->kind); H.count("values-compared", a->out.size()); Hash h; h.adds(a->kind); h.adds(a->log); h.addv(a->out); H.eval(h.h, a->out.size() > 0); H.sample(a->kind + ": " + a->log);
}
void registerWorkloads(Harness& H) {
    if (H.prop == "C27") { H.add("interleave", interleave, 40000, 800000); H.add("threads", threads, 3000, 60000); }
    if (H.prop == "C29") { H.add("copies", copies, 100000, 2000000); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
