// C33 diagnostics: the messages and listings of the library report what happened
#include "api.h"
#include "CmdLineArgParser.h"
#include <sstream>
#include <unistd.h>
#include <sys/mman.h>

// everything written while it lives, to std::cerr and std::cout or to the file descriptors behind them
struct Capture {
    std::ostringstream o; std::streambuf *c, *e; int f1, f2, fd; bool open;
    Capture() : open(true) { c = std::cout.rdbuf(o.rdbuf()); e = std::cerr.rdbuf(o.rdbuf()); fflush(stdout); fflush(stderr); f1 = dup(1); f2 = dup(2); fd = memfd_create("diag", 0); dup2(fd, 1); dup2(fd, 2); }
    void close() { if (!open) return; open = false; std::cout.rdbuf(c); std::cerr.rdbuf(e); fflush(stdout); fflush(stderr); dup2(f1, 1); dup2(f2, 2); ::close(f1); ::close(f2); }
    std::vector<std::string> lines() { close(); std::string t = o.str(); lseek(fd, 0, SEEK_SET); char b[4096]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) t.append(b, n); std::vector<std::string> L; std::istringstream i(t); std::string s; while (std::getline(i, s)) L.push_back(s); return L; }
    ~Capture() { close(); ::close(fd); }
};
// the numbers of a line from position a on
static std::vector<double> numbers(const std::string& s, size_t a = 0) {
    std::vector<double> r; while (a < s.size()) { char ch = s[a]; bool beg = isdigit(ch) || ((ch == '-' || ch == '+' || ch == '.') && a + 1 < s.size() && (isdigit(s[a+1]) || s[a+1] == '.')); if (beg && a && (isalnum(s[a-1]) || s[a-1] == '_')) beg = false; if (!beg) { ++a; continue; } char* e = 0; r.push_back(strtod(s.c_str() + a, &e)); a = e - s.c_str(); } return r;
}
static bool has(const std::string& s, const char* w) { return s.find(w) != std::string::npos; }
static std::string all(const std::vector<std::string>& L) { std::string t; for (size_t k = 0; k < L.size() && t.size() < 1500; ++k) t += L[k] + " | "; return t; }
static bool near6(double printed, double v, double scale) { return fabs(printed - v) <= 6e-6*fabs(v) + 1e-12*scale; }

// ---- nodes that get no value
static void nodes(Harness& H, Rng& r, long) {
    Grid s = randomGrid(r, 2, BG(8)); double S = r.p(.5) ? 1 : pow(10, r.u(-3, 4)); for (int k = 0; k < s.n(); ++k) { s.x[k] *= S; s.y[k] *= S; }
    double lo[2] = {1e300, 1e300}, hi[2] = {-1e300, -1e300}; for (int k = 0; k < s.n(); ++k) { lo[0] = std::min(lo[0], s.x[k]); hi[0] = std::max(hi[0], s.x[k]); lo[1] = std::min(lo[1], s.y[k]); hi[1] = std::max(hi[1], s.y[k]); }
    double D = std::max(hi[0]-lo[0], hi[1]-lo[1]); Grid d; bool many = r.p(.15); d.dims[0] = r.i(1, BG(many ? 10 : 4)); d.dims[1] = r.i(2, BG(many ? 10 : 6)); std::vector<int> out;
    for (int k = 0; k < d.n(); ++k) { double m = r.p(many ? .2 : .6) ? 0 : pow(10, r.u(-3, 1)); double x = r.u(lo[0]-m*D, hi[0]+m*D), y = r.u(lo[1]-m*D, hi[1]+m*D); if (k && r.p(.05)) { x = d.x[k-1]; y = d.y[k-1]; } d.x.push_back(x); d.y.push_back(y); out.push_back(x < lo[0] || x > hi[0] || y < lo[1] || y > hi[1]); }
    int iters = r.p(.8) ? 100 : r.i(1, 6); Node n(iters, 1e-9*D); n.src(s); n.dst(d); int rounds = r.i(1, 2); std::string in = fmt("nitermax=%d src{", iters) + s.str() + "} dst{" + d.str() + "}"; H.note("messages of nodal weights"); Hash h; s.hash(h); d.hash(h); long bad = 0;
    for (int round = 0; round < rounds; ++round) {
        Capture c; n.weights(); std::vector<std::string> L = c.lines(); std::vector<double> f(s.n(), 1.), o(d.n(), -7e33); n.apply(f, o); std::string ctx = "messages: " + all(L) + " " + in;
        std::vector<int> left; for (int k = 0; k < d.n(); ++k) if (o[k] == -7e33) left.push_back(k); bad = left.size();
        for (size_t q = 0; q < L.size(); ++q) { bool isOut = has(L[q], "outside"), isFail = has(L[q], "failed"); if (!isOut && !isFail) continue; std::vector<double> v = numbers(L[q]); if (v.size() < 2) { H.fail("message-without-the-node", ctx); return; }
            size_t b = left.size(); double be = 1e300; for (size_t k = 0; k < left.size(); ++k) { if (!near6(v[0], d.x[left[k]], D) || !near6(v[1], d.y[left[k]], D)) continue; double e = fabs(v[0]-d.x[left[k]]) + fabs(v[1]-d.y[left[k]]); if (e < be) { be = e; b = k; } }
            if (b == left.size()) { H.fail("message-about-another-node", L[q] + "; " + ctx); return; } int node = left[b]; left.erase(left.begin() + b);
            if (isOut != (bool)out[node]) { H.fail(isOut ? "node-in-the-box-said-to-be-outside" : "outside-node-not-said-to-be-outside", fmt("node %d; ", node) + ctx); return; }
            if (isOut) { H.count("outside-nodes"); int seen = 0; for (size_t k = q+1; k < L.size() && k <= q+2; ++k) { std::vector<double> w = numbers(L[k]); if (has(L[k], "min") && w.size() >= 2) { ++seen; if (!near6(w[0], lo[0], D) || !near6(w[1], lo[1], D)) { H.fail("wrong-corner-of-the-domain", L[k] + "; " + ctx); return; } } else if (has(L[k], "max") && w.size() >= 2) { ++seen; if (!near6(w[0], hi[0], D) || !near6(w[1], hi[1], D)) { H.fail("wrong-corner-of-the-domain", L[k] + "; " + ctx); return; } } } if (seen != 2) { H.fail("domain-not-shown", ctx); return; } }
            else { H.count("failed-nodes"); double px = 0, py = 0, e = -1, code = 0; int seen = 0; for (size_t k = q+1; k < L.size() && k <= q+3; ++k) { std::vector<double> w = numbers(L[k]); if (has(L[k], "position") && w.size() >= 2) { px = w[0]; py = w[1]; seen |= 1; } else if (has(L[k], "error in") && w.size() >= 1) { e = w[0]; seen |= 2; } else if (has(L[k], "code") && w.size() >= 1) { code = w[0]; seen |= 4; } }
                if (seen != 7) { H.fail("incomplete-message", ctx); return; } double t = 2e-5*(fabs(px) + fabs(py) + fabs(d.x[node]) + fabs(d.y[node])) + 1e-12*D; if (!(fabs(hypot(px-d.x[node], py-d.y[node]) - e) <= t)) { H.fail("error-is-not-the-distance-to-the-best-position", fmt("node %d; ", node) + ctx); return; } if (!(px >= lo[0]-t && px <= hi[0]+t && py >= lo[1]-t && py <= hi[1]+t)) { H.fail("best-position-out-of-the-grid", fmt("node %d; ", node) + ctx); return; } if (!(code == -1 || code == -2)) { H.fail("wrong-error-code", fmt("node %d; ", node) + ctx); return; } if (!(e >= 1e-9*D*.99)) { H.fail("failure-within-the-tolerance", fmt("node %d; ", node) + ctx); return; } } }
        if (!left.empty()) { H.fail("node-without-a-value-not-reported", fmt("node %d; ", left[0]) + ctx); return; } }
    H.eval(h.h, bad > 0); H.sample(in);
}

// ---- ends of a segment that are not in the quad
static void ends(Harness& H, Rng& r, long) {
    Grid g = randomGrid(r, 2, 2); double S = r.p(.5) ? 1 : pow(10, r.u(-3, 3)); double q[8]; int id[4] = { g.id(0,0), g.id(1,0), g.id(1,1), g.id(0,1) }; for (int k = 0; k < 4; ++k) { q[2*k] = S*g.x[id[k]]; q[2*k+1] = S*g.y[id[k]]; }
    double lo[2] = {1e300,1e300}, hi[2] = {-1e300,-1e300}; for (int k = 0; k < 4; ++k) for (int j = 0; j < 2; ++j) { lo[j] = std::min(lo[j], q[2*k+j]); hi[j] = std::max(hi[j], q[2*k+j]); }
    double D = std::max(hi[0]-lo[0], hi[1]-lo[1]), l[4]; int outs[2]; 
    for (int e = 0; e < 2; ++e) { bool o = r.p(.5); for (int t = 0; t < 100; ++t) { if (o) { double m = pow(10, r.u(-1, 1)); int j = r.i(0, 1); l[2*e] = r.u(lo[0]-m*D, hi[0]+m*D); l[2*e+1] = r.u(lo[1]-m*D, hi[1]+m*D); l[2*e+j] = r.p(.5) ? lo[j] - (m + .01)*D : hi[j] + (m + .01)*D; } else { double u = r.u(.01,.99), v = r.u(.01,.99); for (int j = 0; j < 2; ++j) l[2*e+j] = (1-u)*(1-v)*q[j] + u*(1-v)*q[2+j] + u*v*q[4+j] + (1-u)*v*q[6+j]; } break; } outs[e] = o; }
    std::string in = "quad"; for (int k = 0; k < 8; ++k) in += fmt(" %.17g", q[k]); in += " line"; for (int k = 0; k < 4; ++k) in += fmt(" %.17g", l[k]); H.note("ends");
    SgQuadLineFlows_type* p; SgQuadLineFlows_new(&p); SgQuadLineFlows_setQuadPoints(&p, q); SgQuadLineFlows_setLinePoints(&p, l); Capture c; int st = SgQuadLineFlows_computeProjections(&p); std::vector<std::string> L = c.lines(); SgQuadLineFlows_del(&p); int a = 0, b = 0; for (size_t k = 0; k < L.size(); ++k) { a += has(L[k], "xia"); b += has(L[k], "xib"); } (void)st;
    if (a != outs[0] || b != outs[1]) { H.fail(a + b > outs[0] + outs[1] ? "converged-end-reported" : "failed-end-not-reported", fmt("first end %s, second end %s; messages: ", outs[0] ? "outside" : "inside", outs[1] ? "outside" : "inside") + all(L) + " " + in); return; }
    H.count("failed-ends", outs[0] + outs[1]); Hash h; for (int k = 0; k < 8; ++k) h.addd(q[k]); for (int k = 0; k < 4; ++k) h.addd(l[k]); H.eval(h.h, outs[0] || outs[1]); H.sample(in);
}

// ---- the listing of the flow weights
static void listing(Harness& H, Rng& r, long) {
    Flow f; int rounds = r.i(1, 2); Hash h; long crossing = 0; std::string in;
    if (!f.past && r.p(.2)) { Capture c; SgFlowInterp2D_debug(&f.p); std::vector<std::string> L = c.lines(); for (size_t k = 0; k < L.size(); ++k) if (has(L[k], "segment index")) { H.fail("segments-listed-before-any-weights", all(L)); return; } }
    for (int round = 0; round < rounds; ++round) {
        Grid g = randomGrid(r, 2, BG(7)); double S = r.p(.5) ? 1 : pow(10, r.u(-3, 4)); for (int k = 0; k < g.n(); ++k) { g.x[k] *= S; g.y[k] *= S; } int n = r.i(2, BG(7)); Polyline l; for (int k = 0; k < n; ++k) { double m = r.p(.7) ? 1 : 4; l.add(S*r.u(-m, m), S*r.u(-m, m)); if (r.p(.2)) { int q = r.i(0, g.n()-1); l.x[k] = g.x[q]; l.y[k] = g.y[q]; } }
        f.src(g); f.dst(l); f.weights(); in = g.str() + " " + l.str(); H.note("listing"); g.hash(h); l.hash(h);
        std::vector<double> e0((g.dims[0]-1)*g.dims[1]), e1(g.dims[0]*(g.dims[1]-1)); for (size_t k = 0; k < e0.size(); ++k) e0[k] = r.u(-1,1); for (size_t k = 0; k < e1.size(); ++k) e1[k] = r.u(-1,1); std::vector<double> o(n-1, -7e33), o2; f.apply(e0, e1, o);
        Capture c; SgFlowInterp2D_debug(&f.p); std::vector<std::string> L = c.lines(); std::string ctx = "listing: " + all(L) + " " + in; std::vector<double> sum(n-1, 0), tol(n-1, 0); std::vector<int> seen(n-1, 0); std::set<long> cells; long seg = -1;
        for (size_t k = 0; k < L.size(); ++k) {
            if (has(L[k], "segment index")) { std::vector<double> v = numbers(L[k]); seg = v.empty() ? -1 : (long)v.back(); if (seg < 0 || seg >= n-1) { H.fail("segment-out-of-range", L[k] + "; " + ctx); return; } if (seen[seg]++) { H.fail("segment-listed-twice", L[k] + "; " + ctx); return; } cells.clear(); }
            else if (has(L[k], "cell index")) { std::vector<double> v = numbers(L[k], L[k].find("cell index")), w = numbers(L[k], L[k].rfind(':')); if (seg < 0 || v.empty() || w.size() != 4) { H.fail("incomplete-line", L[k] + "; " + ctx); return; } long cell = (long)v[0]; if (cell < 0 || cell >= g.nc()) { H.fail("cell-out-of-range", L[k] + "; " + ctx); return; } if (!cells.insert(cell).second) { H.fail("cell-listed-twice", L[k] + "; " + ctx); return; } int i = cell/(g.dims[1]-1), j = cell%(g.dims[1]-1); H.count("cells-listed");
                double d[4] = { e0[i*g.dims[1]+j], e0[i*g.dims[1]+j+1], e1[i*(g.dims[1]-1)+j], e1[(i+1)*(g.dims[1]-1)+j] }; for (int q = 0; q < 4; ++q) { sum[seg] += w[q]*d[q]; tol[seg] += 6e-6*fabs(w[q]*d[q]) + 1e-12; } } }
        for (int k = 0; k < n-1; ++k) { bool set = o[k] != -7e33; if (set != (seen[k] == 1)) { H.fail(set ? "segment-not-listed" : "segment-without-weights-listed", fmt("segment %d; ", k) + ctx); return; } if (!set) { H.count("segments-outside"); continue; } ++crossing; if (!(fabs(sum[k]-o[k]) <= tol[k])) { H.fail("weights-listed-are-not-those-used", fmt("segment %d: listed weights give %.9g, apply gives %.9g; ", k, sum[k], o[k]) + ctx); return; } }
        o2.assign(n-1, -7e33); f.apply(e0, e1, o2); if (o2 != o) { H.fail("listing-changed-the-weights", ctx); return; } }
    H.count("segments-listed", crossing); H.eval(h.h, crossing > 0); H.sample(in);
}

// ---- unknown options
static void unknown(Harness& H, Rng& r, long) {
    CmdLineArgParser p; int n = r.i(0, BG(6)); std::vector<std::string> names, av(1, "prog"); for (int k = 0; k < n; ++k) { std::string nm = fmt("--opt%d", k); names.push_back(nm); p.set(nm, k, "number"); }
    int m = r.i(0, 5); for (int k = 0; k < m && n; ++k) { av.push_back(names[r.i(0, n-1)]); av.push_back(fmt("%d", r.i(-50, 50))); } bool bad = r.p(.7); std::string u; if (bad) { u = r.p(.3) ? fmt("-%c", 'i' + r.i(0, 15)) : fmt("--%c%s", 'p' + r.i(0, 9), r.p(.5) ? "unknown" : "x-1"); if (r.p(.1)) { int q = r.i(10, 300); for (int z = 0; z < q; ++z) u += (char)r.i('a', 'z'); } av.insert(av.begin() + 1 + 2*r.i(0, ((int)av.size()-1)/2), u); }
    std::string log; for (size_t k = 0; k < av.size(); ++k) log += av[k] + " "; std::vector<std::vector<char> > bufs; std::vector<char*> argv; for (size_t k = 0; k < av.size(); ++k) { bufs.push_back(std::vector<char>(av[k].begin(), av[k].end())); bufs.back().push_back(0); } for (size_t k = 0; k < av.size(); ++k) argv.push_back(&bufs[k][0]);
    H.note("unknown " + log); Capture c; bool ok = p.parse((int)argv.size(), argv.data()); std::vector<std::string> L = c.lines(); if (ok == bad) { H.fail("parse-status", log); return; } std::string t; int f = 0; for (size_t k = 0; k < L.size(); ++k) if (has(L[k], "not a valid option")) { ++f; t = L[k]; }
    if (bad ? f != 1 || (" " + t + " ").find(" " + u + " ") == std::string::npos : f != 0) { H.fail(bad ? "unknown-option-not-named" : "known-options-complained-about", "messages: " + all(L) + " arguments: " + log); return; }
    if (bad) H.count("unknown-options"); Hash h; h.adds(log); H.eval(h.h, bad); H.sample(log);
}
BIGGER(nodesBig, nodes, 4)
BIGGER(listingBig, listing, 4)
void registerWorkloads(Harness& H) {
    H.add("nodes", nodes, 1500, 60000); H.add("ends", ends, 4000, 150000); H.add("listing", listing, 3000, 100000); H.add("unknown", unknown, 1500, 40000); H.add("nodes-big", nodesBig, 10, 600); H.add("listing-big", listingBig, 15, 800);
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
