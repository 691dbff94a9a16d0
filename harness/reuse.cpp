// C05: histories of operations on one object; after every step the results must be those of a fresh object
#include "api.h"

static bool sameV(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()*sizeof(double)) == 0); }
static double worst(const std::vector<double>& a, const std::vector<double>& b) { double m = a.size() == b.size() ? 0 : 1e300; for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (!(a[i] == b[i])) m = std::max(m, std::isfinite(a[i]) && std::isfinite(b[i]) ? fabs(a[i]-b[i]) : 1e300); return m; }
// results of the same computation on equal inputs: equal up to round-off of a few operations
static bool near(const std::vector<double>& a, const std::vector<double>& b) { return sameV(a, b) || worst(a, b) <= 1e-13; }
static std::vector<double> rnd(Rng& r, int n) { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = r.u(-1,1); return v; }
static Grid gridOf(Rng& r, double& S) { Grid g = r.p(.15) ? rectGrid(r.i(2,3), r.i(2,3), -1, -1, 1, 1) : randomGrid(r, 2, 7); if (r.p(.2)) { double q = pow(10, r.u(-3, 3)); for (int k = 0; k < g.n(); ++k) { g.x[k] = g.x[k]*q; g.y[k] *= q; } S = q; } if (r.p(.15)) { double t = r.u(-4, 4); for (int k = 0; k < g.n(); ++k) g.x[k] += t; } return g; }

static void conserveHist(Harness& H, Rng& r, long) {
    double S; Grid s = gridOf(r, S), d = gridOf(r, S); Conserve c; std::string log; bool haveS = false, haveD = false; int steps = r.i(3, 8), compared = 0; Hash h; long dup;
    for (int q = 0; q < steps; ++q) {
        int op = r.i(0, 3); if (!haveS) op = 0; else if (!haveD) op = 1;
        if (op == 0) { if (haveS) s = gridOf(r, S); c.src(s, r.p(.2), r.p(.2)); haveS = true; log += "src(" + s.str() + ") "; }
        else if (op == 1) { if (haveD) d = gridOf(r, S); c.dst(d); haveD = true; log += "dst(" + d.str() + ") "; }
        else log += "again "; 
        if (!haveS || !haveD) continue;
        int times = r.i(1, 2); H.note("conserve history " + log.substr(0, 180)); for (int t = 0; t < times; ++t) c.weights(); log += times == 2 ? "weights*2 " : "weights ";
        Conserve f; f.src(s); f.dst(d); f.weights(); int na = r.i(1, 2);
        for (int a = 0; a < na; ++a) { std::vector<double> v = rnd(r, s.nc()), x(d.nc(), 5e33), y(d.nc(), 5e33); c.apply(v, x); f.apply(v, y); if (!near(x, y)) { H.fail("conserve-apply-differs-from-fresh", fmt("difference %.3g; ", worst(x, y)) + log); return; } ++compared; }
        if (r.p(.6)) { WMap m, k; long d1, lim = (long)s.nc()*d.nc() + 5; if (r.p(.4)) { c.reset(); int n = r.i(0, 4); for (int a = 0; a < n; ++a) c.next(); } long n1 = c.pass(m, d1, lim), n2 = f.pass(k, dup, lim); bool ok = n1 == n2 && m.size() == k.size(); for (WMap::iterator i = m.begin(); ok && i != m.end(); ++i) ok = k.count(i->first) && fabs(k[i->first] - i->second) <= 1e-13; if (!ok) { H.fail("conserve-weights-differ-from-fresh", fmt("%ld and %ld entries; ", n1, n2) + log); return; } H.count("weight-lists-compared"); }
        s.hash(h); d.hash(h); Hash z; z.addi(op); z.addi(q); z.addi(times); H.state(z.h);
    }
    H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
static void nodeHist(Harness& H, Rng& r, long) {
    double S; Grid s = gridOf(r, S), d = gridOf(r, S); double tol = 1e-9; Node c(100, tol); std::string log; bool haveS = false, haveD = false; int steps = r.i(3, 8), compared = 0; Hash h; int p0 = 0, p1 = 0;
    for (int q = 0; q < steps; ++q) {
        int op = r.i(0, 3); if (!haveS) op = 0; else if (!haveD) op = 1;
        if (op == 0) { if (haveS) s = gridOf(r, S); p0 = r.p(.1); p1 = r.p(.2); c.src(s, p0, p1); haveS = true; log += fmt("src(periodic %d %d ", p0, p1) + s.str() + ") "; }
        else if (op == 1) { if (haveD) d = gridOf(r, S); c.dst(d); haveD = true; log += "dst(" + d.str() + ") "; } else log += "again ";
        if (!haveS || !haveD) continue;
        int times = r.i(1, 2); H.note("node history"); for (int t = 0; t < times; ++t) c.weights(); log += times == 2 ? "weights*2 " : "weights ";
        Node f(100, tol); f.src(s, p0, p1); f.dst(d); f.weights(); int na = r.i(1, 2);
        for (int a = 0; a < na; ++a) { std::vector<double> v = rnd(r, s.n()), x(d.n(), 5e33), y(d.n(), 5e33); c.apply(v, x); f.apply(v, y); if (!near(x, y)) { H.fail("node-apply-differs-from-fresh", fmt("difference %.3g; ", worst(x, y)) + log); return; } ++compared; }
        s.hash(h); d.hash(h); Hash z; z.addi(10 + op); z.addi(q); z.addi(times); H.state(z.h);
    }
    H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
static Polyline lineOf(Rng& r, const Grid& g) { Polyline l; int n = r.i(2, 6); double lx = 1e300, hx = -1e300, ly = 1e300, hy = -1e300; for (int k = 0; k < g.n(); ++k) { lx = std::min(lx, g.x[k]); hx = std::max(hx, g.x[k]); ly = std::min(ly, g.y[k]); hy = std::max(hy, g.y[k]); } for (int k = 0; k < n; ++k) l.add(r.u(lx, hx), r.u(ly, hy)); return l; }
static void flowHist(Harness& H, Rng& r, long) {
    double S; Grid s = gridOf(r, S); Polyline l = lineOf(r, s); Flow c; std::string log; bool haveS = false, haveD = false; int steps = r.i(3, 8), compared = 0; Hash h;
    for (int q = 0; q < steps; ++q) {
        int op = r.i(0, 3); if (!haveS) op = 0; else if (!haveD) op = 1;
        if (op == 0) { if (haveS) s = gridOf(r, S); c.src(s); haveS = true; log += "src(" + s.str() + ") "; } else if (op == 1) { l = lineOf(r, s); c.dst(l); haveD = true; log += "dst(" + l.str() + ") "; } else log += "again ";
        if (!haveS || !haveD) continue;
        int times = r.i(1, 2); H.note("flow history"); for (int t = 0; t < times; ++t) c.weights(); log += times == 2 ? "weights*2 " : "weights "; Flow f; f.src(s); f.dst(l); f.weights(); int na = r.i(1, 2);
        for (int a = 0; a < na; ++a) { std::vector<double> e0 = rnd(r, (s.dims[0]-1)*s.dims[1]), e1 = rnd(r, s.dims[0]*(s.dims[1]-1)), x(l.n()-1, 5e33), y(l.n()-1, 5e33); c.apply(e0, e1, x); f.apply(e0, e1, y); if (!near(x, y)) { H.fail("flow-apply-differs-from-fresh", fmt("difference %.3g; ", worst(x, y)) + log); return; } ++compared; }
        s.hash(h); l.hash(h); Hash z; z.addi(20 + op); z.addi(q); z.addi(times); H.state(z.h);
    }
    H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
// point location: grids of different dimensions, sizes and periodicity one after the other, searches in any order
static void finderHist(Harness& H, Rng& r, long) {
    int nit = r.i(1, 40); double tol = pow(10, r.u(-12, -3)); Finder c(nit, tol); int steps = r.i(2, 6), compared = 0; Hash h; std::string log; int nd = 0, dims[3], per[3]; std::vector<std::vector<double> > xs;
    for (int q = 0; q < steps; ++q) {
        if (q == 0 || r.p(.6)) { nd = r.i(1, 3); int tot = 1; for (int i = 0; i < nd; ++i) { dims[i] = r.i(2, 6); per[i] = r.p(.3); tot *= dims[i]; } xs.assign(nd, std::vector<double>(tot)); double off = r.p(.3) ? r.u(-5,5) : 0, amp = r.p(.5) ? .15 : 0; for (int f = 0; f < tot; ++f) { int k = f; for (int i = nd-1; i >= 0; --i) { xs[i][f] = off + (k % dims[i]) + amp*r.u(-1,1); k /= dims[i]; } } c.grid(nd, dims, per, xs); log += fmt("grid%dd(%d,%d,%d per %d%d%d) ", nd, dims[0], nd > 1 ? dims[1] : 0, nd > 2 ? dims[2] : 0, per[0], nd > 1 ? per[1] : 0, nd > 2 ? per[2] : 0); }
        int ns = r.i(1, 3); for (int n = 0; n < ns; ++n) { std::vector<double> st(nd), t(nd); for (int i = 0; i < nd; ++i) { st[i] = r.u(0, dims[i]-1); double lo = *std::min_element(xs[i].begin(), xs[i].end()), hi = *std::max_element(xs[i].begin(), xs[i].end()); t[i] = r.u(lo, hi); if (r.p(.05)) t[i] = hi + 1; h.addd(t[i]); }
            H.note("finder history " + log); Finder f(nit, tol); f.grid(nd, dims, per, xs); c.reset(st, t); f.reset(st, t); int a, b, k = 0; int lim = r.p(.2) ? r.i(1, 3) : 1000; // some searches are given up
            do { a = c.next(); b = f.next(); ++k; if (a != b || !near(c.inds(), f.inds()) || !near(c.pos(), f.pos()) || !near(c.hist(), f.hist()) || fabs(c.err() - f.err()) > 1e-13) { H.fail("search-differs-from-fresh", fmt("iteration %d status %d and %d; ", k, a, b) + log); return; } ++compared; } while (!a && k < lim); log += fmt("search->%d ", a); }
        Hash z; z.addi(30 + nd); z.addi(q); H.state(z.h);
    }
    H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
static std::vector<int> cells(SgFindOverlappingCells2D_type** p, const std::vector<double>& poly) { SgFindOverlappingCells2D_setPolygonPoints(p, (int)poly.size()/2, poly.data()); SgFindOverlappingCells2D_findSrcCellIndices(p); int n = -1, *q = 0; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(p, &n); SgFindOverlappingCells2D_getSrcCellIndices(p, &q); return n > 0 ? std::vector<int>(q, q + n) : std::vector<int>(); }
static void overlapHist(Harness& H, Rng& r, long) {
    SgFindOverlappingCells2D_type* c = 0; SgFindOverlappingCells2D_new(&c); int steps = r.i(2, 7), compared = 0; Hash h; Grid g; std::string log; int per[2] = {0,0};
    for (int q = 0; q < steps; ++q) { double S = 1;
        if (q == 0 || r.p(.5)) { g = gridOf(r, S); const double* p[2]; per[0] = r.p(.1); per[1] = r.p(.1); SgFindOverlappingCells2D_setSrcGrid(&c, g.dims, per, g.ptrs(p)); log += "src(" + g.str() + ") "; }
        int m = r.i(1, 8); std::vector<double> poly; Polyline l; for (int k = 0; k < m; ++k) { Polyline a = lineOf(r, g); poly.push_back(a.x[0]); poly.push_back(a.y[0]); } H.note("overlap history");
        SgFindOverlappingCells2D_type* f = 0; SgFindOverlappingCells2D_new(&f); const double* p[2]; SgFindOverlappingCells2D_setSrcGrid(&f, g.dims, per, g.ptrs(p)); std::vector<int> a = cells(&c, poly), b = cells(&f, poly); SgFindOverlappingCells2D_del(&f); log += fmt("polygon of %d ", m); h.addv(poly);
        if (a != b) { SgFindOverlappingCells2D_del(&c); H.fail("cells-differ-from-fresh", fmt("%d and %d cells; ", (int)a.size(), (int)b.size()) + log); return; } ++compared; Hash z; z.addi(40 + m); z.addi(q); H.state(z.h); }
    SgFindOverlappingCells2D_del(&c); H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
static void smallHist(Harness& H, Rng& r, long) { // linear solver and line projections used again and again
    int nr = r.i(1, 5), nc = r.i(1, 5), compared = 0; SgLinearSolve_type* c = 0; SgLinearSolve_new(&c, nr, nc); Hash h; int steps = r.i(2, 6); std::vector<double> A = rnd(r, nr*nc), b = rnd(r, nr); std::string log = fmt("%dx%d ", nr, nc); bool bad = false;
    for (int q = 0; q < steps && !bad; ++q) { int op = q == 0 ? 3 : r.i(0, 3); if (op & 1) { A = rnd(r, nr*nc); SgLinearSolve_setMatrix(&c, A.data()); } if (op & 2) { b = rnd(r, nr); SgLinearSolve_setRightHandSide(&c, b.data()); } h.addv(A); h.addv(b); log += fmt("op%d ", op); H.note("solver history " + log);
        SgLinearSolve_type* f = 0; SgLinearSolve_new(&f, nr, nc); SgLinearSolve_setMatrix(&f, A.data()); SgLinearSolve_setRightHandSide(&f, b.data()); SgLinearSolve_solve(&c); SgLinearSolve_solve(&f); double *x = 0, *y = 0, ra, rb; SgLinearSolve_getSolution(&c, &x); SgLinearSolve_getSolution(&f, &y); SgLinearSolve_getResidual(&c, &ra); SgLinearSolve_getResidual(&f, &rb); std::vector<double> X(x, x+nc), Y(y, y+nc); SgLinearSolve_del(&f); ++compared; double sc = 0; for (int k = 0; k < nc; ++k) sc = std::max(sc, fabs(Y[k])); if (!(worst(X, Y) <= 1e-12*(1+sc)) || fabs(ra-rb) > 1e-12*(1+sc)) { H.fail("solution-differs-from-fresh", log); bad = true; } }
    SgLinearSolve_del(&c); if (bad) return;
    SgQuadLineFlows_type* w = 0; SgQuadLineFlows_new(&w); std::vector<double> quad, line; 
    for (int q = 0; q < steps; ++q) { if (q == 0 || r.p(.6)) { Grid g = randomGrid(r, 2, 2); Poly p = ccw(g.cell(0)); quad.clear(); for (int k = 0; k < 4; ++k) { quad.push_back((double)p[k].x); quad.push_back((double)p[k].y); } SgQuadLineFlows_setQuadPoints(&w, quad.data()); line.clear(); } if (line.empty() || r.p(.6)) { line.clear(); for (int e = 0; e < 2; ++e) { double u = r.u(), v = r.u(); for (int j = 0; j < 2; ++j) line.push_back((1-u)*(1-v)*quad[j] + u*(1-v)*quad[2+j] + u*v*quad[4+j] + (1-u)*v*quad[6+j]); } SgQuadLineFlows_setLinePoints(&w, line.data()); }
        SgQuadLineFlows_type* f = 0; SgQuadLineFlows_new(&f); SgQuadLineFlows_setQuadPoints(&f, quad.data()); SgQuadLineFlows_setLinePoints(&f, line.data()); SgQuadLineFlows_computeProjections(&w); SgQuadLineFlows_computeProjections(&f); std::vector<double> X(4), Y(4); for (int e = 0; e < 4; ++e) { SgQuadLineFlows_getProjection(&w, e, &X[e]); SgQuadLineFlows_getProjection(&f, e, &Y[e]); } SgQuadLineFlows_del(&f); ++compared; if (!near(X, Y)) { SgQuadLineFlows_del(&w); H.fail("projections-differ-from-fresh", log); return; } }
    SgQuadLineFlows_del(&w); H.count("compared", compared); H.eval(h.h, compared > 1); H.sample(log);
}
void registerWorkloads(Harness& H) { H.add("conserve", conserveHist, 3000, 80000); H.add("node", nodeHist, 3000, 80000); H.add("flow", flowHist, 3000, 80000); H.add("finder", finderHist, 4000, 100000); H.add("overlap", overlapHist, 3000, 80000); H.add("small", smallHist, 3000, 60000); }
int main(int argc, char** argv) { return harness_main(argc, argv); }
