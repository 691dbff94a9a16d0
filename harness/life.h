// Lives of library objects: a scripted sequence of calls from new to del, with everything the calls return written to a
// transcript. The same script can be run alone, interleaved with others, in a thread, with its inputs thrown away.
#ifndef VERIF_LIFE_H
#define VERIF_LIFE_H
#include "api.h"
#include "createGrids2D.h"
#include "CmdLineArgParser.h"
#include <functional>
#include <memory>

extern thread_local int vl_in_lib;  // > 0 while a call of the library runs
#define LIB(x) do { ++vl_in_lib; x; --vl_in_lib; } while (0)

struct Life {
    std::string kind, log; Rng r; std::vector<std::function<void()> > steps; std::function<void()> del;
    std::vector<double> out;                       // transcript
    bool scribble;                                 // overwrite and free input arrays as soon as the setter has returned
    struct In { std::vector<double> d; std::vector<int> i; uint64_t h; };
    std::vector<std::shared_ptr<In> > ins;
    explicit Life(uint64_t seed) : r(seed), scribble(false) {}
    static uint64_t sig(const In& q) { Hash h; h.addv(q.d); for (size_t k = 0; k < q.i.size(); ++k) h.addi(q.i[k]); return h.h; }
    std::shared_ptr<In> in(const std::vector<double>& d, const std::vector<int>& i = std::vector<int>()) { std::shared_ptr<In> q(new In()); q->d = d; q->i = i; q->h = sig(*q); ins.push_back(q); return q; }
    // the library is done with this input
    void done(const std::shared_ptr<In>& q) { if (!scribble) return; for (size_t k = 0; k < q->d.size(); ++k) q->d[k] = std::numeric_limits<double>::quiet_NaN(); for (size_t k = 0; k < q->i.size(); ++k) q->i[k] = -1000000; std::vector<double>().swap(q->d); std::vector<int>().swap(q->i); }
    bool inputsIntact() const { if (scribble) return true; for (size_t k = 0; k < ins.size(); ++k) if (sig(*ins[k]) != ins[k]->h) return false; return true; }
    void add(const std::string& n, std::function<void()> f) { log += n + " "; steps.push_back(f); }
    void put(double v) { out.push_back(v); }
    void put(const std::vector<double>& v) { for (size_t k = 0; k < v.size(); ++k) out.push_back(v[k]); }
    void run() { for (size_t k = 0; k < steps.size(); ++k) steps[k](); del(); }
private: Life(const Life&); Life& operator=(const Life&);
};
typedef std::shared_ptr<Life> LifeP;

static inline std::vector<double> lv_rnd(Rng& r, int n) { std::vector<double> v(n); for (int i = 0; i < n; ++i) v[i] = r.u(-1,1); return v; }
static inline Grid lv_grid(Rng& r) { Grid g = r.p(.25) ? rectGrid(r.i(2,4), r.i(2,4), -1, -1, 1, 1) : randomGrid(r, 2, 6); if (r.p(.15)) { double t = r.u(-3, 3); for (int k = 0; k < g.n(); ++k) g.x[k] += t; } return g; }
static inline std::vector<double> lv_flat(const Grid& g) { std::vector<double> v(g.x); v.insert(v.end(), g.y.begin(), g.y.end()); return v; }
static inline std::vector<int> lv_dims(const Grid& g, int p0 = 0, int p1 = 0) { std::vector<int> v; v.push_back(g.dims[0]); v.push_back(g.dims[1]); v.push_back(p0); v.push_back(p1); return v; }

template <class T> struct Box { T* p; Box() : p(0) {} };

static inline void lifeConserve(Life& L) {
    Rng& r = L.r; L.kind = "conserve"; std::shared_ptr<Box<SgConserveInterp2D_type> > b(new Box<SgConserveInterp2D_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgConserveInterp2D_new(&b->p)); }); int n = r.i(0, 9); Grid s, d; bool hs = false, hd = false, hw = false;
    for (int q = 0; q < n; ++q) { int op = r.i(0, 5);
        if (op == 0 || (!hs && op != 1)) { s = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(s), lv_dims(s)); hs = true; hw = false; L.add("src", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgConserveInterp2D_setSrcGrid(&b->p, i->i.data(), i->i.data()+2, c)); l->done(i); }); }
        else if (op == 1 || !hd) { d = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(d), lv_dims(d)); hd = true; hw = false; L.add("dst", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgConserveInterp2D_setDstGrid(&b->p, i->i.data(), c)); l->done(i); }); }
        else if (!hw || op == 2) { hw = true; L.add("weights", [=]() { LIB(SgConserveInterp2D_computeWeights(&b->p)); }); }
        else if (op == 3) { int k = r.i(1, 30); bool rs = r.p(.6); int cells = s.nc(); (void)cells; L.add(fmt("iterate%d", k), [=]() { if (rs) LIB(SgConserveInterp2D_reset(&b->p)); for (int a = 0; a < k; ++a) { int x = -9, y = -9, e = 0; double w = -9; LIB(SgConserveInterp2D_get(&b->p, &x, &y, &w)); l->put(x); l->put(y); l->put(w); LIB(e = SgConserveInterp2D_next(&b->p)); l->put(e); } }); }
        else { std::shared_ptr<Life::In> i = L.in(lv_rnd(r, s.nc())); int m = d.nc(); L.add("apply", [=]() { std::vector<double> o(m, 3.25); LIB(SgConserveInterp2D_apply(&b->p, i->d.data(), o.data())); l->put(o); l->done(i); }); } }
    L.del = [=]() { LIB(SgConserveInterp2D_del(&b->p)); };
}
static inline void lifeNode(Life& L) {
    Rng& r = L.r; L.kind = "node"; std::shared_ptr<Box<SgNodeInterp2D_type> > b(new Box<SgNodeInterp2D_type>()); Life* l = &L; int it = r.i(5, 100); double tol = pow(10, r.u(-10, -5)); L.add("new", [=]() { LIB(SgNodeInterp2D_new(&b->p, it, tol)); }); int n = r.i(0, 9); Grid s, d; bool hs = false, hd = false, hw = false;
    for (int q = 0; q < n; ++q) { int op = r.i(0, 5);
        if (op == 0 || (!hs && op != 1)) { s = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(s), lv_dims(s, r.p(.1), r.p(.1))); hs = true; hw = false; L.add("src", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgNodeInterp2D_setSrcGrid(&b->p, i->i.data(), i->i.data()+2, c)); l->done(i); }); }
        else if (op == 1 || !hd) { d = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(d), lv_dims(d)); hd = true; hw = false; L.add("dst", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgNodeInterp2D_setDstGrid(&b->p, i->i.data(), c)); l->done(i); }); }
        else if (!hw || op == 2) { hw = true; L.add("weights", [=]() { LIB(SgNodeInterp2D_computeWeights(&b->p)); }); }
        else { std::shared_ptr<Life::In> i = L.in(lv_rnd(r, s.n())); int m = d.n(); L.add("apply", [=]() { std::vector<double> o(m, 3.25); LIB(SgNodeInterp2D_apply(&b->p, i->d.data(), o.data())); l->put(o); l->done(i); }); } }
    L.del = [=]() { LIB(SgNodeInterp2D_del(&b->p)); };
}
static inline void lifeFlow(Life& L) {
    Rng& r = L.r; L.kind = "flow"; std::shared_ptr<Box<SgFlowInterp2D_type> > b(new Box<SgFlowInterp2D_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgFlowInterp2D_new(&b->p)); }); int n = r.i(0, 9), np = 0; Grid s; bool hs = false, hd = false, hw = false;
    for (int q = 0; q < n; ++q) { int op = r.i(0, 5);
        if (op == 0 || (!hs && op != 1)) { s = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(s), lv_dims(s)); hs = true; hw = false; L.add("src", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgFlowInterp2D_setSrcGrid(&b->p, i->i.data(), c)); l->done(i); }); }
        else if (op == 1 || !hd) { np = r.i(1, 7); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, 2*np), std::vector<int>(1, np)); hd = true; hw = false; L.add("dst", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgFlowInterp2D_setDstGrid(&b->p, i->i.data(), c)); l->done(i); }); }
        else if (!hw || op == 2) { hw = true; bool dbg = r.p(.2); L.add("weights", [=]() { LIB(SgFlowInterp2D_computeWeights(&b->p)); if (dbg) LIB(SgFlowInterp2D_debug(&b->p)); }); }
        else { int n0 = (s.dims[0]-1)*s.dims[1], n1 = s.dims[0]*(s.dims[1]-1); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, n0)), j = L.in(lv_rnd(r, n1)); int m = np - 1; L.add("apply", [=]() { std::vector<double> o(m, 3.25); const double* e[2] = { i->d.data(), j->d.data() }; LIB(SgFlowInterp2D_apply(&b->p, e, o.data())); l->put(o); l->done(i); l->done(j); }); } }
    L.del = [=]() { LIB(SgFlowInterp2D_del(&b->p)); };
}
static inline void lifeFinder(Life& L) {
    Rng& r = L.r; L.kind = "finder"; std::shared_ptr<Box<SgFindPointInCell_type> > b(new Box<SgFindPointInCell_type>()); Life* l = &L; int it = r.i(1, 40); double tol = pow(10, r.u(-12, -3)); L.add("new", [=]() { LIB(SgFindPointInCell_new(&b->p, it, tol)); }); int n = r.i(0, 6), nd = 0; std::vector<int> dm;
    for (int q = 0; q < n; ++q) { if (q == 0 || r.p(.4)) { nd = r.i(1, 3); dm.assign(2*nd, 0); int tot = 1; for (int i = 0; i < nd; ++i) { dm[i] = r.i(2, 6); dm[nd+i] = r.p(.3); tot *= dm[i]; } std::vector<double> x(nd*tot); double amp = r.p(.5) ? .15 : 0; for (int f = 0; f < tot; ++f) { int k = f; for (int i = nd-1; i >= 0; --i) { x[i*tot+f] = (k % dm[i]) + amp*r.u(-1,1); k /= dm[i]; } } std::shared_ptr<Life::In> i = L.in(x, dm); int m = nd; L.add(fmt("grid%dd", nd), [=]() { const double* c[3] = { i->d.data(), i->d.data() + tot, i->d.data() + (m > 2 ? 2*tot : 0) }; LIB(SgFindPointInCell_setGrid(&b->p, m, i->i.data(), i->i.data() + m, c)); l->done(i); }); }
        std::vector<double> st, t; for (int i = 0; i < nd; ++i) { st.push_back(r.u(0, dm[i]-1)); t.push_back(r.u(0, dm[i]-1) + (r.p(.05) ? 50 : 0)); } std::shared_ptr<Life::In> i = L.in(st), j = L.in(t); int lim = r.p(.3) ? r.i(0, 3) : 100, m = nd;
        L.add("search", [=]() { LIB(SgFindPointInCell_reset(&b->p, i->d.data(), j->d.data())); l->done(i); l->done(j); int e = 0, nh = -1; double* hp = 0; for (int k = 0; k < lim && !e; ++k) { LIB(e = SgFindPointInCell_next(&b->p)); l->put(e); std::vector<double> o(m); LIB(SgFindPointInCell_getIndices(&b->p, o.data())); l->put(o); if (e != -3) { double er = 0; LIB(SgFindPointInCell_getPosition(&b->p, o.data())); LIB(SgFindPointInCell_getError(&b->p, &er)); l->put(o); l->put(er); } } LIB(SgFindPointInCell_getErrorHistory(&b->p, &nh, &hp)); l->put(nh); for (int k = 0; k < nh; ++k) l->put(hp[k]); }); }
    L.del = [=]() { LIB(SgFindPointInCell_del(&b->p)); };
}
static inline void lifeOverlap(Life& L) {
    Rng& r = L.r; L.kind = "overlap"; std::shared_ptr<Box<SgFindOverlappingCells2D_type> > b(new Box<SgFindOverlappingCells2D_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgFindOverlappingCells2D_new(&b->p)); }); int n = r.i(0, 6);
    for (int q = 0; q < n; ++q) { if (q == 0 || r.p(.4)) { Grid s = lv_grid(r); std::shared_ptr<Life::In> i = L.in(lv_flat(s), lv_dims(s, r.p(.1), r.p(.1))); L.add("src", [=]() { const double* c[2] = { i->d.data(), i->d.data() + i->d.size()/2 }; LIB(SgFindOverlappingCells2D_setSrcGrid(&b->p, i->i.data(), i->i.data()+2, c)); l->done(i); }); }
        int m = r.i(1, 8); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, 2*m)); L.add("polygon", [=]() { LIB(SgFindOverlappingCells2D_setPolygonPoints(&b->p, m, i->d.data())); l->done(i); LIB(SgFindOverlappingCells2D_findSrcCellIndices(&b->p)); int k = -1, *c = 0; LIB(SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&b->p, &k)); LIB(SgFindOverlappingCells2D_getSrcCellIndices(&b->p, &c)); l->put(k); for (int a = 0; a < k; ++a) l->put(c[a]); }); }
    L.del = [=]() { LIB(SgFindOverlappingCells2D_del(&b->p)); };
}
static inline void lifeSolver(Life& L) {
    Rng& r = L.r; L.kind = "solver"; std::shared_ptr<Box<SgLinearSolve_type> > b(new Box<SgLinearSolve_type>()); Life* l = &L; int nr = r.i(1, 5), nc = r.i(1, 5); L.add(fmt("new%dx%d", nr, nc), [=]() { LIB(SgLinearSolve_new(&b->p, nr, nc)); }); int n = r.i(0, 5);
    for (int q = 0; q < n; ++q) { std::shared_ptr<Life::In> i = L.in(lv_rnd(r, nr*nc)), j = L.in(lv_rnd(r, nr)); bool z = r.p(.1), sv = r.p(.9); L.add("solve", [=]() { if (z) { std::vector<double> a(nr*nc, 0.0); LIB(SgLinearSolve_setMatrix(&b->p, a.data())); } else LIB(SgLinearSolve_setMatrix(&b->p, i->d.data())); LIB(SgLinearSolve_setRightHandSide(&b->p, j->d.data())); l->done(i); l->done(j); if (!sv) return; int e = 0; LIB(e = SgLinearSolve_solve(&b->p)); l->put(e); double* x = 0; LIB(SgLinearSolve_getSolution(&b->p, &x)); for (int k = 0; k < nc; ++k) l->put(x[k]); double rs = 0; LIB(SgLinearSolve_getResidual(&b->p, &rs)); l->put(rs); }); }
    L.del = [=]() { LIB(SgLinearSolve_del(&b->p)); };
}
static inline void lifeHull(Life& L) {
    Rng& r = L.r; L.kind = "hull"; std::shared_ptr<Box<SgTriangulate_type> > b(new Box<SgTriangulate_type>()); Life* l = &L; int n = r.i(0, 14); std::vector<double> v = lv_rnd(r, 2*n); if (r.p(.3)) for (size_t k = 0; k < v.size(); ++k) v[k] = r.i(0, 2); std::shared_ptr<Life::In> i = L.in(v); L.add(fmt("new%d", n), [=]() { LIB(SgTriangulate_new(&b->p, n, i->d.data())); l->done(i); }); int m = r.i(0, 3); for (int k = 0; k < m; ++k) L.add("area", [=]() { double a = -1; LIB(SgTriangulate_getConvexHullArea(&b->p, &a)); l->put(a); });
    L.del = [=]() { LIB(SgTriangulate_del(&b->p)); };
}
static inline std::vector<double> lv_quad(Rng& r) { Grid g = randomGrid(r, 2, 2); Poly p = ccw(g.cell(0)); std::vector<double> v; for (int k = 0; k < 4; ++k) { v.push_back((double)p[k].x); v.push_back((double)p[k].y); } return v; }
static inline void lifeQuads(Life& L) { // the quads are referred to, not copied
    Rng& r = L.r; L.kind = "quads"; std::shared_ptr<Box<SgQuadIntersect_type> > b(new Box<SgQuadIntersect_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgQuadIntersect_new(&b->p)); }); if (r.p(.8)) { std::shared_ptr<Life::In> i = L.in(lv_quad(r)), j = L.in(lv_quad(r)); L.add("quads", [=]() { LIB(SgQuadIntersect_setQuadPoints(&b->p, i->d.data(), j->d.data())); int n = -1; double* p = 0; LIB(SgQuadIntersect_getIntersectPoints(&b->p, &n, &p)); l->put(n); for (int k = 0; k < 2*n; ++k) l->put(p[k]); l->done(i); l->done(j); }); }
    L.del = [=]() { LIB(SgQuadIntersect_del(&b->p)); };
}
static inline void lifeQuadLine(Life& L) {
    Rng& r = L.r; L.kind = "quad-line"; std::shared_ptr<Box<SgQuadLineIntersect_type> > b(new Box<SgQuadLineIntersect_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgQuadLineIntersect_new(&b->p)); }); if (r.p(.8)) { std::shared_ptr<Life::In> i = L.in(lv_quad(r)), j = L.in(lv_rnd(r, 4)); L.add("clip", [=]() { LIB(SgQuadLineIntersect_setQuadPoints(&b->p, i->d.data())); LIB(SgQuadLineIntersect_setLinePoints(&b->p, j->d.data())); int n = -1; double* p = 0; LIB(SgQuadLineIntersect_collectIntersectPoints(&b->p, &n, &p)); l->put(n); for (int k = 0; k < 2*n; ++k) l->put(p[k]); l->done(i); l->done(j); }); }
    L.del = [=]() { LIB(SgQuadLineIntersect_del(&b->p)); };
}
static inline void lifeLineFlows(Life& L) {
    Rng& r = L.r; L.kind = "line-flows"; std::shared_ptr<Box<SgQuadLineFlows_type> > b(new Box<SgQuadLineFlows_type>()); Life* l = &L; L.add("new", [=]() { LIB(SgQuadLineFlows_new(&b->p)); }); int n = r.i(0, 3); for (int q = 0; q < n; ++q) { std::vector<double> quad = lv_quad(r), line; for (int e = 0; e < 2; ++e) { double u = r.u(), v = r.u(); for (int j = 0; j < 2; ++j) line.push_back((1-u)*(1-v)*quad[j] + u*(1-v)*quad[2+j] + u*v*quad[4+j] + (1-u)*v*quad[6+j]); } std::shared_ptr<Life::In> i = L.in(quad), j = L.in(line); L.add("project", [=]() { LIB(SgQuadLineFlows_setQuadPoints(&b->p, i->d.data())); LIB(SgQuadLineFlows_setLinePoints(&b->p, j->d.data())); LIB(SgQuadLineFlows_computeProjections(&b->p)); for (int e = 0; e < 4; ++e) { double f = 0; LIB(SgQuadLineFlows_getProjection(&b->p, e, &f)); l->put(f); } l->done(i); l->done(j); }); }
    L.del = [=]() { LIB(SgQuadLineFlows_del(&b->p)); };
}
static inline void lifeBox(Life& L) {
    Rng& r = L.r; L.kind = "box"; std::shared_ptr<Box<SgBoxIterator_type> > b(new Box<SgBoxIterator_type>()); Life* l = &L; int nd = r.i(1, 4); std::vector<int> q(2*nd); long tot = 1; for (int i = 0; i < nd; ++i) { q[i] = r.i(-3, 3); q[nd+i] = q[i] + r.i(1, 4); tot *= q[nd+i]-q[i]; } std::shared_ptr<Life::In> i = L.in(std::vector<double>(), q); L.add(fmt("new%dd", nd), [=]() { LIB(SgBoxIterator_new(&b->p, nd, i->i.data(), i->i.data() + nd)); l->done(i); }); std::vector<int> el; for (int k = 0; k < 5; ++k) el.push_back(r.i(0, (int)tot-1));
    L.add("elements", [=]() { int n = 0; LIB(SgBoxIterator_getNumberOfElements(&b->p, &n)); l->put(n); for (size_t k = 0; k < el.size(); ++k) { std::vector<int> e(nd); int id = -1; LIB(SgBoxIterator_getElement(&b->p, el[k], e.data())); LIB(SgBoxIterator_getIndex(&b->p, e.data(), &id)); for (int a = 0; a < nd; ++a) l->put(e[a]); l->put(id); } });
    L.del = [=]() { LIB(SgBoxIterator_del(&b->p)); };
}
static inline void lifeOctree(Life& L) {
    Rng& r = L.r; L.kind = "octree"; std::shared_ptr<Box<SgOctreePoints_type> > b(new Box<SgOctreePoints_type>()); Life* l = &L; int nd = r.i(1, 3), lev = r.i(1, 4), np = r.i(2, 9); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, nd*np)); std::vector<double> x(i->d.begin(), i->d.begin() + nd); L.add("new", [=]() { LIB(SgOctreePoints_new(&b->p, lev, nd, np, i->d.data())); l->done(i); });
    L.add("key", [=]() { std::vector<double> y(x); std::vector<size_t> key; std::vector<double> lo, hi; LIB(key = b->p->getKey(&y[0], lev)); LIB(lo = b->p->getLo(key)); LIB(hi = b->p->getHi(key)); for (size_t k = 0; k < key.size(); ++k) l->put((double)key[k]); l->put(lo); l->put(hi); });
    L.del = [=]() { LIB(SgOctreePoints_del(&b->p)); };
}
static inline void lifeTripolar(Life& L) {
    Rng& r = L.r; L.kind = "tripolar"; std::shared_ptr<Box<SgTripolarGrid_type> > b(new Box<SgTripolarGrid_type>()); Life* l = &L; std::vector<int> d; d.push_back(r.i(3, 12)); d.push_back(2*r.i(2, 8)+1); int cap = r.i(1, d[0]-1); std::shared_ptr<Life::In> i = L.in(std::vector<double>(), d); L.add(fmt("new%dx%d", d[0], d[1]), [=]() { LIB(SgTripolarGrid_new(&b->p, i->i.data(), cap)); l->done(i); }); int m = r.i(0, 2); for (int k = 0; k < m; ++k) L.add("grid", [=]() { int q[2] = {0,0}; double** c = 0; LIB(SgTripolarGrid_getGrid(&b->p, q, &c)); l->put(q[0]); l->put(q[1]); for (int a = 0; a < q[0]*q[1]; ++a) { l->put(c[0][a]); l->put(c[1][a]); } });
    L.del = [=]() { LIB(SgTripolarGrid_del(&b->p)); };
}
static inline void lifeSimplex(Life& L) {
    Rng& r = L.r; L.kind = "simplex"; Life* l = &L; int k = r.i(0, 2); std::shared_ptr<Box<SgLine_type> > a(new Box<SgLine_type>()); std::shared_ptr<Box<SgTriangle_type> > b(new Box<SgTriangle_type>()); std::shared_ptr<Box<SgTetrahedron_type> > c(new Box<SgTetrahedron_type>()); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, 12));
    L.add(fmt("new%d", k), [=]() { const double* p = i->d.data(); double *x = 0; int n = 0, *e = 0; if (k == 0) { LIB(SgLine_new(&a->p, p, p+3)); l->done(i); LIB(SgLine_getNumberOfPoints(&a->p, &n)); for (int q = 0; q < n; ++q) { LIB(SgLine_getPoint(&a->p, q, &x)); for (int j = 0; j < 3; ++j) l->put(x[j]); } } else if (k == 1) { LIB(SgTriangle_new(&b->p, p, p+3, p+6)); l->done(i); LIB(SgTriangle_getNumberOfPoints(&b->p, &n)); l->put(n); LIB(SgTriangle_getNumberOfEdges(&b->p, &n)); l->put(n); for (int q = 0; q < 3; ++q) { LIB(SgTriangle_getPoint(&b->p, q, &x)); for (int j = 0; j < 3; ++j) l->put(x[j]); LIB(SgTriangle_getEdge(&b->p, q, &e)); l->put(e[0]); l->put(e[1]); } } else { LIB(SgTetrahedron_new(&c->p, p, p+3, p+6, p+9)); l->done(i); LIB(SgTetrahedron_getNumberOfPoints(&c->p, &n)); l->put(n); LIB(SgTetrahedron_getNumberOfEdges(&c->p, &n)); l->put(n); LIB(SgTetrahedron_getNumberOfFaces(&c->p, &n)); l->put(n); for (int q = 0; q < 4; ++q) { LIB(SgTetrahedron_getPoint(&c->p, q, &x)); for (int j = 0; j < 3; ++j) l->put(x[j]); LIB(SgTetrahedron_getFace(&c->p, q, &e)); for (int j = 0; j < 3; ++j) l->put(e[j]); } for (int q = 0; q < 6; ++q) { LIB(SgTetrahedron_getEdge(&c->p, q, &e)); l->put(e[0]); l->put(e[1]); } } });
    L.del = [=]() { if (k == 0) LIB(SgLine_del(&a->p)); else if (k == 1) LIB(SgTriangle_del(&b->p)); else LIB(SgTetrahedron_del(&c->p)); };
}
static inline void lifeUtils(Life& L) { // free functions and the command line parser
    Rng& r = L.r; L.kind = "utils"; Life* l = &L; int k = r.i(0, 3); int d0 = r.i(2, 7), d1 = r.i(2, 7); std::shared_ptr<Life::In> i = L.in(lv_rnd(r, 4));
    L.add(fmt("util%d", k), [=]() { int d[2] = { d0, d1 }; std::vector<double> x(d0*d1), y(d0*d1); double* c[2] = { x.data(), y.data() }; if (k == 0) LIB(createRectangularGrid(d, i->d.data(), i->d.data()+2, c)); else if (k == 1) LIB(createPolarGrid(d, i->d.data(), 1.5, c)); else if (k == 2) LIB(createRotatedPoleGrid(d, 40*i->d[0], 90*i->d[1], c)); else { ++vl_in_lib; { CmdLineArgParser p; p.set("-d", 1.5, "x"); p.set("--name", std::string("abcdefghijklmnopqrstuvwxyz"), "y"); p.set("--list", std::string("1,2,3"), "z"); char a0[] = "prog", a1[] = "-d", a2[] = "2.75", a3[] = "--list", a4[] = "4, 5, 6, 7"; char* av[] = { a0, a1, a2, a3, a4 }; bool ok = p.parse(5, av); double v = p.get<double>("-d"); std::vector<double> w = p.get<std::vector<double> >("--list"); --vl_in_lib; l->put(ok); l->put(v); l->put(w); ++vl_in_lib; } --vl_in_lib; } l->put(x); l->put(y); });
    L.del = []() {};
}
static const int LIFE_KINDS = 16;
static inline LifeP makeLife(int kind, uint64_t seed, bool scribble = false) {
    LifeP l(new Life(seed)); l->scribble = scribble; static void (*const f[LIFE_KINDS])(Life&) = { lifeConserve, lifeNode, lifeFlow, lifeFinder, lifeOverlap, lifeSolver, lifeHull, lifeQuads, lifeQuadLine, lifeLineFlows, lifeBox, lifeOctree, lifeTripolar, lifeSimplex, lifeUtils, lifeConserve }; f[kind](*l); return l;
}
static inline bool sameBits(const std::vector<double>& a, const std::vector<double>& b) { return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size()*sizeof(double)) == 0); }
#endif
