// Thin owners around the C API of the library under test. Every input array handed over is an exact-size
// heap block, so that red-zone tools see any access beyond it.
#ifndef VERIF_API_H
#define VERIF_API_H
#include "grids.h"
#include "SgConserveInterp2D.h"
#include "SgNodeInterp2D.h"
#include "SgFlowInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgFindOverlappingCells2D.h"
#include "SgLinearSolve.h"
#include "SgTriangulate.h"
#include "SgQuadIntersect.h"
#include "SgQuadLineIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
#include "SgOctreePoints.h"
#include "SgTripolarGrid.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#include <set>

// Status codes (C31): every call of a function that can only succeed goes through here
struct VhStatus { bool on; long calls; std::string bad; std::set<std::string> seen; VhStatus() : on(false), calls(0) {} };
inline VhStatus& vh_status() { static VhStatus s; return s; }
inline int vh_st(const char* name, int rc) { static VhStatus& s = vh_status(); if (s.on) { ++s.calls; s.seen.insert(name); if (rc && s.bad.empty()) s.bad = fmt("%s returned %d", name, rc); } return rc; }
#define SgBoxIterator_del(...) vh_st("SgBoxIterator_del", SgBoxIterator_del(__VA_ARGS__))
#define SgBoxIterator_getElement(...) vh_st("SgBoxIterator_getElement", SgBoxIterator_getElement(__VA_ARGS__))
#define SgBoxIterator_getIndex(...) vh_st("SgBoxIterator_getIndex", SgBoxIterator_getIndex(__VA_ARGS__))
#define SgBoxIterator_getNumberOfElements(...) vh_st("SgBoxIterator_getNumberOfElements", SgBoxIterator_getNumberOfElements(__VA_ARGS__))
#define SgBoxIterator_new(...) vh_st("SgBoxIterator_new", SgBoxIterator_new(__VA_ARGS__))
#define SgConserveInterp2D_apply(...) vh_st("SgConserveInterp2D_apply", SgConserveInterp2D_apply(__VA_ARGS__))
#define SgConserveInterp2D_computeWeights(...) vh_st("SgConserveInterp2D_computeWeights", SgConserveInterp2D_computeWeights(__VA_ARGS__))
#define SgConserveInterp2D_del(...) vh_st("SgConserveInterp2D_del", SgConserveInterp2D_del(__VA_ARGS__))
#define SgConserveInterp2D_get(...) vh_st("SgConserveInterp2D_get", SgConserveInterp2D_get(__VA_ARGS__))
#define SgConserveInterp2D_new(...) vh_st("SgConserveInterp2D_new", SgConserveInterp2D_new(__VA_ARGS__))
#define SgConserveInterp2D_reset(...) vh_st("SgConserveInterp2D_reset", SgConserveInterp2D_reset(__VA_ARGS__))
#define SgConserveInterp2D_setDstGrid(...) vh_st("SgConserveInterp2D_setDstGrid", SgConserveInterp2D_setDstGrid(__VA_ARGS__))
#define SgConserveInterp2D_setSrcGrid(...) vh_st("SgConserveInterp2D_setSrcGrid", SgConserveInterp2D_setSrcGrid(__VA_ARGS__))
#define SgFindOverlappingCells2D_del(...) vh_st("SgFindOverlappingCells2D_del", SgFindOverlappingCells2D_del(__VA_ARGS__))
#define SgFindOverlappingCells2D_findSrcCellIndices(...) vh_st("SgFindOverlappingCells2D_findSrcCellIndices", SgFindOverlappingCells2D_findSrcCellIndices(__VA_ARGS__))
#define SgFindOverlappingCells2D_getNumberOfSrcCellIndices(...) vh_st("SgFindOverlappingCells2D_getNumberOfSrcCellIndices", SgFindOverlappingCells2D_getNumberOfSrcCellIndices(__VA_ARGS__))
#define SgFindOverlappingCells2D_getSrcCellIndices(...) vh_st("SgFindOverlappingCells2D_getSrcCellIndices", SgFindOverlappingCells2D_getSrcCellIndices(__VA_ARGS__))
#define SgFindOverlappingCells2D_new(...) vh_st("SgFindOverlappingCells2D_new", SgFindOverlappingCells2D_new(__VA_ARGS__))
#define SgFindOverlappingCells2D_setPolygonPoints(...) vh_st("SgFindOverlappingCells2D_setPolygonPoints", SgFindOverlappingCells2D_setPolygonPoints(__VA_ARGS__))
#define SgFindOverlappingCells2D_setSrcGrid(...) vh_st("SgFindOverlappingCells2D_setSrcGrid", SgFindOverlappingCells2D_setSrcGrid(__VA_ARGS__))
#define SgFindPointInCell_del(...) vh_st("SgFindPointInCell_del", SgFindPointInCell_del(__VA_ARGS__))
#define SgFindPointInCell_getError(...) vh_st("SgFindPointInCell_getError", SgFindPointInCell_getError(__VA_ARGS__))
#define SgFindPointInCell_getErrorHistory(...) vh_st("SgFindPointInCell_getErrorHistory", SgFindPointInCell_getErrorHistory(__VA_ARGS__))
#define SgFindPointInCell_getIndices(...) vh_st("SgFindPointInCell_getIndices", SgFindPointInCell_getIndices(__VA_ARGS__))
#define SgFindPointInCell_getPosition(...) vh_st("SgFindPointInCell_getPosition", SgFindPointInCell_getPosition(__VA_ARGS__))
#define SgFindPointInCell_new(...) vh_st("SgFindPointInCell_new", SgFindPointInCell_new(__VA_ARGS__))
#define SgFindPointInCell_reset(...) vh_st("SgFindPointInCell_reset", SgFindPointInCell_reset(__VA_ARGS__))
#define SgFindPointInCell_setGrid(...) vh_st("SgFindPointInCell_setGrid", SgFindPointInCell_setGrid(__VA_ARGS__))
#define SgFlowInterp2D_apply(...) vh_st("SgFlowInterp2D_apply", SgFlowInterp2D_apply(__VA_ARGS__))
#define SgFlowInterp2D_computeWeights(...) vh_st("SgFlowInterp2D_computeWeights", SgFlowInterp2D_computeWeights(__VA_ARGS__))
#define SgFlowInterp2D_debug(...) vh_st("SgFlowInterp2D_debug", SgFlowInterp2D_debug(__VA_ARGS__))
#define SgFlowInterp2D_del(...) vh_st("SgFlowInterp2D_del", SgFlowInterp2D_del(__VA_ARGS__))
#define SgFlowInterp2D_new(...) vh_st("SgFlowInterp2D_new", SgFlowInterp2D_new(__VA_ARGS__))
#define SgFlowInterp2D_setDstGrid(...) vh_st("SgFlowInterp2D_setDstGrid", SgFlowInterp2D_setDstGrid(__VA_ARGS__))
#define SgFlowInterp2D_setSrcGrid(...) vh_st("SgFlowInterp2D_setSrcGrid", SgFlowInterp2D_setSrcGrid(__VA_ARGS__))
#define SgLine_del(...) vh_st("SgLine_del", SgLine_del(__VA_ARGS__))
#define SgLine_getNumberOfPoints(...) vh_st("SgLine_getNumberOfPoints", SgLine_getNumberOfPoints(__VA_ARGS__))
#define SgLine_getPoint(...) vh_st("SgLine_getPoint", SgLine_getPoint(__VA_ARGS__))
#define SgLine_new(...) vh_st("SgLine_new", SgLine_new(__VA_ARGS__))
#define SgLinearSolve_del(...) vh_st("SgLinearSolve_del", SgLinearSolve_del(__VA_ARGS__))
#define SgLinearSolve_getResidual(...) vh_st("SgLinearSolve_getResidual", SgLinearSolve_getResidual(__VA_ARGS__))
#define SgLinearSolve_getSolution(...) vh_st("SgLinearSolve_getSolution", SgLinearSolve_getSolution(__VA_ARGS__))
#define SgLinearSolve_new(...) vh_st("SgLinearSolve_new", SgLinearSolve_new(__VA_ARGS__))
#define SgLinearSolve_setMatrix(...) vh_st("SgLinearSolve_setMatrix", SgLinearSolve_setMatrix(__VA_ARGS__))
#define SgLinearSolve_setRightHandSide(...) vh_st("SgLinearSolve_setRightHandSide", SgLinearSolve_setRightHandSide(__VA_ARGS__))
#define SgNodeInterp2D_apply(...) vh_st("SgNodeInterp2D_apply", SgNodeInterp2D_apply(__VA_ARGS__))
#define SgNodeInterp2D_computeWeights(...) vh_st("SgNodeInterp2D_computeWeights", SgNodeInterp2D_computeWeights(__VA_ARGS__))
#define SgNodeInterp2D_del(...) vh_st("SgNodeInterp2D_del", SgNodeInterp2D_del(__VA_ARGS__))
#define SgNodeInterp2D_new(...) vh_st("SgNodeInterp2D_new", SgNodeInterp2D_new(__VA_ARGS__))
#define SgNodeInterp2D_setDstGrid(...) vh_st("SgNodeInterp2D_setDstGrid", SgNodeInterp2D_setDstGrid(__VA_ARGS__))
#define SgNodeInterp2D_setSrcGrid(...) vh_st("SgNodeInterp2D_setSrcGrid", SgNodeInterp2D_setSrcGrid(__VA_ARGS__))
#define SgOctreePoints_del(...) vh_st("SgOctreePoints_del", SgOctreePoints_del(__VA_ARGS__))
#define SgOctreePoints_new(...) vh_st("SgOctreePoints_new", SgOctreePoints_new(__VA_ARGS__))
#define SgQuadIntersect_del(...) vh_st("SgQuadIntersect_del", SgQuadIntersect_del(__VA_ARGS__))
#define SgQuadIntersect_getIntersectPoints(...) vh_st("SgQuadIntersect_getIntersectPoints", SgQuadIntersect_getIntersectPoints(__VA_ARGS__))
#define SgQuadIntersect_new(...) vh_st("SgQuadIntersect_new", SgQuadIntersect_new(__VA_ARGS__))
#define SgQuadIntersect_setQuadPoints(...) vh_st("SgQuadIntersect_setQuadPoints", SgQuadIntersect_setQuadPoints(__VA_ARGS__))
#define SgQuadLineFlows_del(...) vh_st("SgQuadLineFlows_del", SgQuadLineFlows_del(__VA_ARGS__))
#define SgQuadLineFlows_getProjection(...) vh_st("SgQuadLineFlows_getProjection", SgQuadLineFlows_getProjection(__VA_ARGS__))
#define SgQuadLineFlows_new(...) vh_st("SgQuadLineFlows_new", SgQuadLineFlows_new(__VA_ARGS__))
#define SgQuadLineFlows_setLinePoints(...) vh_st("SgQuadLineFlows_setLinePoints", SgQuadLineFlows_setLinePoints(__VA_ARGS__))
#define SgQuadLineFlows_setQuadPoints(...) vh_st("SgQuadLineFlows_setQuadPoints", SgQuadLineFlows_setQuadPoints(__VA_ARGS__))
#define SgQuadLineIntersect_collectIntersectPoints(...) vh_st("SgQuadLineIntersect_collectIntersectPoints", SgQuadLineIntersect_collectIntersectPoints(__VA_ARGS__))
#define SgQuadLineIntersect_del(...) vh_st("SgQuadLineIntersect_del", SgQuadLineIntersect_del(__VA_ARGS__))
#define SgQuadLineIntersect_new(...) vh_st("SgQuadLineIntersect_new", SgQuadLineIntersect_new(__VA_ARGS__))
#define SgQuadLineIntersect_setLinePoints(...) vh_st("SgQuadLineIntersect_setLinePoints", SgQuadLineIntersect_setLinePoints(__VA_ARGS__))
#define SgQuadLineIntersect_setQuadPoints(...) vh_st("SgQuadLineIntersect_setQuadPoints", SgQuadLineIntersect_setQuadPoints(__VA_ARGS__))
#define SgTetrahedron_del(...) vh_st("SgTetrahedron_del", SgTetrahedron_del(__VA_ARGS__))
#define SgTetrahedron_getEdge(...) vh_st("SgTetrahedron_getEdge", SgTetrahedron_getEdge(__VA_ARGS__))
#define SgTetrahedron_getFace(...) vh_st("SgTetrahedron_getFace", SgTetrahedron_getFace(__VA_ARGS__))
#define SgTetrahedron_getNumberOfEdges(...) vh_st("SgTetrahedron_getNumberOfEdges", SgTetrahedron_getNumberOfEdges(__VA_ARGS__))
#define SgTetrahedron_getNumberOfFaces(...) vh_st("SgTetrahedron_getNumberOfFaces", SgTetrahedron_getNumberOfFaces(__VA_ARGS__))
#define SgTetrahedron_getNumberOfPoints(...) vh_st("SgTetrahedron_getNumberOfPoints", SgTetrahedron_getNumberOfPoints(__VA_ARGS__))
#define SgTetrahedron_getPoint(...) vh_st("SgTetrahedron_getPoint", SgTetrahedron_getPoint(__VA_ARGS__))
#define SgTetrahedron_new(...) vh_st("SgTetrahedron_new", SgTetrahedron_new(__VA_ARGS__))
#define SgTriangle_del(...) vh_st("SgTriangle_del", SgTriangle_del(__VA_ARGS__))
#define SgTriangle_getEdge(...) vh_st("SgTriangle_getEdge", SgTriangle_getEdge(__VA_ARGS__))
#define SgTriangle_getNumberOfEdges(...) vh_st("SgTriangle_getNumberOfEdges", SgTriangle_getNumberOfEdges(__VA_ARGS__))
#define SgTriangle_getNumberOfPoints(...) vh_st("SgTriangle_getNumberOfPoints", SgTriangle_getNumberOfPoints(__VA_ARGS__))
#define SgTriangle_getPoint(...) vh_st("SgTriangle_getPoint", SgTriangle_getPoint(__VA_ARGS__))
#define SgTriangle_new(...) vh_st("SgTriangle_new", SgTriangle_new(__VA_ARGS__))
#define SgTriangulate_del(...) vh_st("SgTriangulate_del", SgTriangulate_del(__VA_ARGS__))
#define SgTriangulate_getConvexHullArea(...) vh_st("SgTriangulate_getConvexHullArea", SgTriangulate_getConvexHullArea(__VA_ARGS__))
#define SgTriangulate_new(...) vh_st("SgTriangulate_new", SgTriangulate_new(__VA_ARGS__))
#define SgTripolarGrid_del(...) vh_st("SgTripolarGrid_del", SgTripolarGrid_del(__VA_ARGS__))
#define SgTripolarGrid_getGrid(...) vh_st("SgTripolarGrid_getGrid", SgTripolarGrid_getGrid(__VA_ARGS__))
#define SgTripolarGrid_new(...) vh_st("SgTripolarGrid_new", SgTripolarGrid_new(__VA_ARGS__))

// Objects with a history: they have worked on other grids (random ones, then variants of the real ones of the same size)
// before they are given the inputs of the case.
static inline Grid vh_other(Rng& r) { Grid g = r.p(.2) ? rectGrid(r.i(2,4), r.i(2,4), -1, -1, 1, 1) : randomGrid(r, 2, 6); if (r.p(.2)) { double q = pow(10, r.u(-3, 3)); for (int k = 0; k < g.n(); ++k) { g.x[k] *= q; g.y[k] *= q; } } return g; }
static inline bool vh_variant(Rng& r, const Grid& g, Grid& o) { // same sizes, other coordinates
    if (g.n() > 300 || r.p(.5)) return false; o = g; double f = r.u(.6, 1.4), t = r.p(.3) ? r.u(-.4, .4) : 0; for (int k = 0; k < o.n(); ++k) { double x = g.x[k]*f, y = g.y[k]*(2-f); o.x[k] = cos(t)*x - sin(t)*y; o.y[k] = sin(t)*x + cos(t)*y; } return true; }
static inline std::vector<double> vh_field(Rng& r, int n) { std::vector<double> v(n); for (int k = 0; k < n; ++k) v[k] = r.u(-1, 1); return v; }

typedef std::map<std::pair<int,int>, double> WMap; // (dst, src) -> weight

struct Conserve {
    SgConserveInterp2D_type* p; uint64_t past; Grid ps, pd;
    Conserve() : p(0), past(vh_dirty) { SgConserveInterp2D_new(&p); if (past) { Rng r(past); ps = vh_other(r); pd = vh_other(r); src0(ps, 0, 0); dst0(pd); work(r); } }
    void work(Rng& r) { SgConserveInterp2D_computeWeights(&p); std::vector<double> v = vh_field(r, ps.nc()), o(pd.nc()); if (r.p(.6)) apply(v, o); if (r.p(.6)) { int n = r.i(0, 6), a, b; double w; for (int k = 0; k < n; ++k) { get(a, b, w); next(); } } }
    ~Conserve() { SgConserveInterp2D_del(&p); }
    void src0(const Grid& g, int p0, int p1) { const double* c[2]; int per[2] = {p0, p1}; SgConserveInterp2D_setSrcGrid(&p, g.dims, per, g.ptrs(c)); }
    void dst0(const Grid& g) { const double* c[2]; SgConserveInterp2D_setDstGrid(&p, g.dims, g.ptrs(c)); }
    void src(const Grid& g, int p0 = 0, int p1 = 0) { if (past) { Rng r(past + 1); Grid o; if (vh_variant(r, g, o)) { src0(ps = o, p0, p1); work(r); } ps = g; } src0(g, p0, p1); }
    void dst(const Grid& g) { if (past) { Rng r(past + 2); Grid o; if (vh_variant(r, g, o) && ps.nc()*o.nc() < 3000) { dst0(pd = o); work(r); } pd = g; } dst0(g); }
    void weights() { SgConserveInterp2D_computeWeights(&p); }
    void apply(const std::vector<double>& s, std::vector<double>& d) { SgConserveInterp2D_apply(&p, s.data(), d.data()); }
    void reset() { SgConserveInterp2D_reset(&p); }
    int next() { return SgConserveInterp2D_next(&p); }
    void get(int& s, int& d, double& w) { SgConserveInterp2D_get(&p, &s, &d, &w); }
    // one full pass; dup counts repeated pairs
    long pass(WMap& m, long& dup, long limit) {
        m.clear(); dup = 0; long n = 0; reset();
        for (;;) {
            int s = -7, d = -7; double w = -7; get(s, d, w);
            if (n == 0 && s < 0 && d < 0) return 0; // no weights
            if (m.count(std::make_pair(d, s))) ++dup;
            m[std::make_pair(d, s)] += w; ++n;
            if (next()) break;
            if (n > limit) return -1;
        }
        return n;
    }
private: Conserve(const Conserve&); Conserve& operator=(const Conserve&);
};

struct Node {
    SgNodeInterp2D_type* p; uint64_t past; Grid ps, pd;
    Node(int it = 100, double tol = 1e-8) : p(0), past(vh_dirty) { SgNodeInterp2D_new(&p, it, tol); if (past) { Rng r(past); ps = vh_other(r); pd = vh_other(r); src0(ps, r.p(.1), r.p(.2)); dst0(pd); work(r); } }
    void work(Rng& r) { SgNodeInterp2D_computeWeights(&p); std::vector<double> v = vh_field(r, ps.n()), o(pd.n()); if (r.p(.6)) apply(v, o); }
    ~Node() { SgNodeInterp2D_del(&p); }
    void src0(const Grid& g, int p0, int p1) { const double* c[2]; int per[2] = {p0, p1}; SgNodeInterp2D_setSrcGrid(&p, g.dims, per, g.ptrs(c)); }
    void dst0(const Grid& g) { const double* c[2]; SgNodeInterp2D_setDstGrid(&p, g.dims, g.ptrs(c)); }
    void src(const Grid& g, int p0 = 0, int p1 = 0) { if (past) { Rng r(past + 1); Grid o; if (vh_variant(r, g, o)) { src0(ps = o, p0, p1); work(r); } ps = g; } src0(g, p0, p1); }
    void dst(const Grid& g) { if (past) { Rng r(past + 2); Grid o; if (vh_variant(r, g, o) && ps.n() < 500) { dst0(pd = o); work(r); } pd = g; } dst0(g); }
    void weights() { SgNodeInterp2D_computeWeights(&p); }
    void apply(const std::vector<double>& s, std::vector<double>& d) { SgNodeInterp2D_apply(&p, s.data(), d.data()); }
private: Node(const Node&); Node& operator=(const Node&);
};

struct Polyline { std::vector<double> x, y; int n() const { return (int)x.size(); } int dims[1]; const double** ptrs(const double* p[2]) const { p[0] = x.data(); p[1] = y.data(); return p; }
    void add(double a, double b) { x.push_back(a); y.push_back(b); } void hash(Hash& h) const { h.addv(x); h.addv(y); }
    std::string str() const { std::string s = "line "; for (size_t i = 0; i < x.size() && i < 12; ++i) s += fmt("(%.17g,%.17g)", x[i], y[i]); return s; } };

struct Flow {
    SgFlowInterp2D_type* p; uint64_t past; Grid ps; Polyline pl;
    Flow() : p(0), past(vh_dirty) { SgFlowInterp2D_new(&p); if (past) { Rng r(past); ps = vh_other(r); int n = r.i(2, 7); for (int k = 0; k < n; ++k) pl.add(r.u(-1.2, 1.2), r.u(-1.2, 1.2)); src0(ps); dst0(pl); work(r); } }
    void work(Rng& r) { SgFlowInterp2D_computeWeights(&p); std::vector<double> a = vh_field(r, (ps.dims[0]-1)*ps.dims[1]), b = vh_field(r, ps.dims[0]*(ps.dims[1]-1)), o(pl.n()); if (r.p(.6)) apply(a, b, o); }
    ~Flow() { SgFlowInterp2D_del(&p); }
    void src0(const Grid& g) { const double* c[2]; SgFlowInterp2D_setSrcGrid(&p, g.dims, g.ptrs(c)); }
    void dst0(const Polyline& l) { const double* c[2]; int d[1] = { l.n() }; SgFlowInterp2D_setDstGrid(&p, d, l.ptrs(c)); }
    void src(const Grid& g) { if (past) { Rng r(past + 1); Grid o; if (vh_variant(r, g, o)) { src0(ps = o); work(r); } ps = g; } src0(g); }
    void dst(const Polyline& l) { if (past) { Rng r(past + 2); if (l.n() && ps.nc()*l.n() < 3000 && r.p(.5)) { pl = l; for (int k = 0; k < l.n(); ++k) { pl.x[k] = l.y[l.n()-1-k]*.9; pl.y[k] = l.x[k]; } dst0(pl); work(r); } pl = l; } dst0(l); }
    void weights() { SgFlowInterp2D_computeWeights(&p); }
    void apply(const std::vector<double>& e0, const std::vector<double>& e1, std::vector<double>& d) { const double* s[2] = { e0.data(), e1.data() }; SgFlowInterp2D_apply(&p, s, d.data()); }
private: Flow(const Flow&); Flow& operator=(const Flow&);
};

struct Finder {
    SgFindPointInCell_type* p; int nd;
    Finder(int it, double tol) : p(0), nd(0) { SgFindPointInCell_new(&p, it, tol); if (vh_dirty) { Rng r(vh_dirty); int n = r.i(1, 2); for (int q = 0; q < n; ++q) { int m = r.i(1, 3), dims[3], per[3], tot = 1; for (int i = 0; i < m; ++i) { dims[i] = r.i(2, 5); per[i] = r.p(.3); tot *= dims[i]; } std::vector<std::vector<double> > x(m, std::vector<double>(tot)); for (int f = 0; f < tot; ++f) { int k = f; for (int i = m-1; i >= 0; --i) { x[i][f] = (k % dims[i]) + .1*r.u(-1,1); k /= dims[i]; } } grid(m, dims, per, x); int ns = r.i(1, 3); for (int s = 0; s < ns; ++s) { std::vector<double> a(m), b(m); for (int i = 0; i < m; ++i) { a[i] = r.u(0, dims[i]-1); b[i] = r.u(-.2, dims[i]-.8); } reset(a, b); int lim = r.i(0, 12); for (int k = 0; k < lim && !next(); ++k) {} } } } }
    ~Finder() { SgFindPointInCell_del(&p); }
    void grid(int nd_, const int* dims, const int* per, const std::vector<std::vector<double> >& c) { nd = nd_; std::vector<const double*> q; for (int i = 0; i < nd; ++i) q.push_back(c[i].data()); SgFindPointInCell_setGrid(&p, nd, dims, per, q.data()); }
    void reset(const std::vector<double>& d, const std::vector<double>& t) { SgFindPointInCell_reset(&p, d.data(), t.data()); }
    int next() { return SgFindPointInCell_next(&p); }
    std::vector<double> inds() { std::vector<double> r(nd); SgFindPointInCell_getIndices(&p, r.data()); return r; }
    std::vector<double> pos() { std::vector<double> r(nd); SgFindPointInCell_getPosition(&p, r.data()); return r; }
    double err() { double e = -1; SgFindPointInCell_getError(&p, &e); return e; }
    std::vector<double> hist() { int n = -1; double* e = 0; SgFindPointInCell_getErrorHistory(&p, &n, &e); return n > 0 ? std::vector<double>(e, e + n) : std::vector<double>(); }
private: Finder(const Finder&); Finder& operator=(const Finder&);
};
#endif
