// C16 linear solver, C17 box iterator, C18 side iterator, C19 overlapping cells, C20 octree, C21 tripolar grid,
// C22 grid generators, C23 command line parser, C24 simplices, C32 help text
#include <sstream>
#include <iostream>
#include "api.h"
#include "createGrids2D.h"
#include "CmdLineArgParser.h"

static std::string arr(const std::vector<double>& v) { std::string s = "["; for (size_t k = 0; k < v.size() && k < 60; ++k) s += fmt("%.17g,", v[k]); return s + "]"; }

// ---------------------------------------------------------------- C16
// long double reference: minimum norm least squares solution of a full rank system, by (modified) Gram-Schmidt twice
typedef std::vector<std::vector<LD> > Mat;
static bool refSolve(const std::vector<double>& A, const std::vector<double>& b, int m, int n, std::vector<LD>& x, LD& cond) {
    bool over = m >= n; int p = over ? m : n, q = over ? n : m; Mat V(q, std::vector<LD>(p)), R(q, std::vector<LD>(q, 0)); // columns to orthogonalize
    for (int k = 0; k < q; ++k) for (int i = 0; i < p; ++i) V[k][i] = over ? A[i*n+k] : A[k*n+i];
    LD mx = 0, mn = 1e4000L; for (int k = 0; k < q; ++k) { for (int pass = 0; pass < 2; ++pass) for (int l = 0; l < k; ++l) { LD d = 0; for (int i = 0; i < p; ++i) d += V[l][i]*V[k][i]; R[l][k] += d; for (int i = 0; i < p; ++i) V[k][i] -= d*V[l][i]; } LD s = 0; for (int i = 0; i < p; ++i) s += V[k][i]*V[k][i]; s = sqrtl(s); R[k][k] = s; mx = std::max(mx, s); mn = std::min(mn, s); if (s == 0) return false; for (int i = 0; i < p; ++i) V[k][i] /= s; }
    // rough condition number: norm of R times norm of its inverse
    LD nr = 0, ni = 0; for (int k = 0; k < q; ++k) { for (int l = 0; l <= k; ++l) nr += R[l][k]*R[l][k]; std::vector<LD> z(q, 0); for (int i = k; i >= 0; --i) { LD s = i == k; for (int l = i+1; l <= k; ++l) s -= R[i][l]*z[l]; z[i] = s/R[i][i]; ni += z[i]*z[i]; } } cond = sqrtl(nr)*sqrtl(ni);
    x.assign(n, 0);
    if (over) { std::vector<LD> c(q); for (int k = 0; k < q; ++k) { c[k] = 0; for (int i = 0; i < p; ++i) c[k] += V[k][i]*b[i]; } for (int k = q-1; k >= 0; --k) { LD s = c[k]; for (int l = k+1; l < q; ++l) s -= R[k][l]*x[l]; x[k] = s/R[k][k]; } }
    else { std::vector<LD> c(q); for (int k = 0; k < q; ++k) { LD s = b[k]; for (int l = 0; l < k; ++l) s -= R[l][k]*c[l]; c[k] = s/R[k][k]; } for (int k = 0; k < q; ++k) for (int i = 0; i < p; ++i) x[i] += V[k][i]*c[k]; }
    return true;
}
static void solver(Harness& H, Rng& r, long) {
    int m = r.i(1, BG(7)), n = r.p(.4) ? m : r.i(1, BG(7)); double sa = r.p(.6) ? 1 : pow(10, r.u(-12, 12)), sb = r.p(.6) ? 1 : pow(10, r.u(-12, 12)); std::vector<double> A(m*n), b(m); int kind = r.i(0, 4);
    for (int k = 0; k < m*n; ++k) A[k] = sa*(kind == 0 ? r.i(-3, 3) : kind == 1 ? (k/n == k%n ? r.u(.5,2) : r.u(-.2,.2)) : kind == 2 ? ((k/n) <= (k%n) ? r.u(-1,1) : 0) : r.u(-1,1)); for (int k = 0; k < m; ++k) b[k] = sb*(r.p(.1) ? 0 : r.u(-1,1));
    if (kind == 4) { for (int i = 0; i < m; ++i) { double s = pow(10, r.u(-2, 2)); for (int j = 0; j < n; ++j) A[i*n+j] *= s; } } bool consistent = r.p(.3); if (consistent) { for (int i = 0; i < m; ++i) { LD s = 0; for (int j = 0; j < n; ++j) s += (LD)A[i*n+j]*(j % 3 - 1.0); b[i] = (double)s; } }
    std::string in = fmt("%dx%d A=", m, n) + arr(A) + " b=" + arr(b); H.note("solve"); std::vector<LD> x; LD cond = 0; bool full = refSolve(A, b, m, n, x, cond); std::vector<double> A0 = A, b0 = b;
    SgLinearSolve_type* s = 0; SgLinearSolve_new(&s, m, n); int used = r.p(.5) ? r.i(1, 4) : 0; bool setA = true, setB = true;
    if (used) { std::vector<double> A2(A), b2(b); bool dirtyA = used == 1 || used == 3, dirtyB = used == 1 || used == 2; if (dirtyA) for (int k = 0; k < m*n; ++k) A2[k] = sa*r.u(-2,2); if (dirtyB) for (int k = 0; k < m; ++k) b2[k] = sb*r.u(-2,2); SgLinearSolve_setMatrix(&s, A2.data()); SgLinearSolve_setRightHandSide(&s, b2.data()); SgLinearSolve_solve(&s); setA = dirtyA; setB = dirtyB; in += fmt(" used%d", used); H.count(fmt("used-before-%d", used)); }
    if (!setA || !setB) { if (setA) SgLinearSolve_setMatrix(&s, A.data()); if (setB) SgLinearSolve_setRightHandSide(&s, b.data()); }
    else if (r.p(.5)) { SgLinearSolve_setMatrix(&s, A.data()); SgLinearSolve_setRightHandSide(&s, b.data()); } else { SgLinearSolve_setRightHandSide(&s, b.data()); SgLinearSolve_setMatrix(&s, A.data()); }
    std::fill(A.begin(), A.end(), 7e77); std::fill(b.begin(), b.end(), 7e77); // the solver works on copies
    int ier = SgLinearSolve_solve(&s); double* q = 0; SgLinearSolve_getSolution(&s, &q); std::vector<double> X(q, q+n); double res = -1; SgLinearSolve_getResidual(&s, &res); SgLinearSolve_del(&s);
    if (ier < 0) { H.fail("negative-status", fmt("%d; ", ier) + in); return; }
    bool ok = full && cond < 1e7L; if (ok && ier != 0) { H.fail("full-rank-reported-singular", fmt("%d; ", ier) + in); return; }
    if (ok) { LD nx = 0, nb = 0, na = 0; for (int j = 0; j < n; ++j) nx = std::max(nx, fabsl(x[j])); for (int i = 0; i < m; ++i) nb = std::max(nb, fabsl((LD)b0[i])); for (int k = 0; k < m*n; ++k) na = std::max(na, fabsl((LD)A0[k]));
        LD rs = 0, rr = 0; for (int i = 0; i < m; ++i) { LD e = -(LD)b0[i], e2 = -(LD)b0[i]; for (int j = 0; j < n; ++j) { e += (LD)A0[i*n+j]*X[j]; e2 += (LD)A0[i*n+j]*x[j]; } rs += fabsl(e); rr = std::max(rr, fabsl(e2)); }
        LD tol = 1e-14L*cond*(nx + nb/na + cond*rr/na)*60; for (int j = 0; j < n; ++j) if (!(fabsl(X[j]-x[j]) <= tol)) { H.fail(m == n ? "wrong-solution" : m > n ? "not-the-least-squares-solution" : "not-the-minimum-norm-solution", fmt("x[%d]=%.17g instead of %.17Lg (tolerance %.3Lg); ", j, X[j], x[j], tol) + in); return; }
        if (!(fabsl(rs - res) <= 1e-13L*(nb + na*nx*n)*m*8)) { H.fail("residual-is-not-that-of-the-solution", fmt("%.17g instead of %.17Lg; ", res, rs) + in); return; }
        H.count(m == n ? "square" : m > n ? "overdetermined" : "underdetermined"); }
    else H.count("skipped-ill-conditioned");
    Hash h; h.addi(m); h.addi(n); h.addv(A0); h.addv(b0); H.eval(h.h, ok && m*n > 1); H.sample(in);
}
static void singular(Harness& H, Rng& r, long) { // a column (or row) of zeros: the system has no full rank
    int m = r.i(2, BG(6)), n = m; std::vector<double> A(m*n), b(m); for (int k = 0; k < m*n; ++k) A[k] = r.u(-1,1); for (int k = 0; k < m; ++k) b[k] = r.u(-1,1); int z = r.i(0, m-1); bool row = r.p(.5); for (int k = 0; k < m; ++k) (row ? A[z*n+k] : A[k*n+z]) = 0;
    SgLinearSolve_type* s = 0; SgLinearSolve_new(&s, m, n); SgLinearSolve_setMatrix(&s, A.data()); SgLinearSolve_setRightHandSide(&s, b.data()); H.note("singular"); int ier = SgLinearSolve_solve(&s); std::string in = fmt("%dx%d A=", m, n) + arr(A);
    // the same object must be usable afterwards
    std::vector<double> I(m*n, 0.0); for (int k = 0; k < m; ++k) I[k*n+k] = 2; SgLinearSolve_setMatrix(&s, I.data()); SgLinearSolve_setRightHandSide(&s, b.data()); int ier2 = SgLinearSolve_solve(&s); double* q; SgLinearSolve_getSolution(&s, &q); std::vector<double> X(q, q+n); SgLinearSolve_del(&s);
    // LAPACK sees the transposed matrix: rows of zeros are detected exactly, columns may leave round-off on the diagonal
    if (row ? ier <= 0 : ier < 0) { H.fail("singular-not-reported", fmt("status %d; ", ier) + in); return; } H.count(ier > 0 ? "reported-singular" : "not-exactly-singular");
    if (ier2) { H.fail("solver-unusable-after-singular-system", in); return; } for (int k = 0; k < n; ++k) if (!(fabs(X[k]-b[k]/2) <= 1e-14)) { H.fail("wrong-solution-after-singular-system", in); return; }
    Hash h; h.addv(A); H.eval(h.h, m > 1); H.sample(in);
}

// ---------------------------------------------------------------- C17
static void box(Harness& H, Rng& r, long) {
    int nd = r.i(1, vh_big > 1 ? 9 : 5), mx = vh_big > 1 ? (int)pow(r.p(.5) ? 1e6 : 2e9, 1./nd) : nd == 1 ? 60 : nd == 2 ? 12 : nd == 3 ? 6 : 4; std::vector<int> lo(nd), hi(nd); long tot = 1; bool empty = r.p(.05); for (int i = 0; i < nd; ++i) { lo[i] = r.p(.4) ? 0 : vh_big > 1 && r.p(.3) ? r.i(-1000000, 1000000) : r.i(-20, 20); hi[i] = lo[i] + (vh_big > 1 && r.p(.4) ? mx : r.i(1, mx)); } if (empty) { int k = r.i(0, nd-1); hi[k] = lo[k]; } for (int i = 0; i < nd; ++i) tot *= hi[i]-lo[i];
    std::string in = fmt("%dd", nd); for (int i = 0; i < nd; ++i) in += fmt(" [%d,%d)", lo[i], hi[i]); H.note("box " + in); SgBoxIterator_type* b = 0; std::vector<int> l2 = lo, h2 = hi; SgBoxIterator_new(&b, nd, l2.data(), h2.data()); std::fill(l2.begin(), l2.end(), 99); std::fill(h2.begin(), h2.end(), -99);
    int num = -1; SgBoxIterator_getNumberOfElements(&b, &num); bool ok = true; std::string why; if (num != tot) { why = fmt("%d elements instead of %ld; ", num, tot); ok = false; H.fail("wrong-number-of-elements", why + in); }
    std::vector<int> e(nd), cur = lo; std::vector<long> order; if (tot <= 8000) for (long k = 0; k < tot; ++k) order.push_back(k); else { order.push_back(0); order.push_back(tot-1); for (int k = 0; k < 8000; ++k) order.push_back((long)(r.u()*tot)); } if (r.p(.5)) r.shuffle(order);
    for (size_t a = 0; a < order.size() && ok; ++a) { long k = order[a]; long q = k; std::vector<int> x(nd); for (int i = nd-1; i >= 0; --i) { x[i] = lo[i] + q % (hi[i]-lo[i]); q /= hi[i]-lo[i]; } SgBoxIterator_getElement(&b, (int)k, e.data()); if (e != x) { ok = false; H.fail("wrong-element", fmt("element %ld; ", k) + in); break; } int idx = -1; SgBoxIterator_getIndex(&b, x.data(), &idx); if (idx != k) { ok = false; H.fail("wrong-index", fmt("index %d of element %ld; ", idx, k) + in); } }
    SgBoxIterator_del(&b); if (!ok) return; H.count("elements", (long)order.size()); if (empty) H.count("empty-boxes"); Hash h; h.addv(lo); h.addv(hi); H.eval(h.h, tot > 1); H.sample(in);
}
// ---------------------------------------------------------------- C18
static void side(Harness& H, Rng& r, long c) {
    int nd = vh_big > 1 ? r.i(7, 10) : c < 7 ? 1 + c : r.i(1, 6); long tot = 1; for (int i = 0; i < nd; ++i) tot *= 3; SgSideIterator_type s(nd); std::string in = fmt("%d dimensions", nd); H.note("sides " + in); int rounds = r.i(1, 3);
    if ((long)s.getNumberOfElements() != tot) { H.fail("wrong-number-of-sides", in); return; }
    for (int q = 0; q < rounds; ++q) { long n = 0; int stop = 0; long limit = q + 1 < rounds && r.p(.5) ? r.i(1, (int)tot) : tot + 5; std::set<std::vector<int> > seen; std::vector<int> prev;
        while (!stop && n < limit) { std::vector<int> v = s.get(); long k = n; bool good = (int)v.size() == nd; for (int i = nd-1; i >= 0 && good; --i) { good = v[i] == (int)(k % 3) - 1; k /= 3; } if (!good) { H.fail("wrong-side", fmt("round %d side %ld; ", q, n) + in); return; } if (!seen.insert(v).second) { H.fail("side-visited-twice", in); return; } if (v != s.get()) { H.fail("get-moves", in); return; } stop = s.next(); ++n; if (stop != (n == tot)) { H.fail("end-at-wrong-side", fmt("after %ld of %ld; ", n, tot) + in); return; } }
        H.count("sides", n); in += fmt(" walked %ld", n); s.reset(); }
    Hash h; h.adds(in); H.eval(h.h, true); H.sample(in);
}
// ---------------------------------------------------------------- C19
static void overlap(Harness& H, Rng& r, long) {
    int kind = r.i(0, 2); Grid g = vh_huge ? rectGrid(r.i(258, 290), r.i(258, 290), 0, 0, 1, 1) : kind == 0 ? rectGrid(r.i(2, BG(15)), r.i(2, BG(15)), 0, 0, 1, 1) : kind == 1 ? stretchGrid(r, r.i(2, BG(12)), r.i(2, BG(12)), 0, 0, 1, 1, 0.7) : rectGrid(r.i(2, BG(12)), r.i(2, BG(12)), 0, 0, 1, 1);
    double S = pow(10, r.u(-1, 3)), ox = S*r.u(-2,2), oy = S*r.u(-2,2); if (r.p(.4)) { S = 1; ox = oy = 0; } if (r.p(.25)) { double far = std::min(S*pow(10, r.u(0.5, 6)), 1e7); ox = far*r.u(-1,1); oy = far*r.u(-1,1); H.count("far-from-the-origin"); } bool tensor = kind < 2; std::string fam = g.family; LD M[4] = { 1, 0, 0, 1 };
    if (tensor) { M[0] = r.p(.3) ? -1 : 1; M[3] = r.p(.3) ? -1 : 1; if (r.p(.3)) g = transposeG(g); } else { double t = r.u(-M_PI, M_PI), u = r.u(.4, 2), v = r.u(.4, 2), sh = r.u(-.6,.6); M[0] = u*cos(t); M[1] = v*(sh*cos(t)-sin(t)); M[2] = u*sin(t); M[3] = v*(sh*sin(t)+cos(t)); fam = "affine"; }
    Grid p = g; for (int k = 0; k < g.n(); ++k) { p.x[k] = (double)(S*(M[0]*g.x[k] + M[1]*g.y[k]) + ox); p.y[k] = (double)(S*(M[2]*g.x[k] + M[3]*g.y[k]) + oy); } p.family = fam; bool periodic = false; (void)periodic;
    // polygon in unit square coordinates
    Poly q; int nv = r.i(1, BG(8)); double cx = r.u(), cy = r.u(), rad = pow(10, r.u(-2.5, .4)); bool convex = r.p(.6); for (int k = 0; k < nv; ++k) { double X, Y; double T = 2*M_PI*(k + (convex ? 0.9*r.u() : r.u()))/nv; if (r.p(.1)) { X = r.i(0, 4)/4.; Y = r.i(0, 4)/4.; } else { X = cx + rad*cos(T)*(convex ? 1 : r.u(.2,1)); Y = cy + rad*sin(T)*(convex ? 1 : r.u(.2,1)); } if (!tensor) { X = std::max(0., std::min(1., X)); Y = std::max(0., std::min(1., Y)); } q.push_back(P2(X, Y)); }
    std::vector<double> pts; for (int k = 0; k < nv; ++k) { pts.push_back((double)(S*(M[0]*q[k].x + M[1]*q[k].y) + ox)); pts.push_back((double)(S*(M[2]*q[k].x + M[3]*q[k].y) + oy)); }
    SgFindOverlappingCells2D_type* f = 0; SgFindOverlappingCells2D_new(&f); const double* c[2]; int per[2] = {0,0}; if (vh_dirty) { Rng q(vh_dirty); int times = q.i(1, 2); for (int t = 0; t < times; ++t) { Grid o; if (!t || !vh_variant(q, p, o)) o = vh_other(q); int m = q.i(1, 6); std::vector<double> op = vh_field(q, 2*m); int oper[2] = { q.p(.2), q.p(.2) }; SgFindOverlappingCells2D_setSrcGrid(&f, o.dims, oper, o.ptrs(c)); SgFindOverlappingCells2D_setPolygonPoints(&f, m, op.data()); SgFindOverlappingCells2D_findSrcCellIndices(&f); } } SgFindOverlappingCells2D_setSrcGrid(&f, p.dims, per, p.ptrs(c)); SgFindOverlappingCells2D_setPolygonPoints(&f, nv, pts.data()); std::string in = fmt("polygon %s", arr(pts).c_str()) + " src{" + p.str() + "}"; H.note("overlap");
    SgFindOverlappingCells2D_findSrcCellIndices(&f); int n = -1, *ids = 0; SgFindOverlappingCells2D_getNumberOfSrcCellIndices(&f, &n); SgFindOverlappingCells2D_getSrcCellIndices(&f, &ids); std::vector<int> got; if (n > 0) got.assign(ids, ids + n); SgFindOverlappingCells2D_del(&f);
    if (n < 0) { H.fail("negative-number-of-cells", in); return; } std::set<int> set(got.begin(), got.end()); if ((int)set.size() != n) { H.fail("cell-listed-twice", in); return; } for (int k = 0; k < n; ++k) if (got[k] < 0 || got[k] >= p.nc()) { H.fail("cell-out-of-range", fmt("%d; ", got[k]) + in); return; }
    long need = 0, found = 0; LD slack = 1e-5L; // the search tolerance is 1e-6 in coordinates
    slack = std::max(1e-6L*4/(LD)S, 1e-9L)*4 + 3e-14L*(fabs(ox) + fabs(oy))/S;
    for (int k = 0; k < p.nc(); ++k) { Poly cell = ccw(g.cell(k)); bool hit = false;
        if (nv >= 3 && convex) { Poly hq = hullOf(q); if (hq.size() >= 3) { Poly in2 = clipConvex(cell, hq); LD wx = 0, wy = 0; if (in2.size() >= 3) { LD a = 1e9, b = -1e9, c2 = 1e9, d = -1e9; for (size_t z = 0; z < in2.size(); ++z) { a = std::min(a, in2[z].x); b = std::max(b, in2[z].x); c2 = std::min(c2, in2[z].y); d = std::max(d, in2[z].y); } wx = b-a; wy = d-c2; hit = wx > 2*slack && wy > 2*slack; } } }
        // points of the edges of the polygon well inside of the cell
        for (int e = 0; e < nv && !hit; ++e) for (int z = 0; z < 12 && !hit; ++z) { LD t = z/12.L; P2 a = q[e], b = q[(e+1)%nv], s(a.x + t*(b.x-a.x), a.y + t*(b.y-a.y)); hit = outsideDist(cell, s) < -slack; }
        if (hit) { ++need; if (!set.count(k)) { H.fail("cell-under-the-polygon-missed", fmt("cell %d; ", k) + in); return; } ++found; } }
    for (int v = 0; v < nv; ++v) if (q[v].x >= 0 && q[v].x <= 1 && q[v].y >= 0 && q[v].y <= 1) { LD best = 1e9; for (int z = 0; z < n && best > slack; ++z) best = std::min(best, outsideDist(ccw(g.cell(got[z])), q[v])); if (!(best <= slack)) { H.fail("vertex-in-no-listed-cell", fmt("vertex %d distance %.3Lg; ", v, best) + in); return; } H.count("vertices-located"); }
    if (tensor) { // not more than the box of the polygon in index space, one cell around
        LD a = 1e9, b = -1e9, c2 = 1e9, d = -1e9; for (int z = 0; z < nv; ++z) { a = std::min(a, q[z].x); b = std::max(b, q[z].x); c2 = std::min(c2, q[z].y); d = std::max(d, q[z].y); } a = std::max(0.L, std::min(1.L, a)); b = std::max(0.L, std::min(1.L, b)); c2 = std::max(0.L, std::min(1.L, c2)); d = std::max(0.L, std::min(1.L, d));
        for (int k = 0; k < n; ++k) { int i = got[k]/(p.dims[1]-1), j = got[k]%(p.dims[1]-1); LD x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9; for (int u = -1; u <= 2; ++u) for (int v = -1; v <= 2; ++v) { int ii = std::max(0, std::min(p.dims[0]-1, i+u)), jj = std::max(0, std::min(p.dims[1]-1, j+v)); x0 = std::min(x0, (LD)g.x[g.id(ii,jj)]); x1 = std::max(x1, (LD)g.x[g.id(ii,jj)]); y0 = std::min(y0, (LD)g.y[g.id(ii,jj)]); y1 = std::max(y1, (LD)g.y[g.id(ii,jj)]); } if (b < x0 - slack || a > x1 + slack || d < y0 - slack || c2 > y1 + slack) { H.fail("cell-far-from-the-polygon", fmt("cell %d; ", got[k]) + in); return; } } }
    H.count("cells-under-polygons", need); H.count("cells-listed", n); Hash h; p.hash(h); h.addv(pts); H.eval(h.h, need > 0 && p.nc() > 1); H.sample(in);
}
// ---------------------------------------------------------------- C20
// the keys attached to the points, if the octree keeps them where they can be seen
template<class T> static auto attachedKeys(Harness& H, T& t, const std::vector<double>& pts, int nd, int lev, const std::string& in, int) -> decltype(t.node2Key.find(0), void()) { size_t np = pts.size()/nd; for (size_t k = 0; k < np; ++k) { auto it = t.node2Key.find(k); if (it == t.node2Key.end() || it->second != t.getKey(&pts[k*nd], lev)) { H.fail("attached-key-of-a-point", fmt("point %d; ", (int)k) + in); return; } H.count("attached-keys"); } }
template<class T> static void attachedKeys(Harness&, T&, const std::vector<double>&, int, int, const std::string&, long) {}
// the box of a key by bisection contains the point
static void inside(Harness& H, const std::vector<size_t>& key, const std::vector<double>& x, const std::vector<double>& lo, const std::vector<double>& hi, const std::vector<double>& rt, const std::string& in) {
    int nd = lo.size(); for (int j = 0; j < nd; ++j) { LD a = lo[j], b = hi[j]; for (size_t l = 0; l < key.size(); ++l) { if (key[l] >= (size_t)(1 << nd)) { H.fail("key-out-of-range", in); return; } LD m = .5L*(a+b); if ((key[l] >> (nd-1-j)) & 1) a = m; else b = m; } if (!(x[j] >= a-rt[j] && x[j] <= b+rt[j])) { H.fail("point-not-in-its-box", fmt("point %s %d levels axis %d box [%.17Lg, %.17Lg]; ", arr(x).c_str(), (int)key.size(), j, a, b) + in); return; } }
}
static void octree(Harness& H, Rng& r, long) {
    int nd = r.i(1, vh_big > 1 ? 7 : 4), lev = vh_big > 1 ? r.i(1, 14/nd) : r.i(1, nd <= 2 ? 5 : 3), np = vh_huge ? r.i(66000, 70000) : r.i(1, BG(30)); double S = r.p(.5) ? 1 : pow(10, r.u(-6, 6)); std::vector<double> lo(nd), hi(nd), pts; double off = r.p(.5) ? 0 : S*r.u(-5,5); int kind = r.i(0, 2); if (np < 2) np = 2;
    for (int k = 0; k < np; ++k) for (int j = 0; j < nd; ++j) pts.push_back(off + S*(kind == 0 ? r.u() : kind == 1 ? r.i(0, 8)/8. : pow(r.u(), 4))); for (int j = 0; j < nd; ++j) { lo[j] = 1e300; hi[j] = -1e300; for (int k = 0; k < np; ++k) { lo[j] = std::min(lo[j], pts[k*nd+j]); hi[j] = std::max(hi[j], pts[k*nd+j]); } if (!(hi[j] - lo[j] > 1e-6*S)) { pts[j] = off; pts[nd+j] = off + S; lo[j] = off; hi[j] = -1e300; for (int k = 0; k < np; ++k) { lo[j] = std::min(lo[j], pts[k*nd+j]); hi[j] = std::max(hi[j], pts[k*nd+j]); } } }
    std::string in = fmt("%d dimensions, %d levels, points ", nd, lev) + arr(pts); H.note("octree"); SgOctreePoints_type t(lev, nd, pts); double mag = 0; for (size_t k = 0; k < pts.size(); ++k) mag = std::max(mag, fabs(pts[k]));
    std::vector<double> rt(nd); for (int j = 0; j < nd; ++j) rt[j] = 1e-14*(mag + hi[j]-lo[j])*4; long boxes = 0;
    std::vector<size_t> none; if (t.getLo(none) != lo || t.getHi(none) != hi) { H.fail("root-is-not-the-bounding-box", in); return; }
    int extra = r.i(0, 20); for (int k = 0; k < np + extra; ++k) { std::vector<double> x(nd); for (int j = 0; j < nd; ++j) x[j] = k < np ? pts[k*nd+j] : lo[j] + (hi[j]-lo[j])*(r.p(.3) ? r.i(0, 8)/8. : r.u()); if (k >= np && r.p(.4)) { for (int j = 0; j < nd; ++j) if (r.p(.5)) x[j] = std::max(lo[j], std::min(hi[j], lo[j] + (hi[j]-lo[j])*(r.i(0, 1 << lev)/(double)(1 << lev) + r.u(-1, 1)*pow(10, r.u(-13, -3))))); H.count("points-next-to-borders"); } std::vector<size_t> full = t.getKey(&x[0], lev); if ((int)full.size() != lev) { H.fail("key-length", in); return; }
        for (int l = 1; l <= lev; ++l) { std::vector<size_t> key = t.getKey(&x[0], l), pre(full.begin(), full.begin()+l); if (key != pre) { H.fail("key-is-not-a-prefix-of-the-deeper-key", fmt("point %s level %d; ", arr(x).c_str(), l) + in); return; } if (key.back() >= (size_t)(1 << nd)) { H.fail("key-out-of-range", in); return; }
            std::vector<double> a = t.getLo(key), b = t.getHi(key); for (int j = 0; j < nd; ++j) { if (!(x[j] >= a[j]-rt[j] && x[j] <= b[j]+rt[j])) { H.fail("point-not-in-its-box", fmt("point %s level %d axis %d box [%.17g, %.17g]; ", arr(x).c_str(), l, j, a[j], b[j]) + in); return; } } ++boxes; } }
    // points out of the root box are located like the closest point of the box
    for (int k = 0; k < 6; ++k) { std::vector<double> x(nd), c(nd); bool out = false; for (int j = 0; j < nd; ++j) { double len = hi[j]-lo[j]; x[j] = c[j] = lo[j] + len*r.u(); int w = r.i(0, 3); double d = len*(r.p(.5) ? r.u(0, 1) : pow(10, r.u(-12, 6))); if (w == 0) { x[j] = lo[j] - d; c[j] = lo[j]; out = true; } if (w == 1) { x[j] = hi[j] + d; c[j] = hi[j]; out = true; } } if (!out) continue; if (t.getKey(&x[0], lev) != t.getKey(&c[0], lev)) { H.fail("point-out-of-the-box-not-at-its-closest-point", fmt("point %s closest %s; ", arr(x).c_str(), arr(c).c_str()) + in); return; } H.count("points-out-of-the-box"); }
    // all keys of random paths: boxes halve at every level, siblings tile their parent
    for (int q = 0; q < 6; ++q) { std::vector<size_t> key; for (int l = 1; l <= lev; ++l) { std::vector<double> A = t.getLo(key), B = t.getHi(key); for (size_t c = 0; c < (size_t)(1 << nd); ++c) { std::vector<size_t> k2(key); k2.push_back(c); std::vector<double> a = t.getLo(k2), b = t.getHi(k2); for (int j = 0; j < nd; ++j) { int bit = (c >> (nd-1-j)) & 1; double mid = .5*(A[j]+B[j]), ea = bit ? mid : A[j], eb = bit ? B[j] : mid; if (!(fabs(a[j]-ea) <= rt[j]*4 && fabs(b[j]-eb) <= rt[j]*4)) { H.fail("boxes-do-not-halve", fmt("level %d child %d axis %d [%.17g, %.17g] instead of [%.17g, %.17g]; ", l, (int)c, j, a[j], b[j], ea, eb) + in); return; } } ++boxes; } key.push_back(r.i(0, (1 << nd)-1)); } }
    attachedKeys(H, t, pts, nd, lev, in, 0);
    // keys deeper than the boxes that were built: bisection continues
    for (int k = 0; k < 3; ++k) { int deep = lev + r.i(1, 40); std::vector<double> x(nd); bool node = r.p(.5); int q = r.i(0, np-1); for (int j = 0; j < nd; ++j) x[j] = node ? pts[q*nd+j] : lo[j] + (hi[j]-lo[j])*r.u(); std::vector<size_t> key = t.getKey(&x[0], deep), top = t.getKey(&x[0], lev); if ((int)key.size() != deep || !std::equal(top.begin(), top.end(), key.begin())) { H.fail("key-is-not-a-prefix-of-the-deeper-key", fmt("point %s level %d; ", arr(x).c_str(), deep) + in); return; } inside(H, key, x, lo, hi, rt, in); H.count("deep-keys"); }
    // point sets that are flat along some axes
    if (r.p(.3)) { std::vector<double> p2(pts); std::vector<double> l2(lo), h2(hi); int one = r.p(.2); for (int j = 0; j < nd; ++j) if (one || r.p(.5)) { for (int k = 0; k < np; ++k) p2[k*nd+j] = p2[j]; l2[j] = h2[j] = p2[j]; } SgOctreePoints_type t2(lev, nd, p2); std::string in2 = fmt("flat, %d dimensions, %d levels, points ", nd, lev) + arr(p2); for (int k = 0; k < 8; ++k) { std::vector<double> x(nd), c(nd); bool node = r.p(.4); int q = r.i(0, np-1); for (int j = 0; j < nd; ++j) { x[j] = node ? p2[q*nd+j] : r.p(.5) ? l2[j] + (h2[j]-l2[j])*r.u() : lo[j] + (hi[j]-lo[j])*r.u(-1, 2); c[j] = std::max(l2[j], std::min(h2[j], x[j])); } std::vector<size_t> key = t2.getKey(&x[0], lev); if ((int)key.size() != lev) { H.fail("key-length", in2); return; } std::vector<double> a = t2.getLo(key), b = t2.getHi(key); for (int j = 0; j < nd; ++j) if (!(c[j] >= a[j]-rt[j] && c[j] <= b[j]+rt[j])) { H.fail("point-not-in-its-box", fmt("point %s axis %d box [%.17g, %.17g]; ", arr(x).c_str(), j, a[j], b[j]) + in2); return; } inside(H, key, c, l2, h2, rt, in2); } attachedKeys(H, t2, p2, nd, lev, in2, 0); H.count("flat-point-sets"); }
    SgOctreePoints_type* cp = 0; SgOctreePoints_new(&cp, lev, nd, np, pts.data()); SgOctreePoints_del(&cp); H.count("boxes", boxes); Hash h; h.addi(nd); h.addi(lev); h.addv(pts); H.eval(h.h, np > 1); H.sample(in);
}
// ---------------------------------------------------------------- C21
static void sph(LD lat, LD lon, LD v[3]) { LD d = M_PIl/180; v[0] = cosl(lat*d)*cosl(lon*d); v[1] = cosl(lat*d)*sinl(lon*d); v[2] = sinl(lat*d); }
static void tripolar(Harness& H, Rng& r, long) {
    int nlat = r.i(3, BG(40)), nlon = r.p(.7) ? 2*r.i(2, BG(30))+1 : r.i(4, BG(60)), cap = r.p(.15) ? nlat-1 : r.p(.1) ? nlat : r.i(1, nlat-1); int dims[2] = { nlat, nlon }; std::string in = fmt("%d x %d cap at row %d", nlat, nlon, cap); H.note("tripolar " + in);
    SgTripolarGrid_type* t = 0; SgTripolarGrid_new(&t, dims, cap); int d[2] = {-1,-1}; double** c = 0; SgTripolarGrid_getGrid(&t, d, &c); int bad = 0; std::vector<double> lat(c[0], c[0]+nlat*nlon), lon(c[1], c[1]+nlat*nlon); if (r.p(.3)) { SgTripolarGrid_getGrid(&t, d, &c); if (memcmp(&lat[0], c[0], lat.size()*8) || memcmp(&lon[0], c[1], lon.size()*8)) bad = 1; } SgTripolarGrid_del(&t);
    if (bad) { H.fail("second-getGrid-differs", in); return; } if (d[0] != nlon || d[1] != nlat) { H.fail("dims", in); return; }
    LD di = 2*M_PIl/(nlon-1), P = M_PIl - cap*(M_PIl/(nlat-1)), dj = M_PIl/2/std::max(1, nlat-cap-1); double worst = 0;
    for (int j = 0; j < nlat; ++j) for (int i = 0; i < nlon; ++i) { int k = i + j*nlon; double la = lat[k], lo = lon[k]; if (!(la >= -90-1e-9 && la <= 90+1e-9) || !std::isfinite(lo) || fabs(lo) > 180+1e-9) { H.fail("coordinates-out-of-range", fmt("node %d %d lat %.17g lon %.17g; ", i, j, la, lo) + in); return; }
        if (j < cap) { LD el = -90 + 180.L*j/(nlat-1), eo = -180 + 360.L*i/(nlon-1); if (!(fabsl(la-el) <= 1e-10 && fabsl(lo-eo) <= 1e-10)) { H.fail("regular-rows", fmt("node %d %d (%.17g, %.17g) instead of (%.17Lg, %.17Lg); ", i, j, la, lo, el, eo) + in); return; } }
        else { // the cap: rotated sphere, stereographic projection about the pole, shrunk to the perimeter latitude
            bool first = i < nlon/2; LD pc = -M_PIl/2 + (first ? i : nlon-1-i)*di, el = (first ? 1 : -1)*(M_PIl/2 - (j-cap)*dj); LD v[3] = { cosl(el)*cosl(pc), sinl(el)*cosl(pc), sinl(pc) }; LD z = tanl(P/2)/(1+v[0]); LD X = v[2]*z, Y = v[1]*z, R2 = X*X+Y*Y; // stereographic plane
            LD w[3] = { 2*X/(1+R2), -2*Y/(1+R2), (1-R2)/(1+R2) }, u[3]; sph(la, lo, u); LD e = sqrtl((u[0]-w[0])*(u[0]-w[0]) + (u[1]-w[1])*(u[1]-w[1]) + (u[2]-w[2])*(u[2]-w[2])); worst = std::max(worst, (double)e); LD q = tanl(P/2), c0 = std::min(1.L, fabsl(v[0])), sn = sqrtl(std::max(0.L, 1-c0*c0)), tol = 8*(1+q)*(4e-10L + std::min(3e-8L, 1e-15L/std::max(sn, 1e-30L))); if (!(e <= tol)) { H.fail("cap-node", fmt("node %d %d lat %.17g lon %.17g is off by %.3Lg (unit sphere); ", i, j, la, lo, e) + in); return; } }
    }
    // the row at the foot of the cap is a circle of latitude continuing the regular rows; the last row is folded
    if (cap < nlat && nlat-cap-1 > 0) { for (int i = 0; i < nlon; ++i) { double e = -90 + 180.*cap/(nlat-1); if (fabs(lat[i+cap*nlon]-e) > 1e-6) { H.fail("perimeter-latitude", fmt("node %d; ", i) + in); return; } }
        if (nlon % 2) { int j = nlat-1; for (int i = 0; i < nlon; ++i) { LD a[3], b[3]; sph(lat[i+j*nlon], lon[i+j*nlon], a); sph(lat[nlon-1-i+j*nlon], lon[nlon-1-i+j*nlon], b); if (fabsl(a[0]-b[0])+fabsl(a[1]-b[1])+fabsl(a[2]-b[2]) > 3e-6L) { H.fail("last-row-not-folded", fmt("node %d; ", i) + in); return; } } H.count("folds"); } }
    H.count("nodes", nlat*nlon); Hash h; h.adds(in); H.eval(h.h, cap < nlat); H.sample(in);
}
// ---------------------------------------------------------------- C22
static void generators(Harness& H, Rng& r, long) {
    int d[2] = { r.i(2, BG(25)), r.i(2, BG(25)) }; if (vh_huge) { int k = r.i(0, 1); d[k] = r.i(66000, 90000); d[1-k] = r.i(2, 3); } int n = d[0]*d[1]; std::vector<double> x(n, 7e77), y(n, 7e77); double* c[2] = { x.data(), y.data() }; int kind = r.i(0, 2); double S = r.p(.5) ? 1 : pow(10, r.u(-6, 6)); std::string in; Hash h; h.addi(kind); h.addi(d[0]); h.addi(d[1]);
    if (kind == 0) { double lo[2] = { S*r.u(-2,2), S*r.u(-2,2) }, hi[2] = { S*r.u(-2,2), S*r.u(-2,2) }; in = fmt("rectangular %dx%d (%.17g,%.17g)-(%.17g,%.17g)", d[0], d[1], lo[0], lo[1], hi[0], hi[1]); H.note(in); createRectangularGrid(d, lo, hi, c); h.adds(in);
        for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { LD ex = lo[0] + ((LD)hi[0]-lo[0])*i/(d[0]-1), ey = lo[1] + ((LD)hi[1]-lo[1])*j/(d[1]-1); if (!(fabsl(x[i*d[1]+j]-ex) <= 4e-15L*(fabs(lo[0])+fabs(hi[0])) && fabsl(y[i*d[1]+j]-ey) <= 4e-15L*(fabs(lo[1])+fabs(hi[1])))) { H.fail("rectangular-node", fmt("node %d %d (%.17g, %.17g) instead of (%.17Lg, %.17Lg); ", i, j, x[i*d[1]+j], y[i*d[1]+j], ex, ey) + in); return; } } H.count("rectangular"); }
    else if (kind == 1) { double ct[2] = { r.p(.3) ? 0 : S*r.u(-2,2), r.p(.3) ? 0 : S*r.u(-2,2) }, rad = S*r.u(.1,3); in = fmt("polar %dx%d center (%.17g,%.17g) radius %.17g", d[0], d[1], ct[0], ct[1], rad); H.note(in); createPolarGrid(d, ct, rad, c); h.adds(in);
        for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { LD R = (LD)rad*i/(d[0]-1), T = 2*M_PIl*j/(d[1]-1), ex = ct[0] + R*cosl(T), ey = ct[1] + R*sinl(T); if (!(fabsl(x[i*d[1]+j]-ex) <= 1e-14L*(fabs(ct[0])+rad) && fabsl(y[i*d[1]+j]-ey) <= 1e-14L*(fabs(ct[1])+rad))) { H.fail("polar-node", fmt("node %d %d (%.17g, %.17g) instead of (%.17Lg, %.17Lg); ", i, j, x[i*d[1]+j], y[i*d[1]+j], ex, ey) + in); return; } } H.count("polar"); }
    else { double da = r.p(.2) ? 0 : r.u(-90, 90), db = r.p(.2) ? 0 : r.u(-180, 180); if (r.p(.1)) { da = 15*r.i(-6, 6); db = 30*r.i(-6, 6); } if (r.p(.15)) da = (r.p(.5) ? 1 : -1)*pow(10, r.u(-9, 0)); if (r.p(.15)) db = (r.p(.5) ? 1 : -1)*pow(10, r.u(-9, 0)); /* small displacements */ if (r.p(.2)) { da = -90 + 180.*r.i(0, d[0]-1)/(d[0]-1); if (r.p(.5)) da = (da > 0 ? 1 : -1)*(90 - fabs(da)); } /* a row of the grid meets the pole */ in = fmt("rotated pole %dx%d by %.17g, %.17g degrees", d[0], d[1], da, db); H.note(in); createRotatedPoleGrid(d, da, db, c); h.adds(in); LD a = da*M_PIl/180, b = db*M_PIl/180;
        for (int i = 0; i < d[0]; ++i) for (int j = 0; j < d[1]; ++j) { LD p[3], q[3], w[3], u[3]; sph(-90 + 180.L*i/(d[0]-1), -180 + 360.L*j/(d[1]-1), p); q[0] = cosl(a)*p[0] + sinl(a)*p[2]; q[1] = p[1]; q[2] = -sinl(a)*p[0] + cosl(a)*p[2]; w[0] = cosl(b)*q[0] + sinl(b)*q[1]; w[1] = -sinl(b)*q[0] + cosl(b)*q[1]; w[2] = q[2]; double la = x[i*d[1]+j], lo = y[i*d[1]+j]; if (!(fabs(la) <= 90 && fabs(lo) <= 180.0000001)) { H.fail("rotated-pole-range", fmt("node %d %d lat %.17g lon %.17g; ", i, j, la, lo) + in); return; } sph(la, lo, u); LD e = fabsl(u[0]-w[0]) + fabsl(u[1]-w[1]) + fabsl(u[2]-w[2]); LD tol = 2e-14L + std::min(1e-7L, 4e-15L/std::max(1e-30L, sqrtl(w[0]*w[0] + w[1]*w[1]))); if (!(e <= tol)) { H.fail("rotated-pole-node", fmt("node %d %d off by %.3Lg; ", i, j, e) + in); return; } } H.count("rotated-pole"); }
    H.eval(h.h, true); H.sample(in);
}
// ---------------------------------------------------------------- C23
static std::string numText(Rng& r, double& v) { static const char* f[] = {"%.17g","%.3f","%g","%.2e","%.0f"}; double m = r.p(.5) ? r.u(-1,1) : r.u(-1,1)*pow(10, r.u(-8, 8)); std::string s = fmt(f[r.i(0,4)], m); if (r.p(.15)) { s = fmt("%s.%d", r.p(.5) ? "-" : "", r.i(0, 999)); } if (r.p(.1)) s = "+" + fmt("%g", fabs(m)); v = strtod(s.c_str(), 0); return s; }
static std::string word(Rng& r) { if (vh_big > 1 && r.p(.3)) { std::string s; int n = r.i(1, 3000); for (int k = 0; k < n; ++k) s += (char)r.i(k ? 32 : 65, k ? 126 : 90); return s; } static const char* w[] = {"a","file.txt","some words","x,y","","1e3x","a=b","/path/to/x","Grid","0x10","e-5","--"}; int k = r.i(0, 11); if (k == 11) return "w-" + fmt("%d", r.i(0, 99)); return w[k]; }
// integers as people may write them: leading zeros and plus signs do not change the value
static std::string intText(Rng& r, int v) { std::string s = fmt("%d", v); if (r.p(.8)) return s; std::string sign = v < 0 ? "-" : r.p(.3) ? "+" : "", body = v < 0 ? s.substr(1) : s; return sign + std::string(r.i(0, 3), '0') + body; }
static std::string longTail(Rng& r) { std::string s; if (r.p(.9)) return s; int n = r.i(10, 300); for (int k = 0; k < n; ++k) s += r.p(.1) ? '-' : (char)r.i('a', 'z'); return s + "z"; }
static void cli(Harness& H, Rng& r, long) {
    CmdLineArgParser p; std::map<std::string, double> D; std::map<std::string, int> I; std::map<std::string, std::string> S; std::map<std::string, bool> B; B["-h"] = B["--help"] = false; std::vector<std::string> names; std::map<std::string, char> type; std::map<std::string, std::vector<double> > VD; std::map<std::string, std::vector<int> > VI; std::string log;
    int n = r.i(1, BG(8)); for (int k = 0; k < n; ++k) { std::string nm = r.p(.3) ? fmt("-%c", 'a' + r.i(0, 25)) : fmt("--%c%s%d", 'a' + r.i(0, 25), r.p(.5) ? "opt" : "", r.i(0, 9)); nm += longTail(r); if (nm == "-h" || type.count(nm)) continue; if (nm.size() > 63) H.count("long-names"); names.push_back(nm); char t = "disbvw"[r.i(0, 5)]; type[nm] = t;
        if (t == 'd') { D[nm] = r.u(-5,5); p.set(nm, D[nm], "double"); } else if (t == 'i') { I[nm] = r.i(-100, 100); p.set(nm, I[nm], "int"); } else if (t == 'b') { B[nm] = r.p(.5); p.set(nm, B[nm], "flag"); } else if (t == 's') { S[nm] = word(r); if (r.p(.5)) p.set(nm, S[nm], "string"); else p.set(nm, S[nm].c_str(), "string"); }
        else { int m = r.i(0, BG(5)); std::string s; for (int q = 0; q < m; ++q) { if (q) s += r.p(.3) ? ", " : ","; if (t == 'v') { double v; s += numText(r, v); VD[nm].push_back(v); } else { int v = r.p(.3) ? r.i(-2147483647, 2147483647) : r.i(-50, 50); s += intText(r, v); VI[nm].push_back(v); } } if (t == 'v') VD[nm]; else VI[nm]; S[nm] = s; p.set(nm, s, "list"); } log += fmt("%c:%s ", t, nm.c_str()); }
    std::vector<std::string> av; av.push_back("prog"); int m = names.empty() ? 0 : r.i(0, BG(10)); bool bad = false;
    for (int k = 0; k < m; ++k) { int w = r.i(0, 19); if (w == 0) { std::string s = word(r); if (!s.empty() && s[0] != '-') { av.push_back(s); } continue; } if (w == 1 && r.p(.3/vh_big)) { std::string s = r.p(.5) ? "--unknown" : "-Z"; s += longTail(r); av.push_back(s); bad = true; continue; } if (w == 2) { std::string hname = r.p(.5) ? "-h" : "--help"; av.push_back(hname); B[hname] = !B[hname]; continue; }
        std::string nm = names[r.i(0, (int)names.size()-1)]; av.push_back(nm); char t = type[nm]; if (t == 'b') { B[nm] = !B[nm]; if (r.p(.1)) av.push_back("stray"); continue; } if (k == m-1 && r.p(.2)) break; // last option without a value keeps its value
        if (t == 'd') { double v; av.push_back(numText(r, v)); D[nm] = v; } else if (t == 'i') { int v = r.p(.2) ? r.i(-2147483647, 2147483647) : r.i(-1000, 1000); av.push_back(intText(r, v)); I[nm] = v; } else if (t == 's') { std::string s = word(r); av.push_back(s); S[nm] = s; }
        else { int q = r.i(1, BG(6)); std::string s; std::vector<double> vd; std::vector<int> vi; for (int e = 0; e < q; ++e) { if (e) s += r.p(.3) ? ", " : ","; if (t == 'v') { double v; s += numText(r, v); vd.push_back(v); } else { int v = r.p(.3) ? r.i(-2147483647, 2147483647) : r.i(-50, 50); s += intText(r, v); vi.push_back(v); } } av.push_back(s); S[nm] = s; if (t == 'v') VD[nm] = vd; else VI[nm] = vi; } }
    for (size_t k = 0; k < av.size(); ++k) log += "'" + av[k] + "' "; std::vector<std::vector<char> > bufs; std::vector<char*> argv; for (size_t k = 0; k < av.size(); ++k) { bufs.push_back(std::vector<char>(av[k].begin(), av[k].end())); bufs.back().push_back(0); } for (size_t k = 0; k < av.size(); ++k) argv.push_back(&bufs[k][0]);
    H.note("parse " + log); bool ok = p.parse((int)argv.size(), argv.data()); Hash h; h.adds(log); if (ok == bad) { H.fail(bad ? "unknown-option-accepted" : "valid-options-rejected", log); return; } if (bad) { H.count("unknown-options"); H.eval(h.h, true); return; }
    std::map<std::string, const char*> held; for (size_t k = 0; k < names.size(); ++k) if (S.count(names[k])) held[names[k]] = p.get<const char*>(names[k]); // all at the same time
    for (std::map<std::string, const char*>::iterator k = held.begin(); k != held.end(); ++k) if (S[k->first] != k->second) { H.fail("wrong-text-held", k->first + " in " + log); return; } if (held.size() > 1) H.count("texts-held-together");
    long checked = 0; for (size_t k = 0; k < names.size(); ++k) { std::string nm = names[k]; char t = type[nm]; ++checked; bool good = true; if (t == 'd') good = p.get<double>(nm) == D[nm]; else if (t == 'i') good = p.get<int>(nm) == I[nm]; else if (t == 'b') good = p.get<bool>(nm) == B[nm]; else good = p.get<std::string>(nm) == S[nm] && std::string(p.get<const char*>(nm)) == S[nm]; if (t == 'v') { good = good && p.get<std::vector<double> >(nm) == VD[nm]; } if (t == 'w') good = good && p.get<std::vector<int> >(nm) == VI[nm]; if (!good) { H.fail(std::string("wrong-value-of-type-") + t, nm + " in " + log); return; }
        if (t != 'd' && p.get<double>(nm) != -std::numeric_limits<double>::max()) { H.fail("option-visible-under-another-type", nm + " in " + log); return; } }
    if (p.get<bool>("-h") != B["-h"] || p.get<bool>("--help") != B["--help"]) { H.fail("help-flag", log); return; }
    H.count("values", checked); H.eval(h.h, av.size() > 1); H.sample(log);
}
// ---------------------------------------------------------------- C32
struct Opt { char type; double d; int i; std::string s; bool b; std::string help; };
static std::string captureHelp(const CmdLineArgParser& p) { std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); p.help(); std::cout.rdbuf(old); return o.str(); }
static void helpText(Harness& H, Rng& r, long) {
    CmdLineArgParser p; std::map<std::string, Opt> O; std::string log; Opt hf; hf.type = 'b'; hf.b = false; hf.help = ""; O["-h"] = O["--help"] = hf; int uid = 0; std::vector<std::string> notes; std::string purpose; bool hasPurpose = r.p(.7);
    if (hasPurpose) { purpose = fmt("purpose-%d does things", r.i(0, 999)); p.setPurpose(purpose); }
    int n = r.i(0, BG(10)); for (int k = 0; k < n; ++k) { std::string nm = r.p(.3) ? fmt("-%c", 'a' + r.i(0, 25)) : fmt("--%c%s%d", 'a' + r.i(0, 25), r.p(.5) ? "opt" : "", r.i(0, 9)); if (nm == "-h") continue; if (O.count(nm) && r.p(.5)) continue; // else registered again: the last one counts
        Opt o; o.type = O.count(nm) ? O[nm].type : "disb"[r.i(0, 3)]; o.help = fmt("helptext-%d%s", uid++, r.p(.5) ? " (a value, in metres)" : ""); if (r.p(.2)) { int q = r.i(1, 60); for (int z = 0; z < q; ++z) o.help += fmt(" word%d", r.i(0, 99)); o.help += "."; H.count("long-help-texts"); } o.d = r.p(.5) ? r.u(-5, 5) : r.u(-1, 1)*pow(10, r.u(-12, 12)); o.i = r.i(-2147483647, 2147483647); o.s = word(r); o.b = r.p(.5);
        if (o.type == 'd') p.set(nm, o.d, o.help); else if (o.type == 'i') p.set(nm, o.i, o.help); else if (o.type == 'b') p.set(nm, o.b, o.help); else if (r.p(.5)) p.set(nm, o.s, o.help); else p.set(nm, o.s.c_str(), o.help); O[nm] = o; log += fmt("%c:%s ", o.type, nm.c_str()); }
    int nn = r.i(0, 3); for (int k = 0; k < nn; ++k) { notes.push_back(fmt("footnote-%d says so", k)); p.addFootnote(notes.back()); }
    std::vector<std::string> names; for (std::map<std::string, Opt>::iterator i = O.begin(); i != O.end(); ++i) names.push_back(i->first); std::string exec; int rounds = r.i(0, 2); Hash h;
    for (int round = 0; round <= rounds; ++round) {
        if (round) { exec = fmt("/bin/prog%d", r.i(0, 99)); std::vector<std::string> av(1, exec); int m = r.i(0, BG(6)); for (int k = 0; k < m; ++k) { std::string nm = names[r.i(0, (int)names.size()-1)]; Opt& o = O[nm]; av.push_back(nm); if (o.type == 'b') o.b = !o.b; else if (o.type == 'd') { av.push_back(numText(r, o.d)); } else if (o.type == 'i') { o.i = r.i(-100000, 100000); av.push_back(fmt("%d", o.i)); } else { o.s = word(r); if (!o.s.empty() && o.s[0] == '-') o.s = "w"; av.push_back(o.s); } }
            for (size_t k = 0; k < av.size(); ++k) log += "'" + av[k] + "' "; std::vector<std::vector<char> > bufs; std::vector<char*> argv; for (size_t k = 0; k < av.size(); ++k) { bufs.push_back(std::vector<char>(av[k].begin(), av[k].end())); bufs.back().push_back(0); } for (size_t k = 0; k < av.size(); ++k) argv.push_back(&bufs[k][0]); if (!p.parse((int)argv.size(), argv.data())) { H.fail("valid-options-rejected", log); return; } }
        H.note("help " + log); std::string t = captureHelp(p), ctx = "options " + log + " help text: " + t; std::vector<std::string> L; { size_t a = 0; while (a <= t.size()) { size_t b = t.find('\n', a); if (b == std::string::npos) b = t.size(); L.push_back(t.substr(a, b-a)); a = b+1; } }
        // one line per option, that starts with its name
        long firstLine = -1, lastLine = -1, optLines = 0;
        for (std::map<std::string, Opt>::iterator i = O.begin(); i != O.end(); ++i) { const Opt& o = i->second; int found = 0; for (size_t k = 0; k < L.size(); ++k) { size_t a = L[k].find_first_not_of(" \t"); if (a == std::string::npos || a == 0 || L[k].compare(a, i->first.size(), i->first)) continue; size_t e = a + i->first.size(); if (e < L[k].size() && L[k][e] != ' ' && L[k][e] != '\t') continue; ++found; ++optLines; if (firstLine < 0 || (long)k < firstLine) firstLine = k; lastLine = std::max(lastLine, (long)k);
                std::string rest = L[k].substr(e); const char* tag = o.type == 'd' ? "<double#>" : o.type == 'i' ? "<int#>" : o.type == 's' ? "<string>" : ""; size_t ht = o.help.empty() ? 0 : rest.find(o.help); if (ht == std::string::npos) { H.fail("help-text-of-an-option-missing", i->first + "; " + ctx); return; } if (*tag && rest.find(tag) != rest.find_first_not_of(' ')) { H.fail("type-of-an-option-missing", i->first + "; " + ctx); return; }
                std::string v = rest.substr(ht + o.help.size()); bool good = true; if (o.type == 's') { std::string w = "(" + o.s + ")"; good = v.size() >= w.size() && v.compare(v.size()-w.size(), w.size(), w) == 0; } else { size_t q = v.rfind('('); good = q != std::string::npos && v[v.size()-1] == ')'; if (good) { std::string x = v.substr(q+1, v.size()-q-2); if (o.type == 'd') { char* e2 = 0; double d = strtod(x.c_str(), &e2); good = e2 != x.c_str() && *e2 == 0 && fabs(d-o.d) <= 1e-5*fabs(o.d); } else if (o.type == 'i') good = x == fmt("%d", o.i); else good = x == (o.b ? "1" : "0") || x == (o.b ? "true" : "false"); } }
                if (!good) { H.fail(std::string("wrong-value-shown-of-type-") + o.type, i->first + " on line '" + L[k] + "'; " + ctx); return; } }
            if (found != 1) { H.fail(found ? "option-listed-twice" : "option-not-listed", i->first + "; " + ctx); return; } H.count("options-listed"); }
        if (hasPurpose && t.find(purpose) == std::string::npos) { H.fail("purpose-missing", ctx); return; } if (round && t.find(exec) == std::string::npos) { H.fail("executable-missing", ctx); return; }
        size_t last = t.size(); for (size_t k = 0; k < notes.size(); ++k) { size_t q = t.find(notes[k]); if (q == std::string::npos || t.find(notes[k], q+1) != std::string::npos) { H.fail("footnote-missing-or-repeated", notes[k] + "; " + ctx); return; } long ln = std::count(t.begin(), t.begin()+q, '\n'); if (ln <= lastLine) { H.fail("footnote-before-the-options", ctx); return; } if (q > last) { H.fail("footnotes-out-of-order", ctx); return; } last = q; H.count("footnotes"); }
        if (t.find("Report bugs") == std::string::npos) { H.fail("standard-footnote-missing", ctx); return; }
        // showing the help changes nothing
        if (captureHelp(p) != t) { H.fail("second-help-differs", ctx); return; }
        for (std::map<std::string, Opt>::iterator i = O.begin(); i != O.end(); ++i) { const Opt& o = i->second; bool good = o.type == 'd' ? p.get<double>(i->first) == o.d : o.type == 'i' ? p.get<int>(i->first) == o.i : o.type == 's' ? p.get<std::string>(i->first) == o.s : p.get<bool>(i->first) == o.b; if (!good) { H.fail(std::string("wrong-value-of-type-") + o.type, i->first + "; " + ctx); return; } }
        if (round) H.count("after-parsing"); h.adds(t);
    }
    H.eval(h.h, n > 0); H.sample(log);
}
// the 3 x 3 products the rotations are made of
static void products(Harness& H, Rng& r, long) {
    double A[11], B[11], v[5], R[11], w[5]; int kind = r.i(0, 3); double S = r.p(.5) ? 1 : pow(10, r.u(-100, 100)); for (int k = 0; k < 9; ++k) { A[k+1] = kind == 0 ? r.i(-3, 3) : S*r.u(-1, 1); B[k+1] = kind == 0 ? r.i(-3, 3) : kind == 1 ? r.u(-1, 1)*pow(10, r.u(-20, 20)) : r.u(-1, 1); } for (int k = 0; k < 3; ++k) v[k+1] = kind == 2 && k != 1 ? 0 : r.u(-1, 1)*(kind == 1 ? pow(10, r.u(-20, 20)) : 1);
    A[0] = A[10] = B[0] = B[10] = R[0] = R[10] = v[0] = v[4] = w[0] = w[4] = 7e77; for (int k = 1; k < 10; ++k) R[k] = 5e55; for (int k = 1; k < 4; ++k) w[k] = 5e55; double A0[11], B0[11], v0[5]; memcpy(A0, A, sizeof A); memcpy(B0, B, sizeof B); memcpy(v0, v, sizeof v);
    std::string in = arr(std::vector<double>(A+1, A+10)) + " " + arr(std::vector<double>(B+1, B+10)) + " " + arr(std::vector<double>(v+1, v+4)); H.note("products"); matrixDotMatrix(A+1, B+1, R+1); matrixDotVector(A+1, v+1, w+1);
    if (memcmp(A, A0, sizeof A) || memcmp(B, B0, sizeof B) || memcmp(v, v0, sizeof v) || R[0] != 7e77 || R[10] != 7e77 || w[0] != 7e77 || w[4] != 7e77) { H.fail("product-writes-elsewhere", in); return; }
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { LD e = 0, m = 0; for (int l = 0; l < 3; ++l) { LD q = (LD)A[1+3*i+l]*(j < 3 ? B[1+3*l+j] : v[1+l]); e += q; m += fabsl(q); } double g = j < 3 ? R[1+3*i+j] : w[1+i]; if (!(fabsl(g-e) <= 1e-15L*m)) { H.fail(j < 3 ? "matrix-product" : "matrix-vector-product", fmt("row %d column %d is %.17g instead of %.17Lg; ", i, j, g, e) + in); return; } }
    H.count("products"); Hash h; for (int k = 1; k < 10; ++k) { h.addd(A[k]); h.addd(B[k]); } H.eval(h.h, true); H.sample(in);
}
// ---------------------------------------------------------------- C24
static void simplices(Harness& H, Rng& r, long) {
    std::vector<double> P[4]; for (int k = 0; k < 4; ++k) { P[k].resize(3); for (int j = 0; j < 3; ++j) P[k][j] = r.u(-1,1)*pow(10, r.u(-8, 8)); } std::vector<std::vector<double> > Q(P, P+4); int kind = r.i(0, 2), n = 0; Hash h; h.addi(kind); for (int k = 0; k < 4; ++k) h.addv(P[k]); std::string in = fmt("%s ", kind == 0 ? "line" : kind == 1 ? "triangle" : "tetrahedron") + arr(P[0]) + arr(P[1]) + arr(P[2]) + arr(P[3]); H.note(in.substr(0, 100));
    // edges in the documented order: the triangle's go round, those of a tetrahedron start with its base
    static const int te[3][2] = {{0,1},{1,2},{2,0}}, he[6][2] = {{0,1},{1,2},{2,0},{0,3},{1,3},{2,3}};
    if (kind == 0) { SgLine_type* s = 0; SgLine_new(&s, P[0].data(), P[1].data()); for (int k = 0; k < 4; ++k) std::fill(P[k].begin(), P[k].end(), 7e7); SgLine_getNumberOfPoints(&s, &n); bool ok = n == 2; double* p[2] = {0, 0}; for (int k = 0; k < 2 && ok; ++k) SgLine_getPoint(&s, k, &p[k]); for (int k = 0; k < 2 && ok; ++k) for (int j = 0; j < 3; ++j) ok = ok && p[k][j] == Q[k][j]; SgLine_del(&s); if (!ok) { H.fail("line", in); return; } }
    else if (kind == 1) { SgTriangle_type* s = 0; SgTriangle_new(&s, P[0].data(), P[1].data(), P[2].data()); for (int k = 0; k < 4; ++k) std::fill(P[k].begin(), P[k].end(), 7e7); SgTriangle_getNumberOfPoints(&s, &n); bool ok = n == 3; SgTriangle_getNumberOfEdges(&s, &n); ok = ok && n == 3; double* p[3] = {0, 0, 0}; int* e[3] = {0, 0, 0}; for (int k = 0; k < 3 && ok; ++k) { SgTriangle_getPoint(&s, k, &p[k]); SgTriangle_getEdge(&s, k, &e[k]); } for (int k = 0; k < 3 && ok; ++k) { for (int j = 0; j < 3; ++j) ok = ok && p[k][j] == Q[k][j]; ok = ok && e[k][0] == te[k][0] && e[k][1] == te[k][1]; } SgTriangle_del(&s); if (!ok) { H.fail("triangle", in); return; } }
    else { SgTetrahedron_type* s = 0; SgTetrahedron_new(&s, P[0].data(), P[1].data(), P[2].data(), P[3].data()); for (int k = 0; k < 4; ++k) std::fill(P[k].begin(), P[k].end(), 7e7); SgTetrahedron_getNumberOfPoints(&s, &n); bool ok = n == 4; SgTetrahedron_getNumberOfEdges(&s, &n); ok = ok && n == 6; SgTetrahedron_getNumberOfFaces(&s, &n); ok = ok && n == 4; double* p[4]; int *e[6], *f[4]; for (int k = 0; k < 6 && ok; ++k) { if (k < 4) { SgTetrahedron_getPoint(&s, k, &p[k]); SgTetrahedron_getFace(&s, k, &f[k]); } SgTetrahedron_getEdge(&s, k, &e[k]); } for (int k = 0; k < 4 && ok; ++k) for (int j = 0; j < 3; ++j) ok = ok && p[k][j] == Q[k][j];
        std::set<std::set<int> > E; for (int k = 0; k < 6 && ok; ++k) { ok = e[k][0] == he[k][0] && e[k][1] == he[k][1]; std::set<int> q(e[k], e[k]+2); E.insert(q); } ok = ok && E.size() == 6;
        std::set<std::set<int> > F; for (int k = 0; k < 4 && ok; ++k) { std::set<int> q(f[k], f[k]+3); ok = q.size() == 3 && *q.begin() >= 0 && *q.rbegin() <= 3; F.insert(q); } ok = ok && F.size() == 4; SgTetrahedron_del(&s); if (!ok) { H.fail("tetrahedron", in); return; } }
    H.count(kind == 0 ? "lines" : kind == 1 ? "triangles" : "tetrahedra"); H.eval(h.h, true); H.sample(in);
}
BIGGER(solverBig, solver, 6)
BIGGER(singularBig, singular, 6)
BIGGER(boxBig, box, 2)
BIGGER(sideBig, side, 2)
HUGE_CASE(overlapHuge, overlap)
HUGE_CASE(octreeHuge, octree)
BIGGER(overlapBig, overlap, 5)
BIGGER(octreeBig, octree, 10)
BIGGER(tripolarBig, tripolar, 8)
BIGGER(generatorsBig, generators, 20)
HUGE_CASE(generatorsHuge, generators)
BIGGER(cliBig, cli, 30)
BIGGER(helpBig, helpText, 10)
void registerWorkloads(Harness& H) {
    if (H.prop == "C16") { H.add("solve", solver, 60000, 2000000); H.add("singular", singular, 10000, 200000); H.add("solve-big", solverBig, 1000, 40000); H.add("singular-big", singularBig, 300, 10000); }
    if (H.prop == "C17") { H.add("box", box, 20000, 400000); H.add("big", boxBig, 1000, 20000); }
    if (H.prop == "C18") { H.add("side", side, 5000, 50000); H.add("big", sideBig, 4, 200); }
    if (H.prop == "C19") { H.add("overlap", overlap, 20000, 500000); H.add("big", overlapBig, 60, 4000); H.add("huge", overlapHuge, 5, 60); }
    if (H.prop == "C20") { H.add("octree", octree, 5000, 100000); H.add("big", octreeBig, 20, 1000); H.add("huge", octreeHuge, 4, 60); }
    if (H.prop == "C21") { H.add("tripolar", tripolar, 3000, 60000); H.add("big", tripolarBig, 30, 1000); }
    if (H.prop == "C22") { H.add("products", products, 5000, 100000); H.add("generators", generators, 20000, 400000); H.add("big", generatorsBig, 30, 1500); H.add("huge", generatorsHuge, 6, 150); }
    if (H.prop == "C23") { H.add("parse", cli, 20000, 600000); H.add("big", cliBig, 50, 3000); }
    if (H.prop == "C32") { H.add("help", helpText, 20000, 600000); H.add("big", helpBig, 100, 5000); }
    if (H.prop == "C24") { H.add("simplices", simplices, 20000, 400000); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
