// C26 everything allocated during the life of an object is returned; C25 (under sanitizers) the same lives and odd but valid calls
#include "life.h"
#include <malloc.h>
#include <new>
thread_local int vl_in_lib = 0;

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(NOACCOUNT)
static const bool accounting = false;
static size_t liveBytes() { return 0; }
static size_t liveBlocks() { return 0; }
static void forget() {}
static long allocsSeen() { return 0; }
#else
// ---- accounting: malloc family interposed; blocks obtained while a call of the library runs are remembered until freed.
// A block of the library may be freed at any time; a block freed twice never reaches the heap.
static const bool accounting = true;
extern "C" { void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t); }
struct Slot { void* p; size_t n; };
static const size_t NS = 1 << 16; static Slot tab[NS]; static size_t nlive = 0, blive = 0; static long nalloc = 0; static bool full = false;
static size_t hp(void* p) { return (((uintptr_t)p >> 4) * 0x9e3779b97f4a7c15ULL) >> 48; }
static void remember(void* p, size_t n) { if (!p || vl_in_lib <= 0) return; ++nalloc; if (nlive > NS/2) { full = true; return; } size_t k = hp(p) & (NS-1); while (tab[k].p) k = (k+1) & (NS-1); tab[k].p = p; tab[k].n = n; ++nlive; blive += n; }
static void drop(void* p) { if (!p || !nlive) return; size_t k = hp(p) & (NS-1); while (tab[k].p && tab[k].p != p) k = (k+1) & (NS-1); if (!tab[k].p) return; blive -= tab[k].n; --nlive; tab[k].p = 0; size_t j = (k+1) & (NS-1); while (tab[j].p) { Slot s = tab[j]; tab[j].p = 0; size_t q = hp(s.p) & (NS-1); while (tab[q].p) q = (q+1) & (NS-1); tab[q] = s; j = (j+1) & (NS-1); } }
extern "C" void* malloc(size_t n) { void* p = __libc_malloc(n); remember(p, n); return p; }
extern "C" void free(void* p) { drop(p); __libc_free(p); }
extern "C" void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); remember(p, a*b); return p; }
extern "C" void* realloc(void* p, size_t n) { drop(p); void* q = __libc_realloc(p, n); remember(q, n); return q; }
extern "C" void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); remember(p, n); return p; }
extern "C" void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
extern "C" int posix_memalign(void** q, size_t a, size_t n) { *q = memalign(a, n); return *q ? 0 : 12; }
static size_t liveBytes() { return blive; }
static size_t liveBlocks() { return nlive; }
static void forget() { if (nlive) memset(tab, 0, sizeof tab); nlive = blive = 0; }
static long allocsSeen() { return nalloc; }
#endif

static void life(Harness& H, Rng& r, long c) {
    int kind = c % LIFE_KINDS; LifeP l = makeLife(kind, r.next()); H.note("life of " + l->kind + ": " + l->log); { LifeP w = makeLife(kind, 12345 + kind); forget(); w->run(); } forget(); long a0 = allocsSeen();
    l->run(); size_t nb = liveBlocks(), by = liveBytes(); forget(); H.count("lives"); H.count("allocations-watched", allocsSeen() - a0); H.count("life-" + l->kind);
    if (accounting && nb) { H.fail("not-returned-" + l->kind, fmt("%d blocks, %d bytes left after deleting; calls: ", (int)nb, (int)by) + l->log); return; }
    Hash h; h.adds(l->kind); h.adds(l->log); h.addv(l->out); H.eval(h.h, l->steps.size() > 1); Hash z; z.adds(l->kind); z.adds(l->log); H.state(z.h); H.sample(l->kind + ": " + l->log);
}
// memory held must not grow when the same computation is done again and again
static void growth(Harness& H, Rng& r, long c) {
    int kind = c % 6; Grid s = lv_grid(r), d = lv_grid(r); std::string name; forget(); size_t b1 = 0, b2 = 0; int n1 = 3, n2 = 15; H.note("repeated computation");
    if (kind == 0) { name = "conserve"; Conserve* p = 0; LIB(p = new Conserve()); LIB(p->src(s); p->dst(d)); std::vector<double> v = lv_rnd(r, s.nc()), o(d.nc()); for (int k = 0; k < n2; ++k) { LIB(p->weights(); p->apply(v, o); p->reset(); for (int a = 0; a < 5; ++a) p->next()); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(delete p); }
    else if (kind == 1) { name = "node"; Node* p = 0; LIB(p = new Node()); LIB(p->src(s); p->dst(d)); std::vector<double> v = lv_rnd(r, s.n()), o(d.n()); for (int k = 0; k < n2; ++k) { LIB(p->weights(); p->apply(v, o)); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(delete p); }
    else if (kind == 2) { name = "flow"; Flow* p = 0; LIB(p = new Flow()); Polyline ln; for (int k = 0; k < 5; ++k) ln.add(r.u(-1,1), r.u(-1,1)); LIB(p->src(s); p->dst(ln)); std::vector<double> e0 = lv_rnd(r, (s.dims[0]-1)*s.dims[1]), e1 = lv_rnd(r, s.dims[0]*(s.dims[1]-1)), o(4); for (int k = 0; k < n2; ++k) { LIB(p->weights(); p->apply(e0, e1, o)); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(delete p); }
    else if (kind == 3) { name = "finder"; Finder* p = 0; LIB(p = new Finder(50, 1e-9)); int per[2] = {0,0}; std::vector<std::vector<double> > x; x.push_back(s.x); x.push_back(s.y); double st[2] = { .4*s.dims[0], .45*s.dims[1] }, t[2] = { r.u(-.5,.5), r.u(-.5,.5) }; st[0] = std::min(st[0], s.dims[0]-1.); st[1] = std::min(st[1], s.dims[1]-1.); SgFindPointInCell_type** q = &p->p; const double* cc[2] = { s.x.data(), s.y.data() }; for (int k = 0; k < n2; ++k) { LIB(SgFindPointInCell_setGrid(q, 2, s.dims, per, cc); SgFindPointInCell_reset(q, st, t); while (!SgFindPointInCell_next(q)) {}); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(delete p); }
    else if (kind == 4) { name = "overlap"; SgFindOverlappingCells2D_type* p = 0; int per[2] = {0,0}; const double* cc[2]; s.ptrs(cc); std::vector<double> poly = lv_rnd(r, 8); LIB(SgFindOverlappingCells2D_new(&p)); for (int k = 0; k < n2; ++k) { LIB(SgFindOverlappingCells2D_setSrcGrid(&p, s.dims, per, cc); SgFindOverlappingCells2D_setPolygonPoints(&p, 4, poly.data()); SgFindOverlappingCells2D_findSrcCellIndices(&p)); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(SgFindOverlappingCells2D_del(&p)); }
    else { name = "solver"; SgLinearSolve_type* p = 0; int n = r.i(1, 6), m = r.i(1, 6); std::vector<double> A = lv_rnd(r, n*m), b = lv_rnd(r, n); LIB(SgLinearSolve_new(&p, n, m)); for (int k = 0; k < n2; ++k) { LIB(SgLinearSolve_setMatrix(&p, A.data()); SgLinearSolve_setRightHandSide(&p, b.data()); SgLinearSolve_solve(&p)); if (k == n1) b1 = liveBytes(); } b2 = liveBytes(); LIB(SgLinearSolve_del(&p)); }
    size_t nb = liveBlocks(); forget(); if (accounting && b2 > b1 + 16) { H.fail("grows-" + name, fmt("%d bytes after %d computations, %d after %d; grids ", (int)b1, n1, (int)b2, n2) + s.str() + d.str()); return; } if (accounting && nb) { H.fail("not-returned-" + name, fmt("%d blocks after repeated computation", (int)nb)); return; }
    H.count("repeated-computations", n2); Hash h; h.adds(name); s.hash(h); d.hash(h); H.eval(h.h, true); H.sample(name + fmt(": %d bytes held ", (int)b1) + s.str());
}
// valid calls at the edges of the interface, watched by the sanitizers only
static void odd(Harness& H, Rng& r, long c) {
    int kind = c % 8; H.note(fmt("odd calls %d", kind)); double acc = 0; std::string nm;
    if (kind == 0) { nm = "hull of few points"; for (int n = 0; n <= 4; ++n) { std::vector<double> v = lv_rnd(r, 2*n); if (r.p(.5)) for (size_t k = 2; k < v.size(); ++k) v[k] = v[k-2]; SgTriangulate_type* t = 0; SgTriangulate_new(&t, n, v.data()); double a = 0; SgTriangulate_getConvexHullArea(&t, &a); acc += a; SgTriangulate_del(&t); } }
    else if (kind == 1) { nm = "no overlap"; Grid s = lv_grid(r), d = lv_grid(r); for (int k = 0; k < d.n(); ++k) d.x[k] += 100; Conserve p; p.src(s); p.dst(d); p.weights(); for (int a = 0; a < 5; ++a) { int x, y; double w; p.get(x, y, w); acc += w; p.next(); if (a == 2) p.reset(); } std::vector<double> v = lv_rnd(r, s.nc()), o(d.nc(), 1.0); p.apply(v, o); acc += o[0]; Node q; q.src(s); q.dst(d); q.weights(); std::vector<double> f = lv_rnd(r, s.n()), e(d.n(), 1.0); q.apply(f, e); acc += e[0]; }
    else if (kind == 2) { nm = "single cell, single node"; Grid s = rectGrid(2, 2, 0, 0, 1, 1), d; d.dims[0] = d.dims[1] = 1; d.x.assign(1, r.u(-.2, 1.2)); d.y.assign(1, r.u(-.2, 1.2)); Node q; q.src(s); q.dst(d); q.weights(); std::vector<double> f = lv_rnd(r, 4), e(1, 1.0); q.apply(f, e); acc += e[0]; Polyline l; l.add(.5, .5); Flow w; w.src(s); w.dst(l); w.weights(); std::vector<double> e0 = lv_rnd(r, 2), e1 = lv_rnd(r, 2), o; w.apply(e0, e1, o); }
    else if (kind == 3) { nm = "degenerate cells"; int n0 = r.i(2, 5), n1 = r.i(3, 9); Grid s = polarGrid(n0, n1, 0, 1, 0, 2*M_PI, 0, 0), d = lv_grid(r); Conserve p; if (r.p(.5)) std::swap(s, d); p.src(s); p.dst(d); p.weights(); std::vector<double> v = lv_rnd(r, s.nc()), o(d.nc(), 1.0); p.apply(v, o); acc += o[0]; Node q(30, 1e-8); q.src(s, 0, 1); q.dst(d); q.weights(); std::vector<double> f = lv_rnd(r, s.n()), e(d.n(), 1.0); q.apply(f, e); acc += e[0]; Flow w; Polyline l; for (int k = 0; k < 4; ++k) l.add(r.u(-1,1), r.u(-1,1)); w.src(s); w.dst(l); w.weights(); }
    else if (kind == 4) { nm = "history before the first step"; Finder f(10, 1e-6); int d[1] = { r.i(2, 5) }, per[1] = {0}; std::vector<std::vector<double> > x(1, std::vector<double>(d[0])); for (int k = 0; k < d[0]; ++k) x[0][k] = k; f.grid(1, d, per, x); std::vector<double> s(1, 0.0), t(1, r.u(-1, d[0])); if (r.p(.2)) s[0] = d[0]-1; f.reset(s, t); acc += f.hist().size() + f.pos()[0] + f.err(); while (!f.next()) {} acc += f.hist().size(); f.reset(s, t); acc += f.hist().size(); }
    else if (kind == 5) { nm = "repeated points"; Polyline l; double x = r.u(-.5,.5), y = r.u(-.5,.5); for (int k = 0; k < 4; ++k) { l.add(x, y); if (r.p(.3)) x += .1; } Grid s = lv_grid(r); Flow w; w.src(s); w.dst(l); w.weights(); std::vector<double> e0 = lv_rnd(r, (s.dims[0]-1)*s.dims[1]), e1 = lv_rnd(r, s.dims[0]*(s.dims[1]-1)), o(3, 0.0); w.apply(e0, e1, o); acc += o[0]; }
    else if (kind == 6) { nm = "huge and tiny coordinates"; Grid s = lv_grid(r), d = lv_grid(r); double q = pow(10, r.u(-30, 30)); for (int k = 0; k < s.n(); ++k) { s.x[k] *= q; s.y[k] *= q; } for (int k = 0; k < d.n(); ++k) { d.x[k] *= q; d.y[k] *= q; } Conserve p; p.src(s); p.dst(d); p.weights(); Node n(20, 1e-8*q); n.src(s); n.dst(d); n.weights(); SgFindOverlappingCells2D_type* f = 0; SgFindOverlappingCells2D_new(&f); int per[2] = {0,0}; const double* cc[2]; SgFindOverlappingCells2D_setSrcGrid(&f, s.dims, per, s.ptrs(cc)); std::vector<double> poly = lv_rnd(r, 6); for (int k = 0; k < 6; ++k) poly[k] *= q*(r.p(.2) ? 100 : 1); SgFindOverlappingCells2D_setPolygonPoints(&f, 3, poly.data()); SgFindOverlappingCells2D_findSrcCellIndices(&f); SgFindOverlappingCells2D_del(&f); }
    else { nm = "other statuses"; SgLinearSolve_type* s = 0; int n = r.i(1, 4), m = r.i(1, 4); SgLinearSolve_new(&s, n, m); std::vector<double> A(n*m, r.p(.5) ? 0.0 : 1.0), b = lv_rnd(r, n); SgLinearSolve_setMatrix(&s, A.data()); SgLinearSolve_setRightHandSide(&s, b.data()); acc += SgLinearSolve_solve(&s); double q = 0; SgLinearSolve_getResidual(&s, &q); acc += q == q ? q : 0; SgLinearSolve_del(&s); SgTripolarGrid_type* t = 0; int d[2] = { r.i(3, 9), r.i(3, 12) }; SgTripolarGrid_new(&t, d, r.i(1, d[0])); SgTripolarGrid_del(&t); CmdLineArgParser p; p.set("-a", 1.0, "x"); char a0[] = "p", a1[] = "-a", a2[] = ""; char* av[] = { a0, a1, a2 }; p.parse(r.i(1, 3), av); acc += p.get<double>("-a"); acc += p.get<std::vector<int> >("-none").size(); p.help(); }
    H.count("odd-" + nm); Hash h; h.adds(nm); h.addd(acc == acc ? acc : -1); h.addi(c); H.eval(h.h, true); H.sample(nm);
}
// C31: outcomes
static bool statusBad(Harness& H, const std::string& what) { VhStatus& s = vh_status(); H.count("calls-watched", s.calls); s.calls = 0; if (s.bad.empty()) return false; std::string b = s.bad; s.bad.clear(); H.fail("status-" + b.substr(0, b.find(' ')), b + "; " + what); return true; }
static void lifeStatus(Harness& H, Rng& r, long c) {
    VhStatus& st = vh_status(); st.on = true; LifeP l = makeLife(c % LIFE_KINDS, r.next()); H.note("statuses of " + l->kind + ": " + l->log); size_t k0 = st.seen.size(); l->run(); if (statusBad(H, l->kind + ": " + l->log)) return; H.count("functions", st.seen.size() - k0);
    Hash h; h.adds(l->kind); h.adds(l->log); h.addv(l->out); H.eval(h.h, l->steps.size() > 1); for (std::set<std::string>::iterator i = st.seen.begin(); i != st.seen.end(); ++i) { Hash z; z.adds(*i); H.state(z.h); } H.sample(l->kind + ": " + l->log);
}
static void outcomes(Harness& H, Rng& r, long c) {
    VhStatus& st = vh_status(); st.on = true; int kind = c % 4; Hash h; std::string log; bool nt = false;
    if (kind == 0) { // end of the iteration over the weights
        Grid s = lv_grid(r), d = lv_grid(r); s.hash(h); d.hash(h); log = "iteration " + s.str() + d.str(); H.note(log); Conserve p; p.src(s); p.dst(d); p.weights(); long lim = (long)s.nc()*d.nc() + 5; std::vector<double> a(s.nc(), 1.0); 
        for (int t = 0; t < 2; ++t) { std::set<std::pair<int,int> > seen; std::pair<int,int> first(-9, -9); long n = 0; int e = 0; p.reset(); do { int x = -9, y = -9; double w = 0; p.get(x, y, w); if (!n) first = std::make_pair(x, y); if (!seen.insert(std::make_pair(x, y)).second) { H.fail("iteration-not-ended", fmt("pair %d repeated although next returned 0; ", (int)n) + log); return; } ++n; e = p.next(); if (e != 0 && e != 1) { H.fail("iteration-status", fmt("next returned %d; ", e) + log); return; } } while (!e && n < lim); if (!e) { H.fail("iteration-not-ended", log); return; } H.count("iterations-ended"); nt = nt || n > 1; } }
    else if (kind == 1) { // point search
        int nd = r.i(1, 3), dims[3], per[3] = {0,0,0}, tot = 1; for (int i = 0; i < nd; ++i) { dims[i] = r.i(2, 6); tot *= dims[i]; } std::vector<std::vector<double> > x(nd, std::vector<double>(tot)); double amp = r.p(.5) ? .1 : 0; for (int f = 0; f < tot; ++f) { int k = f; for (int i = nd-1; i >= 0; --i) { x[i][f] = (k % dims[i]) + amp*r.u(-1,1); k /= dims[i]; } } int it = r.i(1, 60); double tol = pow(10, r.u(-11, -4)); Finder p(it, tol); p.grid(nd, dims, per, x); std::vector<double> s(nd), t(nd); bool out = r.p(.3); for (int i = 0; i < nd; ++i) { s[i] = r.u(0, dims[i]-1); t[i] = r.u(0.2, dims[i]-1.2); } if (out) { int i = r.i(0, nd-1); t[i] = r.p(.5) ? -0.5 : dims[i] - .5; } h.addv(s); h.addv(t); log = fmt("search in %d dimensions, %s, at most %d steps, tolerance %.3g", nd, out ? "outside" : "inside", it, tol); H.note(log); p.reset(s, t); int e = 0, n = 0;
        do { e = p.next(); ++n; double er = p.err(); if (e < -3 || e > 1) { H.fail("search-status", fmt("next returned %d; ", e) + log); return; } if (e == 1 && !(er < tol)) { H.fail("found-although-not", fmt("error %.3g; ", er) + log); return; } if (e == 1 && out) { H.fail("found-although-outside", log); return; } if (e == 0 && er < tol) { H.fail("goes-on-although-found", fmt("error %.3g; ", er) + log); return; } if (out && e == 0 && n > it) { H.fail("no-end", log); return; } } while (!e && n < 1000); if (!e) { H.fail("no-end", log); return; } if (out && e != -3) { H.fail("outside-not-reported", fmt("status %d; ", e) + log); return; } if (!out && e == -3) { H.fail("inside-reported-outside", log); return; } H.count(fmt("search%d", e)); nt = true; }
    else if (kind == 2) { // solver: strictly diagonally dominant, or with an exactly zero row
        int n = r.i(2, 6); std::vector<double> A = lv_rnd(r, n*n), b = lv_rnd(r, n); for (int i = 0; i < n; ++i) A[i*n+i] = (r.p(.5) ? 1 : -1)*(n + 1 + r.u()); bool sing = r.p(.4); if (sing) { int k = r.i(0, n-1); for (int j = 0; j < n; ++j) A[k*n+j] = 0; } h.addv(A); h.addv(b); log = fmt("solver %dx%d %s", n, n, sing ? "singular" : "regular"); H.note(log); SgLinearSolve_type* p = 0; SgLinearSolve_new(&p, n, n); int reps = r.i(1, 2), e = 0; for (int q = 0; q < reps; ++q) { SgLinearSolve_setMatrix(&p, A.data()); SgLinearSolve_setRightHandSide(&p, b.data()); e = SgLinearSolve_solve(&p); } SgLinearSolve_del(&p); if (sing ? e <= 0 : e != 0) { H.fail(sing ? "singular-not-reported" : "failure-reported", fmt("solve returned %d; ", e) + log); return; } H.count(sing ? "solver-failed" : "solver-solved"); nt = true; }
    else { // projections of a segment onto the edges of a cell: mildly distorted cells of unit size
        double q[8] = { 0,0, 1,0, 1,1, 0,1 }, an = r.u(0, 2*M_PI), sh = r.u(-.4,.4), as = pow(2, r.u(-1.5, 1.5)), ox = r.p(.5) ? r.u(-3,3) : 0; for (int k = 0; k < 4; ++k) { double x = q[2*k] + r.u(-.1,.1), y = (q[2*k+1] + r.u(-.1,.1))*as + sh*x; q[2*k] = cos(an)*x - sin(an)*y + ox; q[2*k+1] = sin(an)*x + cos(an)*y - ox; }
        double cx = (q[0]+q[2]+q[4]+q[6])/4, cy = (q[1]+q[3]+q[5]+q[7])/4, R = 0; for (int k = 0; k < 4; ++k) R = std::max(R, hypot(q[2*k]-cx, q[2*k+1]-cy)); double l[4]; bool out[2]; for (int e = 0; e < 2; ++e) { out[e] = r.p(.35); double u = r.p(.2) ? r.i(0,1) : r.u(), v = r.p(.2) ? r.i(0,1) : r.u(); if (out[e]) { double t = r.u(0, 2*M_PI), d = R*(1.3 + (r.p(.3) ? r.u(0, 20) : r.u())); l[2*e] = cx + d*cos(t); l[2*e+1] = cy + d*sin(t); } else for (int j = 0; j < 2; ++j) l[2*e+j] = (1-u)*(1-v)*q[j] + u*(1-v)*q[2+j] + u*v*q[4+j] + (1-u)*v*q[6+j]; }
        for (int k = 0; k < 8; ++k) h.addd(q[k]); for (int k = 0; k < 4; ++k) h.addd(l[k]); log = fmt("segment (%.17g,%.17g)-(%.17g,%.17g), start %s, end %s, cell (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g) (%.17g,%.17g)", l[0], l[1], l[2], l[3], out[0] ? "outside" : "inside", out[1] ? "outside" : "inside", q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7]); H.note(log);
        SgQuadLineFlows_type* p = 0; SgQuadLineFlows_new(&p); SgQuadLineFlows_setQuadPoints(&p, q); SgQuadLineFlows_setLinePoints(&p, l); int e = SgQuadLineFlows_computeProjections(&p); SgQuadLineFlows_del(&p); bool ok = out[0] && out[1] ? e > 0 : out[0] ? e == 1 : out[1] ? e == 2 : e == 0; if (!ok) { H.fail(e == 0 ? "projection-reported-done" : "projection-reported-failed", fmt("returned %d; ", e) + log); return; } H.count(e == 0 ? "projections-done" : "projections-refused"); nt = true; }
    if (statusBad(H, log)) return; H.eval(h.h, nt); H.sample(log);
}
void registerWorkloads(Harness& H) {
    if (H.prop == "C31") { H.add("statuses", lifeStatus, 40000, 1500000); H.add("outcomes", outcomes, 40000, 1500000); }
    if (H.prop == "C26") { H.add("life", life, 40000, 1000000); H.add("growth", growth, 6000, 150000); }
    if (H.prop == "C25") { H.add("life", life, 40000, 1000000); H.add("growth", growth, 1200, 30000); H.add("odd", odd, 8000, 200000); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
