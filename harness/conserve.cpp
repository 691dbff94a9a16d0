// C01 totals, C02 overlap weights, C03 partition of unity / bounds / untouched cells, C04 weight iteration
#include "api.h"

static double pickScale(Rng& r) { return r.p(0.4) ? 1.0 : pow(10.0, r.u(-8, 8)); }
static void place(Grid& g, double S, double ox, double oy) { for (int k = 0; k < g.n(); ++k) { g.x[k] = g.x[k]*S + ox; g.y[k] = g.y[k]*S + oy; } }
static LD bboxMax(const Grid& g) { LD m = 0; for (int k = 0; k < g.n(); ++k) m = std::max(m, (LD)std::max(fabs(g.x[k]), fabs(g.y[k]))); return m; }
static LD minH(const Grid& g) { LD h = 1e300L; for (int c = 0; c < g.nc(); ++c) { h = std::min(h, sqrtl(fabsl(polyArea(g.cell(c))))); } return h; }

// pairs of grids: general position and the degenerate alignments (shared nodes, edges, nested, disjoint, touching)
static bool properCells(const Grid& g) { // strictly convex cells: moving a node a little leaves them so
    for (int c = 0; c < g.nc(); ++c) { Poly q = g.cell(c); LD A = polyArea(q); if (!(fabsl(A) > 0)) return false;
        for (int a = 0; a < 4; ++a) { const Poly::value_type &u = q[a], &v = q[(a+1)%4], &w = q[(a+2)%4]; LD t = (v.x-u.x)*(w.y-u.y) - (w.x-u.x)*(v.y-u.y); if (!(t/A > 0.02L)) return false; } }
    return true;
}
static void makePair(Rng& r, Grid& s, Grid& d, int nmax) {
    int k = r.i(0, 12);
    s = randomGrid(r, 2, nmax); d = randomGrid(r, 2, nmax);
    switch (k) {
    case 0: case 1: case 2: break;                                             // general
    case 3: d = s; break;                                                       // identical
    case 4: { int a = r.i(1,6), b = r.i(1,6), m = r.i(1,3), q = r.i(1,3);       // nested rectangles, all edges aligned
              s = rectGrid(a+1, b+1, 0, 0, a, b); d = rectGrid(a*m+1, b*q+1, 0, 0, a, b); if (r.p(.5)) std::swap(s, d); break; }
    case 5: { int a = r.i(1,6), b = r.i(1,6); s = rectGrid(a+1, b+1, 0, 0, a, b);                    // shifted by whole / half cells
              double ox = r.i(-3,3)*0.5, oy = r.i(-3,3)*0.5; d = rectGrid(r.i(1,6)+1, r.i(1,6)+1, 0, 0, 1, 1);
              for (int q = 0; q < d.n(); ++q) { d.x[q] = d.x[q]*(d.dims[0]-1) + ox; d.y[q] = d.y[q]*(d.dims[1]-1) + oy; } break; }
    case 6: { s = randomGrid(r, 2, nmax); d = rectGrid(2, 2, -3, -3, 3, 3); if (r.p(.5)) std::swap(s, d); break; } // one huge cell
    case 7: { s = randomGrid(r, 3, nmax); int c = r.i(0, s.nc()-1); Poly q = s.cell(c); LD cx = 0, cy = 0; for (int a = 0; a < 4; ++a) { cx += q[a].x/4; cy += q[a].y/4; } // small grid about a node or a centre
              if (r.p(.5)) { cx = q[0].x; cy = q[0].y; } LD h = sqrtl(fabsl(polyArea(q)))*r.u(0.05, 0.4);
              d = rectGrid(r.i(2,4), r.i(2,4), cx-h, cy-h, cx+h, cy+h); break; }
    case 8: { double t0 = r.u(-3,3); d = polarGrid(r.i(2,5), r.i(5,12), 0, r.u(0.5,1), t0, t0 + 2*M_PI, r.u(-.2,.2), r.u(-.2,.2)); d.family = "disk"; // degenerate centre cells
              s = randomGrid(r, 2, nmax); if (r.p(.4)) std::swap(s, d); break; }
    case 9: { int n = r.i(8, 24); s = rectGrid(2, n, -1, -1, 1, 1); d = rectGrid(n, 2, -1, -1, 1, 1); if (r.p(.5)) { double t = r.u(0,3); d = affine(d, cos(t), -sin(t), sin(t), cos(t), 0, 0); } break; } // slivers
    case 12: { double e = pow(10, r.u(-4, -1)), t = r.u(-3,3); s = affine(s, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); int c = r.i(0, s.nc()-1); Poly q = s.cell(c); int a = r.i(0, 3); LD w = r.p(.5) ? 0.5 : r.u(); // thin rotated cells, a node of the other grid on a diagonal
               int m = r.i(0, d.n()-1); double tx = (double)(q[a].x + w*(q[(a+2)%4].x-q[a].x)) - d.x[m], ty = (double)(q[a].y + w*(q[(a+2)%4].y-q[a].y)) - d.y[m]; d = affine(d, 1, 0, 0, 1, tx, ty); if (r.p(.3)) std::swap(s, d); break; }
    case 10: { s = rectGrid(r.i(2,5), r.i(2,5), 0, 0, 1, 1); d = rectGrid(r.i(2,5), r.i(2,5), r.i(0,2), r.i(-1,1), r.i(3,4), 2); break; } // touching / disjoint
    default: { d = flipAxis0(s); if (r.p(.5)) d = transposeG(d); if (r.p(.5)) { double e = r.u(-1e-3, 1e-3); for (int q = 0; q < d.n(); ++q) d.x[q] += e; } break; } // relabelled / nearly identical
    }
    if (k != 8 && k != 12 && r.p(.1)) { // boundary layers: both grids up to ten thousand times longer than wide
        double e = pow(10, r.u(-4, -1)), t = r.p(.2) ? 0 : r.u(-3, 3); s = affine(s, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); d = affine(d, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); return; }
    if (k > 2 && r.p(.2)) { // nodes a tiny distance off, together or one by one
        double e = pow(10, r.u(-15, -3)), ex = e*r.u(-1,1), ey = e*r.u(-1,1); bool all = r.p(.5) || !properCells(d); double part = r.u(), h = (double)minH(d); Grid g = d;
        for (int q = 0; q < d.n(); ++q) { if (all) { g.x[q] += ex; g.y[q] += ey; } else if (r.p(part)) { g.x[q] += e*r.u(-1,1)*h; g.y[q] += e*r.u(-1,1)*h; } }
        if (all || properCells(g)) d = g; }
}
// more than 65536 cells
static Grid hugeGrid(Rng& r, bool square) {
    int n0 = square || r.p(.6) ? r.i(258, 300) : r.i(2, 4), n1 = r.i(66000, 90000)/(n0-1) + 2; if (!square && r.p(.3)) std::swap(n0, n1);
    Grid g = r.p(.6) ? rectGrid(n0, n1, -1, -1, 1, 1) : stretchGrid(r, n0, n1, -1, -1, 1, 1); if (r.p(.5)) { double t = r.u(-3, 3); g = affine(g, cos(t), -sin(t), sin(t), cos(t), r.u(-.3,.3), r.u(-.3,.3)); } return g;
}
// away from the origin, also by many times the size of the grids
static void farAway(Rng& r, double S, double& ox, double& oy) { double f = r.p(.7) ? 50 : pow(10, r.u(2, 5)); ox = S*f*r.u(-1, 1); oy = S*f*r.u(-1, 1); }
struct Case { Grid s, d; double S, ox, oy; LD amp; };
static Case makeCase(Rng& r, int nmax) {
    Case c; if (vh_huge) { c.s = hugeGrid(r, false); c.d = randomGrid(r, 2, 3); if (r.p(.5)) std::swap(c.s, c.d); } else makePair(r, c.s, c.d, nmax); c.S = pickScale(r); c.ox = c.oy = 0;
    if (r.p(0.25)) farAway(r, c.S, c.ox, c.oy);
    place(c.s, c.S, c.ox, c.oy); place(c.d, c.S, c.ox, c.oy);
    c.amp = std::max(bboxMax(c.s), bboxMax(c.d)) / std::min(minH(c.s), minH(c.d)); // conditioning of differences of coordinates
    if (!(c.amp < 1e12L)) c.amp = 1e12L;
    return c;
}
static std::string desc(const Case& c) { return fmt("S=%.6g src{", c.S) + c.s.str() + "} dst{" + c.d.str() + "}"; }
static Hash hashOf(const Case& c) { Hash h; c.s.hash(h); c.d.hash(h); return h; }

static bool runWeights(Harness& H, Conserve& q, const Case& c, WMap& w) {
    H.note("computeWeights " + c.s.family + " / " + c.d.family);
    q.src(c.s); q.dst(c.d); q.weights(); long dup;
    long n = q.pass(w, dup, 4L*c.s.nc()*c.d.nc() + 4);
    H.count("weights", n > 0 ? n : 0);
    if (n < 0) { H.fail("iteration-does-not-end", desc(c)); return false; }
    return true;
}

// ---- C01: dst covers src
static void totals(Harness& H, Rng& r, long) {
    Case c; c.s = randomGrid(r, 2, BG(9)); c.S = pickScale(r); c.ox = c.oy = 0;
    double lo[2] = {1e300,1e300}, hi[2] = {-1e300,-1e300};
    int k = r.i(0, 6);
    if (k == 5) { double t0 = r.u(-3,3); c.s = polarGrid(r.i(2,5), r.i(6,12), r.p(.5)?0:0.2, 1, t0, t0+2*M_PI, 0, 0); c.s.family = "disk"; }
    for (int i = 0; i < c.s.n(); ++i) { lo[0] = std::min(lo[0], c.s.x[i]); hi[0] = std::max(hi[0], c.s.x[i]); lo[1] = std::min(lo[1], c.s.y[i]); hi[1] = std::max(hi[1], c.s.y[i]); }
    if (vh_huge) { k = r.i(0, 3); c.s = hugeGrid(r, false); lo[0] = lo[1] = 1e300; hi[0] = hi[1] = -1e300; for (int i = 0; i < c.s.n(); ++i) { lo[0] = std::min(lo[0], c.s.x[i]); hi[0] = std::max(hi[0], c.s.x[i]); lo[1] = std::min(lo[1], c.s.y[i]); hi[1] = std::max(hi[1], c.s.y[i]); } }
    double m = (k == 1) ? 0.0 : r.u(0.01, 0.5); if (k == 6) m = pow(10, r.u(0, 6)); double L = std::max(hi[0]-lo[0], hi[1]-lo[1]);
    int n0 = r.i(2, BG(10)), n1 = r.i(2, BG(10)); if (vh_huge) { n0 = r.i(2, 3); n1 = r.i(2, 3); }
    switch (k) {
    case 0: case 1: c.d = rectGrid(n0, n1, lo[0]-m, lo[1]-m, hi[0]+m, hi[1]+m); break;
    case 2: c.d = stretchGrid(r, n0, n1, lo[0]-m, lo[1]-m, hi[0]+m, hi[1]+m); break;
    case 3: { double t = r.u(-M_PI, M_PI); c.d = affine(rectGrid(n0, n1, -L, -L, L, L), cos(t), -sin(t), sin(t), cos(t), (lo[0]+hi[0])/2, (lo[1]+hi[1])/2); c.d.family = "affine"; break; }
    case 4: if (!vh_huge && r.p(.3)) { c.d = c.s; break; } // fall through
    default: c.d = jitter(r, rectGrid(n0, n1, lo[0]-m, lo[1]-m, hi[0]+m, hi[1]+m), 0.3, true); break;
    }
    if (r.p(.3)) c.d = transposeG(c.d);
    if (r.p(.25)) farAway(r, c.S, c.ox, c.oy);
    place(c.s, c.S, c.ox, c.oy); place(c.d, c.S, c.ox, c.oy);
    LD amp = std::max(bboxMax(c.s), bboxMax(c.d)) / std::min(minH(c.s), minH(c.d));
    LD tol = 1e-9L + 1e-13L*amp;
    Conserve q; H.note("totals"); q.src(c.s); q.dst(c.d); q.weights();
    bool any = false;
    for (int f = 0; f < 3; ++f) { // random, sign-changing and spike data
        std::vector<double> v(c.s.nc()), o(c.d.nc(), 0.0); int spike = r.i(0, c.s.nc()-1); double mag = pow(10, r.u(-6, 6));
        for (int i = 0; i < c.s.nc(); ++i) v[i] = f == 0 ? r.u(0, 1)*mag : f == 1 ? r.u(-1, 1)*mag : (i == spike ? mag : 0.0);
        q.apply(v, o);
        LD a = 0, b = 0, sc = 0;
        for (int i = 0; i < c.s.nc(); ++i) { LD A = fabsl(polyArea(c.s.cell(i))); a += A*v[i]; sc += A*fabs(v[i]); }
        for (int i = 0; i < c.d.nc(); ++i) { LD A = fabsl(polyArea(c.d.cell(i))); b += A*o[i]; }
        H.count("fields"); any = true;
        if (!(fabsl(a - b) <= tol*sc)) { H.fail("total-not-conserved", fmt("src total %.17Lg dst total %.17Lg (relative %.3Lg) field kind %d spike %d; ", a, b, (b-a)/sc, f, spike) + desc(c)); }
    }
    Hash h = hashOf(c); H.eval(h.h, any && c.s.nc() > 1); H.sample(desc(c));
}

// ---- C02: each weight is area(src cap dst)/area(dst)
static void thinCase(Rng& r, Case& c);
static void exactness(Harness& H, Rng& r, int nmax) {
    Case c; if (nmax > 0) c = makeCase(r, nmax); else thinCase(r, c);
    Conserve q; WMap w; if (!runWeights(H, q, c, w)) return;
    LD tol = 1e-9L + 1e-13L*c.amp; long partial = 0;
    for (int d = 0; d < c.d.nc(); ++d) {
        Poly pd = c.d.cell(d); LD A = fabsl(polyArea(pd));
        for (int s = 0; s < c.s.nc(); ++s) {
            Poly x = clipConvex(c.s.cell(s), pd); LD ex = x.size() >= 3 ? fabsl(polyArea(x))/A : 0;
            WMap::iterator it = w.find(std::make_pair(d, s)); double got = it == w.end() ? 0.0 : it->second;
            if (ex > 1e-6L && ex < 1 - 1e-6L) ++partial;
            if (!(fabsl(got - ex) <= tol)) { H.fail(it == w.end() ? "missing-overlap" : "wrong-weight", fmt("dst %d src %d weight %.17g exact %.17Lg; ", d, s, got, ex) + desc(c)); return; }
        }
    }
    for (WMap::iterator it = w.begin(); it != w.end(); ++it) if (it->first.first < 0 || it->first.first >= c.d.nc() || it->first.second < 0 || it->first.second >= c.s.nc()) { H.fail("index-out-of-range", fmt("dst %d src %d; ", it->first.first, it->first.second) + desc(c)); return; }
    H.count("pairs", (long)c.d.nc()*c.s.nc()); H.count("partial-overlaps", partial);
    H.eval(hashOf(c).h, partial > 0); H.sample(desc(c));
}
static void exactThin(Harness& H, Rng& r, long) { exactness(H, r, 0); }
static void exactSmall(Harness& H, Rng& r, long) { exactness(H, r, BG(7)); }
static void exactLarge(Harness& H, Rng& r, long) { exactness(H, r, 22); }

// ---- C03
static void unity(Harness& H, Rng& r, long) {
    Case c = makeCase(r, BG(8)); 
    if (!vh_huge && r.p(.4)) { // put a small dst inside a convex src domain so that most dst cells are covered
        c.s = r.p(.5) ? stretchGrid(r, r.i(2,9), r.i(2,9), -2, -2, 2, 2) : jitter(r, rectGrid(r.i(3,9), r.i(3,9), -2, -2, 2, 2), 0.3, true); c.S = pickScale(r);
        if (r.p(.3)) c.s = transposeG(c.s);
        c.d = randomGrid(r, 2, 9); place(c.s, c.S, 0, 0); place(c.d, c.S, 0, 0); c.ox = c.oy = 0; c.amp = std::max(bboxMax(c.s), bboxMax(c.d)) / std::min(minH(c.s), minH(c.d)); }
    Conserve q; WMap w; if (!runWeights(H, q, c, w)) return;
    LD tol = 1e-9L + 1e-13L*c.amp;
    for (WMap::iterator it = w.begin(); it != w.end(); ++it) if (!(it->second >= -1e-12 - (double)tol && it->second <= 1 + (double)tol)) { H.fail("weight-out-of-0-1", fmt("dst %d src %d weight %.17g; ", it->first.first, it->first.second, it->second) + desc(c)); return; }
    std::vector<LD> cov(c.d.nc(), 0); std::vector<char> touch(c.d.nc(), 0); std::vector<double> mn(c.d.nc(), 1e300), mx(c.d.nc(), -1e300);
    double K = r.u(-5, 5); std::vector<double> v(c.s.nc()), one(c.s.nc(), K);
    for (size_t i = 0; i < v.size(); ++i) v[i] = r.u(-1, 1);
    for (int d = 0; d < c.d.nc(); ++d) { Poly pd = c.d.cell(d); LD A = fabsl(polyArea(pd));
        for (int s = 0; s < c.s.nc(); ++s) { Poly ps = c.s.cell(s); Poly x = clipConvex(ps, pd); LD a = x.size() >= 3 ? fabsl(polyArea(x))/A : 0; cov[d] += a;
            if (a > 0) { mn[d] = std::min(mn[d], v[s]); mx[d] = std::max(mx[d], v[s]); }
            // touching: boxes within round-off
            double b[8] = {1e300,1e300,-1e300,-1e300,1e300,1e300,-1e300,-1e300};
            for (int k = 0; k < 4; ++k) { b[0] = std::min(b[0], (double)ps[k].x); b[1] = std::min(b[1], (double)ps[k].y); b[2] = std::max(b[2], (double)ps[k].x); b[3] = std::max(b[3], (double)ps[k].y);
                b[4] = std::min(b[4], (double)pd[k].x); b[5] = std::min(b[5], (double)pd[k].y); b[6] = std::max(b[6], (double)pd[k].x); b[7] = std::max(b[7], (double)pd[k].y); }
            double e = 1e-9*(double)sqrtl(A);
            if (b[0] <= b[6] + e && b[4] <= b[2] + e && b[1] <= b[7] + e && b[5] <= b[3] + e) touch[d] = 1;
        } }
    const double SENT = -1234.5;
    std::vector<double> o1(c.d.nc(), SENT), o2(c.d.nc(), SENT); q.apply(one, o1); q.apply(v, o2);
    long full = 0, none = 0;
    for (int d = 0; d < c.d.nc(); ++d) {
        if (cov[d] > 1 - 1e-12L) { ++full;
            if (!(fabsl(o1[d] - K) <= tol*std::max(1.0, fabs(K)))) { H.fail("constant-not-preserved", fmt("dst cell %d inside the src grid: %.17g instead of %.17g; ", d, o1[d], K) + desc(c)); return; }
            if (!(o2[d] >= mn[d] - tol && o2[d] <= mx[d] + tol)) { H.fail("new-extremum", fmt("dst cell %d: %.17g outside of [%.17g, %.17g]; ", d, o2[d], mn[d], mx[d]) + desc(c)); return; }
        } else if (cov[d] > 1e-8L) {
            if (!(fabsl(o1[d] - K*cov[d]) <= tol*std::max(1.0, fabs(K)))) { H.fail("partial-coverage", fmt("dst cell %d covered %.17Lg: %.17g instead of %.17Lg; ", d, cov[d], o1[d], K*cov[d]) + desc(c)); return; }
        } else if (!touch[d]) { ++none;
            if (o1[d] != SENT || o2[d] != SENT) { H.fail("far-cell-written", fmt("dst cell %d does not touch the src grid but got %.17g; ", d, o1[d]) + desc(c)); return; }
        }
    }
    H.count("covered-cells", full); H.count("untouched-cells", none); H.eval(hashOf(c).h, full + none > 0); H.sample(desc(c));
}

// ---- C04
static void iteration(Harness& H, Rng& r, long) {
    Case c = makeCase(r, BG(6)); Conserve q; H.note("iteration"); q.src(c.s); q.dst(c.d);
    int ns = c.s.nc(), nd = c.d.nc(); long limit = 4L*ns*nd + 4; long dup; WMap m0, m1;
    if (r.p(.3) && !vh_dirty) { // before the weights exist
        int s = 5, d = 5; double w = 5; q.get(s, d, w); H.count("empty-get");
        if (s >= 0 || d >= 0 || w != 0) { H.fail("empty-iteration-yields-weight", fmt("src %d dst %d w %g", s, d, w)); return; }
        if (q.next() != 1) { H.fail("empty-iteration-does-not-stop", ""); return; }
    }
    q.weights();
    // the very first pass, without a call to reset
    long n0 = 0; bool empty = false;
    for (;;) { int s = -7, d = -7; double w; q.get(s, d, w); if (n0 == 0 && s < 0) { empty = true; if (q.next() != 1) { H.fail("empty-iteration-does-not-stop", desc(c)); return; } break; }
        if (s < 0 || s >= ns || d < 0 || d >= nd) { H.fail("index-out-of-range", fmt("src %d dst %d; ", s, d) + desc(c)); return; }
        if (m0.count(std::make_pair(d, s))) { H.fail("pair-visited-twice", fmt("src %d dst %d; ", s, d) + desc(c)); return; }
        m0[std::make_pair(d, s)] = w; ++n0; int st = q.next(); if (st != 0 && st != 1) { H.fail("bad-next-status", fmt("%d", st)); return; } if (st) break; if (n0 > limit) { H.fail("iteration-does-not-end", desc(c)); return; } }
    H.count("weights", n0);
    // next pass starts over by itself; then a partial pass followed by reset
    for (int rep = 0; rep < 2; ++rep) {
        if (rep == 1) { long k = r.i(0, 10); for (long i = 0; i < k; ++i) q.next(); }
        if (rep == 0 && !empty) { // wrapped around: continue without reset
            m1.clear(); long n = 0; for (;;) { int s, d; double w; q.get(s, d, w); m1[std::make_pair(d, s)] = w; ++n; if (q.next()) break; if (n > limit) break; }
            if (n != n0 || m1 != m0) { H.fail("second-pass-differs", fmt("%ld then %ld weights; ", n0, n) + desc(c)); return; }
        } else {
            long n = q.pass(m1, dup, limit);
            if (n != n0 || m1 != m0) { H.fail("pass-after-reset-differs", fmt("%ld then %ld weights; ", n0, n) + desc(c)); return; }
        }
        H.count("passes");
    }
    // the weights visited are those that apply uses
    std::vector<double> v(ns), o(nd), e(nd, 0.0); for (int i = 0; i < ns; ++i) v[i] = r.u(-1, 1);
    std::vector<char> has(nd, 0);
    for (int i = 0; i < nd; ++i) o[i] = 1e30; 
    q.apply(v, o); for (WMap::iterator it = m0.begin(); it != m0.end(); ++it) { e[it->first.first] += it->second*v[it->first.second]; has[it->first.first] = 1; }
    for (int d = 0; d < nd; ++d) {
        if (!has[d]) { if (o[d] != 1e30) { H.fail("apply-uses-unlisted-weights", fmt("dst %d; ", d) + desc(c)); return; } }
        else if (!(fabs(o[d] - e[d]) <= 1e-11)) { H.fail("apply-differs-from-listed-weights", fmt("dst %d: %.17g, listed weights give %.17g; ", d, o[d], e[d]) + desc(c)); return; }
    }
    // column extraction: response to a unit source cell
    int s0 = r.i(0, ns-1); std::fill(v.begin(), v.end(), 0.0); v[s0] = 1; std::fill(o.begin(), o.end(), 0.0); q.apply(v, o);
    for (int d = 0; d < nd; ++d) { WMap::iterator it = m0.find(std::make_pair(d, s0)); double ex = it == m0.end() ? 0 : it->second; if (!(fabs(o[d] - ex) <= 1e-13)) { H.fail("unit-response-differs", fmt("dst %d src %d %.17g vs %.17g; ", d, s0, o[d], ex) + desc(c)); return; } }
    // applying must not move the iteration
    WMap m2; long n2 = q.pass(m2, dup, limit); if (n2 != n0 || m2 != m0) { H.fail("apply-changed-weights", desc(c)); return; }
    H.eval(hashOf(c).h, n0 > 1); if (empty) H.count("empty-weight-sets"); H.sample(fmt("%ld weights; ", n0) + desc(c));
}

// ---- larger grids, and long thin ones
static void thinCase(Rng& r, Case& c) { // one grid with very many cells in one direction, the other with few
    int n = (int)pow(10, r.u(1.5, 3.4)); c.s = randomGrid(r, 2, 4); Grid g; switch (r.i(0, 3)) { case 0: g = rectGrid(2, n, -1, -1, 1, 1); break; case 1: g = stretchGrid(r, r.i(2, 3), n, -1, -1, 1, 1); break; case 2: { double t0 = r.u(-3, 3); g = polarGrid(2, n, r.u(.2, .6), 1, t0, t0 + 2*M_PI, 0, 0); break; } default: { double t = r.u(-3, 3); g = affine(rectGrid(n, 2, -1, -1, 1, 1), cos(t), -sin(t), sin(t), cos(t), r.u(-.3, .3), r.u(-.3, .3)); } }
    if (r.p(.3)) g = transposeG(g); c.d = g; if (r.p(.5)) std::swap(c.s, c.d); c.S = pickScale(r); c.ox = c.oy = 0; place(c.s, c.S, 0, 0); place(c.d, c.S, 0, 0); c.amp = std::max(bboxMax(c.s), bboxMax(c.d)) / std::min(minH(c.s), minH(c.d)); }
HUGE_CASE(totalsHuge, totals)
HUGE_CASE(exactHuge, exactSmall)
HUGE_CASE(unityHuge, unity)
HUGE_CASE(iterationHuge, iteration)
BIGGER(totalsBig, totals, 5)
BIGGER(exactBig, exactSmall, 6)
BIGGER(unityBig, unity, 5)
BIGGER(iterationBig, iteration, 6)

// ---- C34: linear in the data, local, and independent of what the output held
static bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void locality(Harness& H, Rng& r, long) {
    Case c = makeCase(r, BG(8)); Conserve q; H.note("locality " + c.s.family + " / " + c.d.family); q.src(c.s); q.dst(c.d); q.weights(); int ns = c.s.nc(), nd = c.d.nc();
    const double NANV = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity(); std::vector<double> v = vh_field(r, ns), g = vh_field(r, ns), o0(nd, 1.0), o1(nd, NANV), o2(nd, r.p(.5) ? INF : -1e300), in(v);
    q.apply(v, o0); q.apply(v, o1); q.apply(v, o2); std::vector<char> w(nd); long written = 0, bad = 0, clean = 0, shown = 0;
    for (int d = 0; d < nd; ++d) { w[d] = !std::isnan(o1[d]); if (!w[d]) { if (!sameBits(o0[d], 1.0) && !std::isnan(o0[d])) { H.fail("output-depends-on-what-it-held", fmt("cell %d: %.17g over 1, not-a-number over not-a-number; ", d, o0[d]) + desc(c)); return; } continue; } ++written;
        if (!sameBits(o0[d], o1[d]) || !sameBits(o0[d], o2[d])) { H.fail("output-depends-on-what-it-held", fmt("cell %d: %.17g over 1, %.17g over not-a-number, %.17g over a large number; ", d, o0[d], o1[d], o2[d]) + desc(c)); return; } }
    // scaled by a power of two, and superposed
    double f = ldexp(1.0, r.i(-60, 60)); std::vector<double> u(ns), os(nd, 1.0), og(nd, 1.0), oc(nd, 1.0); for (int k = 0; k < ns; ++k) u[k] = v[k]*f; q.apply(u, os);
    for (int d = 0; d < nd; ++d) if (w[d] && os[d] != o0[d]*f) { H.fail("scaled-data-do-not-give-scaled-result", fmt("cell %d: %.17g times %.17g is not %.17g; ", d, o0[d], f, os[d]) + desc(c)); return; }
    double a = r.u(-3, 3); for (int k = 0; k < ns; ++k) u[k] = v[k] + a*g[k]; q.apply(g, og); q.apply(u, oc);
    for (int d = 0; d < nd; ++d) if (w[d] && !(fabs(oc[d] - o0[d] - a*og[d]) <= 1e-11*(1 + fabs(o0[d]) + fabs(oc[d]) + fabs(a*og[d])))) { H.fail("not-linear", fmt("cell %d: %.17g + %.17g * %.17g is not %.17g; ", d, o0[d], a, og[d], oc[d]) + desc(c)); return; }
    // missing, infinite or huge values in some cells
    for (int rep = 0; rep < 3; ++rep) {
        double x = rep == 0 ? NANV : r.p(.3) ? NANV : r.p(.5) ? (r.p(.5) ? INF : -INF) : r.u(-1,1)*1e280; std::vector<int> M; int m = r.p(.5) ? 1 : r.i(1, std::max(1, ns/3)); std::vector<char> isM(ns, 0); for (int k = 0; k < m; ++k) { int s = r.i(0, ns-1); if (!isM[s]) { isM[s] = 1; M.push_back(s); } if (M.size() > 40) break; }
        u = v; for (size_t k = 0; k < M.size(); ++k) u[M[k]] = x; os.assign(nd, 1.0); q.apply(u, os);
        for (int d = 0; d < nd; ++d) { Poly pd = c.d.cell(d); LD A = fabsl(polyArea(pd)), e = 1e-9L*sqrtl(A) + 1e-13L*bboxMax(c.s); bool near = false, under = false;
            for (size_t k = 0; k < M.size(); ++k) { Poly ps = c.s.cell(M[k]); LD b[8] = {1e300L,1e300L,-1e300L,-1e300L,1e300L,1e300L,-1e300L,-1e300L};
                for (int i = 0; i < 4; ++i) { b[0] = std::min(b[0], ps[i].x); b[1] = std::min(b[1], ps[i].y); b[2] = std::max(b[2], ps[i].x); b[3] = std::max(b[3], ps[i].y); b[4] = std::min(b[4], pd[i].x); b[5] = std::min(b[5], pd[i].y); b[6] = std::max(b[6], pd[i].x); b[7] = std::max(b[7], pd[i].y); }
                if (b[0] > b[6] + e || b[4] > b[2] + e || b[1] > b[7] + e || b[5] > b[3] + e) continue;
                near = true; Poly z = clipConvex(ps, pd); if (z.size() >= 3 && fabsl(polyArea(z)) > A*(1e-3L + 1e-12L*c.amp)) under = true; }
            if (!near) { ++clean; if (!sameBits(os[d], o0[d])) { H.fail("value-elsewhere-matters", fmt("cell %d changed from %.17g to %.17g by putting %g into %d cells elsewhere (first %d); ", d, o0[d], os[d], x, (int)M.size(), M[0]) + desc(c)); return; } }
            else if (under && !std::isfinite(x)) { ++shown; if (std::isfinite(os[d])) { H.fail("missing-value-lost", fmt("cell %d is %.17g although %g lies under it; ", d, os[d], x) + desc(c)); return; } } }
        bad += M.size(); }
    H.count("conserve-written", written); H.count("conserve-values-replaced", bad); H.count("conserve-unaffected", clean); H.count("conserve-shown", shown); H.eval(hashOf(c).h, clean > 0 && written > 0); H.sample(desc(c));
}
HUGE_CASE(localityHuge, locality)
BIGGER(localityBig, locality, 5)

void registerWorkloads(Harness& H) {
    if (H.prop == "C34") { H.add("conserve", locality, 4000, 60000); H.add("conserve-big", localityBig, 20, 1500); H.add("conserve-huge", localityHuge, 2, 30); }
    if (H.prop == "C01") { H.add("totals", totals, 4000, 60000); H.add("big", totalsBig, 40, 2000); H.add("huge", totalsHuge, 2, 40); }
    if (H.prop == "C02") { H.add("small", exactSmall, 5000, 60000); H.add("large", exactLarge, 150, 2500); H.add("big", exactBig, 10, 500); H.add("thin", exactThin, 60, 3000); H.add("huge", exactHuge, 4, 40); }
    if (H.prop == "C03") { H.add("unity", unity, 5000, 60000); H.add("big", unityBig, 30, 1500); H.add("huge", unityHuge, 2, 40); }
    if (H.prop == "C04") { H.add("iterate", iteration, 5000, 60000); H.add("big", iterationBig, 30, 1500); H.add("huge", iterationHuge, 4, 40); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
