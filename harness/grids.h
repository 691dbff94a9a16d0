// Structured 2-D grid families and reference geometry (long double), independent of the code under test.
#ifndef VERIF_GRIDS_H
#define VERIF_GRIDS_H
#include "common.h"
typedef long double LD;
struct P2 { LD x, y; P2(LD a = 0, LD b = 0) : x(a), y(b) {} };
typedef std::vector<P2> Poly;

static inline LD cross3(const P2& a, const P2& b, const P2& c) { return (b.x-a.x)*(c.y-a.y) - (b.y-a.y)*(c.x-a.x); }
static inline LD polyArea(const Poly& p) { // signed
    LD s = 0; size_t n = p.size();
    for (size_t i = 1; i + 1 < n; ++i) s += cross3(p[0], p[i], p[i+1]);
    return s / 2;
}
// clip polygon against half plane left of a->b
static inline Poly clipHalf(const Poly& p, const P2& a, const P2& b) {
    Poly r; size_t n = p.size();
    for (size_t i = 0; i < n; ++i) {
        const P2& c = p[i]; const P2& d = p[(i+1)%n];
        LD sc = cross3(a, b, c), sd = cross3(a, b, d);
        if (sc >= 0) r.push_back(c);
        if ((sc > 0 && sd < 0) || (sc < 0 && sd > 0)) { LD t = sc / (sc - sd); r.push_back(P2(c.x + t*(d.x-c.x), c.y + t*(d.y-c.y))); }
    }
    return r;
}
static inline Poly ccw(Poly p) { if (polyArea(p) < 0) std::reverse(p.begin(), p.end()); return p; }
// intersection of two convex polygons
static inline Poly clipConvex(const Poly& p, const Poly& q) {
    LD b[8] = { 1e4000L, 1e4000L, -1e4000L, -1e4000L, 1e4000L, 1e4000L, -1e4000L, -1e4000L }; // disjoint boxes: nothing to do
    for (size_t i = 0; i < p.size(); ++i) { b[0] = std::min(b[0], p[i].x); b[1] = std::min(b[1], p[i].y); b[2] = std::max(b[2], p[i].x); b[3] = std::max(b[3], p[i].y); }
    for (size_t i = 0; i < q.size(); ++i) { b[4] = std::min(b[4], q[i].x); b[5] = std::min(b[5], q[i].y); b[6] = std::max(b[6], q[i].x); b[7] = std::max(b[7], q[i].y); }
    if (b[0] > b[6] || b[4] > b[2] || b[1] > b[7] || b[5] > b[3]) return Poly();
    Poly r = ccw(p), c = ccw(q);
    for (size_t i = 0; i < c.size() && r.size(); ++i) {
        const P2 &a = c[i], &b = c[(i+1)%c.size()];
        if (a.x == b.x && a.y == b.y) continue;
        r = clipHalf(r, a, b);
    }
    return r;
}
static inline bool ltP(const P2& a, const P2& b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }
static inline Poly hullOf(Poly p) { // monotone chain
    std::sort(p.begin(), p.end(), ltP);
    size_t n = p.size(); if (n < 3) return p;
    Poly h(2*n); size_t k = 0;
    for (size_t i = 0; i < n; ++i) { while (k >= 2 && cross3(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for (size_t i = n - 1, t = k + 1; i-- > 0;) { while (k >= t && cross3(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k > 1 ? k - 1 : k); return h;
}
static inline LD hullArea(const Poly& p) { Poly h = hullOf(p); return h.size() < 3 ? 0 : polyArea(h); }
// signed distance outside a convex ccw polygon (<=0 inside); edges of zero length skipped
static inline LD outsideDist(const Poly& c, const P2& p) {
    LD m = -1e300L;
    for (size_t i = 0; i < c.size(); ++i) { const P2 &a = c[i], &b = c[(i+1)%c.size()]; LD l = hypotl(b.x-a.x, b.y-a.y); if (l == 0) continue; m = std::max(m, -cross3(a, b, p)/l); }
    return m;
}

// index coordinates of a point of a convex quad, by Newton's method in long double
static inline bool invBilinear(const Poly& q, const P2& p, LD xi[2]) { // q: (0,0),(1,0),(1,1),(0,1)
    xi[0] = xi[1] = 0.5L;
    for (int it = 0; it < 60; ++it) { LD u = xi[0], v = xi[1];
        LD fx = (1-u)*(1-v)*q[0].x + u*(1-v)*q[1].x + u*v*q[2].x + (1-u)*v*q[3].x - p.x, fy = (1-u)*(1-v)*q[0].y + u*(1-v)*q[1].y + u*v*q[2].y + (1-u)*v*q[3].y - p.y;
        LD xu = (1-v)*(q[1].x-q[0].x) + v*(q[2].x-q[3].x), xv = (1-u)*(q[3].x-q[0].x) + u*(q[2].x-q[1].x), yu = (1-v)*(q[1].y-q[0].y) + v*(q[2].y-q[3].y), yv = (1-u)*(q[3].y-q[0].y) + u*(q[2].y-q[1].y);
        LD det = xu*yv - xv*yu; if (det == 0) return false; LD du = (fx*yv - xv*fy)/det, dv = (xu*fy - yu*fx)/det; xi[0] -= du; xi[1] -= dv; if (fabsl(du) + fabsl(dv) < 1e-17L) return true; }
    return fabsl(xi[0]) < 3 && fabsl(xi[1]) < 3;
}

struct Grid {
    int dims[2]; std::vector<double> x, y; std::string family;
    Grid() { dims[0] = dims[1] = 2; }
    int n() const { return dims[0]*dims[1]; }
    int nc() const { return (dims[0]-1)*(dims[1]-1); }
    int id(int i, int j) const { return i*dims[1] + j; }
    const double** ptrs(const double* p[2]) const { p[0] = &x[0]; p[1] = &y[0]; return p; }
    // cell flat index -> quad nodes 0,1,2,3 = (i,j),(i+1,j),(i+1,j+1),(i,j+1)
    Poly cell(int c) const {
        int i = c/(dims[1]-1), j = c%(dims[1]-1);
        int k[4] = { id(i,j), id(i+1,j), id(i+1,j+1), id(i,j+1) }; Poly p;
        for (int a = 0; a < 4; ++a) p.push_back(P2(x[k[a]], y[k[a]]));
        return p;
    }
    bool convexCells(LD minFrac = 0.02L) const { // all cells strictly convex with the same orientation
        LD sg = 0;
        for (int c = 0; c < nc(); ++c) {
            Poly p = cell(c); LD ar = polyArea(p);
            if (sg == 0) sg = ar > 0 ? 1 : -1;
            LD per = 0; for (int a = 0; a < 4; ++a) per = std::max(per, hypotl(p[(a+1)%4].x-p[a].x, p[(a+1)%4].y-p[a].y));
            for (int a = 0; a < 4; ++a) if (sg*cross3(p[a], p[(a+1)%4], p[(a+2)%4]) <= minFrac*per*per) return false;
        }
        return true;
    }
    void hash(Hash& h) const { h.addi(dims[0]); h.addi(dims[1]); h.addv(x); h.addv(y); }
    std::string str() const {
        std::string s = fmt("%s dims=%dx%d x=[", family.c_str(), dims[0], dims[1]);
        int m = std::min(n(), 36);
        for (int i = 0; i < m; ++i) s += fmt("%.17g%s", x[i], i+1<m?",":"");
        s += "] y=["; for (int i = 0; i < m; ++i) s += fmt("%.17g%s", y[i], i+1<m?",":"");
        return s + (m < n() ? "] (truncated)" : "]");
    }
};

static inline Grid rectGrid(int n0, int n1, double x0, double y0, double x1, double y1) {
    Grid g; g.dims[0] = n0; g.dims[1] = n1; g.family = "rect"; g.x.resize(n0*n1); g.y.resize(n0*n1);
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
        g.x[g.id(i,j)] = x0 + (x1-x0)*i/double(n0-1); g.y[g.id(i,j)] = y0 + (y1-y0)*j/double(n1-1); }
    return g;
}
static inline Grid stretchGrid(Rng& r, int n0, int n1, double x0, double y0, double x1, double y1, double ratio = 0.2) {
    std::vector<double> a(n0), b(n1); double s = 0;
    for (int i = 0; i < n0; ++i) { a[i] = s; s += r.u(ratio, 1.0); } for (int i = 0; i < n0; ++i) a[i] /= a[n0-1];
    s = 0; for (int i = 0; i < n1; ++i) { b[i] = s; s += r.u(ratio, 1.0); } for (int i = 0; i < n1; ++i) b[i] /= b[n1-1];
    Grid g = rectGrid(n0, n1, 0, 0, 1, 1); g.family = "stretch";
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) { g.x[g.id(i,j)] = x0 + (x1-x0)*a[i]; g.y[g.id(i,j)] = y0 + (y1-y0)*b[j]; }
    return g;
}
static inline Grid affine(Grid g, double a, double b, double c, double d, double tx, double ty) {
    for (int k = 0; k < g.n(); ++k) { double X = g.x[k], Y = g.y[k]; g.x[k] = a*X + b*Y + tx; g.y[k] = c*X + d*Y + ty; }
    return g;
}
static inline Grid jitter(Rng& r, Grid g, double amp, bool keepBoundary) {
    double h0 = 1e300; // local spacing
    for (int c = 0; c < g.nc(); ++c) { Poly p = g.cell(c); for (int a = 0; a < 4; ++a) h0 = std::min(h0, (double)hypotl(p[(a+1)%4].x-p[a].x, p[(a+1)%4].y-p[a].y)); }
    for (int tries = 0; tries < 8; ++tries, amp *= 0.6) {
        Grid q = g;
        for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]; ++j) {
            bool bd = i == 0 || j == 0 || i == g.dims[0]-1 || j == g.dims[1]-1;
            double dx = r.u(-amp, amp)*h0, dy = r.u(-amp, amp)*h0;
            if (bd && keepBoundary) continue;
            q.x[q.id(i,j)] += dx; q.y[q.id(i,j)] += dy;
        }
        if (q.convexCells()) { q.family = "jitter"; return q; }
    }
    return g;
}
// polar grid: index 0 = radius, index 1 = angle
static inline Grid polarGrid(int n0, int n1, double r0, double r1, double t0, double t1, double cx, double cy) {
    Grid g; g.dims[0] = n0; g.dims[1] = n1; g.family = "polar"; g.x.resize(n0*n1); g.y.resize(n0*n1);
    for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) {
        double R = r0 + (r1-r0)*i/double(n0-1), T = t0 + (t1-t0)*j/double(n1-1);
        g.x[g.id(i,j)] = cx + R*cos(T); g.y[g.id(i,j)] = cy + R*sin(T); }
    return g;
}
static inline Grid waveGrid(Rng& r, int n0, int n1, double amp) { // smooth map of the unit square, boundary kept
    Grid g = rectGrid(n0, n1, 0, 0, 1, 1); double a = r.u(-amp, amp), b = r.u(-amp, amp);
    for (int k = 0; k < g.n(); ++k) { double X = g.x[k], Y = g.y[k]; g.x[k] = X + a*sin(M_PI*X)*sin(2*M_PI*Y); g.y[k] = Y + b*sin(2*M_PI*X)*sin(M_PI*Y); }
    g.family = "wave"; return g;
}
static inline Grid flipAxis0(const Grid& g) { Grid q = g; for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]; ++j) { q.x[q.id(i,j)] = g.x[g.id(g.dims[0]-1-i,j)]; q.y[q.id(i,j)] = g.y[g.id(g.dims[0]-1-i,j)]; } q.family += "-flip"; return q; }
static inline Grid transposeG(const Grid& g) { Grid q = g; q.dims[0] = g.dims[1]; q.dims[1] = g.dims[0]; for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]; ++j) { q.x[q.id(j,i)] = g.x[g.id(i,j)]; q.y[q.id(j,i)] = g.y[g.id(i,j)]; } q.family += "-transp"; return q; }

// a random grid of convex cells roughly filling the box [lo,hi]^2 scaled by S and shifted; covers all families
static inline Grid randomGrid(Rng& r, int nmin, int nmax, bool allowOrient = true) {
    int n0 = r.i(nmin, nmax), n1 = r.i(nmin, nmax); Grid g;
    switch (r.i(0, 6)) {
    case 0: g = rectGrid(n0, n1, r.u(-1,-0.3), r.u(-1,-0.3), r.u(0.3,1), r.u(0.3,1)); break;
    case 1: g = stretchGrid(r, n0, n1, r.u(-1,-0.3), r.u(-1,-0.3), r.u(0.3,1), r.u(0.3,1)); break;
    case 2: { double t = r.u(-M_PI, M_PI), sh = r.u(-0.5, 0.5); g = rectGrid(n0, n1, -1, -1, 1, 1);
              g = affine(g, cos(t), sh*cos(t)-sin(t), sin(t), sh*sin(t)+cos(t), r.u(-0.3,0.3), r.u(-0.3,0.3)); g.family = "affine"; break; }
    case 3: g = jitter(r, rectGrid(n0, n1, -1, -1, 1, 1), r.u(0.05,0.35), false); break;
    case 4: { double t0 = r.u(-M_PI, M_PI); n1 = std::max(n1, 3); g = polarGrid(n0, n1, r.u(0.1,0.4), r.u(0.7,1.2), t0, t0 + std::min(6.0, r.u(0.3, 0.5)*(n1-1)), r.u(-0.2,0.2), r.u(-0.2,0.2)); break; }
    case 5: g = affine(waveGrid(r, n0, n1, 0.12), 2, 0, 0, 2, -1, -1); g.family = "wave"; break;
    default: { double t = r.u(-M_PI, M_PI); g = affine(jitter(r, stretchGrid(r, n0, n1, -1, -1, 1, 1), r.u(0.05,0.3), false), cos(t), -sin(t), sin(t), cos(t), r.u(-0.3,0.3), r.u(-0.3,0.3)); g.family = "rot-jitter"; break; }
    }
    if (allowOrient) { int o = r.i(0, 5); if (o == 1) g = flipAxis0(g); else if (o == 2) g = transposeG(g); }
    return g;
}
static inline bool pointInGrid(const Grid& g, const P2& p, LD tol = 0) { for (int c = 0; c < g.nc(); ++c) if (outsideDist(ccw(g.cell(c)), p) <= tol) return true; return false; }
#endif
