// C10 flow of a stream function through polylines, C11 flow of arbitrary edge data through segments
#include "api.h"

struct Edges { std::vector<double> e0, e1; };
static Edges alloc(const Grid& g) { Edges e; e.e0.assign((g.dims[0]-1)*g.dims[1], 0); e.e1.assign(g.dims[0]*(g.dims[1]-1), 0); return e; }
static int ix0(const Grid& g, int i, int j) { return i*g.dims[1] + j; }
static int ix1(const Grid& g, int i, int j) { return i*(g.dims[1]-1) + j; }
static Edges fromPsi(const Grid& g, const std::vector<double>& psi) { Edges e = alloc(g);
    for (int i = 0; i < g.dims[0]-1; ++i) for (int j = 0; j < g.dims[1]; ++j) e.e0[ix0(g,i,j)] = psi[g.id(i+1,j)] - psi[g.id(i,j)];
    for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]-1; ++j) e.e1[ix1(g,i,j)] = psi[g.id(i,j+1)] - psi[g.id(i,j)]; return e; }
static Edges randomEdges(const Grid& g, Rng& r) { Edges e = alloc(g); for (size_t k = 0; k < e.e0.size(); ++k) e.e0[k] = r.u(-1,1); for (size_t k = 0; k < e.e1.size(); ++k) e.e1[k] = r.u(-1,1); return e; }
static P2 at(const Grid& g, LD a, LD b) { int i = std::max(0, std::min(g.dims[0]-2, (int)floorl(a))), j = std::max(0, std::min(g.dims[1]-2, (int)floorl(b))); LD u = a-i, v = b-j; int k[4] = { g.id(i,j), g.id(i+1,j), g.id(i+1,j+1), g.id(i,j+1) }; LD w[4] = { (1-u)*(1-v), u*(1-v), u*v, (1-u)*v }; P2 p; for (int q = 0; q < 4; ++q) { p.x += w[q]*g.x[k[q]]; p.y += w[q]*g.y[k[q]]; } return p; }
static LD nodal(const Grid& g, const std::vector<double>& f, LD a, LD b) { int i = std::max(0, std::min(g.dims[0]-2, (int)floorl(a))), j = std::max(0, std::min(g.dims[1]-2, (int)floorl(b))); LD u = a-i, v = b-j; return (1-u)*(1-v)*f[g.id(i,j)] + u*(1-v)*f[g.id(i+1,j)] + u*v*f[g.id(i+1,j+1)] + (1-u)*v*f[g.id(i,j+1)]; }
static double minEdge(const Grid& g) { LD h = 1e300L; for (int c = 0; c < g.nc(); ++c) { Poly p = g.cell(c); LD ar = fabsl(polyArea(p)), m = 0; for (int a = 0; a < 4; ++a) m = std::max(m, hypotl(p[(a+1)%4].x-p[a].x, p[(a+1)%4].y-p[a].y)); h = std::min(h, ar/m); } return (double)h; }

// grids whose domain is convex (a parallelogram), so that segments between points of the domain stay inside
static Grid domain(Rng& r, bool aff, int mx) {
    int n0 = r.i(2, mx), n1 = r.i(2, mx); Grid g; if (vh_huge == 1) { n0 = r.i(258, 280); n1 = r.i(258, 280); } // 1: many cells, 2: many segments
    if (vh_huge == 2) { n0 = r.i(2, 4); n1 = r.i(2, 4); }
    int k = aff ? r.i(0, 1) : r.i(0, 3);
    if (k <= 1) g = rectGrid(n0, n1, 0, 0, 1, 1); else if (k == 2) g = jitter(r, rectGrid(n0, n1, 0, 0, 1, 1), r.u(0.05, 0.35), true); else g = waveGrid(r, n0, n1, 0.12);
    if (!aff && r.p(.3)) g = jitter(r, stretchGrid(r, n0, n1, 0, 0, 1, 1), r.u(0.05, 0.3), true);
    double t = r.u(-M_PI, M_PI), u = r.u(0.5, 2), v = r.u(0.5, 2), sh = r.u(-0.5, 0.5); if (k == 0) { t = 0; sh = 0; u = r.p(.5) ? 1 : u; v = r.p(.5) ? 1 : v; } if (r.p(.3)) v = -v; if (r.p(.15)) v *= pow(10, r.u(-3, -1)); // thin cells
    double S = r.p(.5) ? 1 : pow(10, r.u(-1, 3)); u *= S; v *= S; double ox = r.p(.4) ? 0 : S*r.u(-1,1), oy = r.p(.4) ? 0 : S*r.u(-1,1);
    std::string f = g.family; g = affine(g, u*cos(t), v*(sh*cos(t)-sin(t)), u*sin(t), v*(sh*sin(t)+cos(t)), ox, oy); g.family = f + (k ? "-affine" : ""); if (r.p(.2)) g = transposeG(g); return g;
}
static std::vector<double> flows(const Grid& g, const Polyline& l, const Edges& e, double sent) { Flow f; f.src(g); f.dst(l); f.weights(); std::vector<double> d(std::max(0, l.n()-1), sent); f.apply(e.e0, e.e1, d); return d; }

// ---- C10
// smallest sine of the angle between a segment and the edges near it
static LD sineToEdges(const Grid& g, const Polyline& l, int k) {
    LD x0 = l.x[k], y0 = l.y[k], dx = l.x[k+1]-x0, dy = l.y[k+1]-y0, L = hypotl(dx, dy), res = 1; if (L == 0) return 1;
    for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]; ++j) for (int d = 0; d < 2; ++d) { int ii = i + (d == 0), jj = j + (d == 1); if (ii >= g.dims[0] || jj >= g.dims[1]) continue; LD ax = g.x[g.id(i,j)], ay = g.y[g.id(i,j)], ex = g.x[g.id(ii,jj)]-ax, ey = g.y[g.id(ii,jj)]-ay, E = hypotl(ex, ey), w = .1L*E;
        if (std::max(ax, ax+ex)+w < std::min(x0, x0+dx) || std::min(ax, ax+ex)-w > std::max(x0, x0+dx) || std::max(ay, ay+ey)+w < std::min(y0, y0+dy) || std::min(ay, ay+ey)-w > std::max(y0, y0+dy)) continue;
        LD s = fabsl(ex*dy - ey*dx)/(E*L); if (s > 1e-17L) res = std::min(res, s); }
    return res;
}
static void stream(Harness& H, Rng& r, bool closed) {
    if (vh_huge) vh_huge = r.i(1, 2);
    Grid g = domain(r, false, BG(9)); std::vector<double> psi(g.n()); int kind = r.i(0, 3); double c[4] = { r.u(-1,1), r.u(-1,1), r.u(1,4), r.u(1,4) }; double sx = 0; for (int k = 0; k < g.n(); ++k) sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k]));
    for (int k = 0; k < g.n(); ++k) psi[k] = kind == 0 ? r.u(-1,1) : kind == 1 ? (c[0]*g.x[k] + c[1]*g.y[k])/sx : kind == 2 ? sin(c[2]*g.x[k]/sx)*cos(c[3]*g.y[k]/sx) : (k % 7 == 3 ? 1.0 : 0.0);
    if (r.p(.1)) { double q = pow(10, r.u(-6, 6)); for (int k = 0; k < g.n(); ++k) psi[k] *= q; }
    Edges e = fromPsi(g, psi); int n = r.i(closed ? 3 : 2, BG(7)); if (vh_huge == 2) n = 66000 + r.i(0, 1000); std::vector<LD> ia, ib; std::vector<bool> off; Polyline l;
    bool lattice = r.p(.25); double m0 = g.dims[0]-1, m1 = g.dims[1]-1;
    for (int k = 0; k < n; ++k) { double a = r.u(0.001, m0-0.001), b = r.u(0.001, m1-0.001); bool next = false; // strictly inside
        if (lattice) { if (r.p(.6)) a = r.i(0, (int)m0); if (r.p(.6)) b = r.i(0, (int)m1); } if (k && r.p(.15)) { a = (double)ia.back(); } else if (k && r.p(.15)) b = (double)ib.back();
        if (lattice && r.p(.3)) { a = std::max(0., std::min(m0, a + r.u(-1,1)*pow(10, r.u(-13, -2)))); b = std::max(0., std::min(m1, b + r.u(-1,1)*pow(10, r.u(-13, -2)))); next = true; } // next to the grid lines
        off.push_back(next); ia.push_back(a); ib.push_back(b); P2 p = at(g, a, b); l.add((double)p.x, (double)p.y); }
    if (closed) { off.push_back(off[0]); ia.push_back(ia[0]); ib.push_back(ib[0]); l.add(l.x[0], l.y[0]); }
    H.note("stream " + g.family); std::vector<double> d = flows(g, l, e, -7e33); std::string in = l.str() + " src{" + g.str() + "}";
    double A = 0; for (int k = 0; k < g.n(); ++k) A = std::max(A, fabs(psi[k])); double h = minEdge(g), mag = sx, tol = A*(40*(1e-10 + 1e-14*mag)/h + 1e-11)*(m0+m1); LD tot = 0; double sum = 0;
    for (int k = 0; k+1 < l.n(); ++k) { LD ex = nodal(g, psi, ia[k+1], ib[k+1]) - nodal(g, psi, ia[k], ib[k]); bool same = l.x[k] == l.x[k+1] && l.y[k] == l.y[k+1];
        if (d[k] == -7e33) { if (same) { d[k] = 0; continue; } H.fail("segment-not-set", fmt("segment %d; ", k) + in); return; }
        tot += d[k]; LD dp = off[k] || off[k+1] ? sineToEdges(g, l, k) : 1; double ts = tol + (double)(A*(m0+m1)*2e-14*(1 + mag/h)/dp); // where a segment nearly parallel to a grid line crosses it is ill-conditioned
        sum += ts; if (ts > tol*2) H.count("nearly-parallel"); if (!(fabsl(d[k]-ex) <= ts)) { H.fail("flow-is-not-the-stream-function-difference", fmt("segment %d %.17g instead of %.17Lg (tolerance %.3g); ", k, d[k], ex, tol) + in); return; } }
    if (closed && !(fabsl(tot) <= sum)) { H.fail("closed-loop-has-flow", fmt("%.17Lg (tolerance %.3g); ", tot, sum) + in); return; }
    H.count("segments", l.n()-1); if (lattice) H.count("lattice-lines"); if (closed) H.count("loops"); Hash hh; g.hash(hh); l.hash(hh); H.eval(hh.h, g.nc() > 1); H.sample(in);
}
static void streamOpen(Harness& H, Rng& r, long) { stream(H, r, false); }
static void streamClosed(Harness& H, Rng& r, long) { stream(H, r, true); }

// loops around the hole of an annulus: a single valued stream function gives no net flow, an angle-like one gives its jump
static void annulus(Harness& H, Rng& r, long) {
    int n0 = r.i(2, BG(6)), n1 = r.i(5, BG(24)); double r0 = r.u(.2,.6), S = r.p(.5) ? 1 : pow(10, r.u(-1, 2)), t0 = r.p(.4) ? 0 : r.u(-3,3); Grid g = polarGrid(n0, n1, r0*S, S, t0, t0 + 2*M_PI, r.p(.5) ? 0 : S*r.u(-1,1), r.p(.5) ? 0 : S*r.u(-1,1));
    for (int i = 0; i < n0; ++i) { g.x[g.id(i,n1-1)] = g.x[g.id(i,0)]; g.y[g.id(i,n1-1)] = g.y[g.id(i,0)]; }
    std::vector<double> psi(g.n()); double jump = r.p(.5) ? r.u(-2,2) : 0, amp = r.u(0,1); for (int i = 0; i < n0; ++i) for (int j = 0; j < n1; ++j) psi[g.id(i,j)] = j == n1-1 ? psi[g.id(i,0)] + jump : amp*r.u(-1,1) + jump*j/(n1-1);
    Edges e = fromPsi(g, psi); double m0 = n0-1, m1 = n1-1; int n = r.i(std::max(6, (int)(1.2*M_PI/acos(std::min(.999, (r0+.06)/(r0 + (1-r0)*.55))))), 40); int dir = r.p(.5) ? 1 : -1; double b0 = r.p(.3) ? r.i(0, n1-2) : r.u(0, m1);
    Polyline l; std::vector<LD> ia, ib, w; for (int k = 0; k <= n; ++k) { LD b = b0 + dir*m1*k/n, turns = floorl(b/m1); LD bb = b - turns*m1; LD a = m0*(LD)r.u(.6,.95); if (k == n) { a = ia[0]; } ia.push_back(a); ib.push_back(bb); w.push_back(k == n ? w[0] + dir*jump : nodal(g, psi, a, bb) + turns*jump); P2 p = at(g, a, bb); if (k == n) l.add(l.x[0], l.y[0]); else l.add((double)p.x, (double)p.y); }
    // all segments must stay clear of the hole
    double cx = 0, cy = 0; for (int j = 0; j < n1-1; ++j) { cx += g.x[g.id(n0-1,j)]/(n1-1); cy += g.y[g.id(n0-1,j)]/(n1-1); }
    for (int k = 0; k < n; ++k) { double x0 = l.x[k]-cx, y0 = l.y[k]-cy, dx = l.x[k+1]-l.x[k], dy = l.y[k+1]-l.y[k], q = dx*dx+dy*dy, t = q > 0 ? -(x0*dx+y0*dy)/q : 0; t = std::max(0., std::min(1., t)); if (hypot(x0+t*dx, y0+t*dy) < (r0+1e-3)*S) { H.count("loops-dropped"); return; } }
    H.note("annulus"); std::vector<double> d = flows(g, l, e, -7e33); std::string in = l.str() + " src{" + g.str() + "}"; double A = 2 + fabs(jump), sx = 0; for (int k = 0; k < g.n(); ++k) sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k])); double tol = A*(60*(1e-10 + 1e-14*sx)/minEdge(g) + 1e-11)*(m0+m1); LD tot = 0;
    for (int k = 0; k < n; ++k) { if (d[k] == -7e33) { H.fail("segment-not-set", fmt("segment %d; ", k) + in); return; } tot += d[k]; LD ex = w[k+1]-w[k]; if (!(fabsl(d[k]-ex) <= tol)) { H.fail("flow-is-not-the-stream-function-difference", fmt("segment %d %.17g instead of %.17Lg (tolerance %.3g); ", k, d[k], ex, tol) + in); return; } }
    if (!(fabsl(tot - dir*jump) <= tol*n)) { H.fail("wrong-circulation", fmt("%.17Lg instead of %.17g; ", tot, dir*jump) + in); return; }
    H.count("rings"); if (jump != 0) H.count("rings-with-circulation"); Hash hh; g.hash(hh); l.hash(hh); H.eval(hh.h, true); H.sample(in);
}

// ---- C11: reference for affine grids, from the crossings of the segment with the grid lines in index space
static LD refFlow(const Grid& g, const Edges& e, LD a0, LD b0, LD a1, LD b1, long* pieces) {
    std::vector<LD> t; t.push_back(0); t.push_back(1); LD da = a1-a0, db = b1-b0;
    if (da != 0) for (int i = 0; i < g.dims[0]; ++i) { LD q = (i-a0)/da; if (q > 0 && q < 1) t.push_back(q); }
    if (db != 0) for (int j = 0; j < g.dims[1]; ++j) { LD q = (j-b0)/db; if (q > 0 && q < 1) t.push_back(q); }
    std::sort(t.begin(), t.end()); LD s = 0;
    for (size_t k = 0; k+1 < t.size(); ++k) { LD p = t[k], q = t[k+1]; if (q-p < 1e-17L) continue; LD am = a0+da*(p+q)/2, bm = b0+db*(p+q)/2; if (am < 0 || bm < 0 || am > g.dims[0]-1 || bm > g.dims[1]-1) continue;
        int i = std::max(0, std::min(g.dims[0]-2, (int)floorl(am))), j = std::max(0, std::min(g.dims[1]-2, (int)floorl(bm))); LD xm = am-i, ym = bm-j, dx = da*(q-p), dy = db*(q-p);
        s += dx*(1-ym)*e.e0[ix0(g,i,j)] + dx*ym*e.e0[ix0(g,i,j+1)] + dy*(1-xm)*e.e1[ix1(g,i,j)] + dy*xm*e.e1[ix1(g,i+1,j)]; if (pieces) ++*pieces; }
    return s;
}
static void put(const Grid& g, Polyline& l, LD a, LD b) { LD u = a, v = b; int n0 = g.dims[0]-1, n1 = g.dims[1]-1; P2 o(g.x[0], g.y[0]), p(g.x[g.id(n0,0)], g.y[g.id(n0,0)]), q(g.x[g.id(0,n1)], g.y[g.id(0,n1)]); l.add((double)(o.x + (p.x-o.x)*u/n0 + (q.x-o.x)*v/n1), (double)(o.y + (p.y-o.y)*u/n0 + (q.y-o.y)*v/n1)); }
// kind 0 random inside, 1 along grid lines / through nodes, 2 reaching outside of the domain
static void reference(Harness& H, Rng& r, int kind) {
    if (vh_huge) vh_huge = r.i(1, 2);
    Grid g = domain(r, true, BG(kind == 0 ? 12 : 8)); Edges e = randomEdges(g, r); if (r.p(.3)) { std::fill(e.e0.begin(), e.e0.end(), 0.0); std::fill(e.e1.begin(), e.e1.end(), 0.0); if (r.p(.5)) e.e0[r.i(0, e.e0.size()-1)] = 1; else e.e1[r.i(0, e.e1.size()-1)] = 1; }
    double m0 = g.dims[0]-1, m1 = g.dims[1]-1; int n = r.i(2, BG(6)); if (vh_huge == 2) n = 66000 + r.i(0, 1000); std::vector<LD> ia, ib; Polyline l; static const char* nm[] = {"inside","lattice","crossing"};
    for (int k = 0; k < n; ++k) { LD a = r.u(0.001, m0-0.001), b = r.u(0.001, m1-0.001);
        if (kind == 1) { int q = r.i(0, 5); if (q <= 3) { if (1) a = r.i(0, (int)m0); } if (q >= 2) { if (1) b = r.i(0, (int)m1); } if (k) { int w = r.i(0, 3); if (w == 0) a = ia.back(); else if (w == 1) b = ib.back(); else if (w == 2) { LD s = r.i(-3, 3); LD aa = ia.back()+s, bb = ib.back()+s*(r.p(.5) ? 1 : -1); if (aa > 0 && aa < m0 && bb > 0 && bb < m1) { a = aa; b = bb; } } } }
        if (kind == 2 && r.p(.6)) { LD x = r.p(.5) ? 0.5 : 5; a = m0/2 + (m0/2+x)*r.u(-1,1); b = m1/2 + (m1/2+x)*r.u(-1,1); }
        ia.push_back(a); ib.push_back(b); put(g, l, a, b); }
    H.note(fmt("reference %s", nm[kind]) + g.family); const double SENT = -7e33; std::vector<double> d = flows(g, l, e, SENT); std::string in = l.str() + " src{" + g.str() + "}"; long pieces = 0;
    double sx = 0; for (int k = 0; k < g.n(); ++k) sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k])); double h = minEdge(g), tol = (40*(1e-10 + 1e-14*sx)/h + 1e-10)*(m0+m1);
    for (int k = 0; k+1 < n; ++k) { long pc = 0; LD ex = refFlow(g, e, ia[k], ib[k], ia[k+1], ib[k+1], &pc); pieces += pc; bool same = ia[k] == ia[k+1] && ib[k] == ib[k+1];
        if (d[k] == SENT) { if (pc == 0 || same || (kind == 2 && fabsl(ex) < 1e-9)) { H.count("segments-outside"); continue; } H.fail("segment-not-set", fmt("segment %d expected %.17Lg; ", k, ex) + in); return; }
        if (!(fabsl(d[k]-ex) <= tol)) { H.fail(std::string("wrong-flow-") + nm[kind], fmt("segment %d index (%.12Lg,%.12Lg)-(%.12Lg,%.12Lg) %.17g instead of %.17Lg (tolerance %.3g); ", k, ia[k], ib[k], ia[k+1], ib[k+1], d[k], ex, tol) + in); return; } }
    H.count("pieces", pieces); Hash hh; g.hash(hh); l.hash(hh); hh.addv(e.e0); H.eval(hh.h, pieces > 1); H.sample(in);
}
// segments much shorter than the cells: on affine grids the ends are located to round-off, so that their flows are right to many digits as well
static void refShort(Harness& H, Rng& r, long) {
    Grid g = domain(r, true, BG(8)); Edges e = randomEdges(g, r); double m0 = g.dims[0]-1, m1 = g.dims[1]-1; int n = r.i(2, BG(6)); std::vector<LD> ia, ib; Polyline l; LD a = r.u(0.01, m0-0.01), b = r.u(0.01, m1-0.01);
    double step = pow(10, r.u(-10, -1)), sx = 0; for (int k = 0; k < n; ++k) { a = std::max(.005L, std::min((LD)m0-.005L, a)); b = std::max(.005L, std::min((LD)m1-.005L, b)); ia.push_back(a); ib.push_back(b); put(g, l, a, b); a += step*r.u(-1,1); b += step*r.u(-1,1); }
    for (int k = 0; k < g.n(); ++k) { sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k])); }
    double h = minEdge(g), A = 0; for (size_t k = 0; k < e.e0.size(); ++k) A = std::max(A, fabs(e.e0[k])); for (size_t k = 0; k < e.e1.size(); ++k) A = std::max(A, fabs(e.e1[k])); double tol = A*2e-14*(1 + sx/h);
    H.note("short " + g.family); const double SENT = -7e33; std::vector<double> d = flows(g, l, e, SENT); std::string in = l.str() + " src{" + g.str() + "}"; long pieces = 0;
    for (int k = 0; k+1 < n; ++k) { LD ex = refFlow(g, e, ia[k], ib[k], ia[k+1], ib[k+1], &pieces); double got = d[k] == SENT ? 0 : d[k]; bool one = true; for (int s = 0; s < 2; ++s) { const std::vector<LD>& q = s ? ib : ia; one = one && floorl(q[k]-1e-7L) == floorl(q[k+1]+1e-7L) && floorl(q[k]+1e-7L) == floorl(q[k+1]-1e-7L); } double tl = one ? tol : 1e4*tol; if (fabsl(ex) > 100*tl) H.count(one ? "short-decided" : "short-across-decided");
        if (!(fabsl(got-ex) <= tl)) { H.fail("wrong-flow-short", fmt("segment %d index (%.12Lg,%.12Lg)-(%.12Lg,%.12Lg) %.17g instead of %.17Lg (tolerance %.3g); ", k, ia[k], ib[k], ia[k+1], ib[k+1], d[k], ex, tl) + in); return; } }
    Hash hh; g.hash(hh); l.hash(hh); hh.addv(e.e0); H.eval(hh.h, pieces > 0); H.sample(in);
}
static void refInside(Harness& H, Rng& r, long) { reference(H, r, 0); }
static void refLattice(Harness& H, Rng& r, long) { reference(H, r, 1); }
static void refCrossing(Harness& H, Rng& r, long) { reference(H, r, 2); }

// the same on grids with cells of any convex shape: clip the segment to each cell, locate the ends of the part in the cell, use the bilinear cell formula
// false if the part of the segment in a cell cannot be located or is not certain
static bool refFlowGeneral(const Grid& g, const Edges& e, const P2& p, const P2& q, LD& s, long& pieces) {
    s = 0; pieces = 0;
    for (int c = 0; c < g.nc(); ++c) { Poly cell = g.cell(c), cc = ccw(cell); LD lo = 0, hi = 1; bool out = false;
        for (int k = 0; k < 4 && !out; ++k) { const P2 &a = cc[k], &b = cc[(k+1)%4]; LD l = hypotl(b.x-a.x, b.y-a.y), f0 = cross3(a, b, p)/l, f1 = cross3(a, b, q)/l; if (f0 < 0 && f1 < 0) { out = true; break; } if (f0 >= 0 && f1 >= 0) continue; LD t = f0/(f0-f1); if (f0 < 0) lo = std::max(lo, t); else hi = std::min(hi, t); }
        if (out || hi <= lo) continue; LD A[2], B[2]; if (!invBilinear(cell, P2(p.x + lo*(q.x-p.x), p.y + lo*(q.y-p.y)), A) || !invBilinear(cell, P2(p.x + hi*(q.x-p.x), p.y + hi*(q.y-p.y)), B)) return false;
        for (int k = 0; k < 2; ++k) if (A[k] < -1e-6L || A[k] > 1+1e-6L || B[k] < -1e-6L || B[k] > 1+1e-6L) return false;
        int n1 = g.dims[1]-1, i = c / n1, j = c % n1; LD dx = B[0]-A[0], dy = B[1]-A[1], xm = (A[0]+B[0])/2, ym = (A[1]+B[1])/2;
        s += dx*(1-ym)*e.e0[ix0(g,i,j)] + dx*ym*e.e0[ix0(g,i,j+1)] + dy*(1-xm)*e.e1[ix1(g,i,j)] + dy*xm*e.e1[ix1(g,i+1,j)]; ++pieces; }
    return true;
}
static void refCurvilinear(Harness& H, Rng& r, long) {
    Grid g; bool hole = r.p(.25); if (hole) { double S = r.p(.5) ? 1 : pow(10, r.u(-4, 2)), t0 = r.u(-3, 3); g = polarGrid(r.i(2,6), r.i(3,12), S*r.u(.2,.7), S, t0, t0 + r.u(1, 4), r.p(.5) ? 0 : S*r.u(-1,1), r.p(.5) ? 0 : S*r.u(-1,1)); } else g = domain(r, false, BG(8));
    if (!hole && r.p(.3)) { double q = pow(10, r.u(-5, 0)); g = affine(g, q, 0, 0, q, 0, 0); }
    if (!g.convexCells()) { H.count("skipped"); return; }
    Edges e = randomEdges(g, r); if (r.p(.3)) { std::fill(e.e0.begin(), e.e0.end(), 0.0); std::fill(e.e1.begin(), e.e1.end(), 0.0); if (r.p(.5)) e.e0[r.i(0, e.e0.size()-1)] = 1; else e.e1[r.i(0, e.e1.size()-1)] = 1; }
    double m0 = g.dims[0]-1, m1 = g.dims[1]-1, lo = 1e300, hi = -1e300; for (int k = 0; k < g.n(); ++k) { lo = std::min(lo, std::min(g.x[k], g.y[k])); hi = std::max(hi, std::max(g.x[k], g.y[k])); }
    int n = r.i(2, 6); Polyline l; for (int k = 0; k < n; ++k) { if (r.p(.12)) l.add(r.u(lo, hi), r.u(lo, hi)); else { P2 p = at(g, r.u(0.001, m0-0.001), r.u(0.001, m1-0.001)); l.add((double)p.x, (double)p.y); } }
    H.note("curvilinear " + g.family); const double SENT = -7e33; std::vector<double> d = flows(g, l, e, SENT); std::string in = l.str() + " src{" + g.str() + "}"; long pieces = 0;
    double sx = 0; for (int k = 0; k < g.n(); ++k) sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k])); double h = minEdge(g), tol = (40*(1e-10 + 1e-14*sx)/h + 1e-10)*(m0+m1); if (tol > 1e-3) { H.count("skipped"); return; }
    for (int k = 0; k+1 < n; ++k) { LD ex = 0; long pc = 0; if (!refFlowGeneral(g, e, P2(l.x[k], l.y[k]), P2(l.x[k+1], l.y[k+1]), ex, pc)) { H.count("skipped-segments"); continue; } pieces += pc;
        if (d[k] == SENT) { if (pc == 0 || fabsl(ex) <= tol) { H.count("segments-outside"); continue; } H.fail("segment-not-set", fmt("segment %d expected %.17Lg; ", k, ex) + in); return; }
        if (!(fabsl(d[k]-ex) <= tol)) { H.fail("wrong-flow-on-curvilinear-grid", fmt("segment %d %.17g instead of %.17Lg (tolerance %.3g); ", k, d[k], ex, tol) + in); return; } }
    H.count("pieces", pieces); Hash hh; g.hash(hh); l.hash(hh); hh.addv(e.e0); H.eval(hh.h, pieces > 1); H.sample(in);
}

// ---- C11: linear in the data, odd under reversal, additive under subdivision (affine), on any grid for the first two
static void algebra(Harness& H, Rng& r, long) {
    bool aff = r.p(.5); Grid g = domain(r, aff, 8); double m0 = g.dims[0]-1, m1 = g.dims[1]-1; Edges a = randomEdges(g, r), b = randomEdges(g, r), c = alloc(g); double s = r.u(-3,3), t = r.u(-3,3);
    for (size_t k = 0; k < a.e0.size(); ++k) c.e0[k] = s*a.e0[k] + t*b.e0[k]; for (size_t k = 0; k < a.e1.size(); ++k) c.e1[k] = s*a.e1[k] + t*b.e1[k];
    P2 p = at(g, r.u(0.01, m0-0.01), r.u(0.01, m1-0.01)), q = at(g, r.u(0.01, m0-0.01), r.u(0.01, m1-0.01)); Polyline l, rev, sub; l.add((double)p.x, (double)p.y); l.add((double)q.x, (double)q.y); rev.add(l.x[1], l.y[1]); rev.add(l.x[0], l.y[0]);
    int n = r.i(2, 6); std::vector<double> w; w.push_back(0); for (int k = 1; k < n; ++k) w.push_back(r.u()); w.push_back(1); std::sort(w.begin(), w.end()); for (size_t k = 0; k < w.size(); ++k) sub.add((double)(p.x + (q.x-p.x)*(LD)w[k]), (double)(p.y + (q.y-p.y)*(LD)w[k]));
    H.note("algebra " + g.family); Flow f; f.src(g); f.dst(l); f.weights(); std::vector<double> da(1, 1e33), db(1, 1e33), dc(1, 1e33); f.apply(a.e0, a.e1, da); f.apply(b.e0, b.e1, db); f.apply(c.e0, c.e1, dc);
    std::string in = l.str() + " src{" + g.str() + "}"; double sx = 0; for (int k = 0; k < g.n(); ++k) sx = std::max(sx, fabs(g.x[k])+fabs(g.y[k])); double h = minEdge(g), tol = (60*(1e-10 + 1e-14*sx)/h + 1e-10)*(m0+m1);
    if (!(fabs(dc[0] - s*da[0] - t*db[0]) <= 1e-12*(1+fabs(s)+fabs(t))*(m0+m1))) { H.fail("not-linear-in-the-data", fmt("%.17g, %.17g, %.17g; ", da[0], db[0], dc[0]) + in); return; }
    std::vector<double> dr = flows(g, rev, a, 1e33); if (!(fabs(dr[0] + da[0]) <= tol)) { H.fail("reversed-segment-not-opposite", fmt("%.17g and %.17g; ", da[0], dr[0]) + in); return; }
    if (aff) { std::vector<double> ds = flows(g, sub, a, 1e33); double tot = 0; for (size_t k = 0; k < ds.size(); ++k) tot += ds[k]; if (!(fabs(tot - da[0]) <= tol*n)) { H.fail("subdivided-segment-differs", fmt("%.17g and %.17g; ", da[0], tot) + in); return; } H.count("subdivided"); }
    Hash hh; g.hash(hh); l.hash(hh); H.eval(hh.h, g.nc() > 1); H.sample(in);
}

HUGE_CASE(streamOpenHuge, streamOpen)
HUGE_CASE(refInsideHuge, refInside)
BIGGER(streamOpenBig, streamOpen, 8)
BIGGER(streamClosedBig, streamClosed, 8)
BIGGER(annulusBig, annulus, 6)
BIGGER(refInsideBig, refInside, 8)
BIGGER(refLatticeBig, refLattice, 8)
BIGGER(refCrossingBig, refCrossing, 8)
BIGGER(refCurvilinearBig, refCurvilinear, 8)
// ---- C34: linear in the data, local, and independent of what the output held
static bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void locality(Harness& H, Rng& r, long) {
    Grid g = domain(r, r.p(.4), BG(9)); double m0 = g.dims[0]-1, m1 = g.dims[1]-1; int n = r.i(2, BG(8)); Polyline l; std::vector<int> cell; bool lattice = r.p(.2);
    for (int k = 0; k < n; ++k) { double a = r.u(-.2, m0 + .2), b = r.u(-.2, m1 + .2); if (lattice) { a = floor(a + .5); b = floor(b + .5); } int c = -1; if (k && cell.back() < 0 && r.p(.6) && !lattice) { // a short piece within one cell
            int i = r.i(0, (int)m0-1), j = r.i(0, (int)m1-1); P2 p = at(g, i + (LD)r.u(.1, .4), j + (LD)r.u(.1, .4)), q = at(g, i + (LD)r.u(.6, .9), j + (LD)r.u(.6, .9)); l.add((double)p.x, (double)p.y); cell.push_back(i*(g.dims[1]-1) + j); l.add((double)q.x, (double)q.y); cell.push_back(-1); continue; }
        P2 p = at(g, a, b); l.add((double)p.x, (double)p.y); cell.push_back(c); }
    Flow q; H.note("locality " + g.family); q.src(g); q.dst(l); q.weights(); std::string in = l.str() + " src{" + g.str() + "}"; int nd = l.n()-1, n0 = (int)(g.dims[0]-1)*g.dims[1], n1 = g.dims[0]*(g.dims[1]-1);
    const double NANV = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity(); Edges v = randomEdges(g, r), e = randomEdges(g, r), u = v; std::vector<double> o0(nd, 1.0), o1(nd, NANV), o2(nd, r.p(.5) ? INF : -1e300);
    q.apply(v.e0, v.e1, o0); q.apply(v.e0, v.e1, o1); q.apply(v.e0, v.e1, o2); std::vector<char> w(nd); long written = 0, bad = 0, clean = 0, shown = 0;
    for (int k = 0; k < nd; ++k) { w[k] = !std::isnan(o1[k]); if (!w[k]) { if (!sameBits(o0[k], 1.0)) { H.fail("output-depends-on-what-it-held", fmt("segment %d: %.17g over 1, not-a-number over not-a-number; ", k, o0[k]) + in); return; } continue; } ++written;
        if (!sameBits(o0[k], o1[k]) || !sameBits(o0[k], o2[k])) { H.fail("output-depends-on-what-it-held", fmt("segment %d: %.17g over 1, %.17g over not-a-number, %.17g over a large number; ", k, o0[k], o1[k], o2[k]) + in); return; } }
    double f = ldexp(1.0, r.i(-60, 60)); std::vector<double> os(nd, 1.0), og(nd, 1.0), oc(nd, 1.0); for (int k = 0; k < n0; ++k) u.e0[k] = v.e0[k]*f; for (int k = 0; k < n1; ++k) u.e1[k] = v.e1[k]*f; q.apply(u.e0, u.e1, os);
    for (int k = 0; k < nd; ++k) if (w[k] && os[k] != o0[k]*f) { H.fail("scaled-data-do-not-give-scaled-result", fmt("segment %d: %.17g times %.17g is not %.17g; ", k, o0[k], f, os[k]) + in); return; }
    double a = r.u(-3, 3); for (int k = 0; k < n0; ++k) u.e0[k] = v.e0[k] + a*e.e0[k]; for (int k = 0; k < n1; ++k) u.e1[k] = v.e1[k] + a*e.e1[k]; q.apply(e.e0, e.e1, og); q.apply(u.e0, u.e1, oc); double sc = m0 + m1;
    for (int k = 0; k < nd; ++k) if (w[k] && !(fabs(oc[k] - o0[k] - a*og[k]) <= 1e-11*(sc + fabs(o0[k]) + fabs(oc[k]) + fabs(a*og[k])))) { H.fail("not-linear", fmt("segment %d: %.17g + %.17g * %.17g is not %.17g; ", k, o0[k], a, og[k], oc[k]) + in); return; }
    double mag = 0; for (int k = 0; k < g.n(); ++k) mag = std::max(mag, std::max(fabs(g.x[k]), fabs(g.y[k])));
    for (int rep = 0; rep < 3; ++rep) {
        double x = rep == 0 ? NANV : r.p(.3) ? NANV : r.p(.5) ? (r.p(.5) ? INF : -INF) : r.u(-1,1)*1e280; std::vector<char> cM(g.nc(), 0); std::vector<int> C; int m = r.p(.5) ? 1 : r.i(1, std::max(1, (n0 + n1)/6)); if (m > 40) m = 40; u = v; int c1 = g.dims[1]-1;
        for (int t = 0; t < m; ++t) { int i, j, i2, j2; if (r.p(.5)) { int k = r.i(0, n0-1); u.e0[k] = x; i = i2 = k / g.dims[1]; j = k % g.dims[1]; j2 = j - 1; } else { int k = r.i(0, n1-1); u.e1[k] = x; i = k / c1; i2 = i - 1; j = j2 = k % c1; }
            if (i < g.dims[0]-1 && j < c1 && !cM[i*c1 + j]) { cM[i*c1 + j] = 1; C.push_back(i*c1 + j); } if (i2 >= 0 && j2 >= 0 && !cM[i2*c1 + j2]) { cM[i2*c1 + j2] = 1; C.push_back(i2*c1 + j2); } }
        os.assign(nd, 1.0); q.apply(u.e0, u.e1, os); double h = 1e-9*minEdge(g) + 1e-13*mag;
        for (int k = 0; k < nd; ++k) { if (!w[k]) { if (!sameBits(os[k], 1.0)) { H.fail("segment-outside-written", in); return; } continue; } bool near = false; double X0 = std::min(l.x[k], l.x[k+1]) - h, X1 = std::max(l.x[k], l.x[k+1]) + h, Y0 = std::min(l.y[k], l.y[k+1]) - h, Y1 = std::max(l.y[k], l.y[k+1]) + h;
            for (size_t t = 0; t < C.size() && !near; ++t) { Poly p = g.cell(C[t]); LD b[4] = {1e300L,1e300L,-1e300L,-1e300L}; for (int i = 0; i < 4; ++i) { b[0] = std::min(b[0], p[i].x); b[1] = std::min(b[1], p[i].y); b[2] = std::max(b[2], p[i].x); b[3] = std::max(b[3], p[i].y); } near = b[0] <= X1 && b[2] >= X0 && b[1] <= Y1 && b[3] >= Y0; }
            if (!near) { ++clean; if (!sameBits(os[k], o0[k])) { H.fail("value-elsewhere-matters", fmt("segment %d changed from %.17g to %.17g by putting %g on edges elsewhere; ", k, o0[k], os[k], x) + in); return; } }
            else if (cell[k] >= 0 && cM[cell[k]] && !std::isfinite(x)) { ++shown; if (std::isfinite(os[k])) { H.fail("missing-value-lost", fmt("segment %d is %.17g although an edge of its cell has %g; ", k, os[k], x) + in); return; } } }
        bad += m; }
    H.count("flow-written", written); H.count("flow-values-replaced", bad); H.count("flow-unaffected", clean); H.count("flow-shown", shown); Hash hh; g.hash(hh); l.hash(hh); H.eval(hh.h, clean > 0 && shown > 0); H.sample(in);
}
BIGGER(localityBig, locality, 6)

void registerWorkloads(Harness& H) {
    if (H.prop == "C34") { H.add("flow", locality, 6000, 100000); H.add("flow-big", localityBig, 40, 2000); }
    if (H.prop == "C10") { H.add("open", streamOpen, 8000, 250000); H.add("closed", streamClosed, 5000, 150000); H.add("annulus", annulus, 4000, 100000); H.add("open-big", streamOpenBig, 40, 2000); H.add("closed-big", streamClosedBig, 40, 2000); H.add("annulus-big", annulusBig, 40, 2000); H.add("huge", streamOpenHuge, 6, 60); }
    if (H.prop == "C11") { H.add("inside", refInside, 6000, 150000); H.add("short", refShort, 8000, 200000); H.add("lattice", refLattice, 8000, 200000); H.add("crossing", refCrossing, 6000, 150000); H.add("curvilinear", refCurvilinear, 6000, 150000); H.add("algebra", algebra, 5000, 100000); H.add("inside-big", refInsideBig, 20, 1500); H.add("huge", refInsideHuge, 8, 80); H.add("lattice-big", refLatticeBig, 20, 1500); H.add("crossing-big", refCrossingBig, 20, 1500); H.add("curvilinear-big", refCurvilinearBig, 20, 1500); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
