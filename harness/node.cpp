// C06 node interpolation, C07 nodes outside of the source domain, C08 point location contract, C09 point location round trip
#include "api.h"

static LD hmin(const Grid& g) { LD h = 1e300L; for (int c = 0; c < g.nc(); ++c) { Poly p = g.cell(c); for (int a = 0; a < 4; ++a) { LD d = hypotl(p[(a+1)%4].x-p[a].x, p[(a+1)%4].y-p[a].y); if (d > 0) h = std::min(h, d); } } return h; }
static double bbox(const Grid& g, double lo[2], double hi[2]) { lo[0] = lo[1] = 1e300; hi[0] = hi[1] = -1e300; for (int i = 0; i < g.n(); ++i) { lo[0] = std::min(lo[0], g.x[i]); hi[0] = std::max(hi[0], g.x[i]); lo[1] = std::min(lo[1], g.y[i]); hi[1] = std::max(hi[1], g.y[i]); } return std::max(std::max(fabs(lo[0]), fabs(hi[0])), std::max(fabs(lo[1]), fabs(hi[1]))); }
static void place(Grid& g, double S, double ox, double oy) { for (int i = 0; i < g.n(); ++i) { g.x[i] = g.x[i]*S + ox; g.y[i] = g.y[i]*S + oy; } }

// affine image of a uniform rectangular grid
static Grid affineGrid(Rng& r, int nmin, int nmax) {
    Grid g = rectGrid(r.i(nmin, nmax), r.i(nmin, nmax), 0, 0, 1, 1); double t = r.u(-M_PI, M_PI), u = r.u(0.3, 2), v = r.u(0.3, 2), sh = r.u(-0.7, 0.7);
    if (r.p(.4)) { t = 0; sh = 0; } if (r.p(.3)) v = -v; if (r.p(.1)) u *= pow(10, r.u(-3, 0));
    g = affine(g, u*cos(t), v*(sh*cos(t)-sin(t)), u*sin(t), v*(sh*sin(t)+cos(t)), r.u(-.5,.5), r.u(-.5,.5)); g.family = "affine"; return g;
}
static P2 bilin(const Grid& g, LD a, LD b) { int i = std::max(0, std::min(g.dims[0]-2, (int)floorl(a))), j = std::max(0, std::min(g.dims[1]-2, (int)floorl(b))); LD u = a-i, v = b-j; int k[4] = { g.id(i,j), g.id(i+1,j), g.id(i+1,j+1), g.id(i,j+1) }; LD w[4] = { (1-u)*(1-v), u*(1-v), u*v, (1-u)*v }; P2 p; for (int q = 0; q < 4; ++q) { p.x += w[q]*g.x[k[q]]; p.y += w[q]*g.y[k[q]]; } return p; }

// ---- C06
// full annuli with a periodic angle, starting anywhere, either way round, either index first
static Grid annulusN(Rng& r, int& p0, int& p1) { int n0 = r.i(2, BG(6)), n1 = r.i(6, BG(24)); double t0 = r.u(-M_PI, M_PI), r0 = r.u(.1, .7); Grid g = polarGrid(n0, n1, r0, 1, t0, t0 + (r.p(.5) ? 1 : -1)*2*M_PI, r.p(.5) ? 0 : r.u(-1,1), r.p(.5) ? 0 : r.u(-1,1)); for (int i = 0; i < n0; ++i) { g.x[g.id(i,n1-1)] = g.x[g.id(i,0)]; g.y[g.id(i,n1-1)] = g.y[g.id(i,0)]; } p0 = 0; p1 = 1; if (r.p(.4)) g = flipAxis0(g); if (r.p(.4)) { g = transposeG(g); std::swap(p0, p1); } g.family = "polar-annulus"; return g; }
static void interp(Harness& H, Rng& r, bool general) {
    int many = vh_huge ? r.i(1, 2) : 0; // 1: source, 2: destination
    int p0 = 0, p1 = 0; bool ann = general && r.p(.15); if (ann) H.count("annuli");
    Grid s = ann ? annulusN(r, p0, p1) : general ? randomGrid(r, 2, BG(9)) : many == 1 ? affineGrid(r, 258, 290) : many ? affineGrid(r, 2, 4) : affineGrid(r, 2, BG(12)); double S = r.p(.4) ? 1 : pow(10, r.u(-4, 6)); double ox = r.p(.3) ? S*r.u(-20,20) : 0, oy = r.p(.3) ? S*r.u(-20,20) : 0; if (r.p(.1)) { double far = S*pow(10, r.u(2, 5)); ox = far*r.u(-1,1); oy = far*r.u(-1,1); }
    place(s, S, ox, oy); double lo[2], hi[2], mag = bbox(s, lo, hi); double D = std::max(hi[0]-lo[0], hi[1]-lo[1]);
    // destination nodes: positions in the source domain, among them nodes, edge points and boundary points
    Grid d; d.dims[0] = r.i(1, r.p(.5) ? 6 : BG(6)); d.dims[1] = r.i(2, r.p(.5) ? 8 : BG(8)); if (many == 2) { d.dims[0] = r.i(258, 290); d.dims[1] = r.i(258, 290); } std::vector<double> ia, ib; bool tensor = r.p(.3);
    for (int k = 0; k < d.n(); ++k) { int q = r.i(0, 5); LD a, b;
        if (q == 0) { a = r.i(0, s.dims[0]-1); b = r.i(0, s.dims[1]-1); } else if (q == 1) { a = r.i(0, s.dims[0]-1); b = r.u(0, s.dims[1]-1); } else if (q == 2) { a = r.u(0, s.dims[0]-1); b = r.i(0, s.dims[1]-1); } else { a = r.u(0, s.dims[0]-1); b = r.u(0, s.dims[1]-1); }
        if (r.p(.25)) { LD e = pow(10, r.u(-14, -2)); a = std::max((LD)0, std::min((LD)s.dims[0]-1, a + e*r.u(-1,1))); b = std::max((LD)0, std::min((LD)s.dims[1]-1, b + e*r.u(-1,1))); } // a tiny distance off
        if (tensor) { a = (LD)(k / d.dims[1])/std::max(1, d.dims[0]-1)*(s.dims[0]-1); b = (LD)(k % d.dims[1])/(d.dims[1]-1)*(s.dims[1]-1); }
        P2 p = bilin(s, a, b); d.x.push_back((double)p.x); d.y.push_back((double)p.y); ia.push_back((double)a); ib.push_back((double)b); }
    double tol = std::max(D*pow(10, r.u(-11, -8)), 1e-14*mag*100); Node n(100, tol); H.note("interp " + s.family); n.src(s, p0, p1); n.dst(d); n.weights();
    const double SENT = -7.77e33; std::vector<double> o[5]; double c0 = r.u(-1,1), c1 = r.u(-1,1), c2 = r.u(-1,1);
    std::vector<double> f[5]; for (int q = 0; q < 5; ++q) { f[q].resize(s.n()); o[q].assign(d.n(), SENT); }
    for (int k = 0; k < s.n(); ++k) { f[0][k] = s.x[k]; f[1][k] = s.y[k]; f[2][k] = c0; f[3][k] = c0 + (c1*(s.x[k]-ox) + c2*(s.y[k]-oy))/S; f[4][k] = r.u(-1,1); }
    for (int q = 0; q < 5; ++q) n.apply(f[q], o[q]);
    std::string in = fmt("tol=%.3g src{", tol) + s.str() + "} dst{" + d.str() + "}"; long found = 0;
    double hm = (double)hmin(s); 
    for (int k = 0; k < d.n(); ++k) {
        int un = 0; for (int q = 0; q < 5; ++q) un += o[q][k] == SENT;
        if (un == 5) { H.count(general ? "general-not-found" : "affine-not-found"); if (!general) { H.fail("inside-point-not-found", fmt("node %d at index %.12g, %.12g; ", k, ia[k], ib[k]) + in); return; } continue; }
        if (un) { H.fail("node-partly-set", in); return; }
        ++found; double rt = 1e-13*mag + tol;
        if (!(fabs(o[0][k]-d.x[k]) <= rt*1.01 && fabs(o[1][k]-d.y[k]) <= rt*1.01)) { H.fail("coordinates-not-reproduced", fmt("node %d %.17g %.17g instead of %.17g %.17g; ", k, o[0][k], o[1][k], d.x[k], d.y[k]) + in); return; }
        if (!(fabs(o[2][k]-c0) <= 1e-12)) { H.fail("constant-not-reproduced", fmt("node %d %.17g instead of %.17g; ", k, o[2][k], c0) + in); return; }
        double ex = c0 + (c1*(d.x[k]-ox) + c2*(d.y[k]-oy))/S; if (!(fabs(o[3][k]-ex) <= 3*rt/S + 1e-11)) { H.fail("linear-field-not-reproduced", fmt("node %d %.17g instead of %.17g; ", k, o[3][k], ex) + in); return; }
        // values within those of the nodes of a cell holding the point; exact at nodes
        double mn = 1e300, mx = -1e300; for (int c = 0; c < s.nc(); ++c) if (outsideDist(ccw(s.cell(c)), P2(d.x[k], d.y[k])) <= 4*rt) { int i = c/(s.dims[1]-1), j = c%(s.dims[1]-1); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) { double v = f[4][s.id(i+a, j+b)]; mn = std::min(mn, v); mx = std::max(mx, v); } }
        double slack = 20*rt/hm + 1e-11; if (general) slack *= 20;
        if (!(o[4][k] >= mn - slack && o[4][k] <= mx + slack)) { H.fail("value-not-between-the-nodes-of-the-cell", fmt("node %d %.17g not in [%.17g, %.17g]; ", k, o[4][k], mn, mx) + in); return; }
        if (ia[k] == floor(ia[k]) && ib[k] == floor(ib[k])) { double v = f[4][s.id((int)ia[k], (int)ib[k])]; H.count("at-nodes"); if (s.family.find("polar") == std::string::npos && !(fabs(o[4][k]-v) <= 2*slack)) { H.fail("node-value-not-reproduced", fmt("node %d %.17g instead of %.17g; ", k, o[4][k], v) + in); return; } }
        // the bilinear interpolant in index space
        if (!general) { int i = std::max(0, std::min(s.dims[0]-2, (int)floor(ia[k]))), j = std::max(0, std::min(s.dims[1]-2, (int)floor(ib[k]))); double u = ia[k]-i, v = ib[k]-j; double e = (1-u)*(1-v)*f[4][s.id(i,j)] + u*(1-v)*f[4][s.id(i+1,j)] + u*v*f[4][s.id(i+1,j+1)] + (1-u)*v*f[4][s.id(i,j+1)];
            double cond = D/hm; if (!(fabs(o[4][k]-e) <= 8*slack*std::max(1.0, cond*0.2))) { H.fail("not-the-bilinear-interpolant", fmt("node %d %.17g instead of %.17g (tolerance %.3g); ", k, o[4][k], e, 8*slack*std::max(1.0, cond*0.2)) + in); return; } }
    }
    H.count("found", found); Hash h; s.hash(h); d.hash(h); H.eval(h.h, found > 0); H.sample(in);
}
static void annulusRate(Harness& H, Rng& r, long) {
    long tot = 0, miss = 0; std::string worst; Hash h;
    for (int q = 0; q < 2000; ++q) { int p0, p1;
        Grid s = annulusN(r, p0, p1); double S = r.p(.4) ? 1 : pow(10, r.u(-4, 6)), ox = r.p(.3) ? S*r.u(-20,20) : 0, oy = r.p(.3) ? S*r.u(-20,20) : 0; place(s, S, ox, oy); double lo[2], hi[2], mag = bbox(s, lo, hi), D = std::max(hi[0]-lo[0], hi[1]-lo[1]);
        Grid d; d.dims[0] = r.i(1, 5); d.dims[1] = r.i(2, 8); for (int k = 0; k < d.n(); ++k) { P2 p = bilin(s, r.u(0, s.dims[0]-1), r.u(0, s.dims[1]-1)); d.x.push_back((double)p.x); d.y.push_back((double)p.y); }
        Node n(100, std::max(D*pow(10, r.u(-11, -8)), 1e-12*mag)); H.note("annulus-rate"); n.src(s, p0, p1); n.dst(d); n.weights(); std::vector<double> f(s.n(), 1.0), o(d.n(), -7e33); n.apply(f, o);
        int m = 0; for (int k = 0; k < d.n(); ++k) m += o[k] == -7e33; tot += d.n(); miss += std::min(m, 3); if (m) { H.count("grids-with-nodes-not-found"); worst = "src{" + s.str() + "} dst{" + d.str() + "}"; } s.hash(h); }
    H.count("rate-nodes", tot); H.count("rate-not-found", miss);
    if (miss > tot*0.001) { H.fail("too-many-nodes-in-the-domain-not-found", fmt("%ld of %ld; for example ", miss, tot) + worst); return; }
    H.eval(h.h, true); H.sample(fmt("%ld of %ld nodes not found", miss, tot));
}
static void interpAffine(Harness& H, Rng& r, long) { interp(H, r, false); }
static void interpGeneral(Harness& H, Rng& r, long) { interp(H, r, true); }

// practically all nodes in the domain of curvilinear grids are found: counted over many grids (at most 3 per grid, so that one odd grid does not decide)
static void foundRate(Harness& H, Rng& r, long) {
    long tot = 0, miss = 0; std::string worst; Hash h;
    for (int q = 0; q < 1000; ++q) {
        Grid s = randomGrid(r, 2, 9); double S = r.p(.4) ? 1 : pow(10, r.u(-4, 6)), ox = r.p(.3) ? S*r.u(-20,20) : 0, oy = r.p(.3) ? S*r.u(-20,20) : 0; place(s, S, ox, oy); double lo[2], hi[2], mag = bbox(s, lo, hi), D = std::max(hi[0]-lo[0], hi[1]-lo[1]);
        Grid d; d.dims[0] = r.i(1, 5); d.dims[1] = r.i(2, 8); for (int k = 0; k < d.n(); ++k) { P2 p = bilin(s, r.u(0, s.dims[0]-1), r.u(0, s.dims[1]-1)); d.x.push_back((double)p.x); d.y.push_back((double)p.y); }
        Node n(100, std::max(D*pow(10, r.u(-11, -8)), 1e-12*mag)); H.note("found-rate " + s.family); n.src(s); n.dst(d); n.weights(); std::vector<double> f(s.n(), 1.0), o(d.n(), -7e33); n.apply(f, o);
        int m = 0; for (int k = 0; k < d.n(); ++k) m += o[k] == -7e33; tot += d.n(); miss += std::min(m, 3); if (m) { H.count("grids-with-nodes-not-found"); worst = "src{" + s.str() + "} dst{" + d.str() + "}"; } s.hash(h); }
    H.count("rate-nodes", tot); H.count("rate-not-found", miss);
    if (miss > tot*0.001) { H.fail("too-many-nodes-in-the-domain-not-found", fmt("%ld of %ld; for example ", miss, tot) + worst); return; }
    H.eval(h.h, true); H.sample(fmt("%ld of %ld nodes not found", miss, tot));
}

// ---- C07
static void outside(Harness& H, Rng& r, long) {
    int p0 = 0, p1 = 0; bool ann = r.p(.1); if (ann) H.count("annuli");
    Grid s = ann ? annulusN(r, p0, p1) : r.p(.6) ? affineGrid(r, 2, BG(9)) : randomGrid(r, 2, BG(8)); double S = r.p(.5) ? 1 : pow(10, r.u(-3, 5)); place(s, S, 0, 0);
    double lo[2], hi[2], mag = bbox(s, lo, hi), D = std::max(hi[0]-lo[0], hi[1]-lo[1]); double tol = 1e-9*D; bool aff = s.family == "affine";
    Grid d; d.dims[0] = r.i(1, 5); d.dims[1] = r.i(2, 7); std::vector<int> where;
    for (int k = 0; k < d.n(); ++k) { double x, y; int w; if (r.p(.5)) { P2 p = bilin(s, r.u(0, s.dims[0]-1), r.u(0, s.dims[1]-1)); x = (double)p.x; y = (double)p.y; w = 0; }
        else if (r.p(.3)) { // just outside of the border, or just inside
            int a = r.i(0, s.dims[0]-1), b = r.i(0, s.dims[1]-1); LD f = r.u(); P2 p; if (r.p(.5)) { int i = r.i(0, s.dims[0]-2), j = r.p(.5) ? 0 : s.dims[1]-1; p = bilin(s, i + f, j); } else { int j = r.i(0, s.dims[1]-2), i = r.p(.5) ? 0 : s.dims[0]-1; p = bilin(s, i, j + f); } if (r.p(.1)) p = bilin(s, a, b);
            double e = D*pow(10, r.u(-6.5, -1)); x = (double)p.x + e*r.u(-1,1); y = (double)p.y + e*r.u(-1,1); w = pointInGrid(s, P2(x,y), 100*tol) ? -1 : 1; H.count("next-to-the-border"); }
        else { double m = pow(10, r.u(-3, 2)); x = r.u(lo[0]-m*D, hi[0]+m*D); y = r.u(lo[1]-m*D, hi[1]+m*D); w = pointInGrid(s, P2(x,y), 100*tol) ? -1 : 1; }
        d.x.push_back(x); d.y.push_back(y); where.push_back(w); }
    Node n(100, tol); H.note("outside"); n.src(s, p0, p1); n.dst(d); n.weights(); std::vector<double> f(s.n()), o(d.n()), sent(d.n()); for (int k = 0; k < s.n(); ++k) f[k] = r.u(-1,1); for (int k = 0; k < d.n(); ++k) o[k] = sent[k] = 1e20 + 1e15*k;
    n.apply(f, o); std::string in = fmt("tol=%.3g src{", tol) + s.str() + "} dst{" + d.str() + "}"; long out = 0, ins = 0;
    for (int k = 0; k < d.n(); ++k) {
        if (where[k] == 1) { ++out; if (o[k] != sent[k]) { H.fail("outside-node-written", fmt("node %d (%.17g, %.17g) got %.17g; ", k, d.x[k], d.y[k], o[k]) + in); return; } }
        else if (where[k] == 0) { ++ins; 
            if (o[k] == sent[k]) { if (aff) { H.fail("inside-node-not-set", fmt("node %d; ", k) + in); return; } H.count("general-not-found"); continue; }
            // the same node on its own gives the same value
            Grid e; e.dims[0] = 1; e.dims[1] = 1; e.x.assign(1, d.x[k]); e.y.assign(1, d.y[k]); Node m(100, tol); m.src(s, p0, p1); m.dst(e); m.weights(); std::vector<double> q(1, 1e33); m.apply(f, q); if (q[0] == 1e33) { if (aff) { H.fail("inside-node-not-set-alone", fmt("node %d; ", k) + in); return; } continue; }
            double sl = aff ? 300*tol/(double)hmin(s) : 1e-3; if (!(fabs(q[0]-o[k]) <= sl)) { H.fail("other-nodes-matter", fmt("node %d %.17g with the others, %.17g alone; ", k, o[k], q[0]) + in); return; } }
    }
    H.count("outside", out); H.count("inside", ins); Hash h; s.hash(h); d.hash(h); H.eval(h.h, out > 0 && ins > 0); H.sample(in);
}

// nodes found on their own are found in company, counted over many grids (at most 3 per grid)
static void company(Harness& H, Rng& r, long) {
    long tot = 0, miss = 0; std::string worst; Hash h;
    for (int q = 0; q < 500; ++q) { int p0 = 0, p1 = 0; bool ann = r.p(.3); Grid s = ann ? annulusN(r, p0, p1) : randomGrid(r, 3, 10); double lo[2], hi[2]; bbox(s, lo, hi); double D = std::max(hi[0]-lo[0], hi[1]-lo[1]), tol = 1e-9*D;
        Grid d; d.dims[0] = 4; d.dims[1] = r.i(4, 12); std::vector<char> ins; double po = r.u(.1, .6); for (int k = 0; k < d.n(); ++k) { bool out = r.p(po); P2 p = bilin(s, r.u(0, s.dims[0]-1), r.u(0, s.dims[1]-1)); if (out) p = P2(r.u(lo[0]-.1*D, hi[0]+.1*D), r.u(lo[1]-.1*D, hi[1]+.1*D)); d.x.push_back((double)p.x); d.y.push_back((double)p.y); ins.push_back(!out); }
        H.note("company " + s.family); Node n(100, tol); n.src(s, p0, p1); n.dst(d); n.weights(); std::vector<double> f(s.n(), 1.0), o(d.n(), -7e33); n.apply(f, o); int m = 0;
        for (int k = 0; k < d.n(); ++k) if (ins[k]) { ++tot; if (o[k] != -7e33) continue; Grid e; e.dims[0] = 1; e.dims[1] = 1; e.x.assign(1, d.x[k]); e.y.assign(1, d.y[k]); Node a(100, tol); a.src(s, p0, p1); a.dst(e); a.weights(); std::vector<double> w(1, -7e33); a.apply(f, w); if (w[0] != -7e33) { ++m; worst = fmt("node %d of ", k) + "src{" + s.str() + "} dst{" + d.str() + "}"; } }
        miss += std::min(m, 3); s.hash(h); }
    H.count("company-nodes", tot); H.count("company-lost", miss);
    if (miss > tot*0.001) { H.fail("nodes-found-alone-are-lost-in-company", fmt("%ld of %ld; for example ", miss, tot) + worst); return; }
    H.eval(h.h, true); H.sample(fmt("%ld of %ld nodes lost", miss, tot));
}

// ---- structured grids in 1 to 3 dimensions
struct NGrid { int nd; int dims[3], per[3]; std::vector<std::vector<double> > c; std::string kind;
    int n() const { int m = 1; for (int i = 0; i < nd; ++i) m *= dims[i]; return m; }
    void pos(const std::vector<double>& ind, std::vector<LD>& p, std::vector<LD>* mg = 0) const { // multilinear
        p.assign(nd, 0); int lo[3]; LD u[3]; for (int i = 0; i < nd; ++i) { lo[i] = std::max(0, std::min(dims[i]-2, (int)floor(ind[i]))); u[i] = (LD)ind[i]-lo[i]; }
        for (int k = 0; k < (1 << nd); ++k) { LD w = 1; int f = 0; for (int i = 0; i < nd; ++i) { int b = (k >> i) & 1; w *= b ? u[i] : 1-u[i]; f = f*dims[i] + lo[i] + b; } for (int i = 0; i < nd; ++i) p[i] += w*c[i][f]; } }
    std::string str() const { std::string s = fmt("%s ndims=%d dims=", kind.c_str(), nd); for (int i = 0; i < nd; ++i) s += fmt("%d%s ", dims[i], per[i] ? "p" : ""); for (int i = 0; i < nd; ++i) { s += "["; for (int k = 0; k < n() && k < 40; ++k) s += fmt("%.17g,", c[i][k]); s += "]"; } return s; }
    void hash(Hash& h) const { for (int i = 0; i < nd; ++i) { h.addi(dims[i]); h.addv(c[i]); } } };
static NGrid ngrid(Rng& r, bool mild, bool affineOnly) {
    NGrid g; g.nd = r.i(1, 3); int mx = BG(g.nd == 1 ? 30 : g.nd == 2 ? 10 : 5); int mn = 2, tot = 1; if (vh_huge) { mn = g.nd == 1 ? 66000 : g.nd == 2 ? 258 : 42; mx = mn + mn/10; } for (int i = 0; i < 3; ++i) { g.dims[i] = i < g.nd ? r.i(mn, mx) : 1; g.per[i] = 0; tot *= g.dims[i]; }
    int k = affineOnly ? r.i(0, 2) : r.i(0, mild ? 3 : 5); static const char* nm[] = {"uniform","scaled","affine","jittered","stretched","random-map"}; g.kind = nm[k];
    LD A[3][3]; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A[i][j] = i == j ? (k == 0 ? 1 : r.u(0.3,2)*(r.p(.3) ? -1 : 1)) : (k >= 2 ? r.u(-0.25,0.25) : 0);
    LD off[3] = { r.u(-1,1), r.u(-1,1), r.u(-1,1) }; double amp = mild ? 0.08 : 0.3;
    std::vector<std::vector<double> > ax(3); for (int i = 0; i < 3; ++i) { double s = 0; for (int j = 0; j < g.dims[i]; ++j) { ax[i].push_back(s); s += k == 4 ? r.u(0.3, 1) : 1; } for (int j = 0; j < g.dims[i]; ++j) ax[i][j] /= std::max(1.0, (double)(g.dims[i]-1)); }
    g.c.assign(g.nd, std::vector<double>(tot));
    for (int f = 0; f < tot; ++f) { int id[3] = {0,0,0}, q = f; for (int i = g.nd-1; i >= 0; --i) { id[i] = q % g.dims[i]; q /= g.dims[i]; }
        LD x[3] = {0,0,0}; for (int i = 0; i < g.nd; ++i) { x[i] = ax[i][id[i]]; if (k == 3) x[i] += amp*r.u(-1,1)/(g.dims[i]-1); }
        for (int i = 0; i < g.nd; ++i) { LD s = off[i]; for (int j = 0; j < g.nd; ++j) s += A[i][j]*x[j]; if (k == 5) s += 0.15L*sinl(3*x[(i+1)%g.nd] + i); g.c[i][f] = (double)s; } }
    return g;
}
static void applyScale(Rng& r, NGrid& g, double& S, double lo, double hi) { S = r.p(.5) ? 1 : pow(10, r.u(lo, hi)); double off = r.p(.3) ? r.u(-20,20)*S : 0; if (r.p(.1)) off = S*r.u(-1,1)*pow(10, r.u(2, 5)); for (int i = 0; i < g.nd; ++i) for (size_t k = 0; k < g.c[i].size(); ++k) g.c[i][k] = g.c[i][k]*S + off; }
static NGrid polarN(Rng& r) { NGrid g; g.kind = "polar"; g.nd = 2; g.dims[0] = r.i(2, BG(8)); g.dims[1] = r.i(4, BG(24)); g.dims[2] = 1; g.per[0] = 0; g.per[1] = r.p(.6); g.per[2] = 0; double r0 = r.p(.5) ? 0 : r.u(.1,.5), t0 = r.u(-3,3); g.c.assign(2, std::vector<double>(g.n())); for (int i = 0; i < g.dims[0]; ++i) for (int j = 0; j < g.dims[1]; ++j) { double R = r0 + (1-r0)*i/(g.dims[0]-1), T = t0 + 2*M_PI*j/(g.dims[1]-1); g.c[0][i*g.dims[1]+j] = R*cos(T); g.c[1][i*g.dims[1]+j] = R*sin(T); } return g; }

// ---- C08
static void contract(Harness& H, Rng& r, long) {
    NGrid g = !vh_huge && r.p(.3) ? polarN(r) : ngrid(r, false, false); double S; applyScale(r, g, S, -6, 6); int nit = r.i(1, 30); double tol = S*pow(10, r.u(-13, -1));
    Finder F(nit, tol); F.grid(g.nd, g.dims, g.per, g.c);
    std::vector<double> lo(g.nd, 1e300), hi(g.nd, -1e300); double mag = 0; for (int i = 0; i < g.nd; ++i) for (int k = 0; k < g.n(); ++k) { lo[i] = std::min(lo[i], g.c[i][k]); hi[i] = std::max(hi[i], g.c[i][k]); mag = std::max(mag, fabs(g.c[i][k])); }
    int searches = r.i(1, 3); long steps = 0; std::set<int> seen;
    for (int q = 0; q < searches; ++q) {
        std::vector<double> st(g.nd), t(g.nd); for (int i = 0; i < g.nd; ++i) { st[i] = r.p(.2) ? r.i(0, g.dims[i]-1) : r.u(0, g.dims[i]-1); }
        int where = r.i(0, 3); // in the domain, in the box, outside of the box, at the border of the box
        if (where == 0) { std::vector<double> a(g.nd); for (int i = 0; i < g.nd; ++i) a[i] = r.p(.3) ? r.i(0, g.dims[i]-1) : r.u(0, g.dims[i]-1); std::vector<LD> p; g.pos(a, p); for (int i = 0; i < g.nd; ++i) t[i] = (double)p[i]; }
        else for (int i = 0; i < g.nd; ++i) t[i] = lo[i] + (hi[i]-lo[i])*r.u();
        if (where == 2) { int i = r.i(0, g.nd-1); double m = (hi[i]-lo[i])*pow(10, r.u(-6, 2)); t[i] = r.p(.5) ? lo[i] - m : hi[i] + m; }
        if (where == 3) { int i = r.i(0, g.nd-1); t[i] = r.p(.5) ? lo[i] : hi[i]; }
        bool out = false, clearOut = false; for (int i = 0; i < g.nd; ++i) { if (t[i] < lo[i] || t[i] > hi[i]) out = true; double m = 1e-11*std::max(1.0, std::max(fabs(lo[i]), fabs(hi[i]))); if (t[i] < lo[i] - m || t[i] > hi[i] + m) clearOut = true; }
        std::string in = fmt("nitermax=%d tol=%.3g start", nit, tol); for (int i = 0; i < g.nd; ++i) in += fmt(" %.17g", st[i]); in += " target"; for (int i = 0; i < g.nd; ++i) in += fmt(" %.17g", t[i]); in += " grid{" + g.str() + "}";
        H.note("search " + g.kind); F.reset(st, t); if (!F.hist().empty()) { H.fail("history-not-empty-after-reset", in); return; }
        std::vector<double> i0 = F.inds(); for (int i = 0; i < g.nd; ++i) if (i0[i] != st[i]) { H.fail("start-not-taken", in); return; }
        std::vector<double> errs; int res = 0, calls = 0;
        while (!res) {
            res = F.next(); ++calls; ++steps; seen.insert(res);
            if (res == -3) { if (!out) { H.fail("inside-box-reported-outside", in); return; } if (calls != 1) { H.fail("outside-not-reported-at-once", in); return; } if (F.inds() != st) { H.fail("indices-moved-for-outside-target", in); return; } if (!F.hist().empty()) { H.fail("history-for-outside-target", in); return; } break; }
            if (clearOut) { H.fail("outside-box-not-reported", fmt("status %d; ", res) + in); return; }
            if (res != 0 && res != 1 && res != -1 && res != -2) { H.fail("unknown-status", fmt("%d; ", res) + in); return; }
            std::vector<double> ind = F.inds(), p = F.pos(); double e = F.err();
            for (int i = 0; i < g.nd; ++i) if (!(ind[i] >= 0 && ind[i] <= g.dims[i]-1)) { H.fail("index-out-of-range", fmt("index %.17g; ", ind[i]) + in); return; }
            std::vector<LD> ref; g.pos(ind, ref); LD e2 = 0; for (int i = 0; i < g.nd; ++i) { if (!(fabsl(ref[i]-p[i]) <= 1e-13L*mag*8)) { H.fail("position-is-not-that-of-the-indices", fmt("axis %d %.17g expected %.17Lg; ", i, p[i], ref[i]) + in); return; } e2 += (ref[i]-t[i])*(ref[i]-t[i]); }
            if (!(fabsl(e - sqrtl(e2)) <= 1e-12L*mag)) { H.fail("error-is-not-the-distance", fmt("%.17g expected %.17Lg; ", e, sqrtl(e2)) + in); return; }
            errs.push_back(e); std::vector<double> hh = F.hist(); if (hh.size() != errs.size()) { H.fail("history-length", fmt("%d after %d iterations; ", (int)hh.size(), calls) + in); return; }
            for (size_t k = 0; k < hh.size(); ++k) if (!(fabs(hh[k]-errs[k]) <= 1e-15*mag)) { H.fail("history-value", in); return; }
            if (res == 1 && !(e < tol)) { H.fail("converged-above-tolerance", fmt("error %.17g; ", e) + in); return; }
            if ((res == 0 || res == -1) && e < tol) { H.fail("not-converged-below-tolerance", fmt("status %d error %.17g; ", res, e) + in); return; }
            if (res == -1 && calls != nit) { H.fail("iteration-limit-at-wrong-count", fmt("%d calls; ", calls) + in); return; }
            if (res == 0 && calls >= nit) { H.fail("more-iterations-than-allowed", in); return; }
            if (res == -2) { size_t k = errs.size(); if (k < 3 || !(errs[k-1] > errs[k-2] && errs[k-1] > errs[k-3])) { H.fail("stuck-although-improving", in); return; } }
        }
        H.count(fmt("status%d", res)); if (q == 0) H.sample(in);
    }
    H.count("iterations", steps); Hash h; g.hash(h); h.addd(tol); H.eval(h.h, steps > 1); for (std::set<int>::iterator it = seen.begin(); it != seen.end(); ++it) { Hash k; k.addi(*it); k.addi(g.nd); k.addi(steps); H.state(k.h); }
}

// ---- C09
static void roundTrip(Harness& H, Rng& r, int mode) { // 0 affine any start, 1 mild distortion from the middle, 2 annulus
    NGrid g; int ir = 0, it = 1, iz = 2; // axes of the radius, the angle and the height
    if (mode == 2) { g.nd = r.p(.35) ? 3 : 2; g.kind = g.nd == 3 ? "cylinder" : "polar"; if (r.p(.5)) std::swap(ir, it); if (g.nd == 3) { int q = r.i(0, 2); if (q == 0) std::swap(iz, ir); else if (q == 1) std::swap(iz, it); }
        g.dims[0] = g.dims[1] = g.dims[2] = 1; g.per[0] = g.per[1] = g.per[2] = 0; g.dims[ir] = r.i(2, BG(8)); g.dims[it] = r.i(12, BG(40)); if (g.nd == 3) { g.dims[iz] = r.i(2, 6); if (g.dims[ir] > 8) g.dims[ir] = 8; } g.per[it] = 1; double r0 = r.u(.3,.6), t0 = r.u(-3,3), dz = r.u(.1, .5), tw = r.p(.5) ? 0 : r.u(-.1,.1); g.c.assign(g.nd, std::vector<double>(g.n()));
        for (int f = 0; f < g.n(); ++f) { int id[3] = {0,0,0}, q = f; for (int i = g.nd-1; i >= 0; --i) { id[i] = q % g.dims[i]; q /= g.dims[i]; } double R = r0 + (1-r0)*id[ir]/(g.dims[ir]-1), z = g.nd == 3 ? dz*id[iz] : 0, T = t0 + tw*z + 2*M_PI*(id[it] % (g.dims[it]-1))/(g.dims[it]-1); g.c[0][f] = R*cos(T); g.c[1][f] = R*sin(T); if (g.nd == 3) g.c[2][f] = z; } }
    else g = ngrid(r, true, mode == 0);
    double S; applyScale(r, g, S, -6, 6); double mag = 0; for (int i = 0; i < g.nd; ++i) for (int k = 0; k < g.n(); ++k) mag = std::max(mag, fabs(g.c[i][k]));
    double tol = std::max(S*pow(10, r.u(-11, -6)), 1e-12*mag); Finder F(100, tol); F.grid(g.nd, g.dims, g.per, g.c); int found = 0;
    double rate = 0; // smallest displacement per index
    for (int q = 0; q < 6; ++q) {
        std::vector<double> a(g.nd), st(g.nd), t(g.nd); for (int i = 0; i < g.nd; ++i) { a[i] = r.p(.25) ? r.i(0, g.dims[i]-1) : r.u(0, g.dims[i]-1); st[i] = mode == 0 ? (r.p(.2) ? r.i(0, g.dims[i]-1) : r.u(0, g.dims[i]-1)) : mode == 1 ? 0.5*(g.dims[i]-1) : a[i]; }
        if (mode == 2) { a[ir] = r.u(0.02, g.dims[ir]-1.02); st[ir] = std::max(0.0, std::min(g.dims[ir]-1.0, a[ir] + r.u(-.5,.5))); if (g.nd == 3) st[iz] = std::max(0.0, std::min(g.dims[iz]-1.0, a[iz] + r.u(-.5,.5))); double m = g.dims[it]-1; st[it] = a[it] + r.u(-1, 1); if (r.p(.3)) a[it] = r.p(.5) ? r.u(0, .7) : m - r.u(0, .7); if (r.p(.5)) { st[it] = a[it] + r.u(-1, 1); st[it] -= m*floor(st[it]/m); } if (st[it] < 0) st[it] = 0; if (st[it] > m) st[it] = m; double ds = fabs(st[it]-a[it]); if (std::min(ds, m - ds) > 1.5) st[it] = a[it]; else if (ds > m/2) H.count("across-the-seam"); }
        std::vector<LD> p; g.pos(a, p); for (int i = 0; i < g.nd; ++i) t[i] = (double)p[i];
        std::string in = fmt("tol=%.3g start", tol); for (int i = 0; i < g.nd; ++i) in += fmt(" %.17g", st[i]); in += " index"; for (int i = 0; i < g.nd; ++i) in += fmt(" %.17g", a[i]); in += " grid{" + g.str() + "}";
        H.note("round trip " + g.kind); F.reset(st, t); int res; while (!(res = F.next())) {}
        H.count("searches"); if (res != 1) { H.fail(mode == 0 ? "affine-not-found" : mode == 1 ? "distorted-not-found" : "annulus-not-found", fmt("status %d; ", res) + in); return; }
        ++found; std::vector<double> b = F.inds(), pp = F.pos(); for (int i = 0; i < g.nd; ++i) if (!(fabs(pp[i]-t[i]) <= tol*1.01 + 1e-13*mag)) { H.fail("position-off-target", in); return; }
        double step = 1e300; { std::vector<LD> p0, p1; for (int i = 0; i < g.nd; ++i) { std::vector<double> c(a); c[i] = std::min(a[i], g.dims[i]-1.1); g.pos(c, p0); c[i] += .1; g.pos(c, p1); LD d = 0; for (int j = 0; j < g.nd; ++j) d += (p1[j]-p0[j])*(p1[j]-p0[j]); step = std::min(step, 10*(double)sqrtl(d)); } }
        double itol = 60*tol/step + 60*1e-15*mag/step + 1e-12; 
        for (int i = 0; i < g.nd; ++i) { double d = fabs(b[i]-a[i]); if (g.per[i]) d = std::min(d, fabs(d - (g.dims[i]-1))); if (!(d <= itol)) { H.fail("wrong-indices", fmt("index %d is %.15g instead of %.15g (tolerance %.3g); ", i, b[i], a[i], itol) + in); return; } }
        if (!q) H.sample(in);
    }
    Hash h; g.hash(h); H.eval(h.h, found > 0); H.count("kind-" + g.kind);
}
static void rtAffine(Harness& H, Rng& r, long) { roundTrip(H, r, 0); }
static void rtMild(Harness& H, Rng& r, long) { roundTrip(H, r, 1); }
static void rtAnnulus(Harness& H, Rng& r, long) { roundTrip(H, r, 2); }

HUGE_CASE(interpAffineHuge, interpAffine)
HUGE_CASE(contractHuge, contract)
HUGE_CASE(rtAffineHuge, rtAffine)
BIGGER(interpAffineBig, interpAffine, 8)
BIGGER(interpGeneralBig, interpGeneral, 8)
BIGGER(outsideBig, outside, 8)
BIGGER(contractBig, contract, 10)
BIGGER(rtAffineBig, rtAffine, 10)
BIGGER(rtAnnulusBig, rtAnnulus, 10)
// ---- C34: linear in the data, local, and independent of what the output held
static bool sameBits(double a, double b) { return memcmp(&a, &b, sizeof a) == 0; }
static void locality(Harness& H, Rng& r, long) {
    int p0 = 0, p1 = 0; bool ann = r.p(.15); Grid s = ann ? annulusN(r, p0, p1) : r.p(.5) ? affineGrid(r, 2, BG(12)) : randomGrid(r, 2, BG(9)); double S = r.p(.5) ? 1 : pow(10, r.u(-3, 5)); place(s, S, 0, 0); double lo[2], hi[2], mag = bbox(s, lo, hi), D = std::max(hi[0]-lo[0], hi[1]-lo[1]), tol = 1e-9*D;
    Grid d; d.dims[0] = r.i(1, BG(6)); d.dims[1] = r.i(2, BG(7)); std::vector<int> cell; std::vector<char> inner; int nd = d.n(), ns = s.n();
    for (int k = 0; k < nd; ++k) { bool out = r.p(.1); LD a = r.u(0, s.dims[0]-1), b = r.u(0, s.dims[1]-1); if (r.p(.2)) a = floorl(a); if (r.p(.2)) b = floorl(b); P2 p = bilin(s, a, b); if (out) { p.x += D*r.u(-1,1); p.y += D*r.u(-1,1); } d.x.push_back((double)p.x); d.y.push_back((double)p.y); LD u = a - floorl(a), v = b - floorl(b); inner.push_back(!out && u > .05L && u < .95L && v > .05L && v < .95L); cell.push_back(std::min(s.dims[0]-2, (int)a)*(s.dims[1]-1) + std::min(s.dims[1]-2, (int)b)); }
    Node n(100, tol); H.note("locality " + s.family); n.src(s, p0, p1); n.dst(d); n.weights(); std::string in = "src{" + s.str() + "} dst{" + d.str() + "}";
    const double NANV = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity(); std::vector<double> v = vh_field(r, ns), g = vh_field(r, ns), o0(nd, 1.0), o1(nd, NANV), o2(nd, r.p(.5) ? INF : -1e300);
    n.apply(v, o0); n.apply(v, o1); n.apply(v, o2); std::vector<char> w(nd); long written = 0, bad = 0, clean = 0, shown = 0;
    for (int k = 0; k < nd; ++k) { w[k] = !std::isnan(o1[k]); if (!w[k]) { if (!sameBits(o0[k], 1.0)) { H.fail("output-depends-on-what-it-held", fmt("node %d: %.17g over 1, not-a-number over not-a-number; ", k, o0[k]) + in); return; } continue; } ++written;
        if (!sameBits(o0[k], o1[k]) || !sameBits(o0[k], o2[k])) { H.fail("output-depends-on-what-it-held", fmt("node %d: %.17g over 1, %.17g over not-a-number, %.17g over a large number; ", k, o0[k], o1[k], o2[k]) + in); return; } }
    double f = ldexp(1.0, r.i(-60, 60)); std::vector<double> u(ns), os(nd, 1.0), og(nd, 1.0), oc(nd, 1.0); for (int k = 0; k < ns; ++k) u[k] = v[k]*f; n.apply(u, os);
    for (int k = 0; k < nd; ++k) if (w[k] && os[k] != o0[k]*f) { H.fail("scaled-data-do-not-give-scaled-result", fmt("node %d: %.17g times %.17g is not %.17g; ", k, o0[k], f, os[k]) + in); return; }
    double a = r.u(-3, 3); for (int k = 0; k < ns; ++k) u[k] = v[k] + a*g[k]; n.apply(g, og); n.apply(u, oc);
    for (int k = 0; k < nd; ++k) if (w[k] && !(fabs(oc[k] - o0[k] - a*og[k]) <= 1e-11*(1 + fabs(o0[k]) + fabs(oc[k]) + fabs(a*og[k])))) { H.fail("not-linear", fmt("node %d: %.17g + %.17g * %.17g is not %.17g; ", k, o0[k], a, og[k], oc[k]) + in); return; }
    for (int rep = 0; rep < 3; ++rep) {
        double x = rep == 0 ? NANV : r.p(.3) ? NANV : r.p(.5) ? (r.p(.5) ? INF : -INF) : r.u(-1,1)*1e280; std::vector<char> isM(ns, 0), cM(s.nc(), 0); std::vector<int> C; int m = r.p(.5) ? 1 : r.i(1, std::max(1, ns/4)); if (m > 40) m = 40; u = v;
        for (int q = 0; q < m; ++q) { int t = r.i(0, ns-1); isM[t] = 1; u[t] = x; int i = t / s.dims[1], j = t % s.dims[1]; for (int da = -1; da < 1; ++da) for (int db = -1; db < 1; ++db) { int ii = i + da, jj = j + db; if (ii < 0 || jj < 0 || ii > s.dims[0]-2 || jj > s.dims[1]-2) continue; int cc = ii*(s.dims[1]-1) + jj; if (!cM[cc]) { cM[cc] = 1; C.push_back(cc); } } }
        os.assign(nd, 1.0); n.apply(u, os); LD e = 10*tol + 1e-12L*mag;
        for (int k = 0; k < nd; ++k) { if (!w[k]) { if (!sameBits(os[k], 1.0)) { H.fail("node-outside-written", in); return; } continue; } bool near = false;
            for (size_t q = 0; q < C.size() && !near; ++q) { Poly p = s.cell(C[q]); LD b[4] = {1e300L,1e300L,-1e300L,-1e300L}; for (int i = 0; i < 4; ++i) { b[0] = std::min(b[0], p[i].x); b[1] = std::min(b[1], p[i].y); b[2] = std::max(b[2], p[i].x); b[3] = std::max(b[3], p[i].y); } near = d.x[k] >= b[0] - e && d.x[k] <= b[2] + e && d.y[k] >= b[1] - e && d.y[k] <= b[3] + e; }
            if (!near) { ++clean; if (!sameBits(os[k], o0[k])) { H.fail("value-elsewhere-matters", fmt("node %d changed from %.17g to %.17g by putting %g into nodes elsewhere; ", k, o0[k], os[k], x) + in); return; } }
            else if (inner[k] && cM[cell[k]] && !std::isfinite(x)) { ++shown; if (std::isfinite(os[k])) { H.fail("missing-value-lost", fmt("node %d is %.17g although a node of its cell has %g; ", k, os[k], x) + in); return; } } }
        bad += m; }
    H.count("node-written", written); H.count("node-values-replaced", bad); H.count("node-unaffected", clean); H.count("node-shown", shown); Hash hh; s.hash(hh); d.hash(hh); H.eval(hh.h, clean > 0 && shown > 0); H.sample(in);
}
BIGGER(localityBig, locality, 8)

void registerWorkloads(Harness& H) {
    if (H.prop == "C34") { H.add("node", locality, 6000, 100000); H.add("node-big", localityBig, 40, 2000); }
    if (H.prop == "C06") { H.add("affine", interpAffine, 8000, 200000); H.add("general", interpGeneral, 8000, 200000); H.add("found-rate", foundRate, 4, 200); H.add("annulus-rate", annulusRate, 1, 40); H.add("affine-big", interpAffineBig, 80, 4000); H.add("general-big", interpGeneralBig, 80, 4000); H.add("affine-huge", interpAffineHuge, 8, 100); }
    if (H.prop == "C07") { H.add("outside", outside, 8000, 200000); H.add("company", company, 3, 150); H.add("big", outsideBig, 40, 2000); }
    if (H.prop == "C08") { H.add("contract", contract, 20000, 600000); H.add("big", contractBig, 60, 4000); H.add("huge", contractHuge, 20, 400); }
    if (H.prop == "C09") { H.add("affine", rtAffine, 8000, 250000); H.add("mild", rtMild, 8000, 250000); H.add("annulus", rtAnnulus, 5000, 150000); H.add("affine-big", rtAffineBig, 60, 4000); H.add("annulus-big", rtAnnulusBig, 60, 4000); H.add("affine-huge", rtAffineHuge, 20, 400); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
