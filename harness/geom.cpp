// C12 quad/line intersection, C13 line projections on quad edges, C14 quad/quad intersection points, C15 convex hull area
#include "api.h"

static double pickScale(Rng& r) { return r.p(0.4) ? 1.0 : pow(10.0, r.u(-8, 8)); }
static LD extent(const Poly& p) { LD a=1e300L,b=-1e300L,c=1e300L,d=-1e300L; for (size_t i = 0; i < p.size(); ++i) { a=std::min(a,p[i].x); b=std::max(b,p[i].x); c=std::min(c,p[i].y); d=std::max(d,p[i].y);} return std::max(b-a,d-c); }
static std::string pstr(const std::vector<double>& v) { std::string s = "["; for (size_t i = 0; i < v.size() && i < 64; ++i) s += fmt("%.17g%s", v[i], i+1<v.size()?",":""); return s + "]"; }
static double hullOfLib(const std::vector<double>& v, int n) { // exact-size copy on the heap
    std::vector<double> c(v.begin(), v.begin() + 2*n); SgTriangulate_type* t = 0; SgTriangulate_new(&t, n, c.data()); double a = -1; SgTriangulate_getConvexHullArea(&t, &a); SgTriangulate_del(&t); return a; }
static Poly toPoly(const std::vector<double>& v) { Poly p; for (size_t i = 0; i + 1 < v.size(); i += 2) p.push_back(P2(v[i], v[i+1])); return p; }

// ------------------------------------------------ C15
static std::vector<double> hullPoints(Rng& r, std::string& kind) {
    std::vector<double> v; int n = r.i(0, BG(40)); int k = r.i(0, 12); if (vh_huge) { static const int hk[] = {0,2,3,4,5,9,11}; k = hk[r.i(0, 6)]; n = r.i(66000, 140000); }
    static const char* names[] = {"random","small-n","lattice","circle","collinear","duplicates","near-duplicates","edge-points","sliver","cluster","nested","star","two-ends"};
    kind = names[k];
    switch (k) {
    case 0: for (int i = 0; i < n; ++i) { v.push_back(r.u(-1,1)); v.push_back(r.u(-1,1)); } break;
    case 1: n = r.i(0, 5); for (int i = 0; i < n; ++i) { v.push_back(r.u(-1,1)); v.push_back(r.u(-1,1)); } break;
    case 2: { int m = r.i(1, BG(4)); for (int i = 0; i < n; ++i) { v.push_back(r.i(0,m)); v.push_back(r.i(0,m)); } break; }
    case 3: { if (!vh_huge) n = r.i(3, BG(24)); for (int i = 0; i < n; ++i) { double t = 2*M_PI*i/n; v.push_back(cos(t)); v.push_back(sin(t)); } if (r.p(.5)) { v.push_back(0); v.push_back(0); } break; }
    case 4: { double dx = r.u(-1,1), dy = r.p(.3) ? 0.0 : r.u(-1,1); for (int i = 0; i < n; ++i) { double t = r.p(.5) ? r.u(-1,1) : r.i(-3,3); v.push_back(t*dx); v.push_back(t*dy); } if (r.p(.5)) { v.push_back(r.u(-1,1)); v.push_back(r.u(-1,1)); } break; }
    case 5: { n = r.i(1, 8); for (int i = 0; i < n; ++i) { v.push_back(r.u(-1,1)); v.push_back(r.u(-1,1)); } int m = vh_huge ? r.i(66000, 140000) : r.i(1, BG(12)); for (int i = 0; i < m; ++i) { int j = r.i(0, n-1); double a = v[2*j], b = v[2*j+1]; v.push_back(a); v.push_back(b); } break; }
    case 6: { n = r.i(1, 8); for (int i = 0; i < n; ++i) { v.push_back(r.u(-1,1)); v.push_back(r.u(-1,1)); } int m = r.i(1, 12); for (int i = 0; i < m; ++i) { int j = r.i(0, n-1); double e = pow(10, r.u(-17, -2)); double a = v[2*j] + e*r.u(-1,1), b = v[2*j+1] + e*r.u(-1,1); v.push_back(a); v.push_back(b); } break; }
    case 7: { double q[8] = {0,0, r.u(.5,1),r.u(-.2,.2), r.u(.6,1.2),r.u(.6,1.2), r.u(-.2,.2),r.u(.5,1)}; for (int i = 0; i < 4; ++i) { v.push_back(q[2*i]); v.push_back(q[2*i+1]); int m = r.i(0, 4); for (int j = 0; j < m; ++j) { double t = r.p(.5) ? r.u() : 0.5; int e = (i+1)%4; v.push_back(q[2*i] + t*(q[2*e]-q[2*i])); v.push_back(q[2*i+1] + t*(q[2*e+1]-q[2*i+1])); } } break; }
    case 8: { double e = pow(10, r.u(-11, -1)), t = r.u(0, 3); n = r.i(3, 12); for (int i = 0; i < n; ++i) { double a = r.u(-1,1), b = e*r.u(-1,1); v.push_back(a*cos(t)-b*sin(t)); v.push_back(a*sin(t)+b*cos(t)); } break; }
    case 9: { if (!vh_huge) n = r.i(4, 20); double e = pow(10, r.u(-6,-1)); for (int i = 0; i < n; ++i) { double cx = r.i(0,1), cy = r.i(0,1); v.push_back(cx + e*r.u(-1,1)); v.push_back(cy + e*r.u(-1,1)); } break; }
    case 10: for (double R = 1; R > 0.1; R *= 0.6) { for (int i = 0; i < 4; ++i) { v.push_back(R*(i==0||i==3?-1:1)); v.push_back(R*(i<2?-1:1)); } } break;
    case 11: { if (!vh_huge) n = r.i(5, BG(20)); for (int i = 0; i < n; ++i) { double t = 2*M_PI*i/n, R = i%2 ? 0.3 : 1; v.push_back(R*cos(t)); v.push_back(R*sin(t)); } break; }
    default: { double e = pow(10, r.u(-9,-1)); for (int s = 0; s < 2; ++s) for (int i = 0; i < r.i(1,3); ++i) { v.push_back(s + e*r.u(-1,1)); v.push_back(e*r.u(-1,1)); } int m = (int)v.size()/2; for (int i = 0; i < 6 && m > 0; ++i) { int j = r.i(0, m-1); double a = v[2*j], b = v[2*j+1]; v.push_back(a); v.push_back(b); } break; }
    }
    return v;
}
static void permute(Rng& r, std::vector<double>& v) { int n = v.size()/2; for (int k = n; k > 1; --k) { int j = r.i(0, k-1); std::swap(v[2*(k-1)], v[2*j]); std::swap(v[2*(k-1)+1], v[2*j+1]); } }
static void hull(Harness& H, Rng& r, long) {
    std::string kind; std::vector<double> v = hullPoints(r, kind); double S = pickScale(r), ox = 0, oy = 0; if (r.p(.3)) { double far = r.p(.7) ? 50 : pow(10, r.u(2, 6)); ox = S*far*r.u(-1,1); oy = S*far*r.u(-1,1); }
    for (size_t i = 0; i < v.size(); i += 2) { v[i] = v[i]*S + ox; v[i+1] = v[i+1]*S + oy; }
    int n = v.size()/2; permute(r, v);
    Poly p = toPoly(v); LD D = n ? extent(p) : 0; LD ref = hullArea(p);
    LD mag = 0; for (size_t i = 0; i < v.size(); ++i) mag = std::max(mag, (LD)fabs(v[i]));
    LD tol = 1e-9L*D*D + 1e-14L*mag*D;
    H.note("hull " + kind); double a = hullOfLib(v, n);
    Hash h; h.addv(v); H.eval(h.h, ref > 0); H.count("kind-" + kind);
    if (!(fabsl(a - ref) <= tol)) { H.fail("wrong-area-" + kind, fmt("area %.17g exact %.17Lg (extent %.3Lg) n=%d ", a, ref, D, n) + pstr(v)); return; }
    if (n < 3 && a != 0) { H.fail("fewer-than-3-points", pstr(v)); return; }
    for (int rep = 0; rep < 3; ++rep) { permute(r, v); double b = hullOfLib(v, n); H.count("permutations"); if (!(fabsl(b - ref) <= tol)) { H.fail("order-dependent-" + kind, fmt("area %.17g then %.17g exact %.17Lg extent %.3Lg n=%d ", a, b, ref, D, n) + pstr(v)); return; } }
    // adding a point of the hull, or a duplicate, changes nothing; adding an outside point never decreases the area
    if (n >= 1) { std::vector<double> w(v); int i = r.i(0,n-1), j = r.i(0,n-1); double t = r.u(); w.push_back(v[2*i] + t*(v[2*j]-v[2*i])); w.push_back(v[2*i+1] + t*(v[2*j+1]-v[2*i+1])); double b = hullOfLib(w, n+1); H.count("inner-point-added"); if (!(fabsl(b - ref) <= tol)) { H.fail("inner-point-changes-area", fmt("%.17g vs %.17g ", b, a) + pstr(w)); return; } }
    H.sample(fmt("%s n=%d area=%.12g ", kind.c_str(), n, a) + pstr(v));
}


// ------------------------------------------------ convex quads
static Poly affineP(const Poly& p, LD a, LD b, LD c, LD d, LD tx, LD ty) { Poly q; for (size_t i = 0; i < p.size(); ++i) q.push_back(P2((double)(a*p[i].x + b*p[i].y + tx), (double)(c*p[i].x + d*p[i].y + ty))); return q; }
static bool convexQuad(const Poly& p, LD frac) { LD m = extent(p); for (int a = 0; a < 4; ++a) if (cross3(p[a], p[(a+1)%4], p[(a+2)%4]) <= frac*m*m) return false; return true; }
// counterclockwise convex quad of size about one
static Poly randQuad(Rng& r, LD frac, std::string& kind) {
    for (;;) {
        int k = r.i(0, 5); Poly p; static const char* nm[] = {"square","rectangle","parallelogram","jittered","circle","stretched"}; kind = nm[k];
        Poly sq; sq.push_back(P2(-.5L,-.5L)); sq.push_back(P2(.5L,-.5L)); sq.push_back(P2(.5L,.5L)); sq.push_back(P2(-.5L,.5L));
        switch (k) {
        case 0: p = sq; break;
        case 1: p = affineP(sq, r.u(.1,2), 0, 0, r.u(.1,2), r.u(-1,1), r.u(-1,1)); break;
        case 2: p = affineP(sq, r.u(-1,1), r.u(-1,1), r.u(-1,1), r.u(-1,1), r.u(-1,1), r.u(-1,1)); break;
        case 3: for (int i = 0; i < 4; ++i) p.push_back(P2((double)sq[i].x + r.u(-.3,.3), (double)sq[i].y + r.u(-.3,.3))); break;
        case 4: { double t[4]; for (int i = 0; i < 4; ++i) t[i] = r.u(0, 2*M_PI); std::sort(t, t+4); for (int i = 0; i < 4; ++i) p.push_back(P2(cos(t[i]), sin(t[i]))); break; }
        default: { double c = cos(r.u(0,3)), s = sin(r.u(0,3)); Poly q; for (int i = 0; i < 4; ++i) q.push_back(P2((double)sq[i].x*2 + r.u(-.2,.2), (double)sq[i].y*.3 + r.u(-.05,.05))); p = affineP(q, c, -s, s, c, 0, 0); }
        }
        if (polyArea(p) < 0) std::reverse(p.begin(), p.end());
        if (r.p(.5)) std::rotate(p.begin(), p.begin() + r.i(0,3), p.end());
        if (convexQuad(p, frac)) return p;
    }
}
static std::vector<double> flat(const Poly& p) { std::vector<double> v; for (size_t i = 0; i < p.size(); ++i) { v.push_back((double)p[i].x); v.push_back((double)p[i].y); } return v; }
static P2 lerp(const P2& a, const P2& b, LD t) { return P2((double)(a.x + t*(b.x-a.x)), (double)(a.y + t*(b.y-a.y))); }
static P2 inQuad(Rng& r, const Poly& q) { LD u = r.u(), v = r.u(); return P2((double)((1-u)*(1-v)*q[0].x + u*(1-v)*q[1].x + u*v*q[2].x + (1-u)*v*q[3].x), (double)((1-u)*(1-v)*q[0].y + u*(1-v)*q[1].y + u*v*q[2].y + (1-u)*v*q[3].y)); }
// a point in some relation to the quad: inside, outside, node, on an edge, on the extension of an edge
static P2 relPoint(Rng& r, const Poly& q) {
    int k = r.i(0, 9), e = r.i(0, 3);
    if (k < 3) return inQuad(r, q);
    if (k < 6) return P2(r.u(-2,2), r.u(-2,2));
    if (k == 6) return q[e];
    if (k == 7) return lerp(q[e], q[(e+1)%4], r.p(.3) ? 0.5 : r.u());
    if (k == 8) return lerp(q[e], q[(e+1)%4], r.u(-1,2));
    return lerp(q[e], q[(e+2)%4], r.p(.3) ? 0.5 : r.u(-1,2));
}
// clip segment a-b by a convex ccw polygon: parameter range, empty if lo > hi
static void clipSeg(const Poly& q, const P2& a, const P2& b, LD& lo, LD& hi, LD inset = 0) {
    lo = 0; hi = 1;
    for (size_t i = 0; i < q.size(); ++i) { const P2 &c = q[i], &d = q[(i+1)%q.size()]; if (c.x == d.x && c.y == d.y) continue; LD in = inset*hypotl(d.x-c.x, d.y-c.y), sa = cross3(c, d, a) - in, sb = cross3(c, d, b) - in;
        if (sa < 0 && sb < 0) { lo = 1; hi = 0; return; }
        if (sa < 0) lo = std::max(lo, sa/(sa-sb)); else if (sb < 0) hi = std::min(hi, sa/(sa-sb)); }
}

// ------------------------------------------------ C12
static LD segDist(const P2& a, const P2& b, const P2& p) { LD dx = b.x-a.x, dy = b.y-a.y, l2 = dx*dx + dy*dy; LD t = l2 > 0 ? ((p.x-a.x)*dx + (p.y-a.y)*dy)/l2 : 0; t = std::max((LD)0, std::min((LD)1, t)); return hypotl(p.x - a.x - t*dx, p.y - a.y - t*dy); }
static bool thinQuads = false; // quads up to ten thousand times longer than they are wide, and segments that end on a diagonal
static void quadLine(Harness& H, Rng& r, long) {
    std::string kind; Poly q = randQuad(r, thinQuads ? 0.08L : 0.003L, kind); if (thinQuads) { double w = pow(10, r.u(-4, -2)), t = r.p(.2) ? 0 : r.u(0, 7); q = affineP(q, cos(t), -w*sin(t), sin(t), w*cos(t), 0, 0); kind = "thin"; H.count("thin-quads"); } double S = pickScale(r), ox = 0, oy = 0; if (r.p(.3)) { double far = thinQuads || r.p(.7) ? 20 : pow(10, r.u(2, 5)); if (far > 20) H.count("far-from-the-origin"); ox = far*r.u(-1,1); oy = far*r.u(-1,1); }
    P2 a = relPoint(r, q), b = relPoint(r, q); for (int k = 0; k < 2; ++k) if (!thinQuads && r.p(.1)) { P2& z = k ? b : a; int e = r.i(0,3); z = lerp(q[e], q[(e+1)%4], r.p(.3) ? 0 : r.u()); LD s = powl(10, r.u(-14, -3)); z.x += s*r.u(-1,1); z.y += s*r.u(-1,1); } // next to the border
    if (r.p(.1)) { int e = r.i(0,3); a = q[e]; b = q[(e + r.i(1,2))%4]; } // an edge or a diagonal
    if (r.p(.1)) { int e = r.i(0,3); LD t = r.p(.3) ? 0 : r.u(-1,1); a = lerp(q[e], q[(e+1)%4], t); b = lerp(q[e], q[(e+1)%4], t + r.u(0,2)); } // along an edge
    if (thinQuads) { // one end on a diagonal, the other one well inside, on the same diagonal or anywhere
        int e = r.i(0, 3); P2& z = r.p(.5) ? a : b; P2& y = &z == &a ? b : a; if (r.p(.5)) z = lerp(q[e], q[(e+2)%4], r.p(.3) ? .5 : r.u(.05, .95)); int k = r.i(0, 3); if (k == 0) { Poly c = q; P2 m = lerp(q[0], q[2], .5); for (int i = 0; i < 4; ++i) c[i] = lerp(m, q[i], .96); y = inQuad(r, c); } else if (k == 1) y = lerp(q[e], q[(e+2)%4], r.u(.05, .95)); else if (k == 2) y = P2(z.x + r.u(-1,1), z.y + r.u(-1,1)); }
    q = affineP(q, S, 0, 0, S, S*ox, S*oy); Poly l; l.push_back(a); l.push_back(b); l = affineP(l, S, 0, 0, S, S*ox, S*oy); a = l[0]; b = l[1];
    bool cw = r.p(.3); Poly given = q; if (cw) std::reverse(given.begin(), given.end());
    LD len = hypotl(b.x-a.x, b.y-a.y), D = std::max(extent(q), len); if (len < 1e-6L*extent(q)) { H.count("skipped-short"); return; }
    LD mag = 0; for (int i = 0; i < 4; ++i) mag = std::max(mag, std::max(fabsl(q[i].x), fabsl(q[i].y))); 
    LD tol = 1e-9L*D + 1e-12L*mag;
    std::vector<double> qv = flat(given), lv = flat(l), q0 = qv, l0 = lv; int n = -1; double* pts = 0;
    SgQuadLineIntersect_type* t = 0; SgQuadLineIntersect_new(&t); SgQuadLineIntersect_setQuadPoints(&t, qv.data()); SgQuadLineIntersect_setLinePoints(&t, lv.data());
    H.note("quad-line " + kind); SgQuadLineIntersect_collectIntersectPoints(&t, &n, &pts);
    std::vector<double> p; if (n > 0) p.assign(pts, pts + 2*n); SgQuadLineIntersect_del(&t);
    std::string in = "quad " + pstr(q0) + " line " + pstr(l0) + fmt(" -> %d points ", n) + pstr(p);
    if (qv != q0 || lv != l0) { H.fail("inputs-modified", in); return; }
    LD lo, hi; clipSeg(q, a, b, lo, hi); Poly qc = q; LD gap = lo > hi ? 1e300L : 0;
    if (lo > hi) { gap = 1e300L; for (int i = 0; i < 4; ++i) { gap = std::min(gap, segDist(a, b, q[i])); gap = std::min(gap, segDist(q[i], q[(i+1)%4], a)); gap = std::min(gap, segDist(q[i], q[(i+1)%4], b)); } }
    LD prev = -1e300L, first = 0, last = 0;
    for (int i = 0; i < n; ++i) { P2 x(p[2*i], p[2*i+1]); LD lam = ((x.x-a.x)*(b.x-a.x) + (x.y-a.y)*(b.y-a.y))/len;
        if (!(segDist(a, b, x) <= tol)) { H.fail("point-off-the-line", fmt("point %d; ", i) + in); return; }
        if (!(outsideDist(qc, x) <= tol)) { H.fail("point-outside-of-the-quad", fmt("point %d by %.3Lg; ", i, outsideDist(qc, x)) + in); return; }
        if (lam < prev - tol) { H.fail("points-not-ordered", in); return; }
        prev = lam; if (!i) first = lam; last = lam; }
    Hash h; h.addv(q0); h.addv(l0);
    if (lo > hi) { H.count("misses"); if (gap > 1e-9L*D + tol && n != 0) { H.fail("points-without-intersection", in); return; } H.eval(h.h, gap > tol); }
    else { LD chord = (hi-lo)*len; H.count("hits"); if (chord > 3*tol) {
            // a chord that only grazes the quad may legitimately be seen or not, unless it runs exactly along an axis-aligned edge
            LD lo2, hi2, lo3, hi3; clipSeg(q, a, b, lo2, hi2, 30*tol); clipSeg(q, a, b, lo3, hi3, -30*tol); bool graze = lo2 > hi2; bool axis = (kind == "square" || kind == "rectangle") && (a.x == b.x || a.y == b.y);
            if (graze) H.count(axis ? "along-axis-aligned-edge" : "grazing");
            if (n < 2) { if (graze && !axis) { H.eval(h.h, false); return; } H.fail("intersection-missed", fmt("expected lambda %.12Lg to %.12Lg; ", lo, hi) + in); return; }
            if (!graze || axis) if (!(fabsl(first - lo*len) <= tol && fabsl(last - hi*len) <= tol)) { // ill conditioned ends: accept what is right for a slightly smaller or larger quad
                if (graze || !(first >= lo3*len - tol && first <= lo2*len + tol && last <= hi3*len + tol && last >= hi2*len - tol)) { H.fail("wrong-ends", fmt("expected lambda %.15Lg to %.15Lg, got %.15Lg to %.15Lg; ", lo, hi, first/len, last/len) + in); return; } } } 
        H.eval(h.h, chord > 3*tol); }
    H.count("points", n); H.sample(in);
}

static void quadLineThin(Harness& H, Rng& r, long i) { thinQuads = true; quadLine(H, r, i); thinQuads = false; }

// ------------------------------------------------ C13
static void lineFlows(Harness& H, Rng& r, long) {
    std::string kind; Poly q = randQuad(r, 0.08L, kind); double S = r.p(.4) ? 1 : pow(10, r.u(-2, 2));
    double ox = r.p(.3) ? S*r.u(-5,5) : 0, oy = r.p(.3) ? S*r.u(-5,5) : 0; q = affineP(q, S, 0, 0, S, ox, oy);
    Poly l; for (int i = 0; i < 2; ++i) { int k = r.i(0, 5), e = r.i(0,3); l.push_back(k < 4 ? inQuad(r, q) : k == 4 ? q[e] : lerp(q[e], q[(e+1)%4], r.u())); }
    LD A[2], B[2]; if (!invBilinear(q, l[0], A) || !invBilinear(q, l[1], B)) { H.count("skipped"); return; }
    std::vector<double> qv = flat(q), lv = flat(l), q0 = qv, l0 = lv; SgQuadLineFlows_type* t = 0; SgQuadLineFlows_new(&t);
    bool reuse = r.p(.4); H.note("line-flows " + kind);
    if (reuse) { std::string k2; std::vector<double> q2 = flat(randQuad(r, 0.08L, k2)), l2 = flat(l); l2[0] = q2[0]; l2[1] = q2[1]; l2[2] = q2[4]; l2[3] = q2[5]; SgQuadLineFlows_setQuadPoints(&t, q2.data()); SgQuadLineFlows_setLinePoints(&t, l2.data()); SgQuadLineFlows_computeProjections(&t); H.count("reused");
        SgQuadLineFlows_setQuadPoints(&t, qv.data()); SgQuadLineFlows_setLinePoints(&t, lv.data()); }
    else { SgQuadLineFlows_setQuadPoints(&t, qv.data()); SgQuadLineFlows_setLinePoints(&t, lv.data()); }
    int st = SgQuadLineFlows_computeProjections(&t); double f[4]; for (int e = 0; e < 4; ++e) SgQuadLineFlows_getProjection(&t, e, &f[e]);
    SgQuadLineFlows_del(&t);
    std::string in = fmt("status %d projections %.15g %.15g %.15g %.15g; quad ", st, f[0], f[1], f[2], f[3]) + pstr(q0) + " line " + pstr(l0);
    if (st != 0) { H.fail("status", in); return; }
    if (qv != q0 || lv != l0) { H.fail("inputs-modified", in); return; }
    // the located positions are within 1e-10 in physical space
    LD hmin = 1e300L; for (int i = 0; i < 4; ++i) hmin = std::min(hmin, cross3(q[i], q[(i+1)%4], q[(i+2)%4])/extent(q)); LD tol = 20*1e-10L/hmin + 1e-10L;
    LD d0 = B[0]-A[0], d1 = B[1]-A[1], m0 = (A[0]+B[0])/2, m1 = (A[1]+B[1])/2; LD ex[4] = { d0*(1-m1), d0*m1, d1*(1-m0), d1*m0 };
    for (int e = 0; e < 4; ++e) if (!(fabsl(f[e] - ex[e]) <= tol)) { H.fail("wrong-projection", fmt("edge %d expected %.15Lg tol %.3Lg; ", e, ex[e], tol) + in); return; }
    Hash h; h.addv(q0); h.addv(l0); H.eval(h.h, fabsl(d0) + fabsl(d1) > 1e-3L); H.sample(in);
}

// ------------------------------------------------ C14
static bool thinPairs = false; // both quads up to ten thousand times longer than wide, as in boundary layers
static void quadQuad(Harness& H, Rng& r, long) {
    std::string k1, k2; Poly a = randQuad(r, 0.003L, k1), b = randQuad(r, 0.003L, k2); int rel = r.i(0, 8);
    static const char* nm[] = {"general","general","shared-node","shared-edge","identical","nested","collapsed","shared-edge-part","thin"};
    switch (rel) {
    case 2: { P2 d(a[r.i(0,3)].x - b[0].x, a[0].y); int i = r.i(0,3), j = r.i(0,3); d = P2((double)(a[i].x-b[j].x), (double)(a[i].y-b[j].y)); b = affineP(b, 1, 0, 0, 1, d.x, d.y); b[j] = a[i]; break; }
    case 3: { int i = r.i(0,3); P2 m = a[i], n = a[(i+1)%4]; LD dx = n.x-m.x, dy = n.y-m.y; LD s = r.sgn(), w = r.u(.2,1); b.clear(); b.push_back(m); b.push_back(n); b.push_back(P2((double)(n.x - s*w*dy + r.u(-.1,.1)*dx), (double)(n.y + s*w*dx))); b.push_back(P2((double)(m.x - s*w*dy), (double)(m.y + s*w*dx))); break; }
    case 4: b = a; std::rotate(b.begin(), b.begin() + r.i(0,3), b.end()); break;
    case 5: { LD f = r.u(.1,.9); P2 c = inQuad(r, a); b = affineP(a, f, 0, 0, f, (1-f)*c.x, (1-f)*c.y); break; }
    case 6: { int i = r.i(0,3); b[i] = b[(i+1)%4]; break; } // a triangle given as a quad
    case 7: { a.clear(); a.push_back(P2(0,0)); a.push_back(P2(1,0)); a.push_back(P2(1,1)); a.push_back(P2(0,1)); double x = r.i(-2,2)*0.5, y = r.i(-2,2)*0.5; b = affineP(a, r.i(1,4)*0.5, 0, 0, r.i(1,4)*0.5, x, y); double t = r.p(.5) ? 0 : r.u(0,3); a = affineP(a, cos(t), -sin(t), sin(t), cos(t), 0, 0); b = affineP(b, cos(t), -sin(t), sin(t), cos(t), 0, 0); break; }
    case 8: { double e = pow(10, r.u(-5, -1)), t = r.u(0, 7); a = affineP(a, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); P2 m = r.p(.3) ? lerp(a[0], a[2], r.p(.5) ? 0.5 : r.u()) : r.p(.5) ? lerp(a[1], a[3], r.p(.5) ? 0.5 : r.u()) : inQuad(r, a); int j = r.i(0,3); b = affineP(b, 1, 0, 0, 1, m.x - b[j].x, m.y - b[j].y); b[j] = m; break; }
    }
    if (rel > 1 && rel != 6 && !thinPairs && r.p(.25)) { LD e = powl(10, r.u(-15, -3)), ex = e*r.u(-1,1), ey = e*r.u(-1,1); bool all = r.p(.5); for (int i = 0; i < 4; ++i) { if (all) { b[i].x += ex; b[i].y += ey; } else if (r.p(.6)) { b[i].x += e*r.u(-1,1)*(rel == 8 ? 1e-5L : 1); b[i].y += e*r.u(-1,1)*(rel == 8 ? 1e-5L : 1); } } } // nodes a tiny distance off
    if (rel != 6 && rel != 8 && (!convexQuad(ccw(a), 0.002L) || !convexQuad(ccw(b), 0.002L))) { H.count("skipped"); return; }
    if (rel == 6 && fabsl(polyArea(b)) < 0.003L) { H.count("skipped"); return; }
    LD e = 1; if (thinPairs) { if (rel == 6 || rel == 8) { H.count("skipped"); return; } e = pow(10, r.u(-4, -1)); double t = r.p(.2) ? 0 : r.u(0, 7); a = affineP(a, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); b = affineP(b, cos(t), -e*sin(t), sin(t), e*cos(t), 0, 0); }
    double S = pickScale(r), ox = 0, oy = 0; if (!thinPairs && r.p(.3)) { double far = r.p(.7) ? 20 : pow(10, r.u(2, 5)); if (far > 20) H.count("far-from-the-origin"); ox = S*far*r.u(-1,1); oy = S*far*r.u(-1,1); }
    a = affineP(a, S, 0, 0, S, ox, oy); b = affineP(b, S, 0, 0, S, ox, oy); if (r.p(.3)) std::reverse(a.begin(), a.end()); if (r.p(.3)) std::reverse(b.begin(), b.end()); if (r.p(.5)) std::swap(a, b);
    Poly A = ccw(a), B = ccw(b); LD D = std::max(extent(a), extent(b)); LD mag = 0; for (int i = 0; i < 4; ++i) mag = std::max(mag, std::max(std::max(fabsl(a[i].x), fabsl(a[i].y)), std::max(fabsl(b[i].x), fabsl(b[i].y)))); LD tol = 1e-9L*D + 1e-12L*mag;
    std::vector<double> av = flat(a), bv = flat(b), a0 = av, b0 = bv; int n = -1; double* pts = 0; SgQuadIntersect_type* t = 0; SgQuadIntersect_new(&t); SgQuadIntersect_setQuadPoints(&t, av.data(), bv.data());
    H.note(std::string("quad-quad ") + nm[rel]); SgQuadIntersect_getIntersectPoints(&t, &n, &pts); std::vector<double> p; if (n > 0) p.assign(pts, pts + 2*n); SgQuadIntersect_del(&t);
    std::string in = std::string(nm[rel]) + " quads " + pstr(a0) + " and " + pstr(b0) + fmt(" -> %d points ", n) + pstr(p);
    if (av != a0 || bv != b0) { H.fail("inputs-modified", in); return; }
    Poly got; for (int i = 0; i < n; ++i) { P2 x(p[2*i], p[2*i+1]); got.push_back(x); if (!(outsideDist(A, x) <= tol && outsideDist(B, x) <= tol)) { H.fail("point-outside-of-a-quad", fmt("point %d; ", i) + in); return; } }
    Poly inter = clipConvex(A, B); LD ex = inter.size() >= 3 ? fabsl(polyArea(inter)) : 0; LD ar = hullArea(got);
    LD ta = thinPairs ? std::min(tol*D, 1e-5L*e*D*D) : tol*D; /* a small part of the area of the thin quads */ if (!(fabsl(ar - ex) <= ta)) { H.fail("hull-of-points-is-not-the-intersection", fmt("area %.15Lg exact %.15Lg; ", ar, ex) + in); return; }
    if (ex > 1e-7L*D*D) for (size_t i = 0; i < inter.size(); ++i) { // each corner of the intersection is among the points (or within a tiny distance of their hull)
        LD m = 1e300L; for (size_t j = 0; j < got.size(); ++j) m = std::min(m, hypotl(got[j].x-inter[i].x, got[j].y-inter[i].y));
        const P2 &u = inter[(i+inter.size()-1)%inter.size()], &w = inter[(i+1)%inter.size()]; if (m > 1e-6L*D && fabsl(cross3(u, inter[i], w)) > 1e-6L*D*D) { H.fail("corner-missing", fmt("corner %.15Lg %.15Lg; ", inter[i].x, inter[i].y) + in); return; } H.count("corners"); }
    Hash h; h.addv(a0); h.addv(b0); H.eval(h.h, ex > 0); H.count(std::string("kind-") + nm[rel]); H.count("points", n > 0 ? n : 0); H.sample(in);
}

static void quadQuadThin(Harness& H, Rng& r, long i) { thinPairs = true; quadQuad(H, r, i); thinPairs = false; }
BIGGER(hullBig, hull, 40)
HUGE_CASE(hullHuge, hull)
void registerWorkloads(Harness& H) {
    if (H.prop == "C12") { H.add("quad-line", quadLine, 30000, 1500000); H.add("thin", quadLineThin, 15000, 700000); }
    if (H.prop == "C13") { H.add("line-flows", lineFlows, 30000, 1000000); }
    if (H.prop == "C14") { H.add("quad-quad", quadQuad, 30000, 1500000); H.add("thin-pairs", quadQuadThin, 15000, 700000); }
    if (H.prop == "C15") { H.add("hull", hull, 20000, 400000); H.add("big", hullBig, 60, 3000); H.add("huge", hullHuge, 7, 150); }
}
int main(int argc, char** argv) { return harness_main(argc, argv); }
