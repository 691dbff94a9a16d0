#!/usr/bin/env python3
"""C28 (the Python class against the C library) and C30 (the face basis script). Same protocol as common.h."""
import sys, os, json, time, struct, mmap, random, hashlib, ctypes, tempfile, shutil, gc, math, traceback, atexit
import numpy as np

A = dict(zip(sys.argv[1::2], sys.argv[2::2]))
PROP, TIER, SEED, SCALE = A['--prop'], A.get('--tier', 'quick'), A.get('--seed', '1'), float(A.get('--scale', '1'))
REPO, LIB = A['--repo'], A['--lib']
out = open(A['--out'], 'w') if '--out' in A else sys.stdout
sh = None
if '--state' in A:
    f = open(A['--state'], 'w+b'); f.truncate(64 + 32 + 256); sh = mmap.mmap(f.fileno(), 64 + 32 + 256)

TMP = tempfile.mkdtemp(prefix='sigridpy', dir=os.getcwd())
atexit.register(shutil.rmtree, TMP, True)
PKG = os.path.join(TMP, 'sigrid'); os.mkdir(PKG)
for n in os.listdir(os.path.join(REPO, 'py')):
    if n.endswith('.py'):
        shutil.copy(os.path.join(REPO, 'py', n), PKG)
shutil.copy(LIB, os.path.join(PKG, 'libsigrid.cpython-test.so'))
sys.path.insert(0, TMP)
sys.dont_write_bytecode = True


class Fail(Exception):
    def __init__(self, key, detail):
        Exception.__init__(self, detail); self.key = key; self.detail = detail


class H:
    workloads = []; counters = {}; distinct = set(); states = set(); evals = 0; seen = set(); nviol = 0; sampled = set()
    w = ''; i = 0; replay = '--case' in A; started = 0; finished = 0

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def h(self, *a):
        x = hashlib.blake2b(digest_size=8)
        for q in a:
            x.update(q.tobytes() if isinstance(q, np.ndarray) else str(q).encode())
        return struct.unpack('=Q', x.digest())[0]

    def eval(self, hsh, nontrivial):
        self.evals += 1
        if nontrivial:
            self.distinct.add(hsh)

    def sample(self, text):
        if self.w not in self.sampled or self.replay:
            self.sampled.add(self.w); self.put(dict(t='sample', w=self.w, i=self.i, text=text))

    def put(self, o):
        out.write(json.dumps(o) + '\n'); out.flush()

    def state(self, ordi, note=''):
        if sh:
            b = struct.pack('=64sqqqq256s', self.w.encode(), self.i, ordi, self.started, self.finished, note.encode()[:255]); sh[:len(b)] = b

    def run(self, name, fn, i, ordi):
        self.w, self.i = name, i; self.started += 1; self.state(ordi)
        try:
            fn(random.Random('%s:%s:%s:%d' % (SEED, PROP, name, i)), i)
        except Fail as e:
            self.nviol += 1
            if e.key not in self.seen or self.replay:
                self.seen.add(e.key); self.put(dict(t='viol', w=name, i=i, key=e.key, detail=e.detail))
        except Exception as e:  # the code under test raised something unexpected
            self.nviol += 1; k = 'raised ' + type(e).__name__
            if k not in self.seen or self.replay:
                self.seen.add(k); self.put(dict(t='viol', w=name, i=i, key=k, detail=traceback.format_exc()[-1500:]))
        self.finished += 1; self.state(ordi)
        self.count('cases-' + name)


h = H()
PD = ctypes.POINTER(ctypes.c_double)


# ------------------------------------------------------------------ C28
def layout(r, a):
    """the numbers of a in some other type and memory layout; returns (array, base array holding the memory, description)"""
    k = r.choice(['c', 'c', 'fortran', 'strided', 'reversed', 'transposed', 'readonly', 'f4', 'i4', 'i8', 'i2', 'big-endian', 'longdouble', 'broadcast-like', 'list', 'offset', 'f2', 'u1', 'bool'])
    if k in ('f4', 'f2', 'i4', 'i8', 'i2', 'u1', 'bool', 'longdouble', 'big-endian'):
        dt = {'f4': np.float32, 'f2': np.float16, 'i4': np.int32, 'i8': np.int64, 'i2': np.int16, 'u1': np.uint8, 'bool': np.bool_, 'longdouble': np.longdouble, 'big-endian': '>f8'}[k]
        if k in ('i4', 'i8', 'i2'):
            b = np.rint(a*8).astype(dt)
        elif k == 'u1':
            b = np.rint(np.abs(a)*8).clip(0, 255).astype(dt)
        elif k == 'bool':
            b = a > 0
        else:
            b = a.astype(dt)
        return b, b, k
    if k == 'fortran':
        b = np.asfortranarray(a); return b, b, k
    if k == 'strided':
        big = np.full((a.shape[0]*2 + 1, a.shape[1]*3 + 2), np.nan); v = big[1:1 + 2*a.shape[0]:2, 2:2 + 3*a.shape[1]:3]; v[...] = a; return v, big, k
    if k == 'reversed':
        big = a[::-1, ::-1].copy(); return big[::-1, ::-1], big, k
    if k == 'transposed':
        big = a.T.copy(); return big.T, big, k
    if k == 'readonly':
        b = a.copy(); b.setflags(write=False); return b, b, k
    if k == 'offset':
        buf = np.zeros(a.size*8 + 16, np.uint8); v = np.ndarray(a.shape, np.float64, buffer=buf, offset=3); v[...] = a; return v, buf, k
    if k == 'list':
        return a.tolist(), None, k
    if k == 'broadcast-like':
        b = np.broadcast_to(a, (2,) + a.shape)[1]; return b, b, k
    b = a.copy(); return b, b, k


def layoutGrid(r, x, y):
    """coordinates stay exact (integer types would change the grid): only layouts and float types"""
    def one(a):
        while True:
            v, b, k = layout(r, a)
            if k in ('i4', 'i8', 'i2', 'u1', 'bool', 'f2', 'list', 'f4'):
                continue
            return v, b, k
    if r.random() < .15:    # integer lattice
        k = r.choice([np.int32, np.int64, np.int16])
        xi, yi = np.rint(x*10).astype(k), np.rint(y*10).astype(k)
        if np.array_equal(xi, x*10) and np.array_equal(yi, y*10):
            return xi, yi, [xi, yi], 'integers'
    if r.random() < .1:
        xf, yf = x.astype(np.float32), y.astype(np.float32); return xf, yf, [xf, yf], 'f4'
    a, b = one(x), one(y)
    return a[0], b[0], [a[1], b[1]], a[2] + '/' + b[2]


def grid(r, size=9):
    n0, n1 = r.randint(2, size), r.randint(2, size)
    if r.random() < .2:
        xs, ys = np.arange(n0)*1.0 + r.randint(-3, 3), np.arange(n1)*1.0 + r.randint(-3, 3)
        x = np.outer(xs, np.ones(n1)); y = np.outer(np.ones(n0), ys); return x*.1*10 if r.random() < .5 else x, y
    u, v = np.meshgrid(np.linspace(0, 1, n0), np.linspace(0, 1, n1), indexing='ij')
    k = r.randint(0, 3); w, t = r.uniform(.5, 3), r.uniform(.5, 3)
    if k == 0:
        x, y = u*w, v*t
    elif k == 1:
        c, s = math.cos(r.uniform(0, 6)), math.sin(r.uniform(0, 6)); x, y = w*(u + .3*s*v), t*(v + .3*c*u)
    elif k == 2:
        x, y = w*(u + .04*np.sin(3*v)), t*(v + .04*np.sin(4*u))
    else:
        rho, th = .2 + u*w, 2*math.pi*v; x, y = rho*np.cos(th), rho*np.sin(th)
        if n1 < 5:
            x, y = u*w, v*t
    return np.ascontiguousarray(x + r.uniform(-1.5, 1)), np.ascontiguousarray(y + r.uniform(-1.5, 1))


def direct(lib, sx, sy, per, dx, dy, v):
    """the library called with plain arrays of doubles"""
    hd = ctypes.c_void_p(0); lib.SgConserveInterp2D_new(ctypes.byref(hd))
    def ptr(a):
        return a.ctypes.data_as(PD)
    sx, sy, dx, dy, v = [np.array(np.asarray(a), dtype=np.float64, order='C') for a in (sx, sy, dx, dy, v)]
    c = (PD*2)(ptr(sx), ptr(sy)); lib.SgConserveInterp2D_setSrcGrid(ctypes.byref(hd), (ctypes.c_int*2)(*sx.shape), (ctypes.c_int*2)(*[int(bool(p)) for p in per]), c)
    c2 = (PD*2)(ptr(dx), ptr(dy)); lib.SgConserveInterp2D_setDstGrid(ctypes.byref(hd), (ctypes.c_int*2)(*dx.shape), c2)
    lib.SgConserveInterp2D_computeWeights(ctypes.byref(hd))
    o = np.zeros((dx.shape[0] - 1, dx.shape[1] - 1)); lib.SgConserveInterp2D_apply(ctypes.byref(hd), ptr(v), ptr(o)); lib.SgConserveInterp2D_del(ctypes.byref(hd))
    return o


def sig(bs):
    return [None if b is None else hashlib.blake2b(b.tobytes(), digest_size=8).digest() for b in bs]


def sequence(r, i):
    import sigrid
    from sigrid.conserveInterp2D import ConserveInterp2D
    n = 1 if r.random() < .6 else 2
    objs = [dict(o=ConserveInterp2D(), s=None, d=None, w=False) for _ in range(n)]; log = []; cmp = 0; dig = []
    keep = []
    for step in range(r.randint(3, 12)):
        k = r.randrange(n); q = objs[k]
        op = r.choice(['src', 'dst', 'weights', 'weights', 'weights', 'apply', 'apply', 'apply', 'apply', 'gc']) if step > 3 or r.random() < .2 else ['src', 'dst', 'weights', 'apply'][step]
        if op == 'src':
            x, y = grid(r); X, Y, b, kind = layoutGrid(r, x, y); per = r.choice([[False, False], (0, 0), np.array([False, False]), [0, 1], (True, False)]); s0 = sig(b)
            q['o'].setSrcGrid(per, X, Y); q['s'] = (np.array(X), np.array(Y), list(per)); q['w'] = False; log.append('src %dx%d %s' % (x.shape + (kind,)))
            if sig(b) != s0:
                raise Fail('input-modified', ' '.join(log))
            if r.random() < .5:
                for a in b:
                    if a is not None and a.flags.writeable: a.fill(0 if a.dtype.kind in 'iub' else 7)
        elif op == 'dst':
            x, y = grid(r); X, Y, b, kind = layoutGrid(r, x, y); s0 = sig(b)
            q['o'].setDstGrid(X, Y); q['d'] = (np.array(X), np.array(Y)); q['w'] = False; log.append('dst %dx%d %s' % (x.shape + (kind,)))
            if sig(b) != s0:
                raise Fail('input-modified', ' '.join(log))
            if r.random() < .5:
                for a in b:
                    if a is not None and a.flags.writeable: a.fill(0 if a.dtype.kind in 'iub' else 7)
        elif op == 'weights':
            log.append('weights'); ok = q['s'] is not None and q['d'] is not None
            try:
                q['o'].computeWeights(); err = None
            except Exception as e:
                err = e
            if ok and err is not None:
                raise Fail('weights-refused', '%r after %s' % (err, ' '.join(log)))
            if not ok and err is None:
                raise Fail('weights-without-grids', ' '.join(log))
            if ok:
                q['w'] = True
            else:
                h.count('refused')
        elif op == 'apply':
            shape = tuple(m - 1 for m in q['s'][0].shape) if q['s'] is not None else (2, 2)
            v = np.array([[r.uniform(-10, 10) for _ in range(shape[1])] for _ in range(shape[0])]); V, b, kind = layout(r, v); log.append('apply ' + kind); s0 = sig([b])
            if not q['w']:
                try:
                    q['o'].apply(V)
                except Exception as e:
                    h.count('refused'); continue
                raise Fail('applied-without-weights', ' '.join(log))
            res = q['o'].apply(V)
            exp = direct(sigrid.so, q['s'][0], q['s'][1], q['s'][2], q['d'][0], q['d'][1], V)
            if sig([b]) != s0:
                raise Fail('input-modified', ' '.join(log))
            if res.shape != exp.shape:
                raise Fail('shape', '%s instead of %s after %s' % (res.shape, exp.shape, ' '.join(log)))
            if not np.array_equal(np.asarray(res, np.float64), exp):
                j = np.unravel_index(np.nanargmax(np.where(np.isnan(res), np.inf, np.abs(res - exp))), exp.shape)
                raise Fail('differs', 'cell %s: %r, the library gives %r; after %s' % (j, float(res[j]), float(exp[j]), '; '.join(log)))
            cmp += 1; h.count('values-compared', int(exp.size)); h.count('nonzero-values', int((exp != 0).sum())); h.count('layout-' + kind); dig.append(exp.copy())
            if r.random() < .3:
                res.fill(float('nan')); h.count('result-overwritten')
        else:
            keep = [np.full(r.randint(10, 5000), -1e300) for _ in range(3)]; gc.collect()
    h.eval(h.h(*(dig + log)), cmp > 0 and any((d != 0).any() for d in dig)); h.states.add(h.h(*[l.split()[0] for l in log])); h.sample('; '.join(log))


def outside(r, i):
    """zero on destination cells that overlap nothing, whatever is in memory, and full agreement with constants inside"""
    import sigrid
    from sigrid.conserveInterp2D import ConserveInterp2D
    n = [r.randint(2, 8) for _ in range(4)]
    x, y = np.meshgrid(np.linspace(0, 1, n[0]), np.linspace(0, 1, n[1]), indexing='ij')
    m0, m1 = n[2] + 2, n[3] + 2
    X, Y = np.meshgrid(np.linspace(-1, 2, 3*m0 + 1), np.linspace(-1, 2, 3*m1 + 1), indexing='ij')
    o = ConserveInterp2D(); per = [False, False]
    junk = [np.full(k, np.nan) for k in range(20, 2000, 37)]; del junk
    o.setSrcGrid(per, x, y); o.setDstGrid(X, Y); o.computeWeights(); c = r.uniform(-5, 5)
    for rep in range(3):
        res = o.apply(np.full((n[0] - 1, n[1] - 1), c if rep != 1 else np.nan))
        if rep == 1:
            continue
        e = np.zeros((3*m0, 3*m1)); e[m0:2*m0, m1:2*m1] = c
        if res.shape != e.shape or not np.all(np.abs(res - e) <= 1e-9*(1 + abs(c))):
            raise Fail('outside-or-constant', 'source %s destination %s constant %r pass %d: largest deviation %r' % (x.shape, X.shape, c, rep, float(np.nanmax(np.abs(res - e))) if res.shape == e.shape else res.shape))
        h.count('outside-cells', int((e == 0).sum())); h.count('inside-cells', m0*m1)
    h.eval(h.h(*n, c), True); h.sample('%s %s' % (x.shape, X.shape))


# ------------------------------------------------------------------ C30
def basis(r, i):
    import importlib.util
    global FB
    if FB is None:
        sp = importlib.util.spec_from_file_location('cellFaceBasis', os.path.join(REPO, 'scripts', 'cellFaceBasis.py')); FB = importlib.util.module_from_spec(sp); sp.loader.exec_module(FB)
    n0, n1 = r.randint(2, 9), r.randint(2, 9)
    a = [round(r.uniform(-.25, .25), 3) for _ in range(6)]; q = round(10**r.uniform(-3, 3), 5)
    t = r.randint(0, 3); ox, oy = round(r.uniform(-2, 2), 3), round(r.uniform(-2, 2), 3)
    if t == 0:
        ex, ey = '%r*(xi + %r*eta) + %r' % (q, a[0], ox), '%r*(eta + %r*xi) + %r' % (q, a[1], oy)
    elif t == 1:
        ex, ey = '%r*(xi + %r*sin(eta)*xi + %r*eta) + %r' % (q, a[0], a[1], ox), '%r*(eta + %r*cos(xi)*eta + %r*xi) + %r' % (q, a[2], a[3], oy)
    elif t == 2:
        ex, ey = '%r*(0.4 + xi)*cos(pi*eta/3)' % q, '%r*(0.4 + xi)*sin(pi*eta/3)' % q
    else:
        ex, ey = '%r*(eta + %r*xi*eta + %r)' % (q, a[0], ox), '%r*(xi + %r*xi*eta + %r)' % (q, a[1], oy)   # left-handed
    fb = FB.FaceBasis((n0, n1), ex, ey)
    xi, eta = np.meshgrid(np.linspace(0, 1, n0), np.linspace(0, 1, n1), indexing='ij'); env = dict(sin=np.sin, cos=np.cos, pi=np.pi, xi=xi, eta=eta)
    x, y = eval(ex, env), eval(ey, env); desc = '%dx%d x=%s y=%s' % (n0, n1, ex, ey)
    ext = np.max(np.abs(x)) + np.max(np.abs(y))
    if np.max(np.abs(fb.x - x)) > 1e-12*ext or np.max(np.abs(fb.y - y)) > 1e-12*ext:
        raise Fail('nodes', desc)
    # mean edge vectors of each cell in units of the parameter
    rx = [.5*((g[1:, 1:] - g[:-1, 1:]) + (g[1:, :-1] - g[:-1, :-1]))*(n0 - 1) for g in (x, y)]
    re = [.5*((g[1:, 1:] - g[1:, :-1]) + (g[:-1, 1:] - g[:-1, :-1]))*(n1 - 1) for g in (x, y)]
    u = (np.arange(n0 - 1) + .5)[:, None]/(n0 - 1) + 0*eta[1:, 1:]; v = (np.arange(n1 - 1) + .5)[None, :]/(n1 - 1) + 0*eta[1:, 1:]
    tol = 1e-10*(1 + ext/q)
    def cross(p, s): return p[0]*s[1] - p[1]*s[0]
    want = {(-1, 0): (1 - v, 0*v), (-1, 1): (v, 0*v), (0, -1): (0*u, 1 - u), (1, -1): (0*u, u)}
    if set(fb.bases) != set(want):
        raise Fail('faces', '%s: %s' % (desc, sorted(fb.bases)))
    for k, (f0, f1) in want.items():
        b = [np.asarray(c) for c in fb.bases[k]]
        if b[0].shape != u.shape or b[1].shape != u.shape:
            raise Fail('shape', desc)
        d0, d1 = np.max(np.abs(cross(rx, b) - f0)), np.max(np.abs(cross(b, re) - f1))
        if not (d0 <= tol and d1 <= tol):
            raise Fail('flux %d %d' % k, 'flux of the basis function across the face directions off by %g and %g; %s' % (d0, d1, desc))
        h.count('cells', int(u.size))
    p = os.path.join(TMP, 'b.vtk'); fb.saveVtk(p); tok = open(p).read()
    lines = tok.split('\n'); 
    def after(tag):
        for j, l in enumerate(lines):
            if l.startswith(tag): return j
        raise Fail('file', 'no %s line' % tag)
    if lines[after('DIMENSIONS')].split()[1:] != ['1', str(n1), str(n0)]:
        raise Fail('file-dimensions', desc)
    words = tok.split(); j = words.index('POINTS'); pts = np.array([float(w) for w in words[j + 3:j + 3 + 3*n0*n1]]).reshape(n0, n1, 3)
    if np.max(np.abs(pts[..., 0] - x)) > 1e-6*ext or np.max(np.abs(pts[..., 1] - y)) > 1e-6*ext or np.any(pts[..., 2] != 0):
        raise Fail('file-points', desc)
    nc = (n0 - 1)*(n1 - 1); got = {}
    for j, w in enumerate(words):
        if w == 'SCALARS':
            try:
                got[words[j + 1]] = np.array([float(z) for z in words[j + 6:j + 6 + 3*nc]]).reshape(n0 - 1, n1 - 1, 3)
            except ValueError as e:
                raise Fail('file-not-readable', '%s: %s; %s' % (words[j + 1], e, desc))
    for k in want:
        g = got.get('_%d_%d' % k)
        if g is None or g.shape[0] != n0 - 1:
            raise Fail('file-fields', desc)
        b = fb.bases[k]; sc = max(np.max(np.abs(b[0])), np.max(np.abs(b[1])))
        if np.max(np.abs(g[..., 0] - b[0])) > 1e-6*sc or np.max(np.abs(g[..., 1] - b[1])) > 1e-6*sc or np.any(g[..., 2] != 0):
            raise Fail('file-values', desc)
        h.count('file-values', 2*nc)
    h.eval(h.h(desc), True); h.sample(desc)


FB = None
W = {'C28': [('sequence', sequence, 4000, 60000), ('outside', outside, 400, 6000)], 'C30': [('basis', basis, 4000, 60000)]}[PROP]
devnull = os.open(os.devnull, os.O_WRONLY)
if out is not sys.stdout:
    os.dup2(devnull, 1)
if PROP == 'C28':
    import sigrid
    if not getattr(sigrid, 'so', None):
        sys.stderr.write('library not opened by the package\n'); sys.exit(3)
if h.replay:
    for nm, fn, _, _ in W:
        if nm == A['--workload']:
            h.run(nm, fn, int(A['--case']), 0)
else:
    t0 = time.time(); ordi = 0; stop = False; shard, nsh, frm = int(A.get('--shard', 0)), int(A.get('--nshards', 1)), int(A.get('--from', -1)); bud = float(A.get('--budget', 0))
    for rd in range(16):
        for nm, fn, nq, nt in W:
            n = max(1, int((nt if TIER == 'thorough' else nq)*SCALE))
            for i in range(n*rd//16, n*(rd + 1)//16):
                o = ordi; ordi += 1
                if o % nsh != shard or o < frm or stop:
                    continue
                if bud and time.time() - t0 > bud:
                    stop = True; h.count('stopped-by-time-budget'); continue
                h.run(nm, fn, i, o)
h.put(dict(t='end', evaluations=h.evals, violations=h.nviol, counters=h.counters))
if '--distinct' in A:
    with open(A['--distinct'], 'wb') as f:
        for s in (h.distinct, h.states):
            f.write(struct.pack('=Q', len(s))); f.write(b''.join(struct.pack('=Q', v) for v in s))
