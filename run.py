#!/usr/bin/env python3
"""Runtime monitoring of sigrid: builds the library and the monitors from /repo's working tree, drives them, decides.

  run.py <PROPERTY> [--tier quick|thorough]     one check (exit 0 held, 1 violated, 2 no answer)
  run.py --replay <file>                        run one recorded violation again
  run.py --setup                                build everything once (only saves time)
"""
import sys, os, json, time, glob, hashlib, subprocess, threading, struct, array, fcntl, shutil, re, queue, resource, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIGRID_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
sys.path.insert(0, VERIF)
from checks import CHECKS

NCPU = min(8, os.cpu_count() or 1)

FLAVOURS = {
    # what a user gets, plus poisoned allocations at run time
    'fast': dict(cxx='g++', flags='-O2 -g -fPIC'),
    # every memory access and arithmetic operation watched
    'san': dict(cxx='g++', flags='-O1 -g -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -fsanitize=address,undefined,float-cast-overflow -fno-sanitize-recover=all'),
    'tsan': dict(cxx='g++', flags='-O1 -g -fno-omit-frame-pointer -fsanitize=thread'),
    # for valgrind memcheck
    'vg': dict(cxx='g++', flags='-O1 -g -fno-inline-functions'),
}
LIBS = ['-l:liblapack.so.3', '-l:libblas.so.3', '-lpthread', '-ldl']


class Inconclusive(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def readb(p):
    with open(p, 'rb') as f:
        return f.read()


def headers():
    fs = []
    for d in ('cpp', 'utils'):
        for pat in ('*.h', '*.hpp', '*.hh', '*.inc', '*.ipp', '*.tpp'):
            fs += glob.glob(os.path.join(REPO, d, '**', pat), recursive=True)
    return sorted(fs)


def sources():
    return sorted(glob.glob(os.path.join(REPO, 'cpp', '*.cpp')) + glob.glob(os.path.join(REPO, 'utils', '*.cpp')))


INC = ['-I' + os.path.join(REPO, 'cpp'), '-I' + os.path.join(REPO, 'utils')]


def run_cmd(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return r.returncode, r.stdout.decode(errors='replace')


def parallel(fn, items):
    errs = []; q = queue.Queue()
    for it in items:
        q.put(it)

    def work():
        while True:
            try:
                it = q.get_nowait()
            except queue.Empty:
                return
            try:
                fn(it)
            except Exception as e:  # noqa
                errs.append(e)
    ts = [threading.Thread(target=work) for _ in range(NCPU)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if errs:
        raise errs[0]


class Builder:
    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.hsig = sha(*([f for f in headers()] + [readb(f) for f in headers()]))
        self.vsig = sha(*[readb(f) for f in sorted(glob.glob(os.path.join(VERIF, 'harness', '*.h')))])
        self.keep = set()

    def _compile(self, cxx, flags, src, out, extra):
        tmp = out + '.tmp%d' % os.getpid()
        rc, txt = run_cmd([cxx] + flags.split() + ['-std=c++17', '-w'] + extra + ['-c', src, '-o', tmp])
        if rc:
            raise Inconclusive('cannot compile %s:\n%s' % (src, txt[-3000:]))
        os.replace(tmp, out)

    def objects(self, flavour):
        fl = FLAVOURS[flavour]; d = os.path.join(BUILD, flavour); os.makedirs(d, exist_ok=True)
        todo = []; objs = []
        for s in sources():
            o = os.path.join(d, os.path.basename(s)[:-4] + '-' + sha(fl['cxx'], fl['flags'], s, readb(s), self.hsig) + '.o')
            objs.append(o); self.keep.add(o)
            if not os.path.exists(o):
                todo.append((s, o))
        return objs, [(fl['cxx'], fl['flags'], s, o, INC) for s, o in todo]

    def harness_obj(self, flavour, name):
        fl = FLAVOURS[flavour]; d = os.path.join(BUILD, flavour); src = os.path.join(VERIF, 'harness', name + '.cpp')
        o = os.path.join(d, 'h_' + name + '-' + sha(fl['cxx'], fl['flags'], readb(src), self.hsig, self.vsig) + '.o'); self.keep.add(o)
        return o, ([] if os.path.exists(o) else [(fl['cxx'], fl['flags'], src, o, INC + ['-I' + os.path.join(VERIF, 'harness')])])

    def build(self, wanted):
        """wanted: set of (flavour, harness name or 'py'); returns {(flavour, name): path}"""
        with open(os.path.join(BUILD, '.lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            jobs = []; info = {}
            for flavour in sorted(set(f for f, _ in wanted)):
                objs, todo = self.objects(flavour); jobs += todo
                for f, n in sorted(wanted):
                    if f != flavour:
                        continue
                    if n == 'py':
                        info[(f, n)] = (objs, None)
                    else:
                        ho, t = self.harness_obj(flavour, n); jobs = t + jobs; info[(f, n)] = (objs, ho)
            parallel(lambda j: self._compile(*j), jobs)
            out = {}

            def link(k):
                f, n = k; objs, ho = info[k]; fl = FLAVOURS[f]; d = os.path.join(BUILD, f)
                if n == 'py':
                    b = os.path.join(d, 'libsigrid-' + sha(*objs) + '.so')
                    cmd = [fl['cxx']] + fl['flags'].split() + ['-shared'] + objs
                else:
                    b = os.path.join(d, 'bin_' + n + '-' + sha(ho, *objs)); wrap = []
                    lib = os.path.join(d, 'lib-' + sha(*objs) + '.a')
                    cmd = [fl['cxx']] + fl['flags'].split() + wrap + [ho] + objs
                self.keep.add(b)
                if not os.path.exists(b):
                    tmp = b + '.tmp%d' % os.getpid()
                    rc, txt = run_cmd(cmd + ['-o', tmp] + LIBS)
                    if rc:
                        raise Inconclusive('cannot link %s:\n%s' % (b, txt[-3000:]))
                    os.replace(tmp, b)
                out[k] = b
            parallel(link, list(info))
            return out


# ------------------------------------------------------------------------------------------------ running
STATE = struct.Struct('64slllll256s')  # kept in step with Shared in common.h
STATE = struct.Struct('=64sqqqq256s')


def read_state(path):
    try:
        b = readb(path)
        w, idx, ordi, st, fin, note = STATE.unpack(b[:STATE.size])
        z = lambda s: s.split(b'\0')[0].decode(errors='replace')
        return dict(w=z(w), i=idx, ord=ordi, started=st, finished=fin, note=z(note))
    except Exception:
        return None


class Run:
    def __init__(self, prop, tier, seed, check):
        self.prop, self.tier, self.seed, self.check = prop, tier, seed, check
        self.viol = []; self.samples = []; self.counters = {}; self.evals = 0; self.distinct = set(); self.states = set()
        self.lock = threading.Lock(); self.problems = []; self.t0 = time.time(); self.work = os.path.join(BUILD, 'work-%s-%d' % (prop, os.getpid()))
        self.deadline = self.t0 + (600 if tier == 'quick' else 840)
        self.per_job = {}

    def cmd(self, job, binary):
        base = [binary] if job['lib'] != 'py' else ['python3', os.path.join(VERIF, 'harness', job['harness'] + '.py'), '--lib', binary, '--repo', REPO]
        if job.get('valgrind'):
            base = ['valgrind', '-q', '--error-exitcode=97', '--exit-on-first-error=yes', '--leak-check=no', '--num-callers=12', '--suppressions=' + os.path.join(VERIF, 'harness', 'valgrind.supp')] + base
        return base + ['--prop', job['prop'], '--tier', self.tier, '--seed', str(self.seed), '--scale', str(job['scale'])] + (['--nobig'] if job.get('valgrind') else ['--nohuge'] if job['flavour'] != 'fast' else [])

    def env(self, job, logp):
        e = dict(os.environ)
        e.update(OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
        if job['flavour'] == 'fast':
            e['MALLOC_PERTURB_'] = '165'
        e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:hard_rss_limit_mb=3500:allocator_may_return_null=0:log_path=' + logp
        e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:abort_on_error=1:log_path=' + logp
        e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=98:log_path=' + logp
        return e

    def launch(self, job, args, tag):
        err = open(os.path.join(self.work, tag + '.err'), 'wb')
        logp = os.path.join(self.work, tag + '.san')

        def pre():
            os.setpgid(0, 0)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if job['flavour'] == 'fast' and job['lib'] != 'py':
                resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        return subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=self.env(job, logp), preexec_fn=pre, cwd=self.work), logp

    def kill(self, p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except Exception:
            pass
        p.wait()

    def report_text(self, tag, logp):
        t = ''
        for f in sorted(glob.glob(logp + '*')) + [os.path.join(self.work, tag + '.err')]:
            try:
                t += readb(f).decode(errors='replace')
            except Exception:
                pass
        return t

    @staticmethod
    def classify(rc, text):
        m = re.search(r'AddressSanitizer: ([a-zA-Z0-9-]+)', text)
        if m:
            k = m.group(1)
        elif 'runtime error:' in text:
            k = 'undefined-behaviour ' + re.sub(r'-?\d[\d.e+-]*', 'N', text.split('runtime error:')[1].split('\n')[0].strip())[:60]
        elif 'ThreadSanitizer' in text:
            m = re.search(r'ThreadSanitizer: ([a-z -]+)', text); k = m.group(1).strip() if m else 'race'
        elif rc == 97:
            m = re.search(r'==\d+== ([A-Z][^\n]*)', text); k = 'memcheck ' + (re.sub(r'\d+', 'N', m.group(1)) if m else '')
        elif 'Assertion' in text:
            k = 'assertion'
        elif rc < 0:
            k = 'killed by signal %d' % -rc
        else:
            k = 'exit status %d' % rc
        fr = re.findall(r'(?:in|at|by) (?:0x[0-9A-F]+: )?([A-Za-z_][\w:~]*)[^\n]*?(?:' + re.escape(REPO) + r'[^\s:]*/|\()(Sg\w+\.(?:h|cpp)|[A-Z]\w+\.(?:h|cpp))', text)
        return k + (' in ' + fr[0][0] if fr else '')

    def shard(self, job, binary, shard, nshards):
        tag = '%s-%s-%s-%d' % (job['harness'], job['prop'], job['flavour'] + ('v' if job.get('valgrind') else ''), shard)
        start = 0; attempt = 0; bad = 0
        stall = 45 if job['flavour'] == 'fast' else 150
        while True:
            attempt += 1; t = '%s-%d' % (tag, attempt)
            st, outf, dst = [os.path.join(self.work, t + x) for x in ('.state', '.out', '.dist')]
            budget = max(5.0, min(job['budget'], self.deadline - time.time()))
            args = self.cmd(job, binary) + ['--shard', str(shard), '--nshards', str(nshards), '--out', outf, '--state', st, '--distinct', dst, '--from', str(start), '--budget', '%.1f' % budget]
            p, logp = self.launch(job, args, t)
            last = (-1, time.time()); hung = False; over = False
            while True:
                try:
                    p.wait(0.3); break
                except subprocess.TimeoutExpired:
                    pass
                s = read_state(st)
                if s and s['started'] != last[0]:
                    last = (s['started'], time.time())
                elif time.time() - last[1] > stall:
                    hung = True; self.kill(p); break
                if time.time() > self.deadline + 25:
                    over = True; self.kill(p); break
            s = read_state(st); rc = p.returncode
            ended = self.collect(job, outf, dst, s)
            if over:
                self.problem('time budget exhausted in %s' % t); return
            if rc == 0 and ended and not hung:
                return
            if s is None or s['started'] == 0:
                self.problem('%s did not start (status %s): %s' % (t, rc, self.report_text(t, logp)[-800:])); return
            if rc == 3:
                self.problem('%s: harness error: %s' % (t, self.report_text(t, logp)[-800:])); return
            # the case s['w'], s['i'] did not come back
            if hung:
                key = self.confirm_hang(job, binary, s, t)
                if key and not job.get('crash_only'):
                    self.violation(job, s['w'], s['i'], 'hang', 'the call did not return (%s)' % s['note'])
                    bad += 1
                else:
                    self.count('slow-cases')
            else:
                text = self.report_text(t, logp)
                if 'hard_rss_limit' in text or 'rss limit' in text:
                    self.count('memory-limit'); bad += 1
                    if not job.get('crash_only'):
                        self.violation(job, s['w'], s['i'], 'memory exhausted', s['note'])
                else:
                    key = self.classify(rc, text)
                    self.violation(job, s['w'], s['i'], key, '%s during: %s\n%s' % (key, s['note'], text[:3500])); bad += 1
            start = s['ord'] + 1
            if bad >= 3 or attempt >= 12:
                return

    def confirm_hang(self, job, binary, s, tag):
        args = self.cmd(job, binary) + ['--workload', s['w'], '--case', str(s['i']), '--out', os.path.join(self.work, tag + '.hout')]
        p, _ = self.launch(job, args, tag + '-h')
        lim = 90 if job['flavour'] == 'fast' else 240
        try:
            p.wait(max(10.0, min(lim, self.deadline + 20 - time.time()))); return False
        except subprocess.TimeoutExpired:
            self.kill(p); return True

    def collect(self, job, outf, dst, s):
        ended = False
        try:
            lines = readb(outf).decode(errors='replace').split('\n')
        except Exception:
            lines = []
        with self.lock:
            for l in lines:
                try:
                    o = json.loads(l)
                except Exception:
                    continue
                if o['t'] == 'viol':
                    if not job.get('crash_only'):
                        self._violation(job, o['w'], o['i'], o['key'], o['detail'])
                elif o['t'] == 'sample':
                    if len(self.samples) < 400:
                        self.samples.append({'workload': o['w'], 'case': o['i'], 'input': o['text'][:1200]})
                elif o['t'] == 'end':
                    ended = True; self.evals += o['evaluations']
                    j = '%s/%s%s' % (job['prop'], job['flavour'], '+valgrind' if job.get('valgrind') else '')
                    self.per_job[j] = self.per_job.get(j, 0) + o['evaluations']
                    for k, v in o['counters'].items():
                        self.counters[k] = self.counters.get(k, 0) + v
            if not ended and s:
                self.evals += s['finished']
            try:
                b = readb(dst); n = struct.unpack('=Q', b[:8])[0]; a = array.array('Q'); a.frombytes(b[8:8 + 8 * n]); self.distinct.update(a)
                m = struct.unpack('=Q', b[8 + 8 * n:16 + 8 * n])[0]; a = array.array('Q'); a.frombytes(b[16 + 8 * n:16 + 8 * n + 8 * m]); self.states.update(a)
            except Exception:
                pass
        return ended

    def count(self, k):
        with self.lock:
            self.counters[k] = self.counters.get(k, 0) + 1

    def problem(self, s):
        with self.lock:
            self.problems.append(s)

    def violation(self, *a):
        with self.lock:
            self._violation(*a)

    def _violation(self, job, w, i, key, detail):
        k = w + '/' + key
        for v in self.viol:
            if v['key'] == k and v['job']['prop'] == job['prop']:
                v['more'] += 1; return
        self.viol.append(dict(key=k, workload=w, case=i, detail=detail, job=job, more=0))

    def go(self):
        os.makedirs(self.work, exist_ok=True)
        try:
            b = Builder(); jobs = self.check['jobs'](self.tier)
            for j in jobs:
                j.setdefault('lib', 'cpp'); j.setdefault('scale', 1.0); j.setdefault('budget', 420 if self.tier == 'quick' else 660)
            bins = b.build(set((j['flavour'], 'py' if j['lib'] == 'py' else j['harness']) for j in jobs))
            tasks = []
            for j in jobs:
                n = j.get('nshards', NCPU)
                for s in range(n):
                    tasks.append((j, bins[(j['flavour'], 'py' if j['lib'] == 'py' else j['harness'])], s, n))
            parallel(lambda t: self.shard(*t), tasks)
        finally:
            shutil.rmtree(self.work, ignore_errors=True)


def known_findings():
    r = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) key=(.*?) match=(.*?) :: (.*)', l.strip())
        if m:
            r.append(m.groups())
    return r


def write_evidence(prop, tier, seed, check, run, wall, nviol):
    os.makedirs(EVID, exist_ok=True)
    cov = dict(evaluations=run.evals, distinct_nontrivial=len(run.distinct), rule=check['rule'], samples=run.samples[:8] or ['none'],
               observed=dict(sorted(run.counters.items())), cases_per_monitor_build=run.per_job)
    if run.states:
        cov['distinct_states_seen'] = len(run.states)
    if run.problems:
        cov['problems'] = run.problems[:10]
    ev = dict(property=prop, tier=tier, seed=seed, level=check.get('level', 'exploration'), coverage=cov, assumptions=check.get('assumptions', []), wall_s=round(wall, 2), violations=nviol)
    p = os.path.join(EVID, prop + '.json'); tmp = p + '.tmp'
    json.dump(ev, open(tmp, 'w'), indent=1); os.replace(tmp, p)


def main():
    a = sys.argv[1:]
    tier = 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if a and a[0] == '--setup':
        want = set()
        for c in CHECKS.values():
            for j in c['jobs']('quick'):
                want.add((j['flavour'], 'py' if j.get('lib') == 'py' else j['harness']))
        Builder().build(want); print('built', len(want)); return 0
    if a and a[0] == '--replay':
        return replay(a[1])
    prop = a[0]; check = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    if '--seed' in a:
        seed = int(a[a.index('--seed') + 1])
    run = Run(prop, tier, seed, check); t0 = time.time()
    try:
        run.go()
    except Inconclusive as e:
        print('NO ANSWER property=%s: %s' % (prop, e)); write_evidence(prop, tier, seed, check, run, time.time() - t0, 0); return 2
    kf = known_findings(); news = []; shown = set()
    for v in run.viol:
        hit = [f for f in kf if f[0] == prop and f[1] == v['key'] and f[2] in v['detail']]
        if hit:
            if hit[0] not in shown:
                shown.add(hit[0]); print('KNOWN-FINDING: property=%s %s' % (prop, hit[0][3]))
        else:
            news.append(v)
    write_evidence(prop, tier, seed, check, run, time.time() - t0, len(news))
    if news:
        d = os.path.join(EVID, 'replay'); os.makedirs(d, exist_ok=True)
        for n, v in enumerate(news[:12]):
            p = os.path.join(d, '%s-%d.json' % (prop, n))
            json.dump(dict(property=prop, tier=tier, seed=seed, job=v['job'], workload=v['workload'], case=v['case'], key=v['key'], detail=v['detail'], repeats=v['more']), open(p, 'w'), indent=1)
            print('  %s case %d (%d more): %s' % (v['key'], v['case'], v['more'], v['detail'][:600].replace('\n', '\n      ')))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    mn = check.get('min', 50)
    if len(run.distinct) < mn or run.evals < mn:
        print('NO ANSWER property=%s: only %d evaluations (%d distinct); %s' % (prop, run.evals, len(run.distinct), '; '.join(run.problems)[:2000])); return 2
    need = [k for k in check.get('must_see', []) if not run.counters.get(k)]
    if need:
        print('NO ANSWER property=%s: nothing observed for %s; %s' % (prop, need, '; '.join(run.problems)[:2000])); return 2
    if run.problems:
        print('note: ' + '; '.join(run.problems)[:1500])
    print('held property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs' % (prop, tier, seed, run.evals, len(run.distinct), time.time() - t0))
    return 0


def replay(path):
    o = json.load(open(path)); j = o['job']; run = Run(o['property'], o['tier'], o['seed'], CHECKS[o['property']])
    os.makedirs(run.work, exist_ok=True)
    try:
        b = Builder().build({(j['flavour'], 'py' if j['lib'] == 'py' else j['harness'])})
        out = os.path.join(run.work, 'out')
        args = run.cmd(j, list(b.values())[0]) + ['--workload', o['workload'], '--case', str(o['case']), '--out', out]
        p, logp = run.launch(j, args, 'replay')
        try:
            p.wait(300)
        except subprocess.TimeoutExpired:
            run.kill(p)
        txt = readb(out).decode(errors='replace') if os.path.exists(out) else ''
        print(txt); print(run.report_text('replay', logp)[:6000]); print('exit status', p.returncode)
        return 1 if ('"t":"viol"' in txt or p.returncode != 0) else 0
    finally:
        shutil.rmtree(run.work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
