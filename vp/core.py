"""Build the harnesses from /repo's working tree, run scenarios, read their traces, talk to the solver."""
import os, subprocess, json, sys, time, re, threading, hashlib, shutil, tempfile
from fractions import Fraction
from . import poly as P, hooks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QESA_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
ELL = 2**252 + 27742317777372353535851937790883648493
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
T0 = time.time()

class CheckError(Exception):
    """the machinery could not decide: neither held nor violated"""

def _toolchain():
    try:
        out = subprocess.run(['rustup', 'toolchain', 'list'], capture_output=True, text=True).stdout
        for l in out.splitlines():
            n = l.split()[0]
            if n.startswith('stable'):
                return n
    except OSError:
        pass
    return None

def build(which):
    """cargo build of h_sym / h_real against /repo; returns the binary"""
    hk = os.path.join(BUILD, 'hooks')
    hooks.generate(REPO, hk)
    env = dict(os.environ)
    tc = _toolchain()
    if tc:
        env['RUSTUP_TOOLCHAIN'] = tc
    env.pop('RUSTC_WRAPPER', None)
    env.update(CARGO_NET_OFFLINE='true', QESA_VERIF_HOOKS=hk, RUSTFLAGS='--cfg qesa_verif -Awarnings',
               CARGO_TARGET_DIR=os.path.join(BUILD, 't_' + which))
    d = os.path.join(VERIF, 'rs', 'h_' + which)
    p = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=env, capture_output=True, text=True)
    if p.returncode:
        # the hook generator and the code may disagree after a structural change: report, do not guess
        sys.stderr.write(p.stderr[-6000:])
        raise CheckError('build of %s failed' % which)
    return os.path.join(BUILD, 't_' + which, 'debug', 'h_' + which)

_bins = {}
_lock = threading.Lock()
def binary(which):
    with _lock:
        if which not in _bins:
            _bins[which] = build(which)
    return _bins[which]

# ------------------------------------------------------------------ jobs
_jobno = [0]
def hex32(v):
    return (v % ELL).to_bytes(32, 'little').hex()

def job_text(j):
    L = []
    for k, v in j.get('par', {}).items():
        L.append('par\t%s\t%s' % (k, v))
    for k, v in j.get('val', {}).items():
        L.append('val\t%s\t%s' % (k, v))
    for k, v in j.get('suffix', {}).items():
        L.append('suffix\t%s\t%s' % (k, v))
    for k, v in j.get('assign', {}).items():
        L.append('assign\t%s\t%s' % (k, hex32(v) if isinstance(v, int) else v))
    return '\n'.join(L)

def run_jobs(which, jobs, timeout=600):
    """jobs: list of dicts par/val/suffix/assign.  Returns the parsed traces."""
    b = binary(which)
    tmp = tempfile.mkdtemp(prefix='vpj_', dir=BUILD)
    try:
        nproc = min(8, len(jobs))
        chunks = [jobs[i::nproc] for i in range(nproc)]
        procs = []
        for i, ch in enumerate(chunks):
            f = os.path.join(tmp, 'j%d' % i)
            open(f, 'w').write('\n\n'.join(job_text(j) for j in ch) + '\n')
            procs.append(subprocess.Popen([b, f, f + '.out'], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE))
        outs = [None] * len(jobs)
        end = time.time() + timeout
        for i, p in enumerate(procs):
            try:
                _, err = p.communicate(timeout=max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                for q in procs:
                    q.kill()
                raise CheckError('scenario run timed out')
            if p.returncode:
                raise CheckError('harness %s exited with %s: %s' % (which, p.returncode, err.decode()[-2000:]))
            with open(os.path.join(tmp, 'j%d.out' % i)) as f:
                for k, line in enumerate(f):
                    outs[i + k * nproc] = json.loads(line)
        if any(o is None for o in outs):
            raise CheckError('harness %s produced fewer traces than jobs' % which)
        return outs
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def sym(jobs):
    ts = [Trace(t, j) for t, j in zip(run_jobs('sym', jobs), jobs)]
    for t in ts:
        STATS['paths'] += 1
        STATS['ops'] += len(t.nodes) + len(t.log)
    return ts

def sym1(par, **kw):
    return sym([dict(par=par, **kw)])[0]

def real(jobs):
    STATS['replays'] += len(jobs)
    return [Real(t) for t in run_jobs('real', jobs)]

STATS = dict(paths=0, ops=0, replays=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, samples=[], funcs=set())

class Real:
    def __init__(self, t):
        self.out = t['out']
        self.log = t['log']
    def accept(self):
        for o in self.out:
            if o[0] == 'b' and o[1] == 'accept':
                return o[2]
        return None
    def panics(self):
        return [(o[1], o[3]) for o in self.out if o[0] == 'ret' and o[2] == 'panic']
    def verdict(self):
        pn = self.panics()
        if pn:
            return 'panic in %s: %s' % pn[0]
        return 'accept' if self.accept() else 'reject'
    def scal(self):
        return {o[1]: int.from_bytes(bytes.fromhex(o[2]), 'little') for o in self.out if o[0] == 's'}

class Trace:
    def __init__(self, t, job):
        self.nodes = t['nodes']
        for n in self.nodes:
            if n[0] == 'c':
                n[1] = int(n[1], 16) if n[1].startswith('0x') else int(n[1])
        self.points = [dict((b, c) for b, c in p) for p in t['points']]
        self.basis = t['basis']
        self.log = t['log']
        self.out = t['out']
        self.zero = set(t['zero'])
        self.fp = t['fp']
        self.job = job
        self.vix = {n[1]: i for i, n in enumerate(self.nodes) if n[0] == 'v'}
    def outs(self, kind=None):
        return {o[1]: o[2] for o in self.out if kind is None or o[0] == kind}
    def accept(self):
        for o in self.out:
            if o[0] == 'b' and o[1] == 'accept':
                return o[2]
        return None
    def panics(self):
        return [(o[1], o[3]) for o in self.out if o[0] == 'ret' and o[2] == 'panic']
    def section(self, start, end=None):
        """log events between marks"""
        r = []
        on = False
        for e in self.log:
            if e[0] == 'mark':
                if e[1] == start:
                    on = True
                    continue
                if on and (end is None or e[1] == end) and e[1] != start:
                    if end is not None:
                        break
            if on:
                r.append(e)
        return r
    def chals(self):
        """ordinal -> (name, node)"""
        r = {}
        for e in self.log:
            if e[0] == 'chal':
                r[e[2]] = (e[3], e[4])
        return r
    def rnds(self):
        return {e[1]: e[2] for e in self.log if e[0] == 'rnd'}
    def varname(self, node):
        return self.nodes[node][1] if self.nodes[node][0] == 'v' else None
    def cone(self, roots, cut=()):
        seen = set()
        st = list(roots)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in cut:
                continue
            n = self.nodes[x]
            if n[0] in '+*':
                st.append(n[1])
                st.append(n[2])
            elif n[0] in '-i':
                st.append(n[1])
        return sorted(seen)
    def eval_mod(self, roots, assign, p=ELL):
        """values of nodes for an assignment of all variables (callable or dict)"""
        val = {}
        get = assign if callable(assign) else assign.__getitem__
        for x in self.cone(roots):
            n = self.nodes[x]
            if n[0] == 'c':
                v = n[1]
            elif n[0] == 'v':
                v = get(n[1])
            elif n[0] == '+':
                v = val[n[1]] + val[n[2]]
            elif n[0] == '*':
                v = val[n[1]] * val[n[2]]
            elif n[0] == '-':
                v = -val[n[1]]
            else:
                v = pow(val[n[1]], p - 2, p)
            val[x] = v % p
        return val

def hash64(b, seed):
    M = (1 << 64) - 1
    h = 0xcbf29ce484222325 ^ ((seed * 0x9E3779B97F4A7C15) & M)
    for c in b:
        h ^= c
        h = (h * 0x100000001b3) & M
        h ^= h >> 29
    h ^= h >> 32
    h = (h * 0xd6e8feb86659fd93) & M
    h ^= h >> 32
    h = (h * 0xd6e8feb86659fd93) & M
    return h ^ (h >> 32)

def real_value(name, seed=1):
    """the value the real harness gives an unassigned name"""
    b = b''.join(hash64(name.encode(), 1000 + k + seed * 16).to_bytes(8, 'little') for k in range(4))
    b = b[:31] + bytes([b[31] & 0x0f])
    return int.from_bytes(b, 'little')

# ------------------------------------------------------------------ names of polynomial variables
class Names:
    def __init__(self):
        self.ix = {}
        self.nm = []
    def __call__(self, s):
        i = self.ix.get(s)
        if i is None:
            i = len(self.nm)
            self.ix[s] = i
            self.nm.append(s)
        return i
N = Names()

def show(p, k=6):
    """a readable polynomial"""
    if not p:
        return '0'
    t = []
    for m, c in list(p.items())[:k]:
        t.append(str(c) + ''.join('*%s%s' % (N.nm[v], '' if e == 1 else '^%d' % e) for v, e in m))
    return ' + '.join(t) + (' + ... (%d terms)' % len(p) if len(p) > k else '')

# ------------------------------------------------------------------ solver
def num(c):
    if isinstance(c, Fraction):
        if c.denominator == 1:
            return num(c.numerator)
        return '(/ %s %s.0)' % (num(c.numerator), c.denominator)
    return '%d.0' % c if c >= 0 else '(- %d.0)' % -c

class Smt:
    """A batch of independent queries for one solver process; verdicts in order."""
    def __init__(self, z3='z3-new'):
        self.z3 = z3
        self.q = []
        self.ident = set()
    def add(self, text, label='', ident=False):
        """text: declarations and assertions of one query; ident: a polynomial identity, normalise first"""
        self.q.append((text, label))
        if ident:
            self.ident.add(len(self.q) - 1)
    def run(self, timeout=120, want_model=False):
        if not self.q:
            return []
        k = min(8, len(self.q))
        res = [None] * len(self.q)
        t0 = time.time()
        def work(i):
            idx = list(range(i, len(self.q), k))
            txt = ['(set-option :timeout %d)' % (timeout * 1000)]
            for j in idx:
                txt.append('(push 1)')
                txt.append(self.q[j][0])
                if j in self.ident:
                    txt.append('(check-sat-using (then (using-params simplify :som true :som_blowup 100000000 :hoist_mul false) (try-for smt %d)))' % (timeout * 1000))
                else:
                    txt.append('(check-sat)')
                txt.append('(pop 1)')
            p = subprocess.run([self.z3, '-in', '-smt2'], input='\n'.join(txt), capture_output=True, text=True)
            lines = [l for l in p.stdout.split('\n') if l.strip()]
            errs = [l for l in lines if l.startswith('(error')]
            if errs:
                raise CheckError('solver: ' + errs[0])
            vs = [l.strip() for l in lines if l.strip() in ('sat', 'unsat', 'unknown', 'timeout')]
            if len(vs) != len(idx):
                raise CheckError('solver gave %d verdicts for %d queries: %s' % (len(vs), len(idx), p.stderr[-500:]))
            for j, v in zip(idx, vs):
                res[j] = v
        errs = []
        def w2(i):
            try:
                work(i)
            except Exception as e:
                errs.append(e)
        th = [threading.Thread(target=w2, args=(i,)) for i in range(k)]
        [t.start() for t in th]
        [t.join() for t in th]
        if errs:
            raise errs[0]
        STATS['solver_s'] += time.time() - t0
        STATS['queries'] += len(res)
        for r in res:
            STATS[r if r in ('sat', 'unsat') else 'unknown'] += 1
        return res

class MonoTab:
    """monomials as solver constants (linearisation)"""
    def __init__(self):
        self.ix = {}
    def name(self, m):
        if not m:
            return '1'
        k = self.ix.get(m)
        if k is None:
            k = 'm%d' % len(self.ix)
            self.ix[m] = k
        return k
    def lin(self, p):
        ts = []
        for m, c in p.items():
            x = self.name(m)
            ts.append(num(c) if x == "1" else (x if c == 1 else '(* %s %s)' % (num(c), x)))
        if not ts:
            return '0'
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
    def decl(self):
        return '\n'.join('(declare-const %s Real)' % v for v in self.ix.values())

def lra_entails(hyps, goal):
    """text of the query: hypotheses (polynomials = 0, monomials linearised) and goal != 0; unsat = entailed"""
    t = MonoTab()
    a = ['(assert (= %s 0))' % t.lin(h) for h in hyps if h]
    if isinstance(goal, list):
        g = ['(not (= %s 0))' % t.lin(x) for x in goal]
        a.append('(assert (or %s))' % ' '.join(g) if len(g) > 1 else '(assert %s)' % (g[0] if g else 'false'))
    else:
        a.append('(assert (not (= %s 0)))' % t.lin(goal))
    return t.decl() + '\n' + '\n'.join(a)

def dag_smt(tr, roots, cut=None, pre=''):
    """definitions of the expression graph below roots; Inv nodes become unknown constants (callers constrain them).
    Returns (text, name of node)."""
    cut = cut or {}
    decl = []
    nm = {}
    declared = set()
    for x in tr.cone(roots, cut):
        n = tr.nodes[x]
        k = '%sn%d' % (pre, x)
        if x in cut or n[0] in 'vi':
            v = '|%s|' % (cut[x] if x in cut else (n[1] if n[0] == 'v' else 'inv#%d' % n[1]))
            if v not in declared:
                declared.add(v)
                decl.append('(declare-const %s Real)' % v)
            nm[x] = v
        elif n[0] == 'c':
            nm[x] = num(n[1])
        else:
            if n[0] == '-':
                b = '(- %s)' % nm[n[1]]
            else:
                b = '(%s %s %s)' % (n[0], nm[n[1]], nm[n[2]])
            decl.append('(define-fun %s () Real %s)' % (k, b))
            nm[x] = k
    return '\n'.join(decl), nm

def poly_smt(p):
    def mono(m, c):
        fs = [num(c)] if (c != 1 or not m) else []
        for v, e in m:
            fs += ['|%s|' % N.nm[v]] * e
        return fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs)
    ts = [mono(m, c) for m, c in p.items()]
    if not ts:
        return '0'
    return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
