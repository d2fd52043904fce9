"""Procedures shared by the checks."""
import copy, random
from . import poly as P
from .core import *
from .prove import *
from .report import Ctx

def jname(par):
    return ' '.join('%s=%s' % (k, v) for k, v in par.items() if k != 'mode')

def tids(tr):
    """transcript ids in order of appearance"""
    r = []
    for e in tr.log:
        if e[0] in ('app', 'chal') and e[1] not in r:
            r.append(e[1])
    return r

def script(tr, tid):
    """the messages and challenges of one transcript"""
    return [e for e in tr.log if e[0] in ('app', 'chal') and e[1] == tid]

def part_diffs(tr, a, b):
    """None if the two message parts have different form, else nodes that must be zero for them to be equal"""
    if a[0] != b[0]:
        return None
    if a[0] == 'raw':
        return [] if a[1] == b[1] else None
    if a[1] == b[1]:
        return []
    if a[0] == 'sc':
        return [('sub', a[1], b[1])]
    pa, pb = tr.points[a[1]], tr.points[b[1]]
    return [('sub', pa.get(k, 0), pb.get(k, 0)) for k in sorted(set(pa) | set(pb)) if pa.get(k, 0) != pb.get(k, 0)]

def add_sub(tr, a, b):
    """append a node a-b to the trace's graph"""
    tr.nodes.append(['-', b])
    tr.nodes.append(['+', a, len(tr.nodes) - 1])
    return len(tr.nodes) - 1

def transcript_goals(tr):
    """prover and verifier put the same things into the transcript: (goals, mismatch description or None)"""
    ts = tids(tr)
    if len(ts) < 2:
        return [], None
    a, b = script(tr, ts[0]), script(tr, ts[-1])
    goals = []
    for i in range(max(len(a), len(b))):
        if i >= len(a) or i >= len(b):
            return goals, 'one side has %d transcript operations, the other %d' % (len(a), len(b))
        x, y = a[i], b[i]
        if x[0] != y[0] or (x[0] == 'app' and (x[2] != y[2] or len(x[3]) != len(y[3]))):
            return goals, 'operation %d: %s against %s' % (i, x[:3], y[:3])
        if x[0] == 'chal':
            if x[2] != y[2]:
                return goals, 'challenge %s: prover and verifier have different histories' % x[3]
        else:
            for p, q in zip(x[3], y[3]):
                d = part_diffs(tr, p, q)
                if d is None:
                    return goals, 'message %s differs' % x[2]
                goals += [('transcript:' + x[2], add_sub(tr, u, v)) for _, u, v in d]
    return goals, None

def true_decisions(tr, start, end=None):
    """comparisons the run took as 'equal'"""
    sec = tr.section(start, end)
    return [(e[2] + str(e[1]), d) for e in sec if e[0] == 'dec' and e[4] for d in e[3]] + \
        [('encoded as the identity', d) for e in sec if e[0] == 'zeropt' for d in e[2]]

def validate(ctx, par, tr, val=None, extra=None):
    """Run the scenario against the real curve library with random values: same verdict, same scalars as the recorded
    expressions evaluate to."""
    j = dict(par=dict(par, seed=ctx.rng.randrange(1, 10**6)), val=val or {})
    r = real([j])[0]
    if r.verdict() != 'accept':
        return r, j
    seed = int(j['par']['seed'])
    outs = tr.outs('s')
    rs = r.scal()
    common = [k for k in outs if k in rs]
    vals = tr.eval_mod([outs[k] for k in common], lambda n: real_value(n, seed) % ELL)
    for k in common:
        if vals[outs[k]] != rs[k] % ELL:
            raise CheckError('encoding: %s of %s differs from the real run' % (k, jname(par)))
    STATS['extra'] = STATS.get('extra', {})
    STATS['extra']['scalars_validated'] = STATS['extra'].get('scalars_validated', 0) + len(common)
    return r, j

def honest(ctx, par, val=None, tr=None, what='honest proof'):
    """completeness at one size: accepted, same transcript on both sides, every equality an identity"""
    par = dict(par, mode='honest')
    val = val or {}
    tr = tr or sym([dict(par=par, val=val)])[0]
    name = jname(par) + (' ' + str(val) if val else '')
    bad = None
    pn = tr.panics()
    work = []
    if pn:
        bad = 'panic in %s (%s)' % (pn[0][0], pn[0][1])
    elif not tr.accept():
        bad = 'rejected'
    else:
        tg, mm = transcript_goals(tr)
        if mm:
            bad = 'transcripts diverge: ' + mm
        else:
            goals = true_decisions(tr, 'prove', 'proved') + true_decisions(tr, 'verify') + tg
            work = Proof(tr, Cuts(tr, tr.log)).zero(goals)
            if work:
                bad = 'not an identity: %s = %s' % (work[0][0], show(work[0][1]))
    r, j = validate(ctx, par, tr, val)
    if bad is None and r.verdict() == 'accept':
        ctx.ok('%s accepted for all values: %s' % (what, name), '%d symbolic operations' % len(tr.nodes))
        return tr
    # reproduce with concrete values
    if r.verdict() == 'accept' and (bad or '').startswith('transcripts'):
        # accepted although the messages differ: the sides end in different transcript states
        ctx.violation('%s:%s' % (par['proto'], 'transcript'), '%s %s' % (name, bad), [j], r.verdict())
        return tr
    if r.verdict() != 'accept':
        ctx.violation('%s:%s' % (par['proto'], 'honest'), '%s %s: %s (real run: %s)' % (what, name, bad, r.verdict()), [j], r.verdict())
        return tr
    raise CheckError('%s: %s, but the real run accepts' % (name, bad))

def solve_vals(coefs, m):
    """input values (expressions of other inputs where possible) at which all polynomials vanish"""
    work = [P.clear_neg(c)[0] for c in coefs if c]
    if any(N.nm[v][:2] in ('q#', 'I#', 'a#') for c in work for v in P.variables(c)):
        return None
    sub = {}
    while work:
        work.sort(key=len)
        c = work[0]
        vs = sorted(P.variables(c))
        if not vs:
            return None
        pick = None
        for v in vs:
            ms = [mm for mm in c if any(x == v for x, _ in mm)]
            if len(ms) == 1 and ms[0] == ((v, 1),) and c[ms[0]] in (1, -1):
                pick = v
                break
        if pick is not None:
            q = P.scale(P.sub(c, {((pick, 1),): c[((pick, 1),)]}), -c[((pick, 1),)])
        else:
            v = vs[0]
            x = m.get(N.nm[v]) if isinstance(m, dict) else None
            if x is None:
                x = Fraction(0)
            if Fraction(x).denominator != 1 or abs(x) > 10**6:
                return None
            pick, q = v, P.const(int(x))
        sub[pick] = q
        for k in sub:
            sub[k] = P.subst(sub[k], pick, q) if k != pick else sub[k]
        nw = []
        for c in work:
            c = P.subst(c, pick, q) if pick in P.variables(c) else c
            if c:
                nw.append(c)
        work = nw
        if len(sub) > 64:
            return None
    def ex(p):
        if not p:
            return '0'
        ts = []
        for mm, c in p.items():
            fs = [str(c)] + [N.nm[v] for v, e in mm for _ in range(e)]
            ts.append('(* %s)' % ' '.join(fs) if len(fs) > 1 else fs[0])
        return '(+ %s)' % ' '.join(ts) if len(ts) > 1 else ts[0]
    if any(not isinstance(c, int) or c != int(c) for p in sub.values() for c in p.values()):
        return None
    return {N.nm[v]: ex(q) for v, q in sub.items()}

# ------------------------------------------------------------------ shapes of proofs
def paths(par):
    tr = sym1(dict(par, mode='paths'))
    if tr.panics():
        raise CheckError('prover panics in %s: %s' % (jname(par), tr.panics()))
    leaves, vecs, pubs = [], [], []
    for o in tr.out:
        if o[0] == 'n':
            k, rest = o[1].split(':', 1)
            if k == 'pubvec':
                continue
            if k == 'vec':
                vecs.append((rest, o[2]))
            else:
                kind, p = rest.split(':', 1)
                (leaves if k == 'leaf' else pubs).append((p, kind))
    return leaves, vecs, pubs

def public_vectors(par):
    return [(o[1].split(':', 1)[1], o[2]) for o in sym1(dict(par, mode='paths')).out if o[0] == 'n' and o[1].startswith('pubvec:')]

def witness_nonzero(tr): return [n for n in range(len(tr.nodes)) if re.fullmatch(r'w\d+', tr.varname(n) or '')]

def declared(ctx, par, **sizes):
    """nor when the verifier is told another size than the one it was made for"""
    p = dict(par, mode='honest', **sizes)
    nm = '%s told %s' % (jname(par), sizes)
    v, d, m = explore(p, [], alive=witness_nonzero if 'm' in par else None, panics=False)
    if v == 'reject':
        ctx.ok('not accepted: ' + nm)
        return v
    j, r = replay_model(ctx, p, m)
    if r.verdict() == 'accept':
        ctx.violation('%s:told:%s' % (par['proto'], sorted(sizes)), 'a proof is accepted under another size (%s)' % nm, [j], 'accept')
        return v
    raise CheckError('%s: undecided (%s possible in the encoding, %s in the real run)' % (nm, v, r.verdict()))

def resized(ctx, par, path, what):
    """an accepted proof is not accepted for a statement whose vectors have other lengths; inputs at which everything that goes
    or is repeated vanishes are left out (linear maps: the zero witness), and so are special inputs where a comparison has no polynomial form"""
    p = dict(par, mode='shape', path=path, what=what)
    if not hit(p):
        return None
    nm = '%s %s %s' % (jname(par), what, path)
    if set(was(sym1(p))) <= {0}:
        return ctx.note('nothing but zeros: ' + nm)
    # linear maps: every matrix maps zero to zero, and the proof says no more than that
    v, d, m = explore(p, [], alive=was if 'm' not in par else witness_nonzero, panics=False)
    if v == 'reject':
        ctx.ok('not accepted: ' + nm)
        return v
    j, r = replay_model(ctx, p, m)
    if r.verdict() == 'accept':
        ctx.violation('%s:size:%s:%s' % (par['proto'], what, re.sub(r'\d+', '*', path)),
                      'a proof is accepted for a statement of another size (%s at %s, %s)' % (what, path, jname(par)), [j], 'accept')
        return v
    raise CheckError('%s: undecided (%s possible in the encoding, %s in the real run)' % (nm, v, r.verdict()))

def challenge_names(tr):
    return {nm for nm, _ in tr.chals().values()}

def free_vars(tr):
    """names of challenges and random draws"""
    r = set(challenge_names(tr))
    for k, n in tr.rnds().items():
        v = tr.varname(n)
        if v:
            r.add(v)
    return r

def cant_vanish(tr, diffs, nz, timeout=30, free=None, cut=None, rational=False, alive=()):
    """Is there a value of the inputs, with the variables `nz` nonzero, for which all these expressions vanish
    identically in the challenges and random draws?  Returns (None, None) if not, else (model or True, coefficients).
    rational: quotients are multiplied out, for inputs at which their denominators do not vanish identically.
    alive: expressions of which at least one must not vanish identically."""
    fv = {N(x) for x in (free if free is not None else free_vars(tr))}
    coefs = {}
    dens = {}
    order = sorted(diffs, key=lambda d: len(tr.cone([d])))
    nzv = {N(x) for x in nz}
    e = Expander(tr, cut)
    for d in order:
        if rational:
            r, = ratio(tr, [d], 3000, cut)
            if r is None:
                continue
            p, den = r
            den, _ = P.clear_neg(den)
            if len(den) > 1:
                g = frozenset(frozenset(x.items()) for x in P.group_by(den, fv).values())
                dens[g] = list(P.group_by(den, fv).values())
        else:
            try:
                p, = e.expand([d])
            except P.TooBig:
                continue
            if any(N.nm[v][:2] in ('q#', 'I#') for v in P.variables(p)):
                continue
        p, _ = P.clear_neg(p)
        for g, q in P.group_by(p, fv).items():
            coefs[frozenset(q.items())] = q
            if len(q) == 1:
                (m, c), = q.items()
                if all(v in nzv for v, _ in m):
                    r = vanish_query([q], nz, timeout)
                    if r[0] == 'unsat':
                        return None, None
    if alive:
        g = []
        for d in alive:
            try:
                p, = e.expand([d])
            except P.TooBig:
                raise CheckError('expression too big for a side condition')
            p, _ = P.clear_neg(p)
            g += list(P.group_by(p, fv).values())
        dens[None] = g
    r, model = vanish_query(list(coefs.values()), nz, timeout, list(dens.values()))
    if r == 'unsat':
        return None, None
    return (model if r == 'sat' else True), list(coefs.values())

def vanish_query(qs, nz, timeout=30, somenz=()):
    vs = set()
    for q in list(qs) + [x for g in somenz for x in g]:
        vs |= P.variables(q)
    vs |= {N(x) for x in nz}
    txt = ['(set-option :timeout %d)' % (timeout * 1000)]
    txt += ['(declare-const |%s| Real)' % N.nm[v] for v in sorted(vs)]
    txt += ['(assert (not (= |%s| 0.0)))' % x for x in nz]
    txt += ['(assert (= %s 0.0))' % poly_smt(q) for q in qs]
    txt += ['(assert (or false %s))' % ' '.join('(not (= %s 0.0))' % poly_smt(x) for x in g) for g in somenz]
    txt += ['(check-sat)', '(get-model)']
    t0 = time.time()
    p = subprocess.run(['z3-new', '-in', '-smt2'], input='\n'.join(txt), capture_output=True, text=True)
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    r = p.stdout.split('\n')[0].strip()
    STATS[r if r in ('sat', 'unsat') else 'unknown'] += 1
    if r == 'sat':
        return r, parse_model(p.stdout)
    return r, None

def parse_model(t):
    m = {}
    for k, v in re.findall(r'\(define-fun \|?([^\s|]+)\|? \(\) Real\s+(.*?)\)\s*(?=\(define-fun|\)\s*$)', t, flags=re.S):
        try:
            m[k] = sexp_num(v)
        except Exception:
            pass
    return m

def sexp_num(s):
    s = s.strip()
    toks = s.replace('(', ' ( ').replace(')', ' ) ').split()
    def go(i):
        if toks[i] == '(':
            op = toks[i + 1]
            args = []
            i += 2
            while toks[i] != ')':
                v, i = go(i)
                args.append(v)
            if op == '-':
                return (-args[0] if len(args) == 1 else args[0] - args[1]), i + 1
            if op == '/':
                return args[0] / args[1], i + 1
            raise ValueError(op)
        return Fraction(toks[i]), i + 1
    return go(0)[0]

def fmod(x):
    x = Fraction(x)
    return x.numerator * pow(x.denominator, ELL - 2, ELL) % ELL

def possible(tr, diffs, nz):
    """Can all these expressions vanish, for some input with `nz` nonzero, whatever the challenges and draws are?
    Returns None if not, else a model (or True)."""
    diffs = [d for d in dict.fromkeys(diffs) if d]
    if not diffs:
        return True
    m, _ = cant_vanish(tr, diffs, nz)
    if m is None:
        return None
    # honest messages as arbitrary values, against the challenges only the verifier drew
    sec = tr.section('prove', 'proved')
    fresh = challenge_names(tr) - {x[3] for x in sec if x[0] == 'chal'}
    if fresh:
        cut = {x: 'a#%d' % x for _, ns in Cuts(tr, sec).levels for x in ns}
        if cant_vanish(tr, diffs, nz, free=fresh, cut=cut)[0] is None:
            return None
    m2, _ = cant_vanish(tr, diffs, nz, rational=True)
    if m2 is None:
        return None
    # at chosen challenges and draws, where the expressions stay small: no input makes them vanish there
    for seed in (1, 2):
        if cant_vanish(fixed(tr, free_vars(tr), seed), diffs, nz, free=(), rational=True)[0] is None:
            return None
    return m2 if isinstance(m2, dict) else m

def fixed(tr, names, seed):
    """the trace with these variables replaced by constants"""
    t = copy.copy(tr)
    rng = random.Random(seed)
    at = {tr.vix[x]: rng.randrange(2, 10**6) for x in sorted(names) if x in tr.vix}
    t.nodes = [['c', at[i]] if i in at else n for i, n in enumerate(tr.nodes)]
    return t

def possible_in_full(tr, diffs, alive):
    """as above, answering None where an expression has no polynomial form"""
    diffs = [d for d in dict.fromkeys(diffs) if d]
    e = Expander(tr)
    try:
        for d in sorted(diffs + list(alive), key=lambda d: len(tr.cone([d]))):
            p, = e.expand([d])
            if any(N.nm[v][:2] in ('q#', 'I#') for v in P.variables(p)):
                return None
    except P.TooBig:
        return None
    return cant_vanish(tr, diffs, [], alive=alive)[0]

def explore(p, nz, limit=64, alive=None, panics=True):
    if alive:
        possible_ = lambda tr, d, _: possible_in_full(tr, d, alive(tr)) if [x for x in d if x] else True
    else:
        possible_ = possible
    """Every path of the verifier that some input can take.  A comparison the general input fails is followed on its
    'equal' side too when some special input makes it hold.  Returns ('reject', number of comparisons, None) or
    ('accept'|'panic', text, model)."""
    todo = ['']
    ncmp = 0
    while todo:
        f = todo.pop()
        limit -= 1
        if limit < 0:
            raise CheckError('too many verifier paths: ' + jname(p))
        tr = sym1(dict(p, forced=f))
        if [x for x in tr.panics() if x[0] == 'prove']:
            raise CheckError('prover panics: %s' % jname(p))
        decs = [e for e in tr.section('verify') if e[0] == 'dec']
        T = [d for e in decs if e[4] and not e[5] for d in e[3]]
        if tr.panics() and not panics:
            pass     # a refusal
        elif tr.panics() or tr.accept():
            m = possible_(tr, T, nz)
            if m is not None:
                if tr.panics():
                    return 'panic', tr.panics()[0][1], m
                return 'accept', 'path ' + (f or 'general'), m
            continue
        bits = ''.join('1' if e[4] else '0' for e in decs)
        for i, e in enumerate(decs):
            if i >= len(f) and not e[4]:
                ncmp += 1
                if possible_(tr, T + e[3], nz) is not None:
                    todo.append(bits[:i] + '1')
    return 'reject', ncmp, None

def replay_model(ctx, p, m):
    asg = {k: fmod(v) for k, v in m.items() if '#' not in k} if isinstance(m, dict) else {}
    j = dict(par=dict(p, seed=ctx.rng.randrange(1, 10**6)), assign=asg)
    return j, real([j])[0]

def hit(p):
    return sym1(p).outs().get('hit')

def tamper(ctx, par, path, kind, nz=('delta',)):
    """altering one leaf is rejected for every nonzero difference"""
    p = dict(par, mode='tamper', path=path)
    nm = '%s leaf %s' % (jname(par), path)
    if not hit(p):
        raise CheckError('no such leaf: ' + nm)
    key = '%s:tamper:%s' % (par['proto'], re.sub(r'\d+', '*', path))
    v, d, m = explore(p, nz)
    if v == 'reject':
        ctx.ok('rejected for every difference: ' + nm, '%d comparison(s) cannot hold' % d)
        return v
    j, r = replay_model(ctx, p, m)
    if v == 'panic' and r.verdict().startswith('panic'):
        ctx.note('%s: verifier panics: %s' % (nm, d))
        return v
    if r.verdict() == 'accept':
        ctx.violation(key, 'altering %s of an accepted proof is not noticed (%s; %s)' % (path, jname(par), d), [j], 'accept')
        return 'accept'
    raise CheckError('%s: undecided (%s possible in the encoding, %s in the real run)' % (nm, v, r.verdict()))

def was(tr):
    """the expressions that made up the element that was replaced"""
    return [n for o in tr.out if o[1] == 'old' for n in ([o[2]] if o[0] == 's' else tr.points[o[2]].values())]

def erase(ctx, par, path):
    """replacing a nonzero element by zero (the identity) is rejected; inputs for which a comparison has no polynomial
    form are in general position"""
    p = dict(par, mode='shape', path=path, what='zero')
    if not hit(p):
        raise CheckError('no such leaf: %s %s' % (jname(par), path))
    nm = '%s leaf %s' % (jname(par), path)
    if not was(sym1(p)) or set(was(sym1(p))) == {0}:
        return ctx.note('always zero: ' + nm)
    v, d, m = explore(p, [], alive=was)
    if v == 'reject':
        ctx.ok('rejected when zero takes its place: ' + nm, '%d comparison(s) cannot hold' % d)
        return v
    j, r = replay_model(ctx, p, m)
    if v == 'panic' and r.verdict().startswith('panic'):
        return ctx.note('%s: verifier panics: %s' % (nm, d))
    if r.verdict() == 'accept':
        ctx.violation('%s:zero:%s' % (par['proto'], re.sub(r'\d+', '*', path)),
                      'an accepted proof is still accepted with zero instead of the nonzero element %s (%s; %s)' % (path, jname(par), d), [j], 'accept')
        return 'accept'
    raise CheckError('%s: undecided (%s possible in the encoding, %s in the real run)' % (nm, v, r.verdict()))

def shape(ctx, par, path, what):
    """a proof damaged in shape is rejected without a panic, for all values"""
    p = dict(par, mode='shape', path=path, what=what)
    if not hit(p):
        return None
    nm = '%s %s %s' % (jname(par), what, path)
    key = '%s:%s:%s' % (par['proto'], what, re.sub(r'\d+', '*', path))
    v, d, m = explore(p, [])
    if v == 'reject':
        ctx.ok('rejected without panic: ' + nm)
        return v
    j, r = replay_model(ctx, p, m)
    if r.verdict() == 'reject':
        raise CheckError('%s: %s possible in the encoding (%s), but the real run rejects' % (nm, v, d))
    ctx.violation(key, 'malformed proof (%s at %s, %s): %s' % (what, path, jname(par), r.verdict()), [j], r.verdict())
    return v

def fs_leaf(ctx, par, path, kind, claim=False):
    """altering a leaf changes every challenge drawn after it was sent"""
    p = dict(par, mode='tamper', path=path, bind=1)
    tr = sym1(p)
    nm = '%s %s' % (jname(par), path)
    if not tr.outs().get('hit'):
        raise CheckError('no leaf ' + nm)
    pc = [x[3] for x in tr.section('prove', 'proved') if x[0] == 'chal']
    vc = [x[3] for x in tr.section('verify') if x[0] == 'chal']
    same = [c for c in vc if c in pc]
    hon = sym1(dict(par, mode='honest', bind=1))
    allowed = 0
    if not claim:
        node = None
        for o in hon.out:
            if o[1] == 'proof:' + path:
                node = [o[2]] if o[0] == 's' else list(hon.points[o[2]].values())
        if node is None:
            raise CheckError('leaf not dumped: ' + nm)
        names = {hon.varname(x) for x in hon.cone(node)} - {None}
        order = [x[3] for x in hon.section('prove', 'proved') if x[0] == 'chal']
        dep = [i for i, c in enumerate(order) if c in names]
        allowed = max(dep) + 1 if dep else 0
    return same, allowed, pc, vc, nm

# ------------------------------------------------------------------ results against their definition
def definition_pairs(tr):
    """(name, node of the code's result, node of the definition's), and the (name, bool) sizes and refusals"""
    pairs, flags = [], []
    want = {o[1][5:]: o[2] for o in tr.out if o[1].startswith('want:')}
    for o in tr.out:
        if o[1].startswith('goal:'):
            flags.append((o[1][5:], o[2]))
        elif o[1].startswith('got:'):
            k = o[1][4:]
            if o[0] == 's':
                pairs.append((k, o[2], want[k]))
            else:
                p, q = tr.points[o[2]], tr.points[want[k]]
                pairs += [(k, p.get(b, 0), q.get(b, 0)) for b in sorted(set(p) | set(q))]
    return pairs, flags

def computes(ctx, par, what, val=None, depth=2, state=None):
    """every result equals its definition for all inputs, every refusal happens, nothing else panics; also on the paths
    special inputs take where the code asks whether something vanishes"""
    state = state if state is not None else dict(left=30, seen=set())
    tr = sym([dict(par=par, val=val or {})])[0]
    nm = jname(par) + (' ' + str(val) if val else '')
    bad = {}
    for o, e in tr.panics():
        bad[o] = 'panics: ' + e
    pairs, flags = definition_pairs(tr)
    for k, v in flags:
        if not v:
            bad[k] = 'is not refused' if k.startswith('refused:') else 'has the wrong size'
    if not pairs and not bad:
        raise CheckError('nothing to decide: ' + nm)
    q = Smt()
    for k, a, b in pairs:
        txt, names = dag_smt(tr, [a, b])
        q.add('%s\n(assert (not (= %s %s)))' % (txt, names[a], names[b]), k, True)
    for (k, a, b), r in zip(pairs, q.run(60)):
        if r == 'sat':
            bad.setdefault(k, 'differs from its definition')
        elif r != 'unsat':
            raise CheckError('%s: %s undecided' % (nm, k))
    j = dict(par=dict(par, seed=ctx.rng.randrange(1, 10**6)), val=val or {})
    r = real([j])[0]
    rb = {o[1][5:] for o in r.out if o[0] == 'b' and o[1].startswith('goal:') and not o[2]} | {o for o, _ in r.panics()}
    if not bad:
        if rb:
            raise CheckError('%s: %s fails in the real run only' % (nm, sorted(rb)[:3]))
        ctx.ok('%s: %s' % (what, nm), '%d values equal, %d refusals and sizes' % (len(pairs), len(flags)))
    else:
        for k in sorted(bad):
            if k in rb:
                ctx.violation('%s:%s' % (par['proto'], re.sub(r'\d+', '*', k)), '%s %s (%s)' % (k, bad[k], nm), [j], 'differs')
                return
        raise CheckError('%s: %s, but the real run agrees with the definition' % (nm, sorted(bad.items())[:2]))
    if depth == 0:
        return
    for e in tr.log:
        if e[0] != 'dec' or e[4] or not e[3]:
            continue
        m, coefs = cant_vanish(tr, e[3], [])
        if m is None or coefs is None:
            continue
        sub = solve_vals(coefs, m)
        if sub is None:
            continue
        v2 = dict(val or {})
        v2.update(sub)
        key = tuple(sorted(v2.items()))
        if key in state['seen']:
            continue
        state['seen'].add(key)
        if state['left'] <= 0:
            ctx.note('more special inputs than explored: ' + jname(par))
            return
        state['left'] -= 1
        computes(ctx, par, what, v2, depth - 1, state)
