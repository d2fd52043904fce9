"""Extraction: acceptance of every leaf of a tree of challenges implies the statement.

The verifier is executed once with unknown challenges on an arbitrary proof whose group elements are unknown
combinations of the generators.  Its acceptance condition is instantiated for every leaf of a tree of distinct
challenge values; a value of the proof may differ between two leaves only if a challenge drawn before the verifier
absorbed it does.  The solver decides whether these conditions together entail the statement."""
import itertools, math
from . import poly as P
from .core import *
from .prove import *
from .generic import *

def accepting_paths(p, limit=64):
    """[(trace, nodes that have to vanish)] of the verifier's accepting paths on an arbitrary proof"""
    todo = ['']
    out = []
    while todo:
        f = todo.pop()
        limit -= 1
        if limit < 0:
            raise CheckError('too many verifier paths: ' + jname(p))
        tr = sym1(dict(p, mode='arb', leaf='agm', forced=f))
        if [x for x in tr.panics() if x[0] == 'prove']:
            raise CheckError('prover panics: ' + jname(p))
        sec = tr.section('verify')
        decs = [e for e in sec if e[0] == 'dec']
        bits = ''.join('1' if e[4] else '0' for e in decs)
        ch = challenge_names(tr)
        for i, e in enumerate(decs):
            if i >= len(f) and not e[4]:
                # a condition on challenges alone holds with negligible probability
                if any({tr.varname(x) for x in tr.cone([d])} - {None} <= ch for d in e[3]):
                    continue
                todo.append(bits[:i] + '1')
        if tr.accept():
            nodes = [d for e in decs if e[4] for d in e[3]]
            out.append((tr, nodes, f))
    return out

def leaf_levels(tr):
    """proof leaf -> number of challenges drawn before the verifier absorbed it (None: never absorbed)"""
    outs = {}
    for o in tr.out:
        if o[0] in 'sp' and o[1].startswith('proof:'):
            outs.setdefault((o[0], o[2]), []).append(o[1][6:])
    lev = {}
    seen = []
    for e in tr.section('verify'):
        if e[0] == 'chal':
            if e[2] not in seen:
                seen.append(e[2])
        elif e[0] == 'app':
            for part in e[3]:
                k = {'pt': 'p', 'sc': 's'}.get(part[0])
                for path in outs.get((k, part[1]), []):
                    lev.setdefault(path, len(seen))
    names = [tr.chals()[o] for o in seen]
    return lev, names

class Tree:
    def __init__(self, tr, nodes, arity, values=None):
        self.tr = tr
        self.lev, ch = leaf_levels(tr)
        self.ch = [nm for nm, _ in ch]
        self.chnode = {nd for _, nd in ch}
        self.total = len(self.ch)
        self.arity = arity(self.ch)
        self.nodes = nodes
        PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53]
        self.values = values or (lambda lvl, b: PR[(b + 0) % len(PR)] + (len(PR) * 60 * (b // len(PR))))
        self.branches = list(itertools.product(*[range(a) for a in self.arity]))

    def level(self, name):
        if name.startswith('L:'):
            path = name[2:].split('@')[0]
            return self.lev.get(path, self.total)
        return 0

    def varname(self, name, br):
        l = self.level(name)
        return name + ('~' + '.'.join(map(str, br[:l])) if l else '')

    def chal(self, br):
        return {nm: Fraction(self.values(i, br[i])) for i, nm in enumerate(self.ch)}

    def equations(self, br, nodes=None):
        return peval(self.tr, nodes or self.nodes, self.chal(br), lambda n: self.varname(n, br))

def peval(tr, roots, consts, rename, limit=200000):
    memo = {}
    for x in tr.cone(roots):
        n = tr.nodes[x]
        k = n[0]
        if k == 'c':
            r = P.const(n[1])
        elif k == 'v':
            r = P.const(consts[n[1]]) if n[1] in consts else P.var(N(rename(n[1])))
        elif k == '+':
            r = P.add(memo[n[1]], memo[n[2]])
        elif k == '-':
            r = P.neg(memo[n[1]])
        elif k == '*':
            r = P.mul(memo[n[1]], memo[n[2]], limit)
        else:
            p = memo[n[1]]
            if not p:
                r = {}
            elif len(p) == 1 and () in p:
                r = {(): Fraction(1) / p[()]}
            else:
                raise CheckError('inverse of an unknown in the acceptance condition')
        memo[x] = r
    return [memo[r] for r in roots]

def degree(p):
    return max((sum(e for _, e in m) for m in p), default=0)

def islin(p):
    return all(len(m) <= 1 and all(e == 1 for _, e in m) for m in p)

def eliminate(lin, prio, mod=None):
    """Gaussian elimination.  Returns {var: form in free vars}, or None if inconsistent.  prio(v): higher = eliminated
    first."""
    rows = {}      # pivot -> (form): pivot = form
    use = {}       # var -> set of pivots whose form mentions it
    def inv(c):
        return pow(c, -1, mod) if mod else Fraction(1) / c
    for p in lin:
        r = {}
        for m, c in p.items():
            v = m[0][0] if m else None
            if v is not None and v in rows:
                for w, d in rows[v].items():
                    r[w] = r.get(w, 0) + c * d
            else:
                r[v] = r.get(v, 0) + c
        if mod:
            r = {v: c % mod for v, c in r.items()}
        r = {v: c for v, c in r.items() if c}
        vs = [v for v in r if v is not None]
        if not vs:
            if r:
                return None
            continue
        pv = max(vs, key=lambda v: (prio(v), v))
        k = inv(r.pop(pv))
        form = {v: -c * k for v, c in r.items()}
        if mod:
            form = {v: c % mod for v, c in form.items()}
        # back-substitute
        for q in list(use.get(pv, ())):
            f = rows[q]
            c = f.pop(pv)
            for w, d in form.items():
                s = f.get(w, 0) + c * d
                if mod:
                    s %= mod
                if s:
                    f[w] = s
                    if w is not None:
                        use.setdefault(w, set()).add(q)
                elif w in f:
                    del f[w]
                    if w is not None:
                        use.get(w, set()).discard(q)
        use.pop(pv, None)
        rows[pv] = form
        for w in form:
            if w is not None:
                use.setdefault(w, set()).add(pv)
    return rows

def form_poly(f):
    return {(((v, 1),) if v is not None else ()): c for v, c in f.items() if c}

def subst_forms(p, forms, mod=None):
    """substitute linear forms into a polynomial of low degree"""
    r = {}
    for m, c in p.items():
        t = P.const(c)
        for v, e in m:
            q = form_poly(forms[v]) if v in forms else P.var(v)
            for _ in range(e):
                t = P.mul(t, q)
        r = P.add(r, t)
    if mod:
        r = {m: c % mod for m, c in r.items()}
        r = {m: c for m, c in r.items() if c}
    return r

def extract(ctx, par, arity, goals, what):
    """goals(names of statement variables) -> [(label, polynomial)] to be entailed"""
    if ctx.viol:
        return     # shown at a smaller size
    p = dict(par)
    paths = accepting_paths(p)
    nm = jname(par)
    if not paths:
        raise CheckError('no accepting path: ' + nm)
    for tr, nodes, f in paths:
      for grow in (0, 1):
        _, ch0 = leaf_levels(tr)
        vec = [x + grow for x in arity([c for c, _ in ch0])]
        if grow and math.prod(vec) > 1300:
            forge(ctx, par, tr, nodes, f, arity, gs, what)
            break
        t = Tree(tr, nodes, lambda ch: vec)
        lin, quad = [], []
        seen = set()
        for br in t.branches:
            for q in t.equations(br):
                if not q:
                    continue
                q = norm0(q)
                k = frozenset(q.items())
                if k in seen:
                    continue
                seen.add(k)
                (lin if islin(q) else quad).append(q)
        def prio(v):
            n = N.nm[v]
            if n.startswith('st:'):
                return (0, 0)
            return (1, t.level(n.split('~')[0]))
        forms = eliminate(lin, prio)
        if forms is None:
            # no proof is accepted along this path for all these challenges
            if len(paths) == 1:
                raise CheckError('accepting path is inconsistent: ' + nm)
            smt = Smt()
            smt.add(lra_entails(lin, P.const(1)), 'no acceptance')
            if smt.run(300)[0] != 'unsat':
                raise CheckError('inconsistency not confirmed: ' + nm)
            break
        gs = goals(tr)
        red = {}
        for q in quad:
            r = subst_forms(q, forms)
            if r:
                r = norm0(r)
                red.setdefault(frozenset(r.items()), r)
        red = list(red.values())
        goal = [subst_forms(g, forms) for _, g in gs]
        smt = Smt()
        smt.add(lra_entails(red, goal if any(goal) else [{}]), 'statement')
        verdict = smt.run(300)[0]
        STATS['extra'] = STATS.get('extra', {})
        STATS['extra']['extraction_leaves'] = STATS['extra'].get('extraction_leaves', 0) + len(t.branches)
        if verdict == 'unsat':
            # the solver confirms the elimination
            smt = Smt()
            used = set()
            for q in quad + [g for _, g in gs]:
                used |= P.variables(q) & set(forms)
            used = sorted(used)
            for i in range(0, len(used), 40):
                smt.add(lra_entails(lin, [P.sub(P.var(v), form_poly(forms[v])) for v in used[i:i + 40]]), 'elimination')
            if any(r != 'unsat' for r in smt.run(300)):
                raise CheckError('elimination not confirmed: ' + nm)
            ctx.ok('%s: %s' % (what, nm), '%d transcripts, %d linear and %d quadratic conditions entail the statement' %
                   (len(t.branches), len(lin), len(red)))
            break
        if verdict != 'sat':
            raise CheckError('solver gave up: ' + nm)
        if grow:
            forge(ctx, par, tr, nodes, f, arity, gs, what)

def norm0(p):
    m0 = min(p)
    c = p[m0]
    if c == 1:
        return p
    p = {m: Fraction(x) / c for m, x in p.items()}
    return {m: (x.numerator if x.denominator == 1 else x) for m, x in p.items()}

def forge(ctx, par, tr, nodes, f, arity, gs, what, tries=24):
    """A proof of a false statement: values for everything the prover sends such that a tree of random challenges (one
    branch more at every challenge) is accepted throughout; replayed against the real verifier leaf by leaf."""
    nm = jname(par)
    rng = ctx.rng
    cv = {}
    def values(l, b):
        return cv.setdefault((l, b), rng.randrange(2, ELL))
    # more branches than the check needed at every challenge; where that is too large, at one challenge at a time
    _, ch = leaf_levels(tr)
    base = arity([c for c, _ in ch])
    size = lambda v: math.prod(v)
    grow = None
    for k in (3, 2, 1):
        if size([x + k for x in base]) <= 700:
            grow = [[x + k for x in base]]
            break
    if grow is None:
        grow = []
        for i in range(len(base)):
            k = 3
            while k > 1 and size(base) // base[i] * (base[i] + k) > 900:
                k -= 1
            grow.append([x + (k if j == i else 0) for j, x in enumerate(base)])
    found = None
    for vec in grow:
        found = forge_tree(ctx, par, tr, nodes, vec, gs, values, tries)
        if found is None:
            raise CheckError('%s: the statement is not entailed, but no forgery was found (tree %s)' %
                             (nm, 'x'.join(map(str, vec))))
    bad, jobs, arr = found
    ctx.violation('%s:forge' % par['proto'],
                  '%s: a false statement is accepted for all %d combinations of %s challenge values (%s; %s)' %
                  (what, len(jobs), 'x'.join(map(str, arr)), nm, ', '.join(bad)), jobs[:16], 'accept')

def forge_tree(ctx, par, tr, nodes, vec, gs, values, tries):
    nm = jname(par)
    rng = ctx.rng
    t = Tree(tr, nodes, lambda ch: vec, values)
    sel = t.branches
    lin, quad = [], []
    for br in sel:
        for q in t.equations_mod(br):
            if q:
                (lin if islin(q) else quad).append(q)
    def prio(v):
        n = N.nm[v]
        return (0, 0) if n.startswith('st:') else (1, t.level(n.split('~')[0]))
    forms = eliminate(lin, prio, ELL)
    if forms is None:
        return None
    red = [subst_forms(q, forms, ELL) for q in quad]
    red = [q for q in red if q]
    for attempt in range(tries):
        val = solve_rest(red, rng, attempt)
        if val is None:
            continue
        allv = set()
        for q in lin + quad:
            allv |= P.variables(q)
        for _, g in gs:
            allv |= P.variables(g)
        for v in sorted(allv):
            if v not in forms and v not in val:
                val[v] = rng.randrange(ELL)
        for v in forms:
            val[v] = sum(c * (val.setdefault(w, rng.randrange(ELL)) if w is not None else 1) for w, c in forms[v].items()) % ELL
        if all(pev(g, val) == 0 for _, g in gs):
            continue
        jobs = []
        for br in sel:
            asg = {nm2: int(x) for nm2, x in t.chal(br).items()}
            for x in tr.cone(list(tr.vix.values())):
                n = tr.varname(x)
                if n and n not in asg:
                    v = N(t.varname(n, br))
                    if v in val:
                        asg[n] = val[v]
                    elif n.startswith('L:') or n.startswith('st:'):
                        asg[n] = 0
            jobs.append(dict(par=dict(par, mode='arb', leaf='agm', seed=7), assign=asg))
        if len(jobs) > 256:
            jobs = jobs[:: len(jobs) // 256 + 1]
        rs = real(jobs)
        bad = [r.verdict() for r in rs if r.verdict() != 'accept']
        if bad:
            raise CheckError('%s: forged values are not accepted in the real run (%s)' % (nm, bad[0]))
        return [l for l, g in gs if pev(g, val)], jobs, vec
    return None

def pev(p, val):
    s = 0
    for m, c in p.items():
        t = c if isinstance(c, int) else fmod(c)
        for v, e in m:
            t = t * pow(val.get(v, 0), e, ELL) % ELL
        s += t
    return s % ELL

def subst_vals(quads, val):
    out = {}
    for q in quads:
        r = {}
        for m, c in q.items():
            k = []
            for v, e in m:
                if v in val:
                    c = c * pow(val[v], e, ELL) % ELL
                else:
                    k.append((v, e))
            k = tuple(k)
            r[k] = (r.get(k, 0) + c) % ELL
        r = {m: c for m, c in r.items() if c}
        if r:
            out[frozenset(r.items())] = r
    return list(out.values())

def unfactor(quads, rng, attempt):
    """conditions y * p = 0: either factor is made to vanish.  Returns (conditions left, values set) or None"""
    val = {}
    quads = list(quads)
    while True:
        com = []
        for q in quads:
            c = None
            for m in q:
                vs = {v for v, _ in m}
                c = vs if c is None else c & vs
                if not c:
                    break
            if c:
                com.append((q, c))
        if not com:
            break
        cnt = {}
        for q, c in com:
            for v in c:
                cnt[v] = cnt.get(v, 0) + 1 + (2 if '~' in N.nm[v] else 0)
        # a product with a linear factor: sometimes that factor
        two = [(q, c) for q, c in com if len(q) > 1 and any(len(m) == 1 and m[0][1] == 1 for m in q)]
        if two and (attempt % 2 == 0 or rng.random() < 0.5):
            q, c = two[0]
            y = min(c)
            f = {P.mmul(m, ((y, -1),)): x for m, x in q.items()}
            quads = [f if z is q else z for z in quads]
            if islin(f) and all(len(m) <= 1 for m in f) and sum(1 for m in f if m) == 1:
                (m,), = [[m for m in f if m]]
                v = m[0][0]
                val[v] = -f.get((), 0) * pow(f[m], -1, ELL) % ELL
                quads = subst_vals(quads, {v: val[v]})
            elif len({frozenset(z.items()) for z in quads}) < len(quads):
                quads = list({frozenset(z.items()): z for z in quads}.values())
            if any(set(z) == {()} for z in quads):
                return None
            continue
        v = max(sorted(cnt), key=lambda v: cnt[v]) if attempt % 4 < 3 else rng.choice(sorted(cnt))
        val[v] = 0
        quads = subst_vals(quads, {v: 0})
        if any(set(z) == {()} for z in quads):
            return None
    return quads, val

def solve_rest(quads, rng, attempt, zero=None):
    """values of the free variables satisfying the quadratic conditions: variables in products get random values (or
    zero), the rest is linear.  zero(name): is zero in honest proofs"""
    if zero and attempt % 3 == 0:
        vs = set()
        for q in quads:
            vs |= P.variables(q)
        val = {v: 0 for v in vs if zero(N.nm[v])}
        q2 = subst_vals(quads, val)
        if any(set(z) == {()} for z in q2):
            return None
        val.update({v: rng.randrange(1, ELL) for v in sorted(vs) if v not in val and N.nm[v][:2] == 'L:' and '~' not in N.nm[v]})
        r = unfactor(subst_vals(quads, val), rng, 1)
        if r is None:
            # the values of the first message that a condition names are not free
            val = {v: 0 for v in vs if zero(N.nm[v])}
            r = unfactor(q2, rng, 0)
            if r is None:
                return None
            val.update(r[1])
            val.update({v: rng.randrange(1, ELL) for v in sorted(vs) if v not in val and N.nm[v][:2] == 'L:' and '~' not in N.nm[v]})
            r = (subst_vals(q2, val), {})
        v2 = solve_products(r[0], rng, attempt)
        if v2 is not None:
            v2.update(r[1])
            v2.update(val)
        return v2
    if attempt >= 4 and attempt % 2 == 0:
        r = unfactor(quads, rng, attempt // 2)
        if r is None:
            return None
        val = solve_products(r[0], rng, attempt)
        if val is not None:
            val.update(r[1])
        return val
    return solve_products(quads, rng, attempt)

def solve_products(quads, rng, attempt):
    cover = set()
    prods = [[v for v, e in m for _ in range(e)] for q in quads for m in q if sum(e for _, e in m) > 1]
    while True:
        rest = [m for m in prods if len([v for v in m if v not in cover]) > 1]
        if not rest:
            break
        cnt = {}
        for m in rest:
            for v in set(m):
                if v not in cover:
                    cnt[v] = cnt.get(v, 0) + (2 if len(set(m)) == 1 else 1)
        if attempt % 3 == 2:
            v = rng.choice(sorted(cnt))
        else:
            v = max(sorted(cnt), key=lambda v: cnt[v])
        cover.add(v)
    pz = [0, 0.5, 0.2, 0.8][attempt % 4]
    val = {v: (0 if rng.random() < pz else rng.randrange(1, ELL)) for v in sorted(cover)}
    lin = []
    for q in quads:
        r = {}
        for m, c in q.items():
            k = []
            for v, e in m:
                if v in val:
                    c = c * pow(val[v], e, ELL) % ELL
                else:
                    k.append((v, e))
            k = tuple(k)
            r[k] = (r.get(k, 0) + c) % ELL
        r = {m: c for m, c in r.items() if c}
        if r:
            lin.append(r)
    forms = eliminate(lin, lambda v: 0, ELL)
    if forms is None:
        return None
    for q in lin:
        for v in P.variables(q):
            if v not in forms and v not in val:
                val[v] = rng.randrange(ELL)
    for v in forms:
        val[v] = sum(c * (val[w] if w is not None else 1) for w, c in forms[v].items()) % ELL
    return val

def _eq_mod(self, br):
    tr = self.tr
    consts = {k: int(v) for k, v in self.chal(br).items()}
    memo = {}
    for x in tr.cone(self.nodes):
        n = tr.nodes[x]
        k = n[0]
        if k == 'c':
            r = P.const(n[1] % ELL)
        elif k == 'v':
            r = P.const(consts[n[1]] % ELL) if n[1] in consts else P.var(N(self.varname(n[1], br)))
        elif k == '+':
            r = P.add(memo[n[1]], memo[n[2]])
        elif k == '-':
            r = P.neg(memo[n[1]])
        elif k == '*':
            r = P.mul(memo[n[1]], memo[n[2]])
        else:
            p = memo[n[1]]
            if not p:
                r = {}
            elif len(p) == 1 and () in p:
                r = {(): pow(p[()], -1, ELL)}
            else:
                raise CheckError('inverse of an unknown in the acceptance condition')
        r = {m: c % ELL for m, c in r.items()}
        memo[x] = {m: c for m, c in r.items() if c}
    return [memo[r] for r in self.nodes]
Tree.equations_mod = _eq_mod

# ------------------------------------------------------------------ statements
def ipa_goals(n):
    def g(tr):
        v = lambda s: P.var(N(s))
        ip = {}
        for i in range(n):
            ip = P.add(ip, P.mul(v('st:P@G%d' % i), v('st:P@H%d' % i)))
        return [('P contains t*Q', P.sub(v('st:P@Q'), v('st:t'))), ('t = <a,b>', P.sub(v('st:t'), ip))]
    return g

def alm_goals(n):
    def g(tr):
        v = lambda s: P.var(N(s))
        ip = {}
        for i in range(n):
            ip = P.add(ip, P.mul(v('st:C_w@G%d' % i), v('st:C_w@H%d' % i)))
        return [('C_w has no Q part', v('st:C_w@Q')), ('t = <a,b>', P.sub(v('st:t'), ip))]
    return g

def lm_goals(m, n):
    def g(tr):
        v = lambda s: P.var(N(s))
        r = []
        for i in range(m):
            for k in range(m):
                for j in range(n):
                    x = v('st:t.%d@A%d_%d' % (i, k, j))
                    if k != i:
                        r.append(('t_%d is a combination of row %d' % (i, i), x))
                    elif i:
                        r.append(('rows 0 and %d use the same w' % i, P.sub(x, v('st:t.0@A0_%d' % j))))
        return r
    return g

def ar(*first, rest=4):
    return lambda ch: [first[i] if i < len(first) else rest for i in range(len(ch))]
