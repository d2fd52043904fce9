"""The quadratic-equation arguments: acceptance reduces to the masked inner product argument for a statement (C_w, t)
that the verifier computes; for that statement to be true for every value of the later challenges the committed
witness has to satisfy every equation."""
import itertools
from . import poly as P
from .core import *
from .prove import *
from .generic import *
from .sound import *

def coords(tr, e):
    """basis name -> node of a comparison of group elements"""
    return {tr.basis[b]: x for b, x in e[6]}

def mono_ratio(p, q):
    """monomial r with p = r*q, or None"""
    if len(p) != len(q) or not p:
        return None
    for m, c in p.items():
        (m2, c2) = next(iter(q.items()))
        r = {P.mmul(m, tuple((v, -e) for v, e in m2)): Fraction(c) / c2}
        if P.mul(r, q) == p:
            return r
    return None

class Inner:
    """the masked inner product argument's acceptance condition, for an arbitrary statement"""
    cache = {}
    def __init__(self, n):
        ps = accepting_paths(dict(proto='alm', n=n, bind=0))
        if len(ps) != 1:
            raise CheckError('masked argument: %d accepting paths' % len(ps))
        self.tr, _, f = ps[0]
        decs = [e for e in self.tr.section('verify') if e[0] == 'dec' and e[4] and e[6]]
        if len(decs) != 1:
            raise CheckError('masked argument: %d comparisons' % len(decs))
        self.R = coords(self.tr, decs[0])
        _, ch = leaf_levels(self.tr)
        self.ch = [c for c, _ in ch]
        self.ex = Expander(self.tr)
        self.keys = sorted(self.R)
        self.poly = dict(zip(self.keys, self.ex.expand([self.R[k] for k in self.keys])))
    @classmethod
    def get(cls, n):
        if n not in cls.cache:
            cls.cache[n] = cls(n)
        return cls.cache[n]

def rename(p, f):
    """rename variables; f(name) -> (new name, monomial factor) """
    out = {}
    for m, c in p.items():
        t = P.const(c)
        for v, e in m:
            nm, fac = f(N.nm[v])
            q = P.var(N(nm), e)
            if fac:
                (fm, fc), = fac.items()
                q = P.mul(q, {tuple((w, k * e) for w, k in fm): Fraction(fc) ** e})
            t = P.mul(t, q)
        out = P.add(out, t)
    return out

class Reduction:
    def __init__(self, tr, n):
        self.tr = tr
        self.n = n
        inn = Inner.get(n)
        decs = [e for e in tr.section('verify') if e[0] == 'dec' and e[4]]
        fin = [e for e in decs if e[6]][-1]
        self.extra = [d for e in decs if e is not fin for d in e[3]]
        R = coords(tr, fin)
        self.lev, ch = leaf_levels(tr)
        self.ch = [c for c, _ in ch]
        k = len(inn.ch)
        self.outer_ch = self.ch[:-k]
        self.inner_ch = self.ch[-k:]
        ex = Expander(tr)
        keys = sorted(R)
        poly = dict(zip(keys, ex.expand([R[b] for b in keys])))
        smt = Smt()
        for b in keys:
            smt.add(dag_identity(tr, ex, R[b], poly[b]), 'residual ' + b, True)
        for b in inn.keys:
            smt.add(dag_identity(inn.tr, inn.ex, inn.R[b], inn.poly[b]), 'inner residual ' + b, True)
        if any(r != 'unsat' for r in smt.run(120)):
            raise CheckError('expansion of the acceptance condition not confirmed')
        # names of the inner argument's proof inside the outer one
        ipaths = sorted({v[2:].split('@')[0] for v in inn.tr.vix if v.startswith('L:')}, key=len, reverse=True)
        opaths = {v[2:].split('@')[0] for v in tr.vix if v.startswith('L:')}
        pm = {}
        for ip in ipaths:
            suf = ip[2:]          # without 'pi'
            c = [o for o in opaths if o.endswith(suf) and o not in pm.values() and len(o) > len(ip)]
            if len(c) != 1:
                raise CheckError('no counterpart of ' + ip)
            pm[ip] = c[0]
        self.pm = pm
        cm = dict(zip(inn.ch, self.inner_ch))
        # scale of the generators
        lam = {}
        def coef(p, names):
            vs = {N(x) for x in names}
            r = {}
            for m, c in p.items():
                if {v for v, _ in m} & vs == vs:
                    r[m] = c
            return r
        sa = [ip for ip in ipaths if 'L:' + ip in inn.tr.vix]     # scalars of the inner proof
        for b in inn.keys:
            for names in ([['L:' + x] for x in sa] + [['L:' + x, 'L:' + y] for x in sa for y in sa if x < y]):
                q = coef(inn.poly[b], names)
                p = coef(poly.get(b, {}), ['L:' + pm[x[2:]] for x in names])
                if q:
                    q = rename(q, lambda nm: (cm.get(nm, 'L:' + pm[nm[2:]] if nm[2:] in pm else nm), None))
                    lam[b] = mono_ratio(p, q)
                    break
            if lam.get(b) is None:
                raise CheckError('acceptance does not reduce to the masked argument (generator %s)' % b)
        self.lam = lam
        def scaled(nm):
            if nm in cm:
                return cm[nm], None
            if nm.startswith('L:'):
                path, _, bb = nm[2:].partition('@')
                o = 'L:' + pm[path] + ('@' + bb if bb else '')
                # L@b in the inner basis = L@b(outer) / lam_b
                return o, (P.mono_inv(lam[bb]) if bb else None)
            return nm, None
        self.C, self.T = {}, None
        inner_vars = {N(c) for c in self.inner_ch}
        leafv = {N(v) for v in tr.vix if v.startswith('L:') and v[2:].split('@')[0] in pm.values()}
        comp = {}
        for b in inn.keys:
            q = rename(inn.poly[b], scaled)
            A = {m: c for m, c in q.items() if any(N.nm[v] == 'st:C_w@' + b for v, _ in m)}
            B = {m: c for m, c in q.items() if any(N.nm[v] == 'st:t' for v, _ in m)}
            strip = lambda p, x: {tuple((v, e) for v, e in m if N.nm[v] != x): c for m, c in p.items()}
            A, B = strip(A, 'st:C_w@' + b), strip(B, 'st:t')
            S = P.mul(poly.get(b, {}), P.mono_inv(lam[b]))
            S = {m: c for m, c in S.items() if not any(v in leafv for v, _ in m)}
            S = P.group_by(S, inner_vars)
            ma = [m for m in A if m not in B]
            mb = [m for m in B if m not in A]
            if not ma or (B and not mb):
                raise CheckError('acceptance does not reduce to the masked argument (statement)')
            self.C[b] = P.scale(S.get(ma[0], {}), Fraction(1) / A[ma[0]])
            if B:
                self.T = P.scale(S.get(mb[0], {}), Fraction(1) / B[mb[0]])
            comp[b] = q
        sub = {N('st:C_w@' + b): self.C[b] for b in self.C}
        sub[N('st:t')] = self.T
        for b in inn.keys:
            q = comp[b]
            for v in list(P.variables(q)):
                if v in sub:
                    q = P.subst(q, v, sub[v])
            if P.sub(P.mul(q, lam[b]), poly.get(b, {})):
                raise CheckError('acceptance does not reduce to the masked argument (%s)' % b)
        if set(poly) - set(inn.keys):
            if any(poly[b] for b in set(poly) - set(inn.keys)):
                raise CheckError('acceptance condition on an unexpected generator')
        # conditions the outer verifier checks itself, and truth of the inner statement
        t = self.T
        for i in range(n):
            t = P.sub(t, P.mul(self.C.get('G%d' % i, {}), self.C.get('H%d' % i, {})))
        E = [self.C.get('Q', {}), t]
        X = ex.expand(self.extra)
        self.forms = {}
        for p in X:
            # solve for a coordinate of a commitment that only this equation fixes
            c = [m for m in p if len(m) == 1 and m[0][1] == 1 and N.nm[m[0][0]].startswith('L:') and
                 sum(1 for m2 in p for v, _ in m2 if v == m[0][0]) == 1]
            if not c:
                E.append(p)
                continue
            m = max(c, key=lambda m: self.level(N.nm[m[0][0]]) + (100 if 'c_prime_w' in N.nm[m[0][0]] else 0))
            v = m[0][0]
            f = P.scale(P.sub(p, {m: p[m]}), Fraction(-1) / p[m])
            self.forms[v] = f
        def sb(p):
            for v in list(P.variables(p)):
                if v in self.forms:
                    p = P.subst(p, v, self.forms[v])
            return p
        self.sb = sb
        self.E = [P.clear_neg(sb(p))[0] for p in E]
        self.E = [p for p in self.E if p]
        self.maxlev = max([self.level(N.nm[v]) for p in self.E for v in P.variables(p)] + [0])
        late = {N(c) for c in self.outer_ch[self.maxlev:]}
        self.early = self.outer_ch[:self.maxlev]
        self.conds = []
        for p in self.E:
            self.conds += list(P.group_by(p, late).values())

    def level(self, name):
        if name.startswith('L:'):
            return self.lev.get(name[2:].split('@')[0], len(self.outer_ch))
        return 0

    def instantiate(self, values):
        """conditions at concrete values of the early challenges; unknowns that may depend on them get a suffix"""
        out = []
        for p in self.conds:
            r = {}
            for m, c in p.items():
                k = ()
                for v, e in m:
                    nm = N.nm[v]
                    if nm in self.early:
                        c = c * Fraction(values[self.early.index(nm)]) ** e
                    else:
                        l = self.level(nm)
                        w = N(nm + '~' + '.'.join(map(str, values[:l]))) if l else v
                        k = P.mmul(k, ((w, e),))
                r[k] = r.get(k, 0) + c
            r = {m: (c.numerator if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in r.items() if c}
            if r:
                out.append(norm0(r))
        return out

def quad_sound(ctx, par, goals, mults, counts, what):
    """goals(tr) in unknowns of level 0; counts(number of early challenges) -> how many values each"""
    if ctx.viol:
        return     # shown at a smaller size
    nm = jname(par)
    n = par['n']
    PR = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61]
    for tr, nodes, f in accepting_paths(par):
        red = Reduction(tr, n)
        gs = goals(tr)
        cnt = counts(len(red.early))
        hyps = {}
        for vals in itertools.product(*[PR[:c] for c in cnt]):
            mu = [P.const(1)]
            for v in mults(tr):
                l = red.level(v)
                mu.append(P.var(N(v + ('~' + '.'.join(map(str, vals[:l])) if l else ''))))
            for p in red.instantiate(vals):
                for k in mu:
                    q = P.mul(p, k)
                    hyps.setdefault(frozenset(q.items()), q)
        hyps = list(hyps.values())
        smt = Smt()
        for l, g in gs:
            smt.add(lra_entails(hyps, g), l)
        res = smt.run(300)
        for (l, g), r in zip(gs, res):
            if r == 'unsat':
                ctx.ok('%s: %s: %s' % (what, nm, l), '%d conditions' % len(hyps))
        bad = [l for (l, g), r in zip(gs, res) if r != 'unsat']
        if bad:
            if all(r == 'unknown' for r in res if r != 'unsat'):
                raise CheckError('solver gave up: ' + nm)
            quad_forge(ctx, par, tr, red, gs, what)

def qesa_goals(par):
    n, k = par['n'], par['blocks']
    def g(tr):
        w = [P.const(1)] + [P.var(N('L:%s@G%d' % (cpath(tr, 'c_prime_w'), i))) for i in range(1, n - 2)]
        r = []
        for b in range(k):
            s = {}
            for i in range(n - 2):
                for j in range(n - 2):
                    s = P.add(s, P.mul(P.var(N('g%d_%d_%d' % (b, i, j))), P.mul(w[i], w[j])))
            r.append(('equation %d holds for the committed witness' % b, s))
        return r
    return g

def cpath(tr, name):
    for v in tr.vix:
        if v.startswith('L:') and v[2:].split('@')[0].split('.')[-1] == name:
            return v[2:].split('@')[0]
    # under another name: by the order in which the verifier absorbs the commitments of the proof
    ps = []
    for e in tr.section('verify'):
        if e[0] != 'app':
            continue
        for x in e[3]:
            if x[0] == 'pt':
                vs = {tr.varname(n) for n in tr.points[x[1]].values()}
                pth = {v[2:].split('@')[0] for v in vs if v and v.startswith('L:')}
                if None not in vs and len(pth) == 1 and len(vs) > 1:
                    y, = pth
                    if y not in ps:
                        ps.append(y)
    roles = ['C_w', 'c_prime_w', 'c_prime_prime_w'] if tr.job['par']['proto'] == 'copy' else ['c_prime_w', 'c_prime_prime_w']
    if name not in roles or len(ps) <= roles.index(name):
        raise CheckError('no proof element ' + name)
    return ps[roles.index(name)]

def qesa_mults(par):
    return lambda tr: ['L:%s@G%d' % (cpath(tr, c), i) for i in range(par['n']) for c in ('c_prime_w', 'c_prime_prime_w')]

def psets(t):
    return [] if t == 'none' else [sorted({int(x) for x in s.split(',') if x}) for s in t.split(';')]

def copy_map(tr):
    m = {}
    for o in tr.out:
        if o[0] == 'n' and o[1].startswith('map:'):
            _, i, k = o[1].split(':')
            m.setdefault(int(i), {})[k] = o[2]
    return [m[i] for i in sorted(m)]

def copy_goals(par):
    n, k = par['n'], par['blocks']
    def g(tr):
        cw = cpath(tr, 'C_w')
        w = [P.const(1)] + [P.var(N('L:%s@G%d' % (cw, i))) for i in range(1, n - 2)]
        idx = {i for s in psets(par['sets']) for i in s}
        r = []
        for b in range(k):
            s = {}
            for i in range(n - 2):
                for j in range(n - 2):
                    if i in idx or j in idx:
                        continue
                    s = P.add(s, P.mul(P.var(N('g%d_%d_%d' % (b, i, j))), P.mul(w[i], w[j])))
            r.append(('equation %d holds for the committed witness' % b, s))
        # message j of commitment c is used by the witness at the position the mapping names
        mp = copy_map(tr)
        q = 0
        for c, s in enumerate(psets(par['sets'])):
            for j, ix in enumerate(s):
                r.append(('message %d of commitment %d is in the witness' % (j, c),
                          P.sub(w[mp[q]['pos']], P.var(N('m%d_%d' % (c, j))))))
                q += 1
        return r
    return g

def copy_mults(par):
    def f(tr):
        return ['L:%s@G%d' % (cpath(tr, c), i) for i in range(par['n']) for c in ('C_w', 'c_prime_prime_w')] + \
            [v for v in tr.vix if re.match(r'(m\d+_|cr)\d+$', v)]
    return f

def quad_forge(ctx, par, tr, red, gs, what, tries=40):
    """A proof of a false statement: commitments that satisfy the conditions for a tree of random early challenges while
    a goal is violated, completed by the honest inner argument for the (true) statement the verifier computes."""
    nm = jname(par)
    rng = ctx.rng
    n = par['n']
    inn = Inner.get(n)
    hon = sym1(dict(proto='alm', n=n, mode='honest', bind=0))
    hch = [x[3] for x in hon.section('prove', 'proved') if x[0] == 'chal']
    hch = list(dict.fromkeys(hch))
    hproof = {o[1][6:]: o for o in hon.out if o[1].startswith('proof:')}
    if len(hch) != len(inn.ch):
        raise CheckError('masked argument: %d challenges in the proof, %d in its verification' % (len(hch), len(inn.ch)))
    cnt = [par.get('blocks', 1) + 4, 4, 3, 2, 2, 2][:len(red.early)]
    vals1 = [[rng.randrange(2, ELL) for _ in range(c)] for c in cnt]
    branches = list(itertools.product(*vals1))
    conds = []
    for br in branches:
        for p in red.instantiate(br):
            q = {m: fmod(c) for m, c in p.items()}
            conds.append({m: c for m, c in q.items() if c})
    lin = [q for q in conds if islin(q)]
    quads = [q for q in conds if not islin(q)]
    def prio(v):
        return 1 if '~' in N.nm[v] else 0
    forms = eliminate(lin, prio, ELL)
    if forms is None:
        raise CheckError('%s: not entailed, conditions inconsistent' % nm)
    redq = [q for q in (subst_forms(q, forms, ELL) for q in quads) if q]
    allv = set()
    for q in conds:
        allv |= P.variables(q)
    for _, g in gs:
        allv |= P.variables(g)
    # coordinates that honest proofs do not have
    ho = sym1(dict(par, mode='honest'))
    has = {'L:%s@%s' % (o[1][6:], ho.basis[b]) for o in ho.out if o[0] == 'p' and o[1][:6] == 'proof:' for b, x in ho.points[o[2]].items() if x and x not in ho.zero}
    zero = lambda v: v[:2] == 'L:' and '@' in v and v.split('~')[0] not in has
    for attempt in range(tries):
        val = solve_rest(redq, rng, attempt, zero)
        if val is None:
            continue
        for v in sorted(allv):
            if v not in forms and v not in val:
                val[v] = rng.randrange(ELL)
        for v in forms:
            val[v] = sum(c * (val.setdefault(w, rng.randrange(ELL)) if w is not None else 1) for w, c in forms[v].items()) % ELL
        bad = [l for l, g in gs if pev(g, val)]
        if not bad:
            continue
        jobs = []
        for br in rng.sample(branches, min(len(branches), 8)):
            for _ in range(2):
                asg = {}
                for c, x in zip(red.early, br):
                    asg[c] = x
                for c in red.ch:
                    asg.setdefault(c, rng.randrange(2, ELL))
                inner_leaf = set(red.pm.values())
                for v in tr.vix:
                    if v in asg or (v[:2] == 'L:' and v[2:].split('@')[0] in inner_leaf):
                        continue
                    l = red.level(v)
                    w = N(v + ('~' + '.'.join(map(str, br[:l])) if l else ''))
                    asg[v] = val[w] if w in val else rng.randrange(ELL)
                def pe(p):
                    s = 0
                    for m, c in p.items():
                        t = fmod(c)
                        for v, e in m:
                            t = t * pow(asg[N.nm[v]], e, ELL) % ELL
                        s += t
                    return s % ELL
                for v, f in red.forms.items():
                    asg[N.nm[v]] = pe(f)
                a = {b: pe(p) for b, p in red.C.items()}
                hv = {}
                for i in range(n):
                    hv['a%d' % i] = a.get('G%d' % i, 0)
                    hv['b%d' % i] = a.get('H%d' % i, 0)
                for x, y in zip(hch, red.inner_ch):
                    hv[x] = asg[y]
                get = lambda k: hv.setdefault(k, rng.randrange(1, ELL))
                roots = []
                for o in hproof.values():
                    roots += [o[2]] if o[0] == 's' else list(hon.points[o[2]].values())
                ev = hon.eval_mod(roots, get)
                for ip, op in red.pm.items():
                    o = hproof[ip]
                    if o[0] == 's':
                        asg['L:' + op] = ev[o[2]]
                    else:
                        co = {hon.basis[b]: ev[x] for b, x in hon.points[o[2]].items()}
                        for b in red.lam:
                            asg['L:%s@%s' % (op, b)] = co.get(b, 0) * pe(red.lam[b]) % ELL
                jobs.append(dict(par=dict(par, mode='arb', leaf='agm', seed=7), assign=asg))
        rs = real(jobs)
        rej = [r.verdict() for r in rs if r.verdict() != 'accept']
        if rej:
            raise CheckError('%s: forged values are not accepted in the real run (%s)' % (nm, rej[0]))
        ctx.violation('%s:forge' % par['proto'], '%s: a false statement is accepted for %d random challenge vectors (%s; %s)' %
                      (what, len(jobs), nm, ', '.join(bad)), jobs[:8], 'accept')
        return
    raise CheckError('%s: the statement is not entailed, but no forgery was found' % nm)
