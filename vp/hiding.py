"""How the output depends on the random draws: Jacobians of recorded expression graphs at rational points, and the
solver's verdict on linear functionals that do not feel the randomness."""
from .generic import *

def draws(tr):
    """names of the random draws of a trace"""
    return [tr.varname(n) for k, n in sorted(tr.rnds().items()) if tr.varname(n)]

def point(tr, rng, fixed=None, lo=2, hi=40):
    """a rational point: small integers for every unknown"""
    fixed = fixed or {}
    return {nm: Fraction(fixed[nm]) if nm in fixed else Fraction(rng.randrange(lo, hi)) for nm in tr.vix}

def jacobian(tr, nodes, wrt, at=None, rng=None):
    """rows: nodes, columns: variables; derivative at the point `at` (exact rationals)"""
    at = at or point(tr, rng or __import__('random').Random(7))
    col = {v: i for i, v in enumerate(wrt)}
    val, der = {}, {}
    for x in tr.cone(nodes):
        n = tr.nodes[x]
        k = n[0]
        if k == 'c':
            val[x], der[x] = Fraction(n[1]), {}
        elif k == 'v':
            val[x] = at[n[1]]
            der[x] = {col[n[1]]: Fraction(1)} if n[1] in col else {}
        elif k == '-':
            val[x], der[x] = -val[n[1]], {c: -d for c, d in der[n[1]].items()}
        elif k == '+':
            val[x] = val[n[1]] + val[n[2]]
            d = dict(der[n[1]])
            for c, y in der[n[2]].items():
                y = d.get(c, 0) + y
                if y:
                    d[c] = y
                else:
                    d.pop(c, None)
            der[x] = d
        elif k == '*':
            a, b = val[n[1]], val[n[2]]
            val[x] = a * b
            d = {c: y * b for c, y in der[n[1]].items()} if b else {}
            if a:
                for c, y in der[n[2]].items():
                    y = d.get(c, 0) + y * a
                    if y:
                        d[c] = y
                    else:
                        d.pop(c, None)
            der[x] = d
        else:
            a = val[n[1]]
            if a == 0:
                val[x], der[x] = Fraction(0), {}
            else:
                val[x] = 1 / a
                der[x] = {c: -y / (a * a) for c, y in der[n[1]].items()}
    return [der[x] for x in nodes]

def lin_text(cs):
    ts = [x if c == 1 else '(* %s %s)' % (num(c), x) for x, c in cs if c]
    return '0.0' if not ts else (ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts))

def null_query(lam, J, conds, timeout=120):
    """is there lam with lam^T J = 0 and the extra conditions?"""
    cols = {}
    for x, row in zip(lam, J):
        for c, d in row.items():
            cols.setdefault(c, []).append((x, d))
    txt = ['(set-option :timeout %d)' % (timeout * 1000), '(set-logic QF_LRA)']
    txt += ['(declare-const %s Real)' % x for x in lam]
    txt += ['(assert (= %s 0.0))' % lin_text(v) for v in cols.values()]
    txt += ['(assert %s)' % c for c in conds]
    txt += ['(check-sat)', '(get-model)']
    t0 = time.time()
    p = subprocess.run(['z3-new', '-in', '-smt2'], input='\n'.join(txt), capture_output=True, text=True)
    STATS['solver_s'] += time.time() - t0
    STATS['queries'] += 1
    r = p.stdout.split('\n')[0].strip()
    STATS[r if r in ('sat', 'unsat') else 'unknown'] += 1
    return r, (parse_model(p.stdout) if r == 'sat' else None)

def functional_replay(ctx, par, names, lam, desc, key, fixed=None):
    """the functional lam of the outputs has one value in real runs that differ in every random draw"""
    sd = ctx.rng.randrange(1, 10**6)
    base = {'r%d' % i: ctx.rng.randrange(2**250) for i in range(400)}
    js = [dict(par=dict(par, seed=sd), assign=dict(fixed or {}))]
    js.append(dict(par=dict(par, seed=sd), assign=dict(base, **(fixed or {}))))
    vs = []
    for r in real(js):
        s = r.scal()
        if any(k not in s for k in names):
            raise CheckError('replay of %s lacks outputs' % key)
        vs.append(sum(s[k] * l for k, l in zip(names, lam)) % ELL)
    if vs[0] == vs[1]:
        ctx.violation(key, desc, js, 'the value does not change with the random draws')
        return True
    raise CheckError('%s: independent of the draws in the encoding, not in the real run' % key)

# ------------------------------------------------------------------ hiding
def rowspace_kernel(rows, m):
    """basis of {d : rows . d = 0} in m dimensions"""
    return perp_basis(rows, m)

def perp_basis(vecs, n):
    """basis of the orthogonal complement"""
    rows = []
    for v in vecs:
        v = [Fraction(x) for x in v]
        for p, r in rows:
            if v[p]:
                c = v[p]
                v = [x - c * y for x, y in zip(v, r)]
        p = next((i for i in range(n) if v[i]), None)
        if p is None:
            continue
        c = v[p]
        v = [x / c for x in v]
        rows = [(q, [x - r[p] * y for x, y in zip(r, v)]) for q, r in rows] + [(p, v)]
    piv = {p: r for p, r in rows}
    out = []
    for j in range(n):
        if j not in piv:
            w = [Fraction(0)] * n
            w[j] = Fraction(1)
            for p, r in rows:
                w[p] = -r[j]
            out.append(w)
    return out

def rows_of(tr, outs, wrt, at, dlog):
    """derivative of outputs (name, kind, id) as sparse rows; points through the chosen discrete logarithms"""
    need = []
    for k, kind, i in outs:
        need += [i] if kind == 's' else list(tr.points[i].values())
    jac = dict(zip(need, jacobian(tr, need, wrt, at)))
    R = []
    for k, kind, i in outs:
        if kind == 's':
            R.append(jac[i])
            continue
        d = {}
        for b, x in tr.points[i].items():
            g = dlog(tr.basis[b])
            for c, y in jac[x].items():
                d[c] = d.get(c, 0) + g * y
        R.append({c: y for c, y in d.items() if y})
    return R

def hides(ctx, par, wit, stmt=None, fix=None, extra_rho=(), what='', val=None):
    """No linear functional of the proof that is blind to the randomness sees a change of the witness that keeps the
    statement.  wit: names of the witness values; stmt(tr, at) -> extra rows over wit; fix(at): adjust the point so that
    the statement holds; extra_rho: inputs that are blinding values; val: inputs held at special values."""
    par = dict(par, mode='honest')
    val = val or {}
    tr = sym1(par, val=val)
    if [x for x in tr.panics() if x[0] == 'prove']:
        raise CheckError('prover panics: %s %s' % (jname(par), tr.panics()))
    name = jname(par) + (' ' + what if what else '') + (' ' + str(val) if val else '')
    bad = [e for e in tr.section('prove') if e[0] in ('seeded', 'opaque')]
    if bad:
        return not_fresh(ctx, par, tr, bad[0])
    rho = draws(tr) + [x for x in extra_rho if x in tr.vix]
    wit = [x for x in wit if x in tr.vix]
    seen = None
    for attempt in range(2):
        at = point(tr, ctx.rng)
        at.update({k: Fraction(v) for k, v in val.items() if re.fullmatch(r'-?\d+', v)})
        if fix:
            fix(at)
        dl = {}
        dlog = lambda b: dl.setdefault(b, Fraction(ctx.rng.randrange(2, 60)))
        outs = [(o[1], o[0], o[2]) for o in tr.out if o[0] in 'sp' and o[1].startswith('proof:')]
        st = [(o[1], o[0], o[2]) for o in tr.out if o[0] in 'sp' and o[1].startswith('stmt:')]
        Jr = rows_of(tr, outs, rho, at, dlog)
        Jw = rows_of(tr, outs, wit, at, dlog)
        Js = [[r.get(c, Fraction(0)) for c in range(len(wit))] for r in rows_of(tr, st, wit, at, dlog)]
        if stmt:
            Js += stmt(wit, at)
        deltas = perp_basis(Js, len(wit))
        if not deltas:
            raise CheckError('the statement determines the witness: ' + name)
        lam = ['l%d' % i for i in range(len(outs))]
        dis = []
        for d in deltas:
            t = [(lam[i], sum((r[c] * d[c] for c in r), Fraction(0))) for i, r in enumerate(Jw)]
            dis.append('(not (= %s 0.0))' % lin_text(t))
        # rows scaled to integers: the functional is scaled instead
        v, m = null_query(lam, Jr, ['(or false %s)' % ' '.join(dis)], 300)
        if v == 'unsat':
            ctx.ok('no witness change shows: ' + name, '%d proof elements, %d draws, %d directions' % (len(outs), len(rho), len(deltas)))
            return
        if v != 'sat':
            raise CheckError('hiding query of %s: %s' % (name, v))
        seen = (at, dl, outs, m, deltas, Jw)
    # replay: the functional in real runs with other draws, and with another witness
    at, dl, outs, m, deltas, Jw = seen
    lv = {k: fmod(m.get('l%d' % i, 0)) for i, (k, _, _) in enumerate(outs)}
    base = {k: fmod(v) for k, v in at.items() if k not in val}
    base.update({'P:' + b: fmod(g) for b, g in dl.items()})
    base.update({'lam:' + k: v for k, v in lv.items()})
    base['lam'] = 1
    other = dict(base, **{r: ctx.rng.randrange(2**250) for r in rho})
    d = max(deltas, key=lambda d: abs(sum(Fraction(m.get('l%d' % i, 0)) * sum((r[c] * d[c] for c in r), Fraction(0)) for i, r in enumerate(Jw))))
    moved = dict(base, **{w: fmod(at[w] + x) for w, x in zip(wit, d)})
    js = [dict(par=dict(par, seed=3), val=val, assign=a) for a in (base, other, moved)]
    fs = []
    for r in real(js):
        fs.append(next((o[2] for o in r.out if o[1] == 'functional'), None))
    key = '%s:hiding%s' % (par['proto'], ':special' if val else '')
    txt = ', '.join(k for i, (k, _, _) in enumerate(outs) if m.get('l%d' % i))
    if None not in fs and fs[0] == fs[1] != fs[2]:
        ctx.violation(key, 'a combination of %s does not depend on the blinding but on the witness: %s' % (txt, name), js, 'same value for other blinding, another for another witness')
        return
    # not a functional that works everywhere: the dependence holds near the point; the recorded expressions are those of the real run
    r, j = validate(ctx, {k: v for k, v in par.items() if k != 'again'}, tr, val)
    if None in fs or r.verdict() not in ('accept', 'reject'):
        raise CheckError('hiding of %s: no replay' % name)
    ctx.violation(key, 'at a point, a combination of %s does not feel the blinding but the witness: %s' % (txt, name), js + [j], 'functional %s' % fs)

def not_fresh(ctx, par, tr, e):
    if e[0] == 'seeded':
        j = dict(par=dict(par, seed=ctx.rng.randrange(1, 10**6)))
        if any(x[0] == 'seeded' for x in real([j])[0].log):
            ctx.violation('%s:seeded' % par['proto'], 'blinding of %s comes from a generator whose seed is not system randomness' % jname(par), [j], 'seeded')
            return
    raise CheckError('%s: values of unclear origin (%s)' % (jname(par), e[0]))

def quad_rows(n, b, pos, gname='g'):
    """derivative of w^T Gamma_k w; pos: witness name -> position in the full witness"""
    def full(at):
        w = {0: Fraction(1)}
        for nm, i in pos.items():
            w[i] = at[nm] if nm in at else Fraction(0)
        return w
    def g(at, k, i, j):
        return at.get('%s%d_%d_%d' % (gname, k, i, j), Fraction(0))
    def rows(wit, at):
        w = full(at)
        R = []
        for k in range(b):
            r = []
            for nm in wit:
                i = pos.get(nm)
                r.append(Fraction(0) if i is None else sum((g(at, k, i, j) + g(at, k, j, i)) * x for j, x in w.items()))
            R.append(r)
        return R
    def fix(at):
        w = full(at)
        for k in range(b):
            at['%s%d_0_0' % (gname, k)] = -sum(g(at, k, i, j) * w[i] * w[j] for i in w for j in w if (i, j) != (0, 0))
    return rows, fix
