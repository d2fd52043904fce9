"""Polynomial identities of recorded expression graphs, decided by the solver.

A goal is a node that has to be zero for every value of the unknowns.  Nodes are expanded to Laurent polynomials with
three kinds of atoms: the unknowns, *cut* nodes (coordinates of points the prover had put into the transcript: they do
not depend on challenges drawn later) and quotients n/d with d not a monomial (kept as atoms q with q*d = n).
Every expansion used is itself handed to the solver as an identity of the recorded graph; residuals that are not
literally zero are decided by the solver as linear entailments over monomials."""
from . import poly as P
from .core import *

class Expander:
    def __init__(self, tr, cut=None):
        self.tr = tr
        self.cut = dict(cut or {})        # node -> atom name
        self.memo = {}
        self.rel = {}                     # quotient atom name -> (num node or None, den node)
        self.used = []

    def expand(self, roots):
        tr = self.tr
        memo = self.memo
        skip = set(self.cut) | set(memo)
        for x in tr.cone(roots, skip):
            if x in memo:
                continue
            if x in self.cut:
                memo[x] = P.var(N(self.cut[x]))
                continue
            n = tr.nodes[x]
            k = n[0]
            if k == 'c':
                memo[x] = P.const(n[1])
            elif k == 'v':
                memo[x] = P.var(N(n[1]))
            elif k == '+':
                memo[x] = P.add(memo[n[1]], memo[n[2]])
            elif k == '-':
                memo[x] = P.neg(memo[n[1]])
            elif k == '*':
                memo[x] = self._mul(x, n[1], n[2])
            else:
                p = memo[n[1]]
                if not p:
                    memo[x] = {}          # the library inverts zero to zero
                elif P.is_mono(p) and not any(N.nm[v].startswith('a#') for v in P.variables(p)):
                    memo[x] = P.mono_inv(p)
                else:
                    memo[x] = ('inv', n[1])
        out = []
        for r in roots:
            p = memo[r]
            if isinstance(p, tuple):
                p = self._invatom(r)
            out.append(p)
        return out

    def _invatom(self, x):
        a = 'I#%d' % x
        self.rel[a] = (None, self.tr.nodes[x][1])
        return P.var(N(a))

    def _mul(self, x, a, b):
        pa, pb = self.memo[a], self.memo[b]
        if isinstance(pa, tuple) and isinstance(pb, tuple):
            return P.mul(self._invatom(a), self._invatom(b))
        if isinstance(pb, tuple):
            a, b, pa, pb = b, a, pb, pa
        if isinstance(pa, tuple):
            if not pb:
                return {}
            d = pa[1]
            q = 'q#%d' % x
            self.rel[q] = (b, d)
            return P.var(N(q))
        return P.mul(pa, pb)

    def _get(self, x):
        p = self.memo[x]
        return self._invatom(x) if isinstance(p, tuple) else p

    def relations(self):
        """polynomials that vanish: q*d - n, I*d - 1"""
        r = {}
        for a, (n, d) in list(self.rel.items()):
            self.expand([d] + ([n] if n is not None else []))
            nn = self._get(n) if n is not None else P.const(1)
            try:
                r[a] = P.sub(P.mul(P.var(N(a)), self._get(d)), nn)
            except P.TooBig:
                pass
        return r

def _den_add(d1, d2):
    r = dict(d1)
    for v, e in d2.items():
        r[v] = max(r.get(v, 0), e)
    return r

def dag_identity(tr, ex, root, p, pre=''):
    """Query text: the recorded graph of `root` (with ex's atoms) differs from the polynomial p.  Monomial denominators
    are cleared on both sides."""
    decl = {}
    defs = []
    nm = {}     # node -> (text, den)
    def times(t, mon):
        fs = [t] + [f for v, e in mon.items() for f in ['|%s|' % v] * e]
        for v in mon:
            decl['|%s|' % v] = 1
        return t if len(fs) == 1 else '(* %s)' % ' '.join(fs)
    qnodes = {}
    stop = set(ex.cut)
    # quotient atoms are leaves too
    for x in ex.memo:
        m = ex.memo[x]
        if not isinstance(m, tuple) and len(m) == 1:
            (mm, c), = m.items()
            if c == 1 and len(mm) == 1 and N.nm[mm[0][0]] == 'q#%d' % x:
                qnodes[x] = 'q#%d' % x
    stop |= set(qnodes)
    for x in tr.cone([root], stop):
        n = tr.nodes[x]
        k = n[0]
        if x in ex.cut or x in qnodes:
            v = '|%s|' % (ex.cut.get(x) or qnodes[x])
            decl[v] = 1
            nm[x] = (v, {})
            continue
        if k == 'v':
            v = '|%s|' % n[1]
            decl[v] = 1
            nm[x] = (v, {})
        elif k == 'c':
            nm[x] = (num(n[1]), {})
        elif k == 'i':
            m = ex.memo[x]
            if isinstance(m, tuple):
                v = '|I#%d|' % x
                decl[v] = 1
                nm[x] = (v, {})
            elif not m:
                nm[x] = ('0.0', {})
            else:
                (mm, c), = m.items()
                up = {N.nm[v]: e for v, e in mm if e > 0}
                dn = {N.nm[v]: -e for v, e in mm if e < 0}
                nm[x] = (times(num(c), up), dn)
        else:
            if k == '-':
                t, d = nm[n[1]]
                e = '(- %s)' % t
            elif k == '*':
                (t1, d1), (t2, d2) = nm[n[1]], nm[n[2]]
                d = dict(d1)
                for v, ee in d2.items():
                    d[v] = d.get(v, 0) + ee
                e = '(* %s %s)' % (t1, t2)
            else:
                (t1, d1), (t2, d2) = nm[n[1]], nm[n[2]]
                d = _den_add(d1, d2)
                e = '(+ %s %s)' % (times(t1, {v: k2 - d1.get(v, 0) for v, k2 in d.items() if k2 > d1.get(v, 0)}),
                                   times(t2, {v: k2 - d2.get(v, 0) for v, k2 in d.items() if k2 > d2.get(v, 0)}))
            y = '%sn%d' % (pre, x)
            defs.append('(define-fun %s () Real %s)' % (y, e))
            nm[x] = (y, d)
    t, d = nm[root]
    # p * den, brought to non-negative exponents
    q = p
    dd = dict(d)
    for m in p:
        for v, e in m:
            if e < 0:
                dd[N.nm[v]] = max(dd.get(N.nm[v], 0), -e)
    extra = {v: e - d.get(v, 0) for v, e in dd.items() if e > d.get(v, 0)}
    mon = tuple(sorted((N(v), e) for v, e in dd.items() if e))
    q = {P.mmul(m, mon): c for m, c in p.items()} if mon else p
    lhs = times(t, extra)
    for m in q:
        for v, e in m:
            decl['|%s|' % N.nm[v]] = 1
    txt = ['(declare-const %s Real)' % v for v in decl] + defs + ['(assert (not (= %s %s)))' % (lhs, poly_smt(q))]
    return '\n'.join(txt)

class Cuts:
    """Absorbed points of a log section in order; coordinates become cut atoms."""
    def __init__(self, tr, log, names=None):
        self.levels = []       # [(number of challenges before, [nodes])]
        self.order = {}        # challenge name -> index
        nch = 0
        seen = set()
        for e in log:
            if e[0] == 'chal':
                nm = tr.varname(e[4])
                if nm is not None and nm not in self.order:
                    self.order[nm] = nch
                    nch += 1
            elif e[0] == 'app':
                nodes = []
                for part in e[3]:
                    if part[0] == 'pt':
                        nodes += list(tr.points[part[1]].values())
                    elif part[0] == 'sc':
                        nodes.append(part[1])
                nodes = [x for x in nodes if tr.nodes[x][0] not in 'cv' and x not in seen]
                seen |= set(nodes)
                if nodes:
                    self.levels.append((nch, nodes))

def norm(p):
    """canonical multiple for deduplication"""
    p = P.content_free(p)
    m0 = min(p)
    c = p[m0]
    if c != 1:
        p = {m: Fraction(x) / c for m, x in p.items()}
        p = {m: (x.numerator if x.denominator == 1 else x) for m, x in p.items()}
    return p

class Proof:
    """prove that nodes are zero; collects solver queries"""
    def __init__(self, tr, cuts, nonzero=()):
        self.tr = tr
        self.cuts = cuts
        self.batch = []
        self.hyps = []      # nodes that are zero on the path taken

    def zero(self, goals, timeout=60):
        """goals: [(label, node)].  Returns [] or the list of (label, residual polynomial)."""
        tr = self.tr
        levels = self.cuts.levels if self.cuts else []
        order = self.cuts.order if self.cuts else {}
        goals = [(l, g) for l, g in goals if g != 0]
        if not goals:
            return []
        nl = len(levels)
        exps = [None] * (nl + 1)
        def ex(k):
            """expander that keeps the first k levels as atoms"""
            if exps[k] is None:
                cut = {}
                for _, ns in levels[:k]:
                    for x in ns:
                        cut.setdefault(x, 'a#%d' % x)
                exps[k] = Expander(tr, cut)
            return exps[k]
        e = ex(nl)
        roots = [g for _, g in goals]
        ps = e.expand(roots)
        smt = Smt()
        done = set()
        for (l, g), p in zip(goals, ps):
            if g not in done:
                done.add(g)
                smt.add(dag_identity(tr, e, g, p), l, True)
        work = [(l, p) for (l, g), p in zip(goals, ps) if p]
        for k in range(nl, -1, -1):
            if not work:
                break
            # challenges drawn after the last absorbed level still present
            late = {N(c) for c, i in order.items() if i >= (levels[k - 1][0] if k else 0)}
            uniq = {}
            for l, p in work:
                for g, q in P.group_by(p, late).items():
                    if q:
                        uniq.setdefault(frozenset(norm(q).items()), (l, q))
            work = list(uniq.values())
            work = self.entail(work, [ex(j) for j in range(k, nl + 1) if exps[j] is not None], timeout, ex(k))
            if k == 0:
                work = self.multiplied_out(work, timeout)
            if not work or k == 0:
                break
            # open level k-1: replace its atoms
            e = ex(k - 1)
            ns = levels[k - 1][1]
            atoms = {N('a#%d' % x): x for x in ns}
            nxt = []
            for l, p in work:
                vs = [v for v in P.variables(p) if v in atoms]
                # quotient atoms whose definition mentions the opened atoms stay as they are: same quotient, new text
                for v in vs:
                    x = atoms[v]
                    px, = e.expand([x])
                    if x not in done:
                        done.add(x)
                        smt.add(dag_identity(tr, e, x, px), 'def', True)
                    p = P.subst(p, v, px)
                if p:
                    nxt.append((l, p))
            work = nxt
        res = smt.run(timeout)
        bad = [(l, r) for (t, l), r in zip(smt.q, res) if r != 'unsat']
        if any(r == 'sat' for _, r in bad):
            raise CheckError('internal: expansion of %s disagrees with the recorded graph' % bad[0][0])
        if bad:
            STATS['unconfirmed'] = STATS.get('unconfirmed', 0) + len(bad)
        STATS['goals'] = STATS.get('goals', 0) + len(goals)
        return work

    def multiplied_out(self, work, timeout):
        """drop the goals that vanish once every quotient is written as numerator over denominator"""
        isq = lambda v: N.nm[v][:2] in ('q#', 'I#')
        out = []
        s = Smt()
        cand = []
        for l, p in work:
            p, _ = P.clear_neg(p)
            qs = [v for v in sorted(P.variables(p)) if isq(v)]
            frac = {v: ratio(self.tr, [int(N.nm[v][2:])], 3000)[0] for v in qs}
            if not qs or any(f is None or not f[1] for f in frac.values()) or any(N.nm[v].startswith('a#') for v in P.variables(p)):
                out.append((l, p))
                continue
            top = {v: max(dict(m).get(v, 0) for m in p) for v in qs}
            decl = {w for v in qs for f in frac[v] for w in P.variables(f)} | {v for v in P.variables(p) if v not in frac}
            defs = ['(define-fun |%s%s| () Real %s)' % (x, N.nm[v], poly_smt(f)) for v in qs for x, f in zip('ND', frac[v])]
            ts = []
            for m, c in p.items():
                fs = [num(c)]
                d = dict(m)
                for v, e in m:
                    fs += [('|N%s|' if v in frac else '|%s|') % N.nm[v]] * e
                for v in qs:
                    fs += ['|D%s|' % N.nm[v]] * (top[v] - d.get(v, 0))
                ts.append('(* %s)' % ' '.join(fs) if len(fs) > 1 else fs[0])
            t = '\n'.join(['(declare-const |%s| Real)' % N.nm[v] for v in sorted(decl)] + defs +
                          ['(assert (not (= (+ 0.0 %s) 0.0)))' % ' '.join(ts)])
            s.add(t, l, True)
            cand.append((l, p))
        for (l, p), r in zip(cand, s.run(min(timeout, 20))):
            if r != 'unsat':
                out.append((l, p))
        return out

    def entail(self, work, exs, timeout, cur=None):
        """drop the goals that follow from the quotient relations"""
        rels = {}
        for e in exs:
            for a, r in e.relations().items():
                rels.setdefault((a, frozenset(r.items())), r)
        hy0 = []
        if self.hyps and exs:
            e = cur or exs[0]
            hy0 = [h for h in e.expand(self.hyps) if h]
            for e in exs:
                for a, r in e.relations().items():
                    rels.setdefault((a, frozenset(r.items())), r)
        if not (rels or hy0) or not work:
            return work
        allr = list(rels.values())
        # coordinates that are open again at this level
        for v in sorted({v for r in allr for v in P.variables(r)}):
            nm = N.nm[v]
            if cur is not None and nm.startswith('a#') and int(nm[2:]) not in cur.cut:
                px, = cur.expand([int(nm[2:])])
                allr = [P.subst(r, v, px) if v in P.variables(r) else r for r in allr]
        # a factor common to denominator and numerator is not zero where the denominator is not
        rem = set()
        def red(r):
            f = {v: e for v, e in P.content(r).items() if N.nm[v][:2] not in ('q#', 'I#')}
            rem.update(f)
            return P.mul(r, {tuple(sorted((v, -e) for v, e in f.items())): 1}) if f else r
        allr = [red(r) for r in allr] + hy0
        qv = sorted({v for r in allr for v in P.variables(r) if N.nm[v][:2] in ('q#', 'I#')})
        out = []
        s = Smt()
        for l, p in work:
            vs = P.variables(p)
            if not hy0 and not any(N.nm[v][:2] in ('q#', 'I#') for v in vs):
                s.add('(assert true)', l)
                continue
            hy = []
            mults = [()]
            for i, v in enumerate(qv):
                mults.append(((v, 1),))
                for w in qv[i:]:
                    mults.append(P.mmul(((v, 1),), ((w, 1),)))
            mults += [P.mmul(m, ((f, 1),)) for f in sorted(rem) for m in list(mults)]
            for r in allr:
                for m in mults:
                    hy.append(P.mul(r, {m: 1}))
            s.add(lra_entails(hy, p), l)
        res = s.run(timeout)
        for (l, p), r in zip(work, res):
            if r != 'unsat':
                out.append((l, p))
        return out

def ratio(tr, roots, limit=60000, cut=None):
    """nodes as quotients of polynomials: [(numerator, denominator)] (None where too large)"""
    memo = {}
    def add(a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return P.add(n1, n2), d1
        return P.add(P.mul(n1, d2, limit), P.mul(n2, d1, limit)), P.mul(d1, d2, limit)
    cut = cut or {}
    for x in tr.cone(roots, cut):
        if x in cut:
            memo[x] = (P.var(N(cut[x])), P.const(1))
            continue
        n = tr.nodes[x]
        k = n[0]
        try:
            if k == 'c':
                r = (P.const(n[1]), P.const(1))
            elif k == 'v':
                r = (P.var(N(n[1])), P.const(1))
            elif k == '+':
                r = add(memo[n[1]], memo[n[2]]) if memo[n[1]] and memo[n[2]] else None
            elif k == '-':
                r = (P.neg(memo[n[1]][0]), memo[n[1]][1]) if memo[n[1]] else None
            elif k == '*':
                a, b = memo[n[1]], memo[n[2]]
                r = (P.mul(a[0], b[0], limit), P.mul(a[1], b[1], limit)) if a and b else None
            else:
                a = memo[n[1]]
                r = None if a is None else ((a[1], a[0]) if a[0] else ({}, P.const(1)))
        except P.TooBig:
            r = None
        memo[x] = r
    return [memo[r] for r in roots]
