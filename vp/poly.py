"""Sparse Laurent polynomials over Q.  A polynomial is a dict  monomial -> coefficient,
a monomial is a sorted tuple of (variable id, exponent) pairs, exponents may be negative.
Coefficients are int or Fraction."""
from fractions import Fraction

class TooBig(Exception):
    pass

LIMIT = 400000

def const(c):
    return {(): c} if c else {}

def var(v, e=1):
    return {((v, e),): 1}

def add(p, q):
    if len(p) < len(q):
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = s
            else:
                del r[m]
    return r

def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: c * k for m, c in p.items()}

def neg(p):
    return {m: -c for m, c in p.items()}

def sub(p, q):
    return add(p, neg(q))

_cache = {}

def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] < y[0]:
            r.append(x)
            i += 1
        elif x[0] > y[0]:
            r.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            if e:
                r.append((x[0], e))
            i += 1
            j += 1
    if i < la:
        r.extend(a[i:])
    if j < lb:
        r.extend(b[j:])
    return tuple(r)

def mul(p, q, limit=None):
    if not p or not q:
        return {}
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return scale(q, c)
        return {mmul(m, n): c * d for n, d in q.items()}
    lim = limit or LIMIT
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            s = r.get(k)
            if s is None:
                r[k] = c * d
            else:
                r[k] = s + c * d
        if len(r) > lim:
            raise TooBig()
    return {m: c for m, c in r.items() if c}

def mono_inv(p):
    """inverse of a single-term polynomial"""
    (m, c), = p.items()
    return {tuple((v, -e) for v, e in m): (c if c in (1, -1) else Fraction(1) / c)}

def is_mono(p):
    return len(p) == 1

def variables(p):
    s = set()
    for m in p:
        for v, _ in m:
            s.add(v)
    return s

def subst(p, v, q, limit=None):
    """replace variable v by polynomial q (v must occur with exponent >= 0, or q a monomial)"""
    r = {}
    pw = {0: const(1)}
    def power(e):
        if e in pw:
            return pw[e]
        if e < 0:
            if not is_mono(q):
                raise ValueError('negative power')
            x = const(1)
            i = mono_inv(q)
            for _ in range(-e):
                x = mul(x, i)
        else:
            x = mul(power(e - 1), q, limit)
        pw[e] = x
        return x
    groups = {}
    for m, c in p.items():
        e = 0
        rest = m
        for k, (w, ee) in enumerate(m):
            if w == v:
                e = ee
                rest = m[:k] + m[k + 1:]
                break
        groups.setdefault(e, {})[rest] = c
    for e, g in groups.items():
        r = add(r, mul(g, power(e), limit))
        if len(r) > (limit or LIMIT):
            raise TooBig()
    return r

def group_by(p, vs):
    """split p = sum_k  mono_k(vs) * g_k(rest)"""
    out = {}
    for m, c in p.items():
        a = tuple(x for x in m if x[0] in vs)
        b = tuple(x for x in m if x[0] not in vs)
        out.setdefault(a, {})[b] = c
    return out

def clear_neg(p):
    """multiply by a monomial so that all exponents are >= 0; returns (p', monomial)"""
    mins = {}
    for m in p:
        for v, e in m:
            if e < mins.get(v, 0):
                mins[v] = e
    if not mins:
        return p, ()
    mm = tuple(sorted((v, -e) for v, e in mins.items()))
    return {mmul(m, mm): c for m, c in p.items()}, mm

def content_free(p):
    """divide by the common monomial factor"""
    if not p:
        return p
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            for v in list(common):
                e = d.get(v, 0)
                x = common[v]
                y = min(x, e)
                if y == 0:
                    del common[v]
                else:
                    common[v] = y
        # variables absent from the running common but negative are left alone
        if not common:
            return p
    mm = tuple(sorted((v, -e) for v, e in common.items()))
    return {mmul(m, mm): c for m, c in p.items()}

def content(p):
    """common monomial factor (non-negative powers) as {variable: exponent}"""
    c = None
    for m in p:
        d = dict(m)
        c = d if c is None else {v: min(e, d[v]) for v, e in c.items() if v in d}
    return {v: e for v, e in (c or {}).items() if e > 0}
