"""The checks, one per property."""
import itertools
from .generic import *
from .sound import *
from .quad import *
from .hiding import *
from . import core, kmap

CHECKS = {}
def check(pid, functions, bounds, assumptions=()):
    def deco(f):
        CHECKS[pid] = (f, functions, bounds, list(assumptions))
        return f
    return deco

IDEAL = ['dlog: the generators are treated as having unknown, independent discrete logarithms (group elements are '
         'formal combinations of them)',
         'merlin transcripts are ideal: a challenge is a fresh unknown determined by everything absorbed before it',
         'scalars are elements of a field of characteristic zero in the symbolic runs; every reported violation is '
         'replayed modulo the real group order']

F_IPA = ['ipa::no_zk::create', 'ipa::no_zk::NoZK::verify', 'math_utils::inner_product', 'transcript::challenge_scalar']
F_ALM = F_IPA + ['ipa::alm_zk::create', 'ipa::alm_zk::AlmZK::verify', 'ipa::gramschmidt::sample_gram_schmidt',
                 'ipa::gramschmidt::sample_gram_schmidt_twice', 'ipa::gramschmidt::orth']
F_QESA = F_ALM + ['ipa::qesa_inner::create', 'ipa::qesa_inner::Inner::verify', 'qesa_zk::create', 'qesa_zk::Zk::verify',
                  'matrix::BlockMatrix::block_matrix_batch', 'matrix::matrix_vector_mul', 'matrix::matrix_transpose',
                  'matrix::matrix_matrix_add', 'matrix::row_row_add', 'matrix::row_row_sub', 'math_utils::vandemonde_challenge']
F_COPY = F_QESA + ['copy::copy::create', 'copy::copy::Copy::verify', 'copy::mapping::compute_mapping']
F_LM = ['lmpa::no_zk::create', 'lmpa::no_zk::NoZK::verify']
F_KLM = ['lmpa::no_zk::create_lmpa_noZK', 'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK', 'matrix::matrix_split',
         'matrix::vandemonde_vector']
F_SZK = F_LM + F_KLM + ['lmpa::simple_zk::create', 'lmpa::simple_zk::SimpleZK::verify', 'lmpa::simple_zk::create_general',
                        'lmpa::simple_zk::SimpleZK_general::verify_general']

def ipa(n, **k): return dict(proto='ipa', n=n, **k)
def alm(n, **k): return dict(proto='alm', n=n, **k)
def qesa(n, b, **k): return dict(proto='qesa', n=n, blocks=b, **k)
def zk(n, b, **k): return dict(proto='zk', n=n, blocks=b, **k)
def cp(n, b, ws, sets, **k): return dict(proto='copy', n=n, blocks=b, ws=ws, sets=sets, **k)
def lm(n, m, **k): return dict(proto='lmpa', n=n, m=m, **k)
def klm(n, m, k, **kw): return dict(proto='klmpa', n=n, m=m, k=k, **kw)
def szk(n, m, **k): return dict(proto='szk', n=n, m=m, **k)
def gzk(n, m, k, **kw): return dict(proto='gzk', n=n, m=m, k=k, **kw)

# ------------------------------------------------------------------ building blocks
class Steps:
    """run independent steps; an undecided one does not hide a violation found by another"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.err = []
        self.late = 0
        self.steps = 0
    def __call__(self, f, *a, **k):
        if len(self.ctx.viol) >= 4 or self.ctx.viol and time.time() - core.T0 > 60:
            return None
        if not self.ctx.thorough and time.time() - core.T0 > 600:
            self.late += 1
            return None
        self.steps += 1
        try:
            return f(*a, **k)
        except CheckError as e:
            self.err.append(str(e))
        except Exception as e:
            import traceback
            traceback.print_exc()
            self.err.append('%s: %s in %s%s' % (type(e).__name__, e, getattr(f, '__name__', f), a[1:2]))
        return None
    def done(self):
        if self.late:
            self.ctx.note('out of time: the last %d steps were not explored' % self.late)
        if self.err and not self.ctx.viol and len(self.err) * 5 > self.steps:
            raise CheckError('; '.join(self.err[:5]))
        for e in self.err:
            self.ctx.undecided.append(e)

def leaves(par):
    """proof elements; {kind} s scalar, c compressed point, p point"""
    return paths(par)

def erase_all(ctx, S, par):
    for l, k in paths(par)[0]:
        S(erase, ctx, par, l)

def tamper_all(ctx, S, par, pubs=(), nz=()):
    """alter every proof element, and the public inputs whose name starts with one of `pubs`"""
    lv, _, pb = paths(par)
    for l, k in lv:
        S(tamper, ctx, par, l, k)
    for l, k in pb:
        if l.split('.')[0] in pubs:
            S(tamper, ctx, par, 'pub/' + l, k, ('delta',) + tuple(nz))

def fs_all(ctx, S, par, claims=()):
    if par['proto'] == 'ipa' and par['n'] == 1:
        return # the proof is the final message alone, sent after the only challenge
    lv, _, pb = paths(par)
    for l, k in lv:
        S(fs_one, ctx, par, l, k)
    for l, k in pb:
        if l.split('.')[0] in claims:
            S(fs_one, ctx, par, 'pub/' + l, k, True)

def fs_one(ctx, par, path, kind, claim=False):
    same, allowed, pc, vc, nm = fs_leaf(ctx, par, path, kind, claim)
    if len(same) <= allowed:
        ctx.ok('challenges depend on %s' % nm, '%d of %d challenges differ' % (len(vc) - len(same), len(vc)))
        return
    key = '%s:fs:%s' % (par['proto'], re.sub(r'\d+', '*', path))
    j = dict(par=dict(par, mode='tamper', path=path, bind=1, seed=ctx.rng.randrange(1, 10**6)))
    r = real([j])[0]
    # the same challenge in the real run
    on, p, v = None, set(), []
    for e in r.log:
        if e[0] == 'mark':
            on = e[1]
        if e[0] == 'chal':
            if on == 'prove':
                p.add(e[3])
            elif on == 'verify':
                v.append(e[3])
    if len([x for x in v if x in p]) <= allowed:
        raise CheckError('%s: a challenge ignores it in the encoding, not in the real run' % nm)
    ctx.violation(key, 'challenge %s does not change when %s, sent before it, changes' % (same[allowed], nm), [j], 'same challenge')

def shapes(ctx, S, par, invalid=True, few=False):
    lv, vc, _ = paths(par)
    for w in ('cut', 'dup', 'empty') if few else ('cut', 'dup', 'empty', 'half', 'twice', 'more64', 'to64', 'to32'):
        for l, k in vc:
            S(shape, ctx, par, l, w)
    # all vectors at the same place of a vector of vectors
    groups = {}
    vc = [] if few else vc
    for l, k in vc:
        groups.setdefault(re.sub(r'\d+', '*', l), []).append(l)
        groups.setdefault(len(re.findall(r'\d+', l)), []).append(l)
    for g in {tuple(g): 1 for g in groups.values()}:
        if len(g) > 1:
            for w in ('cut', 'dup', 'empty', 'twice', 'more64'):
                S(shape, ctx, par, '+'.join(g), w)
    # two vectors damaged together, each in its way; all of them alike
    vs = [l for l, k in vc]
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            for w in itertools.product(('cut', 'dup', 'empty'), repeat=2):
                S(shape, ctx, par, '%s=%s+%s=%s' % (a, w[0], b, w[1]), 'damaged')
    if len(vs) > 2:
        for w in ('cut', 'dup', 'empty'):
            S(shape, ctx, par, '+'.join(vs), w)
    if invalid:
        for l, k in lv:
            if k == 'c':
                S(shape, ctx, par, l, 'invalid')

def resized_all(ctx, S, par, deep=True):
    """every vector of the statement, alone, two together, and all at the same place"""
    vc = [l for l, k in public_vectors(par)]
    todo = [('pub/' + l, w) for l in vc for w in ('cut', 'dup', 'empty', 'half', 'twice')]
    groups = {}
    for l in vc:
        groups.setdefault(re.sub(r'\d+', '*', l), []).append(l)
        groups.setdefault(len(re.findall(r'\d+', l)), []).append(l)
    for g in {tuple(g): 1 for g in groups.values()}:
        if len(g) > 1:
            todo += [('+'.join('pub/' + x for x in g), w) for w in ('cut', 'dup', 'half', 'twice')]
    top = [l for l in vc if not re.search(r'\d', l)]
    for a, b in itertools.combinations(top, 2):
        todo += [('pub/%s=%s+pub/%s=%s' % (a, x, b, y), 'resized') for x in ('cut', 'dup') for y in ('cut', 'dup')]
    for l, w in todo:
        S(resized, ctx, par, l, w)
    n, m, k = par['n'], par.get('m'), par.get('k')
    if par['proto'] in ('ipa', 'alm', 'lmpa', 'klmpa', 'szk', 'gzk'):
        for x in sorted({n - 1, n + 1, n // 2, 2 * n} - {0, n}):
            S(declared, ctx, par, vn=x)
    if par['proto'] in ('klmpa', 'gzk'):
        for x in sorted({m - 1, m + 1, 0}):
            if x != m:
                S(declared, ctx, par, vm=x)
        for x in (2, 3, 4, 5):
            if x != k:
                S(declared, ctx, par, vk=x)

# ---- special inputs: the code asks whether something vanishes; where some input makes it vanish, that path is taken
def complete(ctx, par, val=None, depth=2, budget=None, points=False):
    """points: also where a group element the prover sends becomes the identity"""
    budget = budget if budget is not None else [14]
    tr = honest(ctx, par, val)
    if depth == 0:
        return
    seen = set()
    ch = free_vars(tr)
    cand = []
    for e in tr.section('prove', 'proved' if points else None):
        if e[0] == 'dec' and not e[4] and e[3]:
            cand.append(e[3])
        elif points and e[0] == 'app':
            cand += [sorted(set(tr.points[x[1]].values()) - {0}) for x in e[3] if x[0] == 'pt']
    for k in cand:
        k = tuple(k)
        if k in seen or not k:
            continue
        seen.add(k)
        m, coefs = cant_vanish(tr, k, [])
        if m is None or coefs is None:
            continue
        sub = solve_vals(coefs, m)
        if sub is None:
            continue
        if budget[0] <= 0:
            ctx.note('more special inputs than explored: ' + jname(par))
            return
        budget[0] -= 1
        v2 = dict(val or {})
        v2.update(sub)
        complete(ctx, par, v2, depth - 1, budget, points)

def zeros(*names):
    return {n: '0' for n in names}
def vec0(t, n):
    return {'%s%d' % (t, i): '0' for i in range(n)}

# ------------------------------------------------------------------ P01 - P04
@check('P01', F_IPA, 'every vector length listed in the samples (powers of two up to 256 quick, 512 thorough); all values',
       IDEAL)
def p01(ctx, S):
    S(complete, ctx, ipa(4, warm=1, pre=1))
    for n in ctx.q([1, 2, 4, 8, 16, 32, 64, 128, 256], [1, 2, 4, 8, 16, 32, 64, 128, 256, 512]):
        S(complete, ctx, ipa(n))
    for n in ctx.q([1, 2, 4, 8], [1, 2, 4, 8, 16]):
        S(complete, ctx, ipa(n), points=True)
    for n in ctx.q([1, 2, 4], [1, 2, 4, 8, 16]):
        S(complete, ctx, ipa(n), vec0('b', n))
        S(complete, ctx, ipa(n), vec0('a', n))
        S(complete, ctx, ipa(n), {'b%d' % i: 'a%d' % i for i in range(n)})
        if n > 1:
            S(complete, ctx, ipa(n), dict([('a0', '(* b1 u)'), ('a1', '(- 0 (* b0 u))')] + [('a%d' % i, '0') for i in range(2, n)]))
            S(complete, ctx, ipa(n), {'a%d' % i: '0' for i in range(n // 2)})
            S(complete, ctx, ipa(n), {'b%d' % i: '0' for i in range(n // 2, n)})

@check('P02', F_IPA, 'extraction at n = 1, 2, 4, 8; tampering and input dependence at the sizes in the samples', IDEAL)
def p02(ctx, S):
    for n in ctx.q([1, 2, 4, 8], [1, 2, 4, 8]):
        S(extract, ctx, ipa(n, bind=0), ar(2), ipa_goals(n), 'acceptance implies P = <a,G>+<b,H>+tQ with t=<a,b>')
    for n in ctx.q([1, 2, 8, 32, 128], [1, 2, 4, 8, 16, 32, 64, 128, 256]):
        tamper_all(ctx, S, ipa(n, bind=0), ('P', 't'))
        fs_all(ctx, S, ipa(n))
    tamper_all(ctx, S, ipa(4, bind=0, pre=1, warm=1), ('P', 't'))

@check('P03', F_ALM, 'vector lengths 2..64 (quick), 2..128 (thorough); all values whose Gram-Schmidt denominators do not vanish', IDEAL)
def p03(ctx, S):
    S(complete, ctx, alm(4, warm=1, pre=1))
    for n in ctx.q([2, 4], [2, 4]):
        S(complete, ctx, alm(n), points=True)
    for n in ctx.q([2, 4, 8, 16, 32, 64], [2, 4, 8, 16, 32, 64, 128]):
        S(complete, ctx, alm(n))
    for n in ctx.q([4], [4, 8, 16]):
        S(complete, ctx, alm(n), vec0('b', n))
        S(complete, ctx, alm(n), vec0('a', n))
        S(complete, ctx, alm(n), dict(vec0('a', n), **vec0('b', n)))
        S(complete, ctx, alm(n), {'b%d' % i: 'a%d' % i for i in range(n)})
        S(complete, ctx, alm(n), {'b%d' % i: '(* u a%d)' % i for i in range(n)})
        S(complete, ctx, alm(n), {'a%d' % i: '0' for i in range(n // 2)})

@check('P04', F_ALM, 'extraction at n = 2, 4; tampering and input dependence at the sizes in the samples', IDEAL)
def p04(ctx, S):
    for n in ctx.q([2, 4], [2, 4]):
        S(extract, ctx, alm(n, bind=0), ar(3, 2), alm_goals(n), 'acceptance implies C_w = <a,G>+<b,H> with t=<a,b>')
    for n in ctx.q([2, 4, 8, 32], [2, 4, 8, 16, 32, 64]):
        tamper_all(ctx, S, alm(n, bind=0), ('C_w', 't'))
        fs_all(ctx, S, alm(n))
    tamper_all(ctx, S, alm(4, bind=0, pre=1, warm=1), ('C_w', 't'))

# ------------------------------------------------------------------ P07 - P11
QSP = lambda n, b: [vec0('w', n - 2), {'g%d_%d_%d' % (k, i, j): '0' for k in range(b) for i in range(n - 2) for j in range(n - 2)},
                    {'w%d' % i: '1' for i in range(n - 2)},
                    {'g%d_%d_%d' % (k, i, j): '(- 0 g%d_%d_%d)' % (k, j, i) for k in range(b) for i in range(n - 2) for j in range(i)}]

@check('P07', F_QESA, 'n = 4..16 (quick), ..32 (thorough), 0..17 (thorough 40) equations as listed; all witnesses and all satisfied systems', IDEAL)
def p07(ctx, S):
    S(complete, ctx, zk(4, 2, warm=1, pre=1))
    for par in ctx.q([zk(4, 1)], [zk(4, 1), zk(4, 2), qesa(4, 1), zk(8, 1)]):
        S(complete, ctx, par, points=True)
    for n, b in ctx.q([(4, 0), (4, 1), (4, 2), (4, 5), (4, 17), (8, 0), (8, 1), (8, 3), (16, 1)], [(4, 0), (4, 1), (4, 2), (4, 3), (4, 5), (4, 9), (4, 40), (8, 17), (8, 1), (8, 2), (8, 3), (8, 9), (16, 1), (16, 2)]):
        S(complete, ctx, zk(n, b))
    for n, b in ctx.q([(4, 1), (8, 2)], [(4, 1), (4, 3), (8, 1), (8, 2), (16, 1)]):
        S(complete, ctx, qesa(n, b))
    for n, b in ctx.q([(4, 1), (8, 1)], [(4, 1), (4, 2), (8, 1), (8, 2)]):
        for v in QSP(n, b):
            S(complete, ctx, zk(n, b), v)

@check('P08', F_QESA, 'n = 4, 8, 16, number of equations as listed (also more equations than generators); tampering likewise', IDEAL)
def p08(ctx, S):
    for n, b in ctx.q([(4, 0), (4, 1), (4, 2), (4, 3), (4, 5), (4, 12), (8, 1), (8, 2), (8, 9), (16, 1)], [(4, 0), (4, 1), (4, 2), (4, 3), (4, 4), (4, 5), (4, 6), (4, 12), (8, 1), (8, 2), (8, 3), (8, 9), (16, 1), (16, 3)]):
        par = zk(n, b, anygamma=1, bind=0)
        S(quad_sound, ctx, par, qesa_goals(par), qesa_mults(par), lambda e, b=b: [b + 1] * e, 'acceptance implies the committed witness satisfies every equation')
    for n, b in ctx.q([(4, 2), (8, 1), (16, 2)], [(4, 1), (4, 2), (4, 5), (4, 8), (8, 1), (8, 2), (8, 5), (16, 2)]):
        tamper_all(ctx, S, zk(n, b, bind=0), ('gamma',) if n == 4 else (), ['w%d' % i for i in range(1, n - 2)])
    for n, b in ctx.q([(4, 2), (8, 1)], [(4, 1), (4, 2), (8, 1), (8, 2), (16, 1)]):
        fs_all(ctx, S, zk(n, b))
        fs_all(ctx, S, qesa(n, b))
    tamper_all(ctx, S, zk(4, 2, bind=0, pre=1, warm=1), ('gamma',), ['w1'])

COPYQ = [(8, 1, 2, 'none'), (8, 1, 2, ''), (8, 1, 2, '2'), (8, 1, 2, '2;3'), (8, 2, 1, '2,4'), (8, 1, 2, ';3'), (16, 1, 2, '4,6;5'), (16, 1, 6, '8;8,9'), (16, 1, 2, '4;5;6;7'), (16, 1, 2, '4,6,8;5,6'), (16, 1, 1, '3,4,5,6,7'),
         (4, 1, 2, 'none'), (4, 3, 2, ';'), (8, 0, 1, '1;2'), (8, 2, 6, ''), (8, 9, 1, '2'), (8, 1, 1, '2;;;;;;;;;;3'), (8, 0, 2, ';')]
COPYT = COPYQ + [(16, 1, 1, '3;3;3;3;3;3;3'), (16, 0, 1, '9,10,11,12,13'), (8, 17, 1, ''), (32, 1, 2, '3;4;5;6;7;8;9;10;11;12;13;14;15'), (16, 1, 1, '1;2;3;4;5'), (8, 1, 2, '2;'), (8, 1, 1, '2;;3'), (8, 1, 2, ';'), (8, 3, 3, '3'), (8, 1, 1, '1;2'), (16, 2, 4, '5,6,7;9'), (16, 1, 3, '2,12;13;1'), (32, 1, 8, '10,12,14;11;16')]

@check('P10', F_COPY, 'the statement shapes in the samples (n = 8, 16, thorough 32); all messages, witnesses, blinders and systems', IDEAL)
def p10(ctx, S):
    S(complete, ctx, cp(8, 1, 2, '2;3', warm=1, pre=1))
    for n, b, ws, s in ctx.q(COPYQ[1:3], COPYT[:4]):
        S(complete, ctx, cp(n, b, ws, s), points=True)
    for n, b, ws, s in ctx.q(COPYQ, COPYT):
        S(complete, ctx, cp(n, b, ws, s))
    for n, b, ws, s in ctx.q(COPYQ[3:4], COPYT[1:6]):
        ns = [len(x) for x in psets(s)]
        S(complete, ctx, cp(n, b, ws, s), {'m%d_%d' % (i, j): '0' for i, k in enumerate(ns) for j in range(k)})
        S(complete, ctx, cp(n, b, ws, s), {'cr%d' % i: '0' for i in range(len(ns))})
        if len(ns) > 1:
            S(complete, ctx, cp(n, b, ws, s), {'m%d_0' % i: 'm0_0' for i in range(1, len(ns)) if ns[i]})

@check('P11', F_COPY, 'the statement shapes in the samples (n = 8, 16); tampering likewise', IDEAL)
def p11(ctx, S):
    for n, b, ws, s in ctx.q([(8, 1, 2, 'none'), (8, 1, 2, ''), (8, 1, 2, '2'), (8, 1, 2, '2;3'), (8, 2, 1, '2,4'), (8, 9, 1, '2,4'), (8, 1, 3, '3;3'), (8, 1, 2, ';3'), (16, 1, 2, '4,6;5'),
                              (16, 1, 2, '4;5;6;7'), (16, 1, 2, '4,6,8;5,6'), (16, 1, 1, '3,4,5,6,7'), (4, 1, 2, 'none'), (4, 3, 2, ';'), (8, 0, 1, '1;2'), (8, 2, 6, ''), (8, 1, 1, '2;;;;;;;;;;3')],
                             [(8, 1, 2, 'none'), (8, 3, 2, ''), (8, 1, 2, ';'), (8, 1, 2, '2'), (8, 1, 2, '2;3'), (8, 2, 1, '2,4'), (8, 9, 1, '2,4'), (8, 1, 3, '3;3'), (8, 1, 2, ';3'), (8, 1, 2, '2;'), (8, 1, 3, '2,3;3'), (8, 1, 1, '2;4;2'), (16, 1, 2, '4,6;5'),
                              (16, 1, 2, '4;5;6;7'), (16, 1, 2, '4,6,8;5,6'), (16, 1, 1, '3,4,5,6,7'), (16, 1, 1, '1;2;3;4;5'), (4, 1, 2, 'none'), (4, 3, 2, ';'), (8, 0, 1, '1;2'), (8, 2, 6, ''),
                              (8, 1, 1, '2;;;;;;;;;;3'), (16, 0, 1, '9,10,11,12,13'), (16, 1, 1, '3;3;3;3;3;3;3')]):
        par = cp(n, b, ws, s, anygamma=2, bind=0)
        S(quad_sound, ctx, par, copy_goals(par), copy_mults(par),
          lambda e, b=b, s=s: [len(psets(s)) + 1, b + 1 + 2 * len({i for t in psets(s) for i in t})][:e],
          'acceptance implies every equation and every committed message is in the witness')
    for n, b, ws, s in ctx.q([(8, 1, 2, 'none'), (8, 1, 2, ''), (8, 1, 2, '2;3'), (16, 1, 2, '4,6;5')], [(8, 1, 2, 'none'), (8, 2, 2, ';'), (8, 1, 2, '2;3'), (8, 2, 1, '2,4'), (16, 1, 2, '4,6;5'), (16, 2, 4, '5,6,7;9')]):
        tamper_all(ctx, S, cp(n, b, ws, s, bind=0), ('comms',))
    for n, b, ws, s in ctx.q([(8, 1, 2, '2;3')], [(8, 1, 2, '2;3'), (8, 2, 1, '2,4'), (16, 1, 2, '4,6;5')]):
        fs_all(ctx, S, cp(n, b, ws, s))
    tamper_all(ctx, S, cp(8, 1, 2, '2;3', bind=0, pre=1, warm=1), ('comms',))

F_MAP = ['copy::mapping::compute_mapping']
MAPA = ['std::collections::BTreeSet and Vec are replaced by array models with the documented behaviour (rs/kmap); counterexamples '
        'are replayed with the real ones', 'panics are the refusal; the dev profile (overflow checks on) is modelled']
MQ = [((), 6), ((0,), 6), ((0, 0), 6), ((1,), 8), ((2,), 8), ((1, 1), 8), ((2, 1), 6), ((1, 2), 6), ((0, 1), 6), ((1, 1, 1), 6), ((3,), 6)]
MT = MQ + [((1, 0, 1), 6), ((2, 2), 7), ((3, 1), 7), ((1, 1, 1, 1), 7), ((2,), 16), ((1, 1), 16)]
@check('P12', F_MAP, 'the listed numbers of messages per commitment (up to 3, thorough 4 in all); every number of generators and every '
       'witness size with at most 6-8 (thorough 16) positions between them, all 16-bit indices', MAPA)
def p12(ctx, S):
    kmap.sweep(ctx, S, 'holds', ctx.q(MQ, MT), ctx.q(600, 3000))

@check('P13', F_MAP, 'the listed numbers of messages per commitment; every number of generators (64 bit) and witness size, with at '
       'most 6-8 (thorough 16) positions between them, all 16-bit indices', MAPA)
def p13(ctx, S):
    kmap.sweep(ctx, S, 'refused', ctx.q(MQ, MT), ctx.q(600, 3000))

# ------------------------------------------------------------------ P14, P25
F_MAT = ['matrix::' + f for f in ('matrix_scalar_mul matrix_scalar_mul_general matrix_vector_mul matrix_vector_mul_general '
         'vector_scalar_mul_general row_row_add row_row_sub row_row_add_general matrix_matrix_add matrix_matrix_add_general '
         'matrix_transpose matrixpoint_scalar_mul matrixpoint_vector_mul vectorpoint_scalar_mul rowpoint_rowpoint_add '
         'matrixpoint_matrix_add matrixpoint_transpose matrix_split vandemonde_vector vandemonde_vector_general '
         'vandemonde_matrix rand_matrix BlockMatrix::block_matrix_batch').split()] + ['math_utils::inner_product', 'math_utils::vandemonde_challenge']
CMQ = [(4, '2'), (8, '2,3,5'), (8, '6,3;3,6;3,6;4'), (8, '0,1,7'), (16, '2,5,9,13;2,5,9,13'), (300, '2,255,256,290')]
@check('P14', ['copy::mapping::commit', 'lmpa::simple_zk::pedersen_commit'],
       'index sets and generator counts as listed (up to 5 indices of 300 generators); all messages, blinders and generators', IDEAL[:1])
def p14(ctx, S):
    S(computes, ctx, dict(proto='commit', n=8, sets='2,3,5;2,3,5', warm=1), 'commitments are the textbook sums')
    for n, s in ctx.q(CMQ, CMQ + [(32, '0,2,7,19,30;1,30'), (32, '31'), (64, ','.join(str(i) for i in range(2, 62)))]):
        S(computes, ctx, dict(proto='commit', n=n, sets=s), 'commitments are the textbook sums')
        if n <= 8:
            k = [len(x) for x in psets(s)]
            for v in (zeros(*['m%d_%d' % (i, j) for i, x in enumerate(k) for j in range(x)], *names('pm', n)), zeros(*names('cr', len(k)), 'pr'),
                      {'m%d_%d' % (i, j): 'm%d_0' % i for i, x in enumerate(k) for j in range(1, x)},
                      dict({'m0_%d' % j: str(j) for j in range(k[0])}, pm0='0', pm1='1', pm2='(- 0 1)', cr0='1')):
                S(computes, ctx, dict(proto='commit', n=n, sets=s), 'commitments are the textbook sums', v, 0)

MXQ = [(1, 1, 1), (1, 2, 2), (2, 1, 3), (2, 2, 1), (2, 3, 2), (3, 2, 4), (4, 4, 2), (3, 6, 3), (5, 20, 1), (33, 2, 1), (2, 2, 40), (1, 1, 70), (1, 70, 1), (70, 1, 1)]
@check('P25', F_MAT, 'shapes (rows, columns, blocks) as listed; all entries', ['scalars are elements of a field of characteristic zero'])
def p25(ctx, S):
    S(computes, ctx, dict(proto='matrix', m=2, n=3, k=2, warm=1), 'results equal the definition')
    for m, n, k in ctx.q(MXQ, MXQ + [(5, 3, 5), (8, 8, 2), (1, 16, 1), (16, 1, 2), (7, 12, 9), (1, 1, 300), (1, 300, 1), (300, 1, 1), (3, 3, 129)]):
        S(computes, ctx, dict(proto='matrix', m=m, n=n, k=k), 'results equal the definition')
        if m * n <= 12 and k <= 4:
            for v in ({'x': '0'}, {'x': '1'}, {'x': '(- 0 1)'}, vec0('v', n), vec0('a0_', n), vec0('a%d_' % (m - 1), n), vec0('ch', k),
                      {'a%d_%d' % (i, j): 'b%d_%d' % (i, j) for i in range(m) for j in range(n)},
                      {'a%d_%d' % (i, j): '(- 0 b%d_%d)' % (i, j) for i in range(m) for j in range(n)},
                      {'blk%d_%d_%d' % (q, i, j): '0' for q in range(k) for i in range(m) for j in range(n) if (q + i) % 2 == 0},
                      {'a%d_%d' % (i, j): str(int(i == j)) for i in range(m) for j in range(n)}):
                S(computes, ctx, dict(proto='matrix', m=m, n=n, k=k), 'results equal the definition', v, 0)

# ------------------------------------------------------------------ P15 - P20
LMQ = [(n, m) for n in (1, 2, 4) for m in (1, 2, 3, 5)] + [(8, 3), (8, 9), (16, 2), (32, 1), (64, 2), (128, 1)]
@check('P15', F_LM, 'n = 1..128 (thorough 256) columns, 1..9 (thorough 17) rows as listed; all maps and witnesses', IDEAL)
def p15(ctx, S):
    S(complete, ctx, lm(4, 2, warm=1, pre=1))
    for n, m in ctx.q([(2, 2), (4, 1)], [(1, 1), (2, 2), (4, 2), (8, 1)]):
        S(complete, ctx, lm(n, m), points=True)
    for n, m in ctx.q(LMQ, LMQ + [(2, 17), (16, 33), (256, 2)]):
        S(complete, ctx, lm(n, m))
    for n, m in ctx.q([(4, 2)], [(2, 2), (4, 2), (8, 2)]):
        S(complete, ctx, lm(n, m), vec0('w', n))
        S(complete, ctx, lm(n, m), {'w%d' % i: '0' for i in range(n // 2)})
        S(complete, ctx, lm(n, m), {'w%d' % i: 'w0' for i in range(1, n)})

@check('P16', F_LM, 'extraction at the sizes in the samples (n <= 16 quick, 32 thorough); tampering likewise', IDEAL)
def p16(ctx, S):
    for n, m in ctx.q([(1, 2), (2, 1), (2, 2), (2, 4), (4, 1), (4, 2), (4, 3), (8, 2), (8, 5), (16, 2)], [(1, 2), (2, 1), (2, 2), (2, 4), (4, 2), (4, 3), (8, 2), (8, 5), (16, 2), (32, 1)]):
        S(extract, ctx, lm(n, m, bind=0), ar(rest=3), lm_goals(m, n), 'acceptance implies t = [A]w')
    for n, m in ctx.q([(4, 2), (2, 5), (16, 3), (64, 1)], [(1, 1), (2, 2), (4, 2), (2, 5), (4, 9), (8, 3), (16, 2), (64, 2)]):
        tamper_all(ctx, S, lm(n, m, bind=0), ('t', 'A') if n == 4 else ('t',), ['w%d' % i for i in range(n)])
        fs_all(ctx, S, lm(n, m), ('t',))
    tamper_all(ctx, S, lm(4, 2, bind=0, pre=1, warm=1), ('t', 'A'), names('w', 4))

KLQ = [(n, m, k) for n, k in ((1, 2), (2, 2), (4, 2), (3, 3), (4, 4)) for m in (1, 2, 3, 5)] + [(8, 2, 2), (9, 2, 3), (27, 1, 3), (16, 2, 4), (25, 1, 5), (64, 1, 4), (49, 2, 7), (32, 3, 2), (8, 1, 8), (81, 1, 3)]
@check('P17', F_KLM, 'the (columns, rows, arity) listed; all maps and witnesses', IDEAL)
def p17(ctx, S):
    S(complete, ctx, klm(4, 2, 2, warm=1, pre=1))
    for n, m, k in ctx.q([(2, 2, 2), (4, 1, 2), (3, 1, 3)], [(2, 2, 2), (4, 2, 2), (3, 2, 3), (8, 1, 2), (9, 1, 3)]):
        S(complete, ctx, klm(n, m, k), points=True)
    for n, m, k in ctx.q(KLQ, KLQ + [(11, 2, 11), (16, 1, 16), (128, 2, 2), (4, 9, 2)]):
        S(complete, ctx, klm(n, m, k))
    for n, m, k in ctx.q([(4, 2, 2), (9, 1, 3)], [(4, 2, 2), (9, 1, 3), (8, 2, 2)]):
        S(complete, ctx, klm(n, m, k), vec0('w', n))
        S(complete, ctx, klm(n, m, k), {'w%d' % i: '0' for i in range(n // 2)})

@check('P18', F_KLM, 'extraction at the (columns, rows, arity) listed; tampering likewise', IDEAL)
def p18(ctx, S):
    for n, m, k in ctx.q([(2, 2, 2), (2, 4, 2), (4, 2, 2), (3, 2, 3), (9, 1, 3), (4, 2, 4), (8, 2, 2), (5, 2, 5), (16, 1, 4)], [(2, 2, 2), (2, 4, 2), (3, 5, 3), (4, 2, 2), (3, 2, 3), (9, 1, 3), (9, 2, 3), (4, 2, 4), (8, 2, 2), (5, 2, 5), (16, 1, 4), (8, 3, 2), (27, 1, 3)]):
        S(extract, ctx, klm(n, m, k, bind=0), ar(rest=2 * k - 1), lm_goals(m, n), 'acceptance implies t = [A]w')
    for n, m, k in ctx.q([(4, 2, 2), (2, 5, 2), (9, 2, 3), (27, 1, 3), (16, 1, 4)], [(4, 2, 2), (2, 5, 2), (3, 7, 3), (8, 2, 2), (9, 2, 3), (27, 2, 3), (16, 2, 4), (64, 1, 2)]):
        tamper_all(ctx, S, klm(n, m, k, bind=0), ('t', 'A') if n == 4 else ('t',), ['w%d' % i for i in range(n)])
        fs_all(ctx, S, klm(n, m, k), ('t',))
    tamper_all(ctx, S, klm(4, 2, 2, bind=0, pre=1, warm=1), ('t', 'A'), names('w', 4))

@check('P19', F_SZK, 'the (columns, rows[, arity]) listed, binary and general variant; all maps, witnesses and blinders', IDEAL)
def p19(ctx, S):
    S(complete, ctx, szk(4, 2, warm=1, pre=1))
    S(complete, ctx, gzk(4, 2, 2, warm=1, pre=1))
    for par in ctx.q([szk(2, 1), gzk(4, 1, 2), szk(4, 1), gzk(3, 1, 3)], [szk(2, 2), szk(4, 1), gzk(4, 2, 2), gzk(3, 1, 3)]):
        S(complete, ctx, par, points=True)
    for n, m in ctx.q([(n, m) for n in (1, 2, 4) for m in (1, 2, 3, 5)] + [(8, 3), (16, 1), (32, 1), (64, 2)], [(n, m) for n in (1, 2, 4) for m in (1, 2, 3, 5, 9)] + [(8, 3), (16, 2), (32, 1), (64, 2)]):
        S(complete, ctx, szk(n, m))
    for n, m, k in ctx.q([(n, m, k) for n, k in ((1, 2), (2, 2), (4, 2), (3, 3), (4, 4)) for m in (1, 2, 3, 5)] + [(8, 2, 2), (9, 2, 3), (16, 1, 4), (27, 1, 3), (49, 1, 7)], [(n, m, k) for n, k in ((1, 2), (2, 2), (4, 2), (3, 3), (4, 4), (5, 5)) for m in (1, 2, 3, 5, 9)] + [(8, 2, 2), (9, 2, 3), (27, 1, 3), (16, 1, 4), (25, 2, 5)]):
        S(complete, ctx, gzk(n, m, k))
    S(complete, ctx, szk(4, 2), vec0('w', 4))
    S(complete, ctx, gzk(4, 2, 2), vec0('w', 4))

@check('P20', F_SZK, 'extraction at the (columns, rows[, arity]) listed; tampering likewise', IDEAL)
def p20(ctx, S):
    for n, m in ctx.q([(2, 2), (2, 4), (4, 2), (8, 1), (4, 3), (8, 2), (16, 1)], [(1, 2), (2, 4), (2, 2), (4, 2), (4, 3), (8, 2), (8, 5), (16, 2)]):
        S(extract, ctx, szk(n, m, bind=0), ar(2, rest=3), lm_goals(m, n), 'acceptance implies t = [A]w')
    for n, m, k in ctx.q([(2, 2, 2), (2, 4, 2), (4, 2, 2), (3, 2, 3), (9, 1, 3), (8, 2, 2)], [(2, 2, 2), (2, 4, 2), (3, 5, 3), (4, 2, 2), (3, 2, 3), (9, 1, 3), (8, 2, 2), (16, 1, 4), (5, 2, 5)]):
        S(extract, ctx, gzk(n, m, k, bind=0), ar(2, rest=2 * k - 1), lm_goals(m, n), 'acceptance implies t = [A]w')
    for par in ctx.q([szk(4, 2), gzk(4, 2, 2), szk(2, 5), gzk(2, 5, 2), szk(32, 2), gzk(27, 1, 3)], [szk(4, 2), szk(8, 3), szk(2, 5), szk(4, 9), gzk(2, 5, 2), gzk(3, 7, 3), gzk(4, 2, 2), gzk(9, 2, 3), szk(32, 2), szk(64, 1), gzk(27, 2, 3)]):
        tamper_all(ctx, S, dict(par, bind=0), ('t', 'A') if par['n'] == 4 else ('t',), ['w%d' % i for i in range(par['n'])])
        fs_all(ctx, S, par, ('t',))
    for par in (szk(4, 2), gzk(4, 2, 2)):
        tamper_all(ctx, S, dict(par, bind=0, pre=1, warm=1), ('t', 'A'), names('w', 4))

# ------------------------------------------------------------------ across protocols
ALLQ = [ipa(4), alm(4), qesa(4, 2), zk(4, 2), cp(8, 1, 2, '2;3'), lm(4, 2), klm(4, 2, 2), szk(4, 2), gzk(4, 2, 2),
        lm(2, 3), klm(2, 3, 2), szk(2, 3), gzk(2, 3, 2)]
ALLT = ALLQ + [ipa(1), ipa(16), alm(16), zk(8, 3), cp(16, 1, 2, '4,6;5'), lm(16, 3), klm(9, 2, 3), klm(16, 1, 4), szk(8, 2), gzk(9, 2, 3)]

def contexts(ctx, par):
    """a proof is bound to what the caller put into the transcript before"""
    p = dict(par, mode='honest', ctx=1)
    tr = sym1(p)
    pc = {x[3] for x in tr.section('prove', 'proved') if x[0] == 'chal'}
    vc = [x[3] for x in tr.section('verify') if x[0] == 'chal']
    if not vc:
        raise CheckError('no challenges: ' + jname(par))
    same = [c for c in vc if c in pc]
    if same:
        j = dict(par=dict(p, seed=5))
        ctx.violation('%s:context' % par['proto'], 'challenge %s does not depend on the transcript the caller supplied (%s)' % (same[0], jname(par)), [j], real([j])[0].verdict())
        return
    v, d, m = explore(p, [])
    if v != 'reject':
        j, r = replay_model(ctx, p, m)
        if r.verdict() == 'accept' and par['n'] > 1:
            ctx.violation('%s:context' % par['proto'], 'a proof is accepted under a different transcript (%s)' % jname(par), [j], 'accept')
            return
    ctx.ok('challenges depend on the caller\'s transcript: ' + jname(par), '%d challenges' % len(vc))

CLAIMS = {'ipa': ('P', 't'), 'alm': ('C_w', 't'), 'lmpa': ('t',), 'klmpa': ('t',), 'szk': ('t',), 'gzk': ('t',)}
@check('P22', F_COPY + F_SZK, 'every proof element of every protocol at the sizes in the samples', IDEAL)
def p22(ctx, S):
    for par in ALLQ:
        S(contexts, ctx, dict(par, pre=1, warm=1))
        fs_all(ctx, S, dict(par, warm=1), CLAIMS.get(par['proto'], ()))
    for par in ctx.q(ALLQ + [ipa(8), alm(8), lm(8, 2), klm(9, 1, 3), ipa(64), alm(32), cp(16, 1, 2, '4,6;5'), szk(32, 2), gzk(27, 1, 3)], ALLT + [zk(16, 2)]):
        fs_all(ctx, S, par, CLAIMS.get(par['proto'], ()))
        S(contexts, ctx, par)

@check('P23', F_COPY + F_SZK, 'every vector of the proof shortened by one, emptied, or lengthened; every point encoding invalid; sizes in the samples', IDEAL)
def p23(ctx, S):
    for par in ALLQ:
        shapes(ctx, S, dict(par, pre=1), few=True)
    for par in ctx.q(ALLQ + [ipa(1), lm(1, 1), klm(1, 2, 2), szk(1, 1), ipa(16), alm(8), zk(8, 1), lm(16, 2), klm(9, 1, 3), klm(16, 1, 4), szk(8, 2), gzk(9, 1, 3), cp(16, 1, 2, '4,6;5')],
                     ALLT + [klm(27, 2, 3), szk(32, 2), gzk(27, 1, 3), zk(16, 2), lm(64, 2), alm(32), ipa(64)]):
        shapes(ctx, S, par)

@check('P26', F_COPY + F_SZK, 'every proof element of every protocol at the sizes in the samples', IDEAL)
def p26(ctx, S):
    for par in ALLQ:
        # after the unaltered proof was accepted, and after another one
        tamper_all(ctx, S, dict(par, bind=1, pre=1, warm=1), CLAIMS.get(par['proto'], ()))
    for par in ctx.q(ALLQ + [zk(8, 1), alm(8), lm(8, 3), klm(9, 2, 3), alm(32), cp(16, 1, 2, '4,6;5'), szk(32, 2), gzk(27, 1, 3), ipa(64)], ALLT + [zk(16, 2), klm(27, 2, 3)]):
        tamper_all(ctx, S, dict(par, bind=0))
        tamper_all(ctx, S, dict(par, bind=1))
        erase_all(ctx, S, dict(par, bind=1))

@check('P27', F_COPY + F_SZK, 'sizes in the samples', IDEAL)
def p27(ctx, S):
    for par in ALLQ:
        S(honest, ctx, dict(par, warm=1, pre=1), what='same transcript on both sides,')
    for par in ctx.q(ALLQ + [ipa(16), alm(8), zk(8, 3), lm(16, 2), klm(27, 1, 3), ipa(128), alm(64), cp(16, 1, 2, '4,6;5'), szk(64, 2), gzk(27, 1, 3), lm(128, 2), klm(81, 1, 3)], ALLT + [zk(16, 2)]):
        S(honest, ctx, par, what='same transcript on both sides,')

@check('P29', F_COPY + F_SZK, 'every vector of the statement one shorter or longer, halved, doubled or emptied, alone, in pairs and in groups; sizes in the samples', IDEAL)
def p29(ctx, S):
    for par in ctx.q(ALLQ + [ipa(8), alm(8), zk(8, 1), lm(8, 3), klm(9, 2, 3), szk(8, 1), gzk(9, 1, 3), cp(16, 1, 2, '4,6;5')], ALLT):
        resized_all(ctx, S, par)

@check('P30', F_COPY + F_SZK, 'histories: another statement proved and verified before, the same proof verified before, altered proofs (each element) verified before; sizes in the samples', IDEAL)
def p30(ctx, S):
    for par in ctx.q(ALLQ + [ipa(16), alm(8), lm(8, 1), gzk(9, 1, 3), cp(16, 1, 2, '4,6;5')], ALLT):
        lv = [l for l, k in paths(par)[0]]
        S(honest, ctx, dict(par, pre=1), what='again,')
        S(honest, ctx, dict(par, pre=1, warm=1), what='after others, again,')
        for l in lv:
            S(honest, ctx, dict(par, bad=l), what='after an altered proof,')
        S(honest, ctx, dict(par, warm=1, pre=1, bad='+'.join(lv)), what='after all of these,')
        tamper_all(ctx, S, dict(par, bind=1, pre=1), CLAIMS.get(par['proto'], ()))
        tamper_all(ctx, S, dict(par, bind=1, warm=1), CLAIMS.get(par['proto'], ()))
        S(contexts, ctx, dict(par, pre=1, warm=1))

# ------------------------------------------------------------------ P06
def masks(n, two, **k): return dict(proto='masks', n=n, two=two, **k)

def goals_named(tr, word):
    pairs, flags = definition_pairs(tr)
    return [(k, add_sub(tr, a, b)) for k, a, b in pairs if word in k], [k for k, v in flags if not v]

def orthogonal(ctx, par, val=None, limit=150):
    """on every path the code can take, what it returns is orthogonal"""
    name = jname(par) + (' ' + str(val) if val else '')
    todo = ['']
    npath = 0
    while todo:
        f = todo.pop(0)
        npath += 1
        if npath > limit:
            raise CheckError('too many paths: ' + name)
        tr = sym([dict(par=dict(par, forced=f), val=val or {})])[0]
        decs = [e for e in tr.log if e[0] == 'dec']
        T = [d for e in decs if e[4] and not e[5] for d in e[3]]
        if npath > 8 and T:
            # many zero tests: leave out paths no input takes
            ps = [r[0] for r in ratio(tr, T) if r]
            if vanish_query(ps, [], 5)[0] == 'unsat':
                continue
        D = [d for e in decs if e[4] for d in e[3]]
        bits = ''.join('1' if e[4] else '0' for e in decs)
        for i, e in enumerate(decs):
            if i >= len(f) and not e[4] and e[3]:
                todo.append(bits[:i] + '1')
        goals, wrong = goals_named(tr, 'orth')
        bad = None
        if tr.panics():
            bad = 'panics: %s' % (tr.panics()[0],)
        elif wrong:
            bad = wrong[0] + ' wrong'
        else:
            pr = Proof(tr, None)
            pr.hyps = D
            left = pr.zero(goals)
            if not left:
                continue
            bad = '%s: %s' % (left[0][0], show(left[0][1]))
        # a concrete instance on this path
        js = [dict(par=dict(par, seed=ctx.rng.randrange(1, 10**6)), val=val or {})]
        if T:
            ps = [r[0] for r in ratio(tr, T) if r]
            gs = [r for r in ratio(tr, [g for _, g in goals]) if r] if not tr.panics() and not wrong else []
            alive = [[r[0] for r in gs]] + [[r[1]] for r in gs] if gs else []
            for e in decs:
                if not e[4] and e[3]:
                    k = [r[0] for r in ratio(tr, e[3]) if r]
                    if len(k) == len(e[3]):
                        alive.append(k)
            v, m = vanish_query(ps, [], 30, alive)
            if v == 'unsat':
                continue
            js[0]['assign'] = {k: fmod(x) for k, x in (m or {}).items() if '#' not in k}
        r = real(js)[0]
        rb = [o[1] for o in r.out if o[0] == 'b' and not o[2] and ('orth' in o[1] or 'len' in o[1])]
        if rb or r.panics():
            ctx.violation('masks:orthogonal', '%s not orthogonal or no mask: %s' % (name, bad), js, str(rb or r.panics()))
            return
        raise CheckError('%s path %s: undecided: %s' % (name, f, bad))
    ctx.ok('orthogonal on every path: ' + name, '%d paths' % npath)

def free_coordinates(n):
    return sorted({0, 1, n - 2, n - 1} | {j for i in range(2, n.bit_length()) if 2**i <= n for j in (2**i // 2, 2**i // 2 + 1)} & set(range(n)))

def mask_rank(ctx, par, fixed, calls=2):
    """on the free coordinates, no combination of mask values escapes the randomness except along the vectors the
    mask has to avoid; also across several masks"""
    n, two = par['n'], par['two']
    par = dict(par, calls=calls)
    val = {k: str(v) for k, v in fixed.items()}
    tr = sym([dict(par=par, val=val)])[0]
    name = jname(par) + ' at a=%s%s' % ([fixed['a%d' % i] for i in range(n)], ' b=%s' % [fixed['b%d' % i] for i in range(n)] if two else '')
    out = tr.outs('s')
    keys = ['mask%d.%d' % (k, i) for k in range(calls) for i in range(n)]
    if any(k not in out for k in keys):
        raise CheckError('no masks: %s %s' % (name, tr.panics()))
    J = jacobian(tr, [out[k] for k in keys], draws(tr), rng=ctx.rng)
    free = free_coordinates(n)
    lam = ['l%d' % i for i in range(len(keys))]
    conds = ['(= %s 0.0)' % x for x, k in zip(lam, keys) if int(k.split('.')[1]) not in free]
    # component orthogonal to the vectors: not all zero
    vecs = [[Fraction(fixed['a%d' % i]) for i in range(n)]] + ([[Fraction(fixed['b%d' % i]) for i in range(n)]] if two else [])
    perp = perp_basis(vecs, n)
    dis = []
    for k in range(calls):
        for p in perp:
            dis.append('(not (= %s 0.0))' % lin_text([(lam[k * n + i], p[i]) for i in range(n)]))
    v, m = null_query(lam, J, conds + ['(or false %s)' % ' '.join(dis)])
    if v == 'unsat':
        ctx.ok('mask coordinates are independent: ' + name, '%d free coordinates, %d draws' % (len(free), len(draws(tr))))
        return
    if v != 'sat':
        raise CheckError('rank of %s: %s' % (name, v))
    functional_replay(ctx, par, keys, [fmod(m.get(x, 0)) for x in lam], 'a combination of mask coordinates does not depend on the randomness: ' + name,
                      'masks:rank', fixed={k: v % ELL for k, v in fixed.items()})

def fresh_masks(ctx, par):
    """every draw behind the masks comes from the system generator at full width"""
    tr = sym1(par)
    bad = [e for e in tr.log if e[0] in ('seeded', 'opaque') or e[0] == 'useR' and e[2] < 250]
    for e in bad:
        if e[0] == 'useR':
            r1, r2, js = twice(ctx, par, {'r%d' % e[1]: 5}, {'r%d' % e[1]: 5 + (1 << e[2])})
            if not same_run(r1, r2):
                raise CheckError('short draw in the encoding only')
            ctx.violation('masks:short', 'mask coordinates use only %d bits of the generator (%s)' % (e[2], jname(par)), js, 'same masks')
        else:
            suspicious(ctx, par, tr, e)
        return
    ctx.ok('draws from the system generator: ' + jname(par), '%d draws' % len(draws(tr)))

@check('P06', ['ipa::gramschmidt::sample_gram_schmidt', 'ipa::gramschmidt::sample_gram_schmidt_twice', 'ipa::gramschmidt::orth',
               'ipa::gramschmidt::sample_m_n_plus', 'math_utils::inner_product'],
       'orthogonality: n = 2..16 (thorough 64), all vectors and draws, every path of the zero tests; independence: all linear '
       'functionals of the masks, at rational vectors (general, zero, equal, proportional, orthogonal)', IDEAL[2:])
def p06(ctx, S):
    for n in ctx.q([2, 4, 8, 16], [2, 4, 8, 16, 32, 64]):
        for two in (0, 1):
            S(fresh_masks, ctx, masks(n, two))
            if n <= (8 if two else 64):
                S(orthogonal, ctx, masks(n, two))
    for n in ctx.q([4], [2, 4, 8]):
        for two in (0, 1):
            S(orthogonal, ctx, masks(n, two), vec0('a', n))
            S(orthogonal, ctx, masks(n, two), {'a%d' % i: '0' for i in range(n // 2)})
        S(orthogonal, ctx, masks(n, 1), vec0('b', n))
        S(orthogonal, ctx, masks(n, 1), {'b%d' % i: 'a%d' % i for i in range(n)})
        S(orthogonal, ctx, masks(n, 1), {'b%d' % i: '(* u a%d)' % i for i in range(n)})
        S(orthogonal, ctx, masks(n, 1), dict([('b%d' % i, '0') for i in range(n // 2, n)], **{'a%d' % i: '0' for i in range(n // 2)}))
    for n in ctx.q([2, 4, 8, 16, 32], [2, 4, 8, 16, 32, 64, 128]):
        g = lambda t: {'%s%d' % (t, i): ctx.rng.randrange(-9, 10) or 3 for i in range(n)}
        z = lambda t: {'%s%d' % (t, i): 0 for i in range(n)}
        u = lambda t, j: {'%s%d' % (t, i): int(i == j) for i in range(n)}
        a = g('a')
        S(mask_rank, ctx, masks(n, 0), dict(a, **z('b')))
        S(mask_rank, ctx, masks(n, 0), dict(z('a'), **z('b')))
        S(mask_rank, ctx, masks(n, 0), dict(u('a', 0), **z('b')))
        S(mask_rank, ctx, masks(n, 1), dict(a, **g('b')))
        S(mask_rank, ctx, masks(n, 1), dict(a, **z('b')))
        S(mask_rank, ctx, masks(n, 1), dict(z('a'), **g('b')))
        S(mask_rank, ctx, masks(n, 1), dict(a, **{'b%d' % i: 2 * a['a%d' % i] for i in range(n)}))
        S(mask_rank, ctx, masks(n, 1), dict(u('a', 0), **u('b', n - 1)))

# ------------------------------------------------------------------ P05, P09, P21: hiding
HIDEB = 'all linear functionals of the proof elements and all directions that keep the statement, at rational points (random small values of inputs, draws, challenges and discrete logarithms); '
HIDEA = IDEAL[1:2] + ['for fixed challenges: a proof reveals no more than its elements; for the masked argument, whose masks depend on the vectors, '
         'the statement is about small changes (derivatives); for the linear map arguments the proof is affine in witness and blinding, so it is exact']
def names(t, n): return ['%s%d' % (t, i) for i in range(n)]

@check('P05', F_ALM, HIDEB + 'n = 8, 16 (thorough 8..64)', HIDEA)
def p05(ctx, S):
    for n in ctx.q([8, 16, 32], [8, 16, 32, 64]):
        for _ in range(2):
            S(hides, ctx, alm(n), names('a', n) + names('b', n))
    S(hides, ctx, alm(8, again=1), names('a', 8) + names('b', 8), what='two proofs')
    for n in ctx.q([8], [8, 16]):
        for v in (vec0('a', n), vec0('b', n), vec0('a', n // 2), vec0('b', n // 2), {'b%d' % i: 'a%d' % i for i in range(n)},
                  dict({'a%d' % i: '0' for i in range(1, n)}, **vec0('b', n - 1)), {'a%d' % i: '1' for i in range(n // 2)}):
            S(hides, ctx, alm(n), names('a', n) + names('b', n), val=v)

def zk_pos(n): return {'w%d' % i: i for i in range(1, n - 2)}
@check('P09', F_QESA, HIDEB + 'n = 8, 16 with 1..3 equations (thorough ..32)', HIDEA)
def p09(ctx, S):
    for n, b in ctx.q([(8, 1), (8, 3), (16, 2), (16, 5)], [(8, 1), (8, 2), (8, 3), (8, 4), (16, 1), (16, 2), (16, 9), (32, 1)]):
        rows, fix = quad_rows(n, b, zk_pos(n))
        S(hides, ctx, zk(n, b, anygamma=1), names('w', n - 2), rows, fix)
        if b == 1:
            S(hides, ctx, qesa(n, b, anygamma=1), names('w', n - 2), rows, fix, names('rp', 2))
        if n == 8 and b < 4:
            S(hides, ctx, zk(n, b, anygamma=1, again=1), names('w', n - 2), rows, fix, what='two proofs')
        if n == 8:
            for v in ({'w1': '0', 'w2': '0', 'w3': '0'}, {'w%d' % i: '0' for i in range(2, n - 2, 2)}, {'w1': '1', 'w2': '1'},
                      {'g0_%d_%d' % (i, j): '0' for i in range(n // 2 - 1, n - 2) for j in range(n - 2)}):
                S(hides, ctx, zk(n, b, anygamma=1), names('w', n - 2), rows, fix, val=v)

def copy_hides(ctx, par, val=None):
    n, b, ws = par['n'], par['blocks'], par['ws']
    par = dict(par, anygamma=2)
    tr = sym1(dict(par, mode='honest'))
    sets = psets(par['sets'])
    idx = {i for s in sets for i in s}
    o = tr.outs('n')
    pos = {'w%d' % i: i for i in range(1, ws) if i not in idx}
    for q, nm in enumerate('m%d_%d' % (k, j) for k, s in enumerate(sets) for j in range(len(s))):
        pos[nm] = o['map:%d:pos' % q]
    rows, fix = quad_rows(n, b, pos)
    hides(ctx, par, list(pos) + names('cr', len(sets)), rows, fix, val=val)

@check('P28', F_COPY, HIDEB + 'the statement shapes in the samples (n = 8, 16)', HIDEA)
def p28(ctx, S):
    for n, b, ws, s in ctx.q([(8, 1, 4, 'none'), (8, 1, 4, ''), (8, 1, 2, '2'), (8, 1, 2, '2;3'), (8, 1, 3, '2,4'), (16, 1, 2, '4,6;5'), (16, 1, 2, '4,6,8;5,6')], [(8, 1, 2, '2'), (8, 1, 2, '2;3'), (8, 1, 3, '2,4'), (8, 1, 1, '2;3'), (16, 1, 2, '4,6;5'), (16, 2, 6, '8;8,9'), (16, 3, 3, '5,7,9;1'), (32, 1, 8, '10,12,14;11;16')]):
        S(copy_hides, ctx, cp(n, b, ws, s))
    S(copy_hides, ctx, cp(8, 1, 2, '2;3', again=1))
    for v in (zeros('m0_0', 'm0_1'), zeros('cr0', 'cr1'), zeros('w1', 'w2'), {'m0_0': '1', 'm0_1': '1', 'm1_0': '1'}):
        S(copy_hides, ctx, cp(16, 1, 3, '4,6;5'), v)

@check('P21', F_SZK, HIDEB + 'the (columns, rows[, arity]) listed', HIDEA)
def p21(ctx, S):
    for n, m in ctx.q([(2, 1), (4, 2), (8, 3), (16, 2)], [(2, 1), (4, 2), (8, 3), (16, 2), (32, 5), (64, 1)]):
        S(hides, ctx, szk(n, m), names('w', n))
    for n, m, k in ctx.q([(2, 1, 2), (4, 2, 2), (8, 2, 2), (9, 2, 3), (16, 3, 4)], [(2, 1, 2), (4, 2, 2), (8, 2, 2), (9, 2, 3), (16, 3, 4), (27, 4, 3), (25, 1, 5)]):
        S(hides, ctx, gzk(n, m, k), names('w', n))
    for v in (vec0('w', 4), vec0('w', 6), {'w%d' % i: '1' for i in range(4)}):
        S(hides, ctx, szk(8, 1), names('w', 8), val=v)
        S(hides, ctx, gzk(8, 1, 2), names('w', 8), val=v)
    S(hides, ctx, szk(8, 3, again=1), names('w', 8), what='two proofs')
    S(hides, ctx, gzk(8, 2, 2, again=1), names('w', 8), what='two proofs')

# ------------------------------------------------------------------ P24
def uniform(ctx, S, pars):
    """every scalar made from source output uses enough of it"""
    traces = [(p, sym1(p)) for p in pars]
    widths = {}
    for p, tr in traces:
        for e in tr.log:
            if e[0] in ('useC', 'useR'):
                widths.setdefault((e[0], e[2]), []).append((p, tr, e))
            elif e[0] in ('seeded', 'opaque'):
                S(suspicious, ctx, p, tr, e)
    q = Smt()
    keys = sorted(widths)
    for what, bits in keys:
        # some field elements are unreachable, or the distance from uniform exceeds 2^-100
        M = 2**bits
        q.add('(declare-const v Int)(declare-const k Int)(declare-const r Int)\n'
              '(assert (and (<= 0 v) (< v {l}) (<= 0 r) (< r {l}) (= {m} (+ (* k {l}) r))))\n'
              '(assert (or (and (>= v (+ {m} {tiny})) (< k 1)) (> (* (* r (- {l} r)) {two100}) (* {l} {m}))))'
              .format(l=ELL, m=M, tiny=ELL >> 100, two100=2**100), 'field element out of reach of %d bits' % bits)
    for (what, bits), v in zip(keys, q.run(60)):
        uses = widths[(what, bits)]
        kind = 'challenges' if what == 'useC' else 'random scalars'
        if v == 'unsat':
            ctx.ok('%s from %d bits of source output cover the field' % (kind, bits),
                   '%d uses in %s' % (len(uses), ', '.join(sorted({u[0]['proto'] for u in uses}))))
            continue
        if v != 'sat':
            raise CheckError('range query: ' + v)
        for p, tr, e in uses[:20]:
            nm = {o: n for o, (n, _) in tr.chals().items()}.get(e[1]) if what == 'useC' else 'r%d' % e[1]
            # two values of the source that differ beyond the bits used give the same result
            base = ctx.rng.randrange(2**min(bits, 200))
            r1, r2, js = twice(ctx, p, {nm: base}, {nm: base + (1 << max(bits, 8 * ((bits + 7) // 8)))})
            if same_run(r1, r2):
                key = '%s:range:%s' % (p['proto'], re.sub(r'\d+', '*', nm))
                ctx.violation(key, '%s of %s uses only %d bits of its source' % (nm, jname(p), bits), js, 'same result')
                break
        else:
            raise CheckError('%s from %d bits only in the encoding' % (kind, bits))

def twice(ctx, p, a1, a2):
    sd = ctx.rng.randrange(1, 10**6)
    js = [dict(par=dict(p, seed=sd), assign=a) for a in (a1, a2)]
    r1, r2 = real(js)
    return r1, r2, js

def same_run(r1, r2):
    return r1.out == r2.out

def suspicious(ctx, p, tr, e):
    """a value made from part of something, or from a generator with a known seed: show it in a real run"""
    if e[0] == 'seeded':
        j = dict(par=dict(p, seed=ctx.rng.randrange(1, 10**6)))
        r = real([j])[0]
        if any(x[0] == 'seeded' for x in r.log):
            ctx.violation('%s:seeded' % p['proto'], 'random values of %s come from a generator whose seed is not system randomness' % jname(p), [j], 'seeded')
            return
        raise CheckError('seeded generator in the encoding only')
    # which bytes of the sources have no influence?
    names = sorted({nm for nm, _ in tr.chals().values()}) + ['r%d' % k for k in tr.rnds()]
    for nm in names:
        base = ctx.rng.randrange(2**251)
        sd = ctx.rng.randrange(1, 10**6)
        js = [dict(par=dict(p, seed=sd), assign={nm: v}) for v in [base] + [base ^ (1 << (8 * i + 1)) for i in range(31)]]
        rs = real(js)
        dead = [i for i, r in enumerate(rs[1:]) if r.out == rs[0].out]
        if dead and len(dead) < 31:
            ctx.violation('%s:range:%s' % (p['proto'], re.sub(r'\d+', '*', nm)), 'bytes %s of %s have no influence in %s' % (dead, nm, jname(p)), [js[0], js[1 + dead[0]]], 'same result')
            return
    raise CheckError('%s: a scalar is made from part of a value' % jname(p))

def independent(ctx, par, pre):
    """the outputs with this prefix are linearly independent functions of the draws"""
    tr = sym1(par)
    outs = [o for o in tr.out if o[0] in 'sp' and o[1].startswith(pre)]
    if not outs:
        raise CheckError('no outputs %s in %s' % (pre, jname(par)))
    J = jacobian(tr, [o[2] for o in outs if o[0] == 's'], draws(tr))
    J += [{tr.basis[b]: tr.nodes[c][1] for b, c in tr.points[o[2]].items() if tr.nodes[c][0] == 'c' and tr.basis[b][:3] == 'U_r'}
          for o in outs if o[0] == 'p']
    lam = ['l%d' % i for i in range(len(J))]
    v, m = null_query(lam, J, ['(or %s)' % ' '.join('(not (= %s 0.0))' % x for x in lam)])
    if v == 'unsat':
        ctx.ok('independent draws: %s %s' % (jname(par), pre), '%d values' % len(J))
        return
    if v != 'sat':
        raise CheckError('independence: ' + v)
    key, desc = '%s:independent:%s' % (par['proto'], pre), '%s values of %s are not independent draws' % (pre, jname(par))
    js = [dict(par=dict(par, seed=ctx.rng.randrange(1, 10**6))) for _ in range(2)]
    r1, r2 = ([o[2] for o in r.out if o[1].startswith(pre)] for r in real(js))
    if len(set(r1)) < len(r1) or any(x == y for x, y in zip(r1, r2)):
        ctx.violation(key, desc, js, 'equal or constant values')
    else:
        functional_replay(ctx, par, [o[1] for o in outs], [fmod(m.get(x, 0)) for x in lam], desc, key)

@check('P24', F_COPY + F_SZK + ['matrix::rand_matrix', 'matrix::vandemonde_matrix', 'transcript::challenge_scalar'],
       'every challenge and draw of every protocol at the sizes in the samples', IDEAL[1:])
def p24(ctx, S):
    S(uniform, ctx, S, [dict(p, mode='honest') for p in ctx.q(ALLQ, ALLT)] + [dict(proto='matrix', m=2, n=3, k=1)] + [dict(proto='masks', n=8, two=t) for t in (0, 1)])
    for m, n in ctx.q([(2, 3), (3, 2)], [(2, 3), (3, 2), (5, 7)]):
        S(independent, ctx, dict(proto='matrix', m=m, n=n, k=1), 'draw:rand_matrix')
        S(independent, ctx, dict(proto='matrix', m=m, n=n, k=1), 'draw:vandemonde_matrix')
