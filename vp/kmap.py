"""Bounded model checking of compute_mapping with Kani: /repo's sources, std's BTreeSet replaced by a sorted array."""
import os, re, resource, shutil, signal, subprocess, threading, time, tempfile
from . import core, hooks
from .core import VERIF, BUILD, STATS, CheckError

SMALL = 6
MEM = 5 << 30 # per model checker
MODES = ('model', 'small', 'stdvec')

def prepare(tag, lens, width, sets, per, mode='model'):
    """a copy of the crate with the harnesses; returns its directory.  mode: 'model' (array models, all 16-bit sizes); when the code
    does not fit these, at most SMALL generators: 'small' (array models of that capacity), 'stdvec' (std's Vec)"""
    d = os.path.join(BUILD, 'kmap_' + tag)
    src = os.path.join(d, 'src')
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(core.REPO, 'src'), src)
    hk = os.path.join(d, 'hooks')
    hooks.generate(core.REPO, hk)
    for root, _, fs in list(os.walk(src)) + list(os.walk(hk)):
        for f in fs:
            if f.endswith('.rs'):
                p = os.path.join(root, f)
                t = open(p).read()
                t2 = re.sub(r'\b(::)?(std|alloc)::collections\b', 'crate::vpcoll', t)
                if t2 != t:
                    open(p, 'w').write(t2)
    hd = open(os.path.join(VERIF, 'rs/kmap/harness.rs')).read()
    hd = hd.replace('@SETS@', str(sets)).replace('@PER@', str(per)).replace('@WIDTH@', str(width if mode == 'model' else SMALL))
    names = []
    if mode != 'model':
        width = SMALL
        hd = hd.replace('kani::assume(n - 2 - ws <= WIDTH)', 'kani::assume(n <= WIDTH)').replace(
            'kani::assume(e <= p || (e - p) as usize <= WIDTH)', 'kani::assume(n <= WIDTH && ws <= WIDTH)')
    total = max([1] + [sum(l) for l in lens])
    cap = total if mode == 'model' else max(SMALL, total)
    unw = max(width, total) + 2
    for l in lens:
        nm = '_'.join(map(str, l))
        for k in ('holds', 'refused'):
            hd += '#[kani::proof]\n#[kani::unwind(%d)]\nfn %s_%s() { %s(&%s) }\n' % (unw, k, nm, k, list(l))
            names.append('%s_%s' % (k, nm))
    open(os.path.join(src, 'vp_kani.rs'), 'w').write(hd)
    st = open(os.path.join(VERIF, 'rs/kmap/set.rs')).read().replace('@CAP@', str(cap))
    open(os.path.join(src, 'vp_set.rs'), 'w').write(st)
    v = open(os.path.join(VERIF, 'rs/kmap/vec.rs')).read().replace('@VCAP@', str(max(width, total)))
    open(os.path.join(src, 'vp_vec.rs'), 'w').write(v)
    # vectors of the mapping code (file and its accessors) are the fixed-capacity ones
    for p in (os.path.join(src, 'copy', 'mapping.rs'), os.path.join(hk, 'mapping.rs')) if mode in ('model', 'small') else ():
        t = open(p).read()
        k = re.match(r'(\s*(#!\[[^\]]*\]|//[^\n]*))*', t).end()
        open(p, 'w').write(t[:k] + '\n#[allow(unused_imports)] use crate::vp_vec::{Vec, vec};\n' + t[k:])
    with open(os.path.join(src, 'lib.rs'), 'a') as h:
        h.write('\npub mod vp_set;\npub mod vp_vec;\npub mod vpcoll { pub use std::collections::{BinaryHeap, btree_map, hash_map}; pub use crate::vp_set::{BTreeMap, BTreeMap as HashMap, BTreeSet, BTreeSet as HashSet}; pub use %s as VecDeque; }\n'
                % ('std::collections::VecDeque' if mode == 'stdvec' else 'crate::vp_vec::Vec') +
                '#[cfg(kani)]\nmod vp_kani;\n')
    open(os.path.join(d, 'Cargo.toml'), 'w').write('''[package]
name = "qesa"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
curve25519-dalek = "2.1.3"
rand = "0.7.3"
sha3 = "0.8.2"
merlin = "1.3.0"
byteorder = "1"
[patch.crates-io]
curve25519-dalek = { path = "%(v)s/rs/dalek" }
merlin = { path = "%(v)s/rs/merlin" }
rand = { path = "%(v)s/rs/rand" }


''' % dict(v=VERIF))
    return d, names

STOP = threading.Event()    # a violation was found: the other requests need not be decided

def run(d, harness, end, playback=False, mode=None, dead=()):
    env = dict(os.environ, CARGO_NET_OFFLINE='true', QESA_VERIF_HOOKS=os.path.join(d, 'hooks'),
               RUSTFLAGS='--cfg qesa_verif -Awarnings')
    cmd = ['cargo', 'kani', '--harness', 'vp_kani::' + harness, '--exact', '-Z','unstable-options','--no-memory-safety-checks', '--no-assertion-reach-checks', '--target-dir', os.path.join(d, 'target')]
    if playback:
        cmd += ['-Z', 'concrete-playback', '--concrete-playback=print']
    t0 = time.time()
    # its own process group: the solver it starts ends with it
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True,
                         preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM)))
    while True:
        try:
            o, e = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            if time.time() < end and mode not in dead and not STOP.is_set():
                continue
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            STATS['solver_s'] += time.time() - t0
            if mode in dead:
                raise Unfit('not for this code')
            raise Late('model checker timed out on ' + harness)
    STATS['solver_s'] += time.time() - t0
    return o + '\n' + e

def statuses(out):
    """[(check name, status, description)]"""
    r = []
    for m in re.finditer(r'Check \d+: (.*)\n\s*- Status: (\w+)\n\s*- Description: "(.*)"', out):
        r.append(m.groups())
    return r

def oracle_valid(n, ws, sets):
    if n > 65535 or n < 2 or ws > n - 2:
        return False
    idx = {v for s in sets for v in s}
    if any(v == 0 or v >= n - 2 for v in idx):
        return False
    return sum(map(len, sets)) <= sum(1 for x in range(ws, n - 2) if x not in idx)

def oracle_post(n, ws, sets, o):
    """None, or what is wrong with the mapping"""
    ms = [tuple(o['m%d:%s' % (i, k)] for k in ('id', 'index', 'crs', 'pos')) for i in range(o['count'])]
    want = [(v, i) for i, s in enumerate(sets) for v in sorted(s)]
    idx = {v for s in sets for v in s}
    if [(x[1], x[2]) for x in ms] != want:
        return 'wrong commitment or generator index: %s instead of %s' % ([(x[1], x[2]) for x in ms], want)
    if [x[0] for x in ms] != list(range(len(ms))):
        return 'wrong message numbers'
    ps = [x[3] for x in ms]
    if len(set(ps)) != len(ps):
        return 'two messages share a position: %s' % ps
    for p in ps:
        if not (ws <= p < n - 2) or p in idx:
            return 'position %d is not free' % p
    if o['num'] != len(sets) or ps and o['last'] != ps[-1]:
        return 'wrong number of commitments or last position'
    if [o['u%d' % i] for i in range(o['ucount'])] != sorted(idx):
        return 'wrong union of indices'
    return None

class Unfit(CheckError):
    """the code does not fit the model: the next mode may decide; all: likely so for every request"""
    all = False
class Misfit(Unfit):
    all = True

def one(ctx, kind, lens, width, end, dead):
    """end: when to give up; dead: modes which did not fit the code for other requests"""
    for mode in MODES:
        if mode in dead:
            continue
        try:
            return one_mode(ctx, kind, lens, width, end, mode, dead)
        except Unfit as e:
            why = e
            if mode != MODES[-1] and e.all:
                dead.add(mode)
            ctx.note('mapping of %s messages, %s: %s' % (list(lens), mode, str(e)[:200]))
    raise why

def one_mode(ctx, kind, lens, width, end, mode, dead=()):
    tag = '%s_%s' % (kind, '_'.join(map(str, lens)))
    d, names = prepare(tag, [lens], width, max(len(lens), 1), max([1, *lens]), mode)
    try:
        out = run(d, tag, end, False, mode, dead)
        st = statuses(out)
        if not st:
            raise Misfit('model checker: ' + out[-1500:])
        STATS['queries'] += 1
        STATS['paths'] += 1
        m = re.findall(r'size of program expression: (\d+) steps', out)
        STATS['ops'] += int(m[-1]) if m else 0
        hidden = [x for x in st if x[1] != 'SUCCESS' and ('unwinding' in x[2] or 'VP_CAP' in x[2] or 'not currently supported' in x[2])
                  and x[1] == 'FAILURE']
        bad = [x for x in st if x[1] == 'FAILURE' and x not in hidden]
        if kind == 'refused':
            bad = [x for x in bad if 'VP_ACCEPTED' in x[2]]
            if not any('VP_ACCEPTED' in x[2] for x in st):
                raise CheckError('the assertion of %s is missing' % tag)
        else:
            cov = [x for x in st if 'VP_REACHED' in x[2]]
            if not bad and not hidden and not (cov and cov[0][1] in ('SATISFIED', 'SUCCESS')):
                # within SMALL generators there may be none
                raise (Unfit if mode == 'model' else Late)('no valid request reaches the end of %s' % tag)
        nm = 'requests of %s messages per commitment' % (list(lens),) + ('' if mode == 'model' else ', at most %d generators' % SMALL)
        if not bad:
            if hidden:
                raise Misfit('%s: bound not sufficient (%s)' % (tag, hidden[0][2]))
            STATS['unsat'] += 1
            ctx.ok(('refused when they do not fit: ' if kind == 'refused' else 'mapped correctly: ') + nm, '%d assertions' % len(st))
            return
        STATS['sat'] += 1
        out = run(d, tag, end + 150, True)
        pb = re.findall(r'```\n(.*?)```', out, flags=re.S)
        cands = []
        for body in pb:
            i = body.find('concrete_vals')
            vals = [int.from_bytes(bytes(int(x) for x in v.replace(' ', '').split(',') if x), 'little')
                    for v in re.findall(r'vec!\[([\d,\s]*)\]', body[i:]) if v.strip()]
            if len(vals) >= 2 + sum(lens):
                cands.append(vals[:2 + sum(lens)])
        jobs = []
        for v in cands:
            sets, k = [], 2
            for l in lens:
                sets.append(v[k:k + l])
                k += l
            jobs.append((v[0], v[1], sets, dict(par=dict(proto='mapping', n=v[0], ws=v[1], sets=';'.join(','.join(map(str, s)) for s in sets) if sets else 'none'))))
        for (n, ws, sets, j), r in zip(jobs, core.real([x[3] for x in jobs]) if jobs else []):
            o = {x[1]: x[2] for x in r.out if x[0] == 'n'}
            w = None
            if kind == 'refused' and not oracle_valid(n, ws, sets) and 'count' in o:
                w = 'the request n=%d, witness size %d, indices %s does not fit but gets a mapping' % (n, ws, sets)
            elif kind == 'holds' and oracle_valid(n, ws, sets):
                if 'count' not in o:
                    w = 'the valid request n=%d, witness size %d, indices %s panics: %s' % (n, ws, sets, r.panics())
                else:
                    p = oracle_post(n, ws, sets, o)
                    if p:
                        w = 'request n=%d, witness size %d, indices %s: %s' % (n, ws, sets, p)
            if w:
                ctx.violation('mapping:%s' % kind, w, [j], str(o)[:300])
                if ctx.viol:
                    STOP.set()
                return
        raise Unfit('%s: %s fails in the model, not in the real run (%d counterexamples)' % (tag, bad[0][2], len(jobs)))
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Late(CheckError):
    pass

def sweep(ctx, S, kind, items, timeout=600, par=8):
    """run the model checker on several request shapes at once; a shape not decided in time is not explored"""
    import concurrent.futures as cf
    core.binary('real')
    end = time.time() + timeout
    dead = set()
    def work(l, w):
        t0 = time.time()
        r = one(ctx, kind, l, w, end, dead)
        if os.environ.get('QESA_TIMES'):
            print(l, w, '%.1f s' % (time.time() - t0))
        return r
    late, done = [], 0
    with cf.ThreadPoolExecutor(par) as ex:
        fs = [(l, ex.submit(work, l, w)) for l, w in items]
    for l, f in fs:
        if isinstance(f.exception(), Late):
            late.append((l, f.exception()))
            continue
        done += 1
        S(f.result)
    for l, e in late:
        if not done:
            S(lambda: (_ for _ in ()).throw(e))
        ctx.note('not explored: requests of %s messages per commitment (%s)' % (list(l), e))
