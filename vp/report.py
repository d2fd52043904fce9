"""One run of one check: obligations, violations, known findings, evidence, exit status."""
import os, json, time, sys, random
from . import core
from .core import VERIF, STATS, CheckError, job_text

class Violation(Exception):
    pass

class Ctx:
    def __init__(self, pid, tier, functions, bounds, assumptions):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.functions = functions
        self.bounds = bounds
        self.assumptions = list(assumptions)
        self.ob = []            # (name, verdict)
        self.viol = []
        self.known = []
        self.notes = []
        self.undecided = []     # steps the solver or the encoding could not settle
        self.rng = random.Random(core.SEED * 1000003 + sum(map(ord, pid)))
        self.seen = set()
        self.kf = load_known(pid)

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def ok(self, name, detail=None):
        self.ob.append((name, 'holds', detail))

    def note(self, s):
        self.notes.append(s)

    def violation(self, key, desc, jobs=None, result=None):
        """key identifies what fails; a key already listed as a known finding is reported as such"""
        if key in self.seen:
            return
        self.seen.add(key)
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'replay_%s_%d.json' % (self.pid, len(self.seen)))
        with open(f, 'w') as h:
            json.dump(dict(property=self.pid, key=key, what=desc, result=result, seed=core.SEED,
                           how='python3 -m vp.replay %s   (runs the jobs against the real curve25519-dalek)' % f,
                           jobs=[job_text(j) for j in (jobs or [])]), h, indent=1)
        if key in self.kf:
            self.known.append((key, desc))
        else:
            self.viol.append((key, desc, f))

    def finish(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        samples = [{'obligation': n, 'verdict': v, 'detail': x} for n, v, x in self.ob[:40]]
        if not samples:
            samples = [{'obligation': 'none', 'verdict': 'none', 'detail': None}]
        cov = dict(
            states=STATS['paths'], transitions=STATS['ops'], traces_validated_against_impl=STATS['replays'],
            samples=samples,
            explanation='states: symbolic executions of the real code; transitions: recorded operations of those '
                        'executions; traces_validated_against_impl: runs of the same scenario against the real '
                        'curve25519-dalek',
            obligations=len(self.ob), discharged=sum(1 for o in self.ob if o[1] == 'holds'),
            solver_queries=STATS['queries'], solver_unsat=STATS['unsat'], solver_sat=STATS['sat'],
            solver_unknown=STATS['unknown'], solver_seconds=round(STATS['solver_s'], 2),
            identity_goals=STATS.get('goals', 0),
            functions_encoded=self.functions, bounds=self.bounds, notes=self.notes[:60], undecided=self.undecided,
            known_findings=[k for k, _ in self.known])
        for k, v in STATS.get('extra', {}).items():
            cov[k] = v
        ev = dict(property=self.pid, tier=self.tier, seed=core.SEED, level='model_checking', coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - core.T0, 2), violations=len(self.viol))
        with open(os.path.join(d, self.pid + '.json'), 'w') as h:
            json.dump(ev, h, indent=1)
        for k, desc in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, desc))
        for k, desc, f in self.viol:
            print('violated: %s' % desc)
            print('VIOLATION property=%s replay=%s' % (self.pid, f))
        if self.viol:
            return 1
        for e in self.undecided:
            print('not explored (undecided) %s: %s' % (self.pid, e))
        print('%s: held on everything explored (%d obligations, %d solver queries, %.1f s)' %
              (self.pid, len(self.ob), STATS['queries'], time.time() - core.T0))
        return 0

def load_known(pid):
    """known_findings.txt: 'finding: property=<id> key=<key> <description>' suppress that key only;
    'fixed: ...' lines suppress nothing"""
    r = set()
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            if l.startswith('finding: property=%s ' % pid):
                for w in l.split():
                    if w.startswith('key='):
                        r.add(w[4:])
    except OSError:
        pass
    return r
