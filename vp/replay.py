"""python3 -m vp.replay FILE: run the jobs of a replay file against the real curve library"""
import sys, json
from .core import run_jobs, Real
def parse(t):
    j = dict(par={}, val={}, suffix={}, assign={})
    for l in t.split('\n'):
        k, n, v = (l.split('\t') + ['', ''])[:3]
        if k in j:
            j[k][n] = v
    return j
if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    print(d['what'])
    for j, r in zip(d['jobs'], run_jobs('real', [parse(x) for x in d['jobs']])):
        print(Real(r).verdict(), [o for o in r['out'] if o[0] in ('b', 'ret')])
