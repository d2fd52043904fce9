"""Writes MANIFEST.json from the registered checks."""
import json, os, sys, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import checks
TECH = {
 'complete': 'symbolic execution of prover and verifier; equality identities decided by z3 (polynomial identities, linear entailment over monomials)',
 'sound': 'symbolic execution of the verifier on arbitrary proof elements; extraction from a tree of transcripts decided by z3 as linear entailment; forgery search and replay',
 'tamper': 'symbolic execution of the verifier on altered proofs; z3 decides that no difference is accepted',
 'fs': 'symbolic execution; dependency of every challenge on the history, z3 decides the verifier outcome under another transcript',
 'shape': 'symbolic execution of every verifier path on malformed proofs, path feasibility decided by z3',
 'hiding': 'symbolic execution of the prover, exact derivatives of the recorded expressions; z3 decides over all linear functionals of the proof that none is blind to the randomness and sees the witness',
 'algebra': 'symbolic execution; z3 decides equality of the results with the textbook definition',
 'masks': 'symbolic execution of every path; z3 decides orthogonality as linear entailment and independence over all linear functionals of the masks',
 'range': 'symbolic execution records what the scalars are computed from; z3 decides that no field element is out of reach or more likely',
 'history': 'symbolic execution of sequences of verifications in one process; z3 decides that honest proofs stay accepted and altered ones rejected',
 'kani': 'bounded model checking of the compiled function (Kani/CBMC SAT) over symbolic requests',
}
KIND = dict(P01='complete', P02='sound', P03='complete', P04='sound', P05='hiding', P06='masks', P07='complete', P08='sound',
            P09='hiding', P10='complete', P11='sound', P12='kani', P13='kani', P14='algebra', P15='complete', P16='sound',
            P17='complete', P18='sound', P19='complete', P20='sound', P21='hiding', P22='fs', P23='shape', P24='range',
            P25='algebra', P26='tamper', P27='complete', P28='hiding',
            P29='shape', P30='history')
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
cs, na = [], []
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        _, fns, bounds, ass = checks.CHECKS[i]
        cs.append(dict(property=i, quick_cmd='python3 -m vp.check %s quick' % i, thorough_cmd='python3 -m vp.check %s thorough' % i,
                       technique=TECH[KIND[i]], level='model_checking',
                       level_note='Bounds: %s. Assumes: %s.' % (bounds, '; '.join(ass) if ass else 'nothing beyond the stub libraries standing in for curve25519-dalek, merlin and rand')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
for i, r in NA.items():
    if not any(x['property'] == i for x in na):
        na.append(dict(property=i, reason=r))
m = dict(version=1, setup_cmd='python3 -m vp.setup',
         hooks=dict(guard='qesa_verif', enable="RUSTFLAGS='--cfg qesa_verif' and QESA_VERIF_HOOKS=<directory the checks generate from /repo's current structs>",
                    source_commits=['a80ce5ae8bab331bc41e28cad8c0c19b0b5c1cd1']),
         checks=cs, not_applicable=na,
         notes='Every check builds two harness crates against /repo (rs/h_sym: the code over symbolic scalars, points, transcripts; '
               'rs/h_real: the same scenarios over the real libraries) and rewrites evidence/<id>.json. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(cs), 'checks', len(na), 'not applicable')
