"""Generates data/best.json: for large classes a member of (nearly) least dilation, found once on a trusted tree.
The members are only hints: the specification re-establishes membership and their dilation."""
import sys, json, signal, multiprocessing as mp, time
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif')
from lib import enc, gen
from props.c16 import RATIO
from peano.curves import PathFuzzyCurve
from peano.dilation import Estimator
class TO(BaseException): pass
def alarm(*a): raise TO()
def work(a):
    c, k = a
    signal.signal(signal.SIGALRM, alarm); signal.alarm(60)
    try:
        t = time.time()
        F = PathFuzzyCurve.init_from_paths(gen.mk_paths(c))
        if F.count_possible_curves() < 100: return None
        r = Estimator(RATIO[k]).estimate_dilation_fuzzy(F, rel_tol_inv=200)
        return {'class': c['name'], 'k': k, 'C': enc.curve(r['curve']), 'lo': float(r['lo']), 'up': float(r['up']), 't': round(time.time() - t, 1)}
    except TO:
        print('timeout', c['name'], k); return None
todo = [(c, k) for c in gen.load('classes.json') for k in (['linf', 'l1'] + (['l2'] if c['d'] == 2 else []))
        if 2 <= c['d'] <= 3 and c['n'] ** c['d'] * len(c['paths']) <= 27]
with mp.Pool(8) as pool:
    out = [r for r in pool.imap(work, todo) if r]
with open('/verif/data/best.json', 'w') as fh:
    fh.write('[\n' + ',\n'.join(json.dumps(r) for r in out) + '\n]\n')
print(len(out), sorted(r['t'] for r in out))
