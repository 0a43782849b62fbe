"""Generates data/search.json (a best curve per search configuration and metric: hints that the specification
re-establishes) and data/gatetables.json (gate lists of configurations, judged by C14)."""
import sys, json, time, multiprocessing as mp, random, subprocess
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif')
from lib import enc
from props import c23
from props.c14 import etuple
from peano.gates import GatesGenerator

def work(a):
    name, kind = a
    d, n, m, opts = c23.CONF[name]
    rng = random.Random(1)
    group = ['--group-by-gates'] if 'list' in opts else []
    hints = []
    t = 0
    try:
        args, files = c23.arglist(d, n, m, opts, rng, kind, 5 if d != 2 else 10, [])
        t0 = time.time(); c23.call(args, files, timeout=100); t = time.time() - t0
        args, files = c23.arglist(d, n, m, opts, rng, kind, 3 if d == 1 else 20 if d == 3 else 100, group)
        rc, out, err = c23.call(args, files, timeout=600)
        if rc: print(name, kind, err[-200:]); return None
        for b in c23.blocks(out):
            if b is None:
                hints.append(None); continue
            C = b[4][0]
            hints.append({'C': enc.curve(C), 'g': c23.curve_gates(C), 'up': float(b[1])})
        return {'conf': name, 'k': kind, 't': round(t, 1), 'hints': hints}
    except subprocess.TimeoutExpired:
        print('timeout', name, kind, t); return None
def gat(a):
    d, n, m, f = a
    t0 = time.time()
    g = [etuple(t) for t in GatesGenerator(d, n, m, only_facet=bool(f)).gen_gates()]
    return {'name': '%d%d%d%s' % (d, n, m, 'f' if f else ''), 'd': d, 'n': n, 'm': m, 'facet': f, 'gates': g, 't': round(time.time() - t0, 1)}
if __name__ == '__main__':
    todo = []
    for name, (d, n, m, o) in c23.CONF.items():
        for k in ['linf', 'l1'] + (['l2'] if d % 2 == 0 else ['l2s'] if d == 1 else []) + (['l2s'] if name in ('221', '222f') else []):
            todo.append((name, k))
    with mp.Pool(7) as pool:
        gt = pool.map_async(gat, [(1,2,1,0),(1,3,2,0),(2,2,1,0),(2,2,1,1),(2,3,1,0),(2,3,1,1),(2,4,1,0),(2,4,1,1),(3,2,1,0),(3,2,1,1),(2,2,2,1),(2,3,2,1),(2,2,3,1),(2,2,2,0)])
        out = [r for r in pool.imap(work, todo, chunksize=1) if r]
        gt = gt.get()
    def dump(p, xs):
        with open(p, 'w') as fh: fh.write('[\n' + ',\n'.join(json.dumps(r) for r in xs) + '\n]\n')
    dump('/verif/data/search.json', out); dump('/verif/data/gatetables.json', gt)
    print(len(out), len(todo), [(t['name'], t['t'], len(t['gates'])) for t in gt])
    print([(o['conf'], o['k'], o['t']) for o in out])
