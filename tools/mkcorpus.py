"""Generates data/curves.json and data/classes.json (inputs of the checks) from a trusted tree.
Run by hand; the checks only read the result.  Continuity of every curve is re-established by the
specification in C08."""
import sys, json, random, itertools, signal
sys.path.insert(0, '/repo'); sys.path.insert(0, '/verif')
from lib import enc
from peano.base_maps import BaseMap, Spec
from peano.paths import PathsGenerator, Path, Proto
from peano.curves import PathFuzzyCurve, Curve
from peano.subsets import Link, Point
from peano import zoo
rng = random.Random(20240607)

def link(l):
    D = enc.lcd(list(l.entrance) + list(l.exit))
    return [D, enc.over(l.entrance, D), enc.over(l.exit, D)]

curves, classes = [], []
seen = set()
def add_curve(name, c):
    e = enc.curve(c)
    k = json.dumps(e)
    if k in seen: return
    seen.add(k)
    c.check()
    curves.append({'name': name, 'C': e})

def add_class(name, paths, **opt):
    classes.append({'name': name, 'd': paths[0].dim, 'n': paths[0].div,
        'paths': [{'c': enc.proto(p.proto), 'l': [link(l) for l in p.links]} for p in paths], **opt})

def member(pc):
    pats = []
    for pn, pat in enumerate(pc.patterns):
        pats.append((pat.proto, [rng.choice(list(pc.gen_allowed_specs(pn, cn))) for cn in range(pc.genus)]))
    return Curve(pc.dim, pc.div, pats, pnum=rng.randrange(pc.mult))

for info in zoo.get_all_curves():
    pass
for fn in [getattr(zoo, n) for n in dir(zoo) if n.startswith('get_') and n != 'get_all_curves']:
    c = fn().curve
    add_curve('zoo.' + fn.__name__, c)
    for pn in range(1, c.mult):
        add_curve('zoo.%s@%d' % (fn.__name__, pn), c._changed(pnum=pn))
    add_class('zoo.' + fn.__name__, c.get_paths())

class TO(BaseException): pass
def alarm(*a): raise TO()
signal.signal(signal.SIGALRM, alarm)

def cfg(dim, div, gates, npaths, nmem, max_cdist=None, limit=3000):
    links = [Link.parse_gates(g) for g in gates]
    signal.alarm(60)
    try:
        pg = PathsGenerator(dim, div, links, max_cdist=max_cdist)
        lists = []
        for l in links:
            lists.append(list(itertools.islice(pg.generate_paths_generic(link=l), limit)))
    except TO:
        print('timeout', dim, div, gates); return
    finally:
        signal.alarm(0)
    if any(not l for l in lists):
        print('no paths', dim, div, gates); return
    nm = '%dd%d_%s' % (dim, div, '|'.join(gates))
    for k in range(npaths):
        paths = tuple(rng.choice(l) for l in lists)
        if rng.random() < .3:
            # global symmetry / reversal of single patterns
            bms = list(BaseMap.gen_base_maps(dim)) if dim <= 4 else [BaseMap.id_map(dim)]
            paths = tuple(rng.choice(bms) * p for p in paths)
        try:
            pc = PathFuzzyCurve.init_from_paths(paths)
        except KeyError:
            continue
        add_class('%s#%d' % (nm, k), paths)
        for j in range(nmem):
            add_curve('%s#%d.%d' % (nm, k, j), member(pc))
    print(nm, [len(l) for l in lists])

cfg(1, 2, ['(0)->(1)'], 2, 3)
cfg(1, 3, ['(0)->(1)'], 1, 3)
cfg(1, 5, ['(0)->(1)'], 1, 2)
cfg(2, 2, ['(0,0)->(0,1)'], 3, 8)
cfg(2, 2, ['(0,0)->(0,1)', '(0,0)->(0,1)'], 3, 8)
for g in json.loads(open('/verif/data/gates222.json').read()):
    cfg(2, 2, g, 2, 4)
cfg(2, 2, ['(0,0)->(0,1)', '(0,0)->(0,1)', '(0,0)->(1,1)'], 2, 4)
cfg(2, 3, ['(0,0)->(0,1)'], 5, 4)
cfg(2, 3, ['(0,0)->(1,1)'], 5, 4)
cfg(2, 3, ['(0,0)->(0,1)', '(0,0)->(1,1)'], 6, 4)
cfg(2, 3, ['(0,0)->(1,1)', '(0,0)->(1,1)', '(0,0)->(0,1)'], 2, 4)
cfg(2, 3, ['(0,0)->(0,1)']*4, 2, 3)
cfg(2, 4, ['(0,0)->(0,1)'], 4, 3)
cfg(2, 4, ['(0,0)->(0,1)', '(0,0)->(1,1)'], 3, 2)
cfg(2, 5, ['(0,0)->(1,1)'], 3, 2)
cfg(2, 5, ['(0,0)->(1,1/2)'], 3, 2)
cfg(2, 5, ['(0,0)->(0,1)'], 2, 2)
cfg(2, 6, ['(0,0)->(0,1)'], 1, 2, limit=300)
cfg(2, 7, ['(0,0)->(1,1)'], 1, 2, limit=300, max_cdist=1)
for g in json.loads(open('/verif/data/gates321.json').read()):
    cfg(3, 2, g, 2, 3)
for g in json.loads(open('/verif/data/gates241.json').read()):
    cfg(2, 4, g, 1, 2)
cfg(3, 2, ['(0,0,0)->(0,0,1)', '(0,0,0)->(0,1,1)'], 3, 3)
cfg(3, 2, ['(0,0,0)->(0,0,1)', '(0,0,0)->(1,1,1)'], 3, 3)
cfg(3, 3, ['(0,0,0)->(1,1,1)'], 2, 1, limit=200, max_cdist=1)
cfg(4, 2, ['(0,0,0,0)->(0,0,0,1)'], 2, 2, limit=300, max_cdist=1)
cfg(4, 2, ['(0,0,0,0)->(0,1,1,1)'], 1, 2, limit=300)

def gray_class(d):
    """Hilbert-like path of edge links along the reflected Gray code (no use of the path generator)."""
    cubes = [tuple(((i ^ (i >> 1)) >> j) & 1 for j in range(d)) for i in range(2 ** d)]
    n = len(cubes)
    out = []
    def rec(i, e, acc):
        if i == n:
            return True
        ks = list(range(d)); rng.shuffle(ks)
        for k in ks:
            x = tuple(v ^ (j == k) for j, v in enumerate(e))
            if i == n - 1:
                # last exit has to be a vertex of the big cube
                if all(v == c for v, c in zip(x, cubes[i])):
                    acc.append((e, x)); return True
                continue
            a = next(j for j in range(d) if cubes[i][j] != cubes[i + 1][j])
            if x[a] != cubes[i + 1][a]:
                continue
            ne = tuple(v ^ (j == a) for j, v in enumerate(x))
            acc.append((e, x))
            if rec(i + 1, ne, acc):
                return True
            acc.pop()
        return False
    acc = []
    assert rec(0, (0,) * d, acc)
    P = lambda v: Point(enc.F(q) for q in v)
    return Path(Proto(d, 2, cubes), [Link(P(e), P(x)) for e, x in acc])
for d in (4, 5):
    for k in range(2):
        p = gray_class(d)
        pc = PathFuzzyCurve.init_from_paths((p,))
        add_class('gray%d#%d' % (d, k), (p,))
        add_curve('gray%d#%d' % (d, k), member(pc))
json.dump(curves, open('/verif/data/curves.json', 'w'), separators=(',', ':'))
json.dump(classes, open('/verif/data/classes.json', 'w'), separators=(',', ':'))
print(len(curves), 'curves', len(classes), 'classes')
