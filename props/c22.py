"""C22: answers do not depend on what was computed before, inputs stay unchanged."""
import hashlib, itertools, json, os, pickle, random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from props import classes
from props.c10 import shrink as shrink_gates
from props.c16 import RATIO, kinds
from props.c18 import regular
from peano import utils
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, CurvePoint, FuzzyCurve, Junction, PathFuzzyCurve
from peano.dilation import Estimator
from peano.gates import GatesGenerator
from peano.paths import Path, PathsGenerator, Proto
from peano.subsets import FacetDivSubset, Link, Point


def canon(x):
    """plain data that identifies a result"""
    if x is None or isinstance(x, (bool, str, float)):
        return x
    if isinstance(x, int) or isinstance(x, Fraction) or type(x).__name__ == 'Fraction':
        return str(Fraction(x))
    if isinstance(x, BaseMap):
        return ['map'] + enc.bm(x)
    if isinstance(x, Spec):
        return ['spec'] + enc.spec(x)
    if isinstance(x, FuzzyCurve):
        return ['curve', isinstance(x, Curve), x.dim, x.div, x.pnum, [[canon(p.proto), [canon(s) for s in p.specs]] for p in x.patterns]]
    if isinstance(x, Junction):
        return ['junc', canon(x.spec1), canon(x.spec2), canon(tuple(x.delta_x)), canon(x.delta_t), x.depth]
    if isinstance(x, Path):
        return ['path', canon(x.proto), [canon(l) for l in x.links]]
    if isinstance(x, Link):
        return ['link', canon(x.entrance), canon(x.exit)]
    if isinstance(x, FacetDivSubset):
        return ['facet', str(x)]
    if isinstance(x, CurvePoint):
        return ['pt', canon(x.x), canon(x.t)]
    if isinstance(x, dict):
        return ['dict'] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=json.dumps)
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(v) for v in x), key=json.dumps)
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    raise TypeError(type(x))


def unordered(xs):
    return ['bag'] + sorted((canon(x) for x in xs), key=json.dumps)


def digest(x):
    s = json.dumps(x, sort_keys=True)
    return (s if len(s) < 48 else hashlib.sha256(s.encode()).hexdigest()[:24])


class Pool:
    """objects that all queries of a job share; built the same way everywhere"""
    def __init__(self, case):
        rng = random.Random(case['seed'])
        cls = case['cls']
        d = cls['d']
        self.paths = gen.mk_paths(cls)
        self.F = PathFuzzyCurve.init_from_paths(self.paths)
        self.Fs = shrink_gates(self.F, rng, 150)
        self.Fsm = classes.shrink(self.Fs, rng, 24)
        self.C = regular(self.F, rng)
        self.C2 = gen.rand_map(rng, d) * regular(self.Fsm, rng)
        self.maps = [gen.rand_map(rng, d) for _ in range(4)]
        self.links = [p.link for p in self.paths]
        self.gen = PathsGenerator(d, cls['n'], links=self.links)
        self.gates = GatesGenerator(*case['gates'])
        ks = [k for k in kinds(d) if k != 'l2s']
        self.k1, self.k2 = rng.choice(ks), rng.choice(ks)
        self.est = Estimator(RATIO[self.k1])
        self.tiny = Estimator(RATIO[self.k1], cache_max_size=rng.choice([0, 1, 7]))
        self.other = Estimator(RATIO[self.k2])
        self.seq = [self.Fsm, self.Fsm.specify(0, 0, next(iter(sorted(self.Fsm.gen_allowed_specs(0, 0), key=str))))]
        self.d, self.n = d, cls['n']
        self.light = case['light']

    def objects(self):
        return {'F': self.F, 'Fs': self.Fs, 'Fsm': self.Fsm, 'C': self.C, 'C2': self.C2, 'paths': tuple(self.paths), 'links': self.links,
                'seq': self.seq, 'maps': self.maps, 'protos': [p.proto for p in self.paths]}


def est_out(r):
    if r is None:
        return None
    out = {k: r[k] for k in ('lo', 'up') if k in r}
    if r.get('argmax'):
        a = r['argmax']
        out['argmax'] = [list(a['x1']), list(a['x2']), a['t1'], a['t2'], a['junc']]
    if 'curve' in r:
        out['curve'] = r['curve']
    if 'idxs' in r:
        out['idxs'] = list(r['idxs'])
        out['curves'] = list(r['curves'])
    return canon(out)


def zipped(f, g):
    """two iterators of one object advanced in turn"""
    return [list(x) for x in itertools.zip_longest(map(canon, f), map(canon, g))]


def few(it, k=40):
    return list(itertools.islice(it, k))


TOL = lambda P: 2 if P.d == 1 or P.light else 8

QUERIES = {
    'juncs': lambda P: unordered(P.C.gen_regular_junctions()),
    'juncs2': lambda P: unordered(P.C2.gen_regular_junctions()),
    'depth': lambda P: [P.C.get_depth(), P.C2.get_depth()],
    'ends': lambda P: canon([(P.C.get_entrance(q), P.C.get_exit(q)) for q in range(P.C.mult)]),
    'ends2': lambda P: canon([(P.C2.get_entrance(q), P.C2.get_exit(q)) for q in range(P.C2.mult)]),
    'vertex': lambda P: canon([P.C.get_vertex_moments(q) for q in range(P.C.mult)]),
    'faces': lambda P: canon([P.C.get_face_moment(f, last=l, find_point=True) for f in utils.gen_faces(P.d, 0) for l in (False, True)]),
    'act': lambda P: canon([m * P.C for m in P.maps]),
    'act2': lambda P: canon([m * P.C2 for m in reversed(P.maps)]),
    'rev': lambda P: canon([~P.C, ~~P.C2]),
    'sub': lambda P: canon(P.C.get_subdivision(1)),
    'eq': lambda P: [P.C == P.C2, P.C == gen.mk_curve(enc.curve(P.C)), hash(P.C) == hash(gen.mk_curve(enc.curve(P.C)))],
    'str': lambda P: [str(P.C), str(P.C2)],
    'paths': lambda P: canon(P.C.get_paths()),
    'forget': lambda P: canon(P.C.forget()),
    'check': lambda P: canon([P.C.check(), P.C2.check()]),
    'deep': lambda P: canon([P.C.get_deep_spec(0, [k, P.C.genus - 1 - k]) for k in range(P.C.genus)]),
    'mul': lambda P: canon([a * b for a in P.maps for b in P.maps]),
    'pow': lambda P: canon([a ** k for a in P.maps for k in (-2, -1, 0, 1, 3)]),
    'conj': lambda P: canon([a.conjugate_by(b) for a in P.maps for b in P.maps]),
    'apply': lambda P: canon([(a.apply_cube(P.n, (0,) * P.d), a.apply_vec(tuple(range(P.d))), a * Point([Fraction(1, k + 2) for k in range(P.d)])) for a in P.maps]),
    'allowed': lambda P: canon([[unordered(P.F.gen_allowed_specs(q, k)) for k in range(P.F.genus)] for q in range(P.F.mult)]),
    'count': lambda P: [str(P.F.count_possible_curves()), str(P.Fs.count_possible_curves())],
    'example': lambda P: canon(P.F.get_curve_example()),
    'members': lambda P: unordered(few(P.Fsm.gen_possible_curves())),
    'templates': lambda P: unordered((j, unordered(cs)) for j, cs in P.Fs.get_junction_templates().items()),
    'fjuncs': lambda P: unordered(P.Fs.gen_regular_junctions()),
    'specify': lambda P: canon([P.Fsm.specify(0, 0, s) for s in sorted(P.Fsm.gen_allowed_specs(0, 0), key=str)]),
    'actF': lambda P: [canon(m * P.Fsm) for m in P.maps],
    'actFal': lambda P: canon([[unordered((P.maps[0] * P.F).gen_allowed_specs(q, k)) for k in range(P.F.genus)] for q in range(P.F.mult)]),
    'revF': lambda P: canon(~P.Fsm),
    'init': lambda P: canon(PathFuzzyCurve.init_from_paths(P.paths)),
    'pathact': lambda P: canon([m * p for m in P.maps for p in P.paths]),
    'pathcont': lambda P: canon([(p.is_continuous(), hash(p) == hash(BaseMap.id_map(P.d) * p)) for p in P.paths]),
    'linkstd': lambda P: canon([l.std() for l in P.links]),
    'linkmul': lambda P: [unordered(l.argmul_intersect(k)) for l in P.links for k in P.links],
    'zip': lambda P: zipped(P.C.gen_regular_junctions(), P.C.gen_regular_junctions()),
    'zipF': lambda P: zipped(few(P.Fsm.gen_possible_curves(), 20), few(P.Fsm.gen_possible_curves(), 10)),
    'gen': lambda P: unordered(few(P.gen.generate_paths(), 60)) if not P.light else None,
    'genstd': lambda P: unordered(few(P.gen.generate_paths(std=True), 60)) if not P.light else None,
    'genex': lambda P: canon(P.gen.get_paths_example()),
    'genzip': lambda P: zipped(itertools.islice(P.gen.generate_paths(std=True), 5), itertools.islice(P.gen.generate_paths(), 7)) if not P.light else None,
    'gates': lambda P: canon(list(P.gates.gen_gates())),
    'gateszip': lambda P: zipped(P.gates.gen_gates(), P.gates.gen_gates()),
    'reg': lambda P: est_out(P.est.estimate_dilation_regular(P.C, rel_tol_inv=TOL(P))),
    'regtiny': lambda P: est_out(P.tiny.estimate_dilation_regular(P.C, rel_tol_inv=TOL(P))),
    'regface': lambda P: est_out(P.est.estimate_dilation_regular(P.C, rel_tol_inv=2, use_face_moments=True)),
    'regiter': lambda P: est_out(P.est.estimate_dilation_regular(P.C, rel_tol_inv=None, max_iter=7)),
    'reg2': lambda P: est_out(P.est.estimate_dilation_regular(P.C2, rel_tol_inv=TOL(P))),
    'regother': lambda P: est_out(P.other.estimate_dilation_regular(P.C, rel_tol_inv=3)),
    'fuzzy': lambda P: est_out(P.est.estimate_dilation_fuzzy(P.Fsm, rel_tol_inv=TOL(P))),
    'fuzzytiny': lambda P: est_out(P.tiny.estimate_dilation_fuzzy(P.Fsm, rel_tol_inv=TOL(P))),
    'fuzzyother': lambda P: est_out(P.other.estimate_dilation_fuzzy(P.Fsm, rel_tol_inv=2)),
    'bisect': lambda P: canon(P.est.bisect_dilation_fuzzy(P.Fsm, good_threshold=Fraction(9 ** P.d, 2 ** P.d), bad_threshold=Fraction(8 ** P.d, 2 ** P.d))),
    'seq': lambda P: est_out(P.est.estimate_dilation_sequence(P.seq, rel_tol_inv=TOL(P))),
    'seqiter': lambda P: est_out(P.other.estimate_dilation_sequence(iter(P.seq), rel_tol_inv=3)),
}
# queries that must have the same answer as another one (only the cache size differs)
SAME = {'regtiny': 'reg', 'fuzzytiny': 'fuzzy'}


def ask(P, name):
    try:
        return digest(QUERIES[name](P))
    except Exception as e:  # the answer may be an error: it has to be the same one
        return 'error ' + type(e).__name__


def in_child(case, name):
    """answer of a process that has done nothing else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = ask(Pool(case), name)
            os.write(w, out.encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode()


def job(rec, case, seed, nq, steps):
    rng = random.Random(seed)
    names = rng.sample(sorted(QUERIES), min(nq, len(QUERIES)))
    rec('start')
    for nm in names:
        rec('fresh', q=SAME.get(nm, nm), r=in_child(case, nm), as_=nm)
    P = Pool(case)
    for o, x in P.objects().items():
        rec('object', o=o, r=digest(canon(x)))
    order = names + [rng.choice(names) for _ in range(steps)]
    rng.shuffle(order)
    for z, nm in enumerate(order):
        rec('ask', q=SAME.get(nm, nm), r=ask(P, nm), as_=nm)
        if z % 6 == 5 or z == len(order) - 1:
            for o, x in P.objects().items():
                rec('object', o=o, r=digest(canon(x)))


def rand_member(F, rng):
    return Curve(F.dim, F.div, [(p.proto, [rng.choice(sorted(F.gen_allowed_specs(q, k), key=str)) for k in range(F.genus)]) for q, p in enumerate(F.patterns)])


def mixed_curves(shapes, seed, count):
    """curves of different division, dimension and number of patterns for one estimator"""
    rng = random.Random(seed)
    pool = []
    for d, n, gates in shapes:
        links = [Link.parse_gates(t) for t in gates]
        ps = list(itertools.islice(PathsGenerator(d, n, links).generate_paths(), 40))
        if ps:
            pool.append([PathFuzzyCurve.init_from_paths(p) for p in rng.sample(ps, min(6, len(ps)))])
    out = []
    for z in range(count):
        out.append(rand_member(rng.choice(pool[z % len(pool)]), rng))
    return out


def mixed_ask(est, C, how):
    try:
        if how == 'tol':
            return digest(est_out(est.estimate_dilation_regular(C, rel_tol_inv=12, max_iter=1500)))
        if how == 'iter':
            return digest(est_out(est.estimate_dilation_regular(C, rel_tol_inv=None, max_iter=25)))
        return digest(est_out(est.estimate_dilation_regular(C, rel_tol_inv=5, max_iter=300, use_face_moments=True)))
    except Exception as e:
        return 'error ' + type(e).__name__


HOW = ('tol', 'iter', 'face')


def mixed_child(curves, kind, k):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            out = [mixed_ask(Estimator(RATIO[kind]), curves[k], h) for h in HOW]
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(data.decode())


def mixed_job(rec, shapes, kind, seed, count, size):
    """one estimator for a long history of curves of all shapes"""
    rng = random.Random(seed)
    curves = mixed_curves(shapes, seed, count)
    rec('start')
    for k in range(count):
        for h, r in zip(HOW, mixed_child(curves, kind, k)):
            rec('fresh', q='%s%d' % (h, k), r=r, as_=h)
    est = Estimator(RATIO[kind], **({} if size is None else {'cache_max_size': size}))
    order = [(h, k) for h in HOW for k in range(count)]
    rng.shuffle(order)
    for h, k in order:
        rec('ask', q='%s%d' % (h, k), r=mixed_ask(est, curves[k], h), as_=h)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    cs = [c for c in gen.load('classes.json') if c['d'] <= 3 and c['n'] ** c['d'] * len(c['paths']) <= (18 if q else 30)]
    gates = [(2, 2, 1), (2, 3, 1), (1, 2, 1), (1, 3, 2), (2, 2, 2, True), (2, 2, 1, True)]
    for c in cs:
        for r in range(2 if q else 4):
            G = c['n'] ** c['d'] * len(c['paths'])
            case = dict(cls=c, seed=rng.getrandbits(40), gates=rng.choice(gates), light=G > 9)
            out.append(Job('case:%s:%d' % (c['name'], r), job, case, rng.getrandbits(40), 26 if q else 60, 14 if q else 60, cost=G))
    side, diag = '(0,0)->(0,1)', '(0,0)->(1,1)'
    flat = [(2, 2, [side]), (2, 3, [side]), (2, 3, [diag]), (2, 4, [side])]
    mixes = {
        'flat': flat,
        'two': flat[:3] + [(2, 2, [side, side]), (2, 2, [side, diag]), (2, 3, [side, diag])],
        'dims': [(1, 2, ['(0)->(1)']), (1, 3, ['(0)->(1)']), (1, 5, ['(0)->(1)']), (2, 2, [side]), (2, 3, [diag]), (3, 2, ['(0,0,0)->(0,0,1)'])],
    }
    for name, shapes in mixes.items():
        for r, kind in enumerate(['linf', 'l1', 'l2'] if name != 'dims' else ['linf', 'l1']):
            for z in range(1 if q else 6):
                out.append(Job('mixed:%s:%s:%d' % (name, kind, z), mixed_job, shapes, kind, rng.getrandbits(40), 26 if q else 60,
                               None if z == 0 else rng.choice([None, None, 3, 1000]), cost=30 if name != 'dims' else 40))
    return out


def run(ctx):
    ctx.models_bg([('MC_Memo', 'MC_Memo.cfg')])
    ctx.check_traces('C22_Trace', ctx.drive(jobs(ctx.tier, ctx.rng), fresh=True))
