"""C07: face and vertex moments."""
import itertools, random
from lib.harness import Job
from lib import enc, gen


def face_code(face):
    return [2 if f is None else f for f in face]


def moment(rec, C, EC, q, face, last, find_point, explicit=True):
    kw = {}
    if explicit:
        kw['pnum'] = q
    if last:
        kw['last'] = True
    if find_point:
        kw['find_point'] = True
    r = C.get_face_moment(face, **kw)
    base = dict(C=EC, q=q + 1, face=face_code(face), last=int(last))
    if find_point:
        D = enc.lcd(r.x)
        T = int(enc.F(r.t).denominator)
        rec('point', D=enc.big(D), x=[enc.big(x) for x in enc.over(r.x, D)], T=enc.big(T), t=enc.big(enc.I(enc.F(r.t) * T)), **base)
    else:
        T = int(enc.F(r).denominator)
        rec('moment', T=enc.big(T), t=enc.big(enc.I(enc.F(r) * T)), **base)


def job(rec, E, seed, n, nfaces):
    rng = random.Random(seed)
    for i in range(n):
        C = gen.mk_curve(E) if isinstance(E, dict) else gen.rand_curve(rng, *E, rev=rng.choice([0, .5, .5, .9]))
        if isinstance(E, dict) and i:
            C = gen.rand_map(rng, C.dim) * C
        EC = enc.curve(C)
        faces = list(itertools.product((0, 1, None), repeat=C.dim))
        if len(faces) > nfaces:
            faces = rng.sample(faces, nfaces)
        for f in faces:
            q = rng.randrange(C.mult)
            for last in (False, True):
                moment(rec, C, EC, q, f, last, bool(rng.getrandbits(1)))
        f = rng.choice(faces)
        moment(rec, C, EC, C.pnum, f, True, True, explicit=False)
        moment(rec, C, EC, C.pnum, f, False, False, explicit=False)
        if C.dim <= 3 and C.genus * 2 ** C.dim <= 140:
            q = rng.randrange(C.mult)
            vm = C.get_vertex_moments(q) if rng.random() < .7 else C.get_vertex_moments()
            qq = q if len(vm) and vm == C.get_vertex_moments(q) else C.pnum
            T = enc.lcd(vm.values())
            vs = sorted(vm)
            rec('vertices', C=EC, q=qq + 1, k=0, v=[face_code(v) for v in vs], T=enc.big(T),
                t=[enc.big(enc.I(enc.F(vm[v]) * T)) for v in vs])


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 90 if q else 400):
        G = E['n'] ** E['d'] * len(E['pats'])
        out.append(Job('curve:' + name, job, E, rng.getrandbits(40), 1 if G > 60 else 2, 6 if G > 60 else 9))
    for shape in gen.RAND_SHAPES:
        G = shape[1] ** shape[0] * shape[2]
        for k in range(2 if q else 20):
            out.append(Job('rand:%s:%d' % (shape, k), job, shape, rng.getrandbits(40), 1 if G > 40 else 4, 5 if G > 40 else 9))
    return out


def run(ctx):
    ctx.models_bg([('MC_Limit', 'MC_Limit.cfg')])
    ctx.check_traces('C07_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
