"""C05: subdivisions and deep fractions."""
import random
from lib.harness import Job
from lib import enc, gen
from peano.base_maps import BaseMap


def sub_event(rec, C, S, l, rng, nsmp, EC=None):
    T = C.genus ** l
    smp = []
    for q in range(C.mult):
        ts = range(T) if T <= nsmp else sorted(set([0, T - 1] + [rng.randrange(T) for _ in range(nsmp)]))
        for t in ts:
            smp.append([q + 1, t, enc.cube(S.patterns[q].proto[t]), enc.spec(S.patterns[q].specs[t])])
    rec('sub', C=EC or enc.curve(C), l=l, rn=S.div, rd=S.dim, rp=S.pnum + 1,
        rlen=[min(len(p.proto), len(p.specs)) for p in S.patterns], smp=smp)


def job(rec, E, seed, nsmp, cap):
    rng = random.Random(seed)
    C = gen.mk_curve(E) if isinstance(E, dict) else gen.rand_curve(rng, *E)
    EC = enc.curve(C)
    G = C.genus
    sub_event(rec, C, C.get_subdivision(0), 1, rng, nsmp, EC)
    k = 1
    while G ** (k + 1) * C.mult <= cap:
        S = C.get_subdivision() if k == 1 else C.get_subdivision(k)
        sub_event(rec, C, S, k + 1, rng, nsmp, EC)
        k += 1
    kmax = k - 1
    # in steps: subdividing the (j)-th subdivision again i times
    for j in range(1, kmax + 1):
        for i in range(1, kmax + 1):
            if (j + 1) * (i + 1) - 1 <= kmax:
                sub_event(rec, C, C.get_subdivision(j).get_subdivision(i), (j + 1) * (i + 1), rng, nsmp, EC)
    # images: subdivision of an image
    b = gen.rand_map(rng, C.dim)
    if kmax >= 1:
        R = b * C
        sub_event(rec, R, R.get_subdivision(1), 2, rng, nsmp)
    for _ in range(14):
        ks = [rng.randrange(G) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8, 13]))]
        if rng.random() < .3:
            ks = [rng.choice([0, G - 1]) for _ in ks]
        q = rng.randrange(C.mult)
        arg = rng.choice([list, tuple, iter])(ks)
        rec('deep', C=EC, q=q + 1, ks=ks, r=enc.spec(C.get_deep_spec(q, arg)))
    for k in rng.sample(range(G), min(G, 3)):
        rec('frac', C=EC, k=k + 1, r=enc.curve(C.specs[k] * C))


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 220 if q else 400):
        out.append(Job('curve:' + name, job, E, rng.getrandbits(40), 40 if q else 400, 2500 if q else 20000))
    for shape in gen.RAND_SHAPES:
        for k in range(6 if q else 20):
            out.append(Job('rand:%s:%d' % (shape, k), job, shape, rng.getrandbits(40), 40 if q else 300, 2500 if q else 20000))
    return out


def run(ctx):
    ctx.models_bg([('MC_Curve', 'MC_Curve.cfg')])
    ctx.check_traces('C05_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
