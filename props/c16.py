"""C16: dilation estimates of a regular curve."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from peano import utils
from peano.dilation import Estimator

RATIO = {'linf': utils.ratio_linf, 'l1': utils.ratio_l1, 'l2': utils.ratio_l2, 'l2s': utils.ratio_l2_squared}
CAP = 2 * 10 ** 9


def floor_scaled(x, S):
    x = enc.F(x)
    return max(-1, min(CAP, int(x.numerator * S // x.denominator)))


def ceil_scaled(x, S):
    x = enc.F(x)
    return max(-1, min(CAP, int(-((-x.numerator * S) // x.denominator))))


def brat(x):
    x = enc.F(x)
    return [enc.big(int(x.numerator)), enc.big(int(x.denominator))]


def kinds(d):
    return ['linf', 'l1'] + (['l2'] if d % 2 == 0 else []) + (['l2s'] if d <= 3 else [])


def params(d, n, kind, tight):
    """scale and tolerance of the specification's own bracket"""
    if kind == 'l2s':
        return {1: 1000, 2: 2000, 3: 100}.get(d, 50), 12 if d == 1 else 150
    if d == 1:
        return 10000, 40
    if d == 2:
        return 10000, 800 if tight else 250
    if d == 3:
        return 2000, 150 if n == 2 else 80
    return 500, 60


def options(rng, d, n, mult, count, thorough=False):
    """option sets that the code itself answers in reasonable time for this shape"""
    G = n ** d
    if d == 1:
        out = [dict(rel_tol_inv=rng.choice([1, 2, 3])), dict(rel_tol_inv=rng.choice([5, 8, 10])),
               dict(rel_tol_inv=rng.choice([None, 10]), max_iter=rng.choice([1, 2, 5, 10, 30])),
               dict(rel_tol_inv=rng.choice([1, 4, 10]), use_face_moments=True),
               dict(rel_tol_inv=None, max_iter=rng.choice([1, 5, 25]), use_face_moments=True),
               dict(rel_tol_inv=None, max_depth=1, max_iter=400)]
    else:
        out = [dict(rel_tol_inv=rng.choice([1, 2, 3, 5])), dict(rel_tol_inv=rng.choice([7, 10, 20, 50])),
               dict(rel_tol_inv=rng.choice([None, 10, 1000]), max_iter=rng.choice([1, 2, 5, 10, 30, 100]))]
        face = [0] if G > 9 or (d == 3 and mult > 1) else list(range(d))
        if d < 4 and (G * mult <= 20 or thorough):
            out += [dict(rel_tol_inv=rng.choice([1, 4, 10, 40]), use_face_moments=True, face_dim=rng.choice(face)),
                    dict(rel_tol_inv=None, max_iter=rng.choice([1, 5, 25]), use_face_moments=True, face_dim=rng.choice(face))]
        if d < 4 and G * mult <= 20:
            out += [dict(), dict(rel_tol_inv=rng.choice([200, 400])),
                    dict(rel_tol_inv=100, use_face_moments=True, face_dim=rng.choice(face))]
        if G * mult <= 16:
            out += [dict(rel_tol_inv=rng.choice([None, 300]), max_depth=rng.choice([1, 2]), max_iter=1500, use_face_moments=rng.random() < .7)]
    if d >= 4:
        out = [dict(rel_tol_inv=rng.choice([1, 2, 3])), dict(rel_tol_inv=rng.choice([None, 10]), max_iter=rng.choice([1, 2, 5, 10]))]
    rng.shuffle(out)
    return out[:count]


def estimate(rec, est, C, kind, S, opts):
    r = est.estimate_dilation_regular(C, **opts)
    limited = opts.get('max_iter') is not None or opts.get('max_depth') is not None
    tol = 0 if limited else opts.get('rel_tol_inv', 100) or 0
    rec('est', lo=brat(r['lo']), up=brat(r['up']), lof=floor_scaled(r['lo'], S), upc=ceil_scaled(r['up'], S), tol=tol,
        o={k: str(v) for k, v in opts.items()})
    if opts.get('use_face_moments'):
        a = r.get('argmax')
        if a is None:
            rec('noarg')
        else:
            witness(rec, C, a, r['lo'])


def witness(rec, C, a, lo):
    j = a['junc']
    dx = [enc.I(x) for x in j.delta_x]
    dt = enc.I(j.delta_t)
    y2 = [enc.F(x) - s for x, s in zip(a['x2'], dx)]
    u2 = enc.F(a['t2']) - dt
    D = enc.lcd(list(a['x1']) + y2)
    T = enc.lcd([a['t1'], u2])
    v = [abs(enc.F(x) - enc.F(y)) for x, y in zip(a['x1'], a['x2'])]
    rec('argmax', j=[enc.spec(j.spec1), enc.spec(j.spec2), dx, dt], D=enc.big(D), T=enc.big(T),
        x1=[enc.big(x) for x in enc.over(a['x1'], D)], y2=[enc.big(x) for x in enc.over(y2, D)],
        t1=enc.big(enc.over([a['t1']], T)[0]), u2=enc.big(enc.over([u2], T)[0]), v=[enc.big(x) for x in enc.over(v, D)],
        dt=enc.big(enc.over([enc.F(a['t2']) - enc.F(a['t1'])], T)[0]), lo=brat(lo))


def job(rec, E, seed, nkinds, count, tight, thorough=False):
    rng = random.Random(seed)
    C0 = gen.mk_curve(E)
    d, n = C0.dim, C0.div
    ks = kinds(d)
    for kind in rng.sample(ks, min(nkinds, len(ks))):
        C = gen.rand_map(rng, d) * C0 if rng.random() < .6 else C0
        if C.mult > 1 and rng.random() < .5:
            C = gen.mk_curve(dict(enc.curve(C), p=rng.randrange(C.mult) + 1))
        S, K = params(d, n, kind, tight)
        rec('curve', C=enc.curve(C), k=kind, S=S, K=K, lev=14)
        est = Estimator(RATIO[kind])
        for o in options(rng, d, n, C.mult, count, thorough):
            estimate(rec, est if rng.random() < .5 else Estimator(RATIO[kind]), C, kind, S, o)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 90 if q else 400):
        G = E['n'] ** E['d']
        W = G * len(E['pats'])
        if E['d'] >= 5:
            continue
        heavy = W > 30
        d4 = E['d'] >= 4
        out.append(Job('curve:' + name, job, E, rng.getrandbits(40), (1 if heavy or d4 else 2) if q else 1 if W > 24 and E['d'] > 2 else 3,
                       (2 if d4 else 3 if heavy else 6) if q else 4 if W > 24 else 9, G <= 9, not q, cost=W * W * (9 if d4 else 1)))
    return out


def run(ctx):
    ctx.models_bg([('MC_Dilation', 'MC_Dilation%d.cfg' % k) for k in (1, 2, 3)])
    ctx.check_traces('C16_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
