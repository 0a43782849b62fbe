"""C17: threshold test on a curve class."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from props import classes
from props.c16 import RATIO, kinds, params, floor_scaled, ceil_scaled
from peano.dilation import Estimator


def cls_params(d, n, kind):
    S, K = params(d, n, kind, False)
    return S, min(K, 80)


def thresholds(rng, v, n):
    """pairs (bad, good) around v"""
    out = []
    for _ in range(n):
        a = rng.choice([.5, .8, .9, .95, .98, 1.0, 1.02, 1.04, 1.08, 1.2, 1.5])
        b = a * rng.choice([1.02, 1.05, 1.1, 1.3])
        den = rng.choice([1, 7, 97, 1000])
        A, B = Fraction(int(v * a * den * 12 + 1), den * 12), Fraction(int(v * b * den * 12 + 2), den * 12)
        if A < B:
            out.append((A, B))
    return out


def job(rec, cls, seed, opt, cap, nth):
    rng = random.Random(seed)
    F, desc = classes.make(cls, rng, opt)
    if F is None:
        return
    F = classes.shrink(F, rng, cap)
    d, n = F.dim, F.div
    kind = rng.choice([k for k in kinds(d) if k != 'l2s'])
    S, K = cls_params(d, n, kind)
    rec('class', hint=[], k=kind, S=S, K=K, **classes.describe(F, desc))
    tests(rec, F, rng, kind, S, nth)


def tests(rec, F, rng, kind, S, nth):
    est = Estimator(RATIO[kind])
    v = float(Estimator(RATIO[kind]).estimate_dilation_fuzzy(F, rel_tol_inv=20)['up'])
    cache = {}
    try:
        from peano._sat_adapters import CurveSATAdapter
        cache = dict(init_pairs_tree=est._create_tree(F), init_sat_adapter=CurveSATAdapter(F))
    except (ImportError, AttributeError, TypeError):
        pass
    for bad, good in thresholds(rng, v, nth):
        kw = {}
        if rng.random() < .5:
            kw.update(cache)
        if rng.random() < .5:
            kw['sat_iter_multiplier'] = rng.choice([1.0, 1.1, 2, 10])
        r = est.bisect_dilation_fuzzy(F, good_threshold=good, bad_threshold=bad, **kw)
        info = dict(bad=str(bad), good=str(good), cached=int('init_pairs_tree' in kw))
        if r is None:
            rec('none', badf=floor_scaled(bad, S), **info)
        else:
            rec('curve', C=enc.curve(r), goodc=ceil_scaled(good, S), **info)


def big_job(rec, best, seed, nth):
    """class too large to enumerate: a known good member bounds its minimum"""
    rng = random.Random(seed)
    cls = next(c for c in gen.load('classes.json') if c['name'] == best['class'])
    F, desc = classes.make(cls, rng, 'full', moved=False)
    S, K = cls_params(F.dim, F.div, best['k'])
    rec('class', hint=[best['C']], k=best['k'], S=S, K=K, **classes.describe(F, desc))
    tests(rec, F, rng, best['k'], S, nth)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for c in gen.load('classes.json'):
        G = c['n'] ** c['d'] * len(c['paths'])
        if c['d'] > 3 or G > (18 if q else 30):
            continue
        for r in range(2 if q else 3):
            opt = rng.choice(['full', 'full', 'norev', 'subgroup'])
            cap = max(4, min(64, 3000 // (G * G))) if q else max(16, min(600, 60000 // (G * G)))
            out.append(Job('class:%s:%s:%d' % (c['name'], opt, r), job, c, rng.getrandbits(40), opt, cap, 6 if q else 12, cost=cap * G * G))
    best = [b for b in gen.load('best.json') if b['t'] < (1.6 if q else 10)]
    for b in rng.sample(best, min(len(best), 14 if q else 60)):
        out.append(Job('big:%s:%s' % (b['class'], b['k']), big_job, b, rng.getrandbits(40), 4 if q else 8, cost=3000))
    return out


def run(ctx):
    ctx.models_bg([('MC_Bisect', 'MC_Bisect.cfg')])
    ctx.check_traces('C17_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
