"""C18: minimal dilation of a curve class."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from props import classes
from props.c16 import RATIO, kinds, floor_scaled, ceil_scaled, brat
from props.c17 import cls_params
from peano.dilation import Estimator


def announce(rec, F, desc, kind, hint=(), first=1):
    S, K = cls_params(F.dim, F.div, kind)
    rec('class', first=first, hint=list(hint), k=kind, S=S, K=K, **classes.describe(F, desc))
    return S


def option_sets(rng, F, kind, v, count, fast):
    """option sets around the (roughly known) minimum v; bounds handed in are valid ones"""
    tols = [1, 2, 3] if F.dim == 1 else [1, 2, 3, 5, 10, 20] + ([] if fast else [50, 100])
    out = []
    for _ in range(count):
        o = dict(rel_tol_inv=rng.choice(tols))
        z = rng.random()
        if z < .25:
            o['start_lower_bound'] = Fraction(int(v['lo'] * rng.choice([.3, .7, .9, .99]) * 1000), 1000)
        if rng.random() < .4:
            m = v['curve'] if rng.random() < .5 else regular(F, rng)
            up = Estimator(RATIO[kind]).estimate_dilation_regular(m, rel_tol_inv=3 if F.dim == 1 else rng.choice([3, 10, 30]))['up']
            o['start_upper_bound'] = up * rng.choice([1, Fraction(101, 100), Fraction(3, 2), 10])
            if rng.random() < .7:
                o['start_curve'] = m
        if rng.random() < .3:
            o['stop_upper_bound'] = Fraction(int(float(v['up']) * rng.choice([.2, .5, .8, .95, 1.1, 2]) * 1000) + 1, 1000)
        if rng.random() < .15:
            o['max_iter'] = rng.choice([1, 3, 10, 40])
        if rng.random() < .3:
            o['sat_iter_multiplier'] = rng.choice([1.0, 1.5, 5])
        out.append(o)
    return out


def regular(F, rng):
    C = F
    for q in range(F.mult):
        for k in range(F.genus):
            C = C.specify(q, k, rng.choice(sorted(C.gen_allowed_specs(q, k), key=str)))
    return gen.mk_curve(enc.curve(C))


def estimate(rec, est, F, S, o):
    r = est.estimate_dilation_fuzzy(F, **o)
    limited = 'stop_upper_bound' in o or 'max_iter' in o
    tol = o.get('rel_tol_inv', 1000)
    stopped = 'stop_upper_bound' in o and 'max_iter' not in o
    nocurve = 'start_upper_bound' in o and 'start_curve' not in o
    c = r['curve']
    rec('est', lo=brat(r['lo']), up=brat(r['up']), lof=floor_scaled(r['lo'], S), upc=ceil_scaled(r['up'], S),
        tol=0 if limited else tol, tolw=tol, stopped=int(stopped), stop=brat(o['stop_upper_bound']) if stopped else [],
        slo=brat(o['start_lower_bound']) if 'start_lower_bound' in o else [],
        sup=brat(o['start_upper_bound']) if 'start_upper_bound' in o else [],
        C=[] if c is None else [enc.curve(c)], nocurve=int(nocurve), o={k: str(x)[:40] for k, x in o.items()})


def job(rec, cls, seed, opt, cap, count, fast):
    rng = random.Random(seed)
    F, desc = classes.make(cls, rng, opt)
    if F is None:
        return
    F = classes.shrink(F, rng, cap)
    kind = rng.choice([k for k in kinds(F.dim) if k != 'l2s'])
    S = announce(rec, F, desc, kind)
    tests(rec, F, rng, kind, S, count, fast)


def tests(rec, F, rng, kind, S, count, fast):
    v = Estimator(RATIO[kind]).estimate_dilation_fuzzy(F, rel_tol_inv=3 if F.dim == 1 else 10)
    est = Estimator(RATIO[kind], **({'cache_max_size': rng.choice([0, 16])} if rng.random() < .2 else {}))
    for o in option_sets(rng, F, kind, v, count, fast):
        estimate(rec, est if rng.random() < .6 else Estimator(RATIO[kind]), F, S, o)


def big_job(rec, best, seed, count):
    """class too large to enumerate: a known good member bounds its minimum"""
    rng = random.Random(seed)
    cls = next(c for c in gen.load('classes.json') if c['name'] == best['class'])
    F, desc = classes.make(cls, rng, 'full', moved=False)
    S = announce(rec, F, desc, best['k'], hint=[best['C']])
    tests(rec, F, rng, best['k'], S, count, True)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for c in gen.load('classes.json'):
        G = c['n'] ** c['d'] * len(c['paths'])
        if c['d'] > 3 or G > (18 if q else 30):
            continue
        for r in range(2 if q else 3):
            opt = rng.choice(['full', 'full', 'norev', 'subgroup'])
            cap = max(4, min(64, 3000 // (G * G))) if q else max(16, min(600, 60000 // (G * G)))
            out.append(Job('class:%s:%s:%d' % (c['name'], opt, r), job, c, rng.getrandbits(40), opt, cap, 4 if q else 9, q, cost=cap * G * G))
    best = [b for b in gen.load('best.json') if b['t'] < (1.6 if q else 10)]
    for b in rng.sample(best, min(len(best), 14 if q else 60)):
        out.append(Job('big:%s:%s' % (b['class'], b['k']), big_job, b, rng.getrandbits(40), 2 if q else 5, cost=3000))
    return out


def run(ctx):
    ctx.models_bg([('MC_Bisection', 'MC_Bisection.cfg')])
    ctx.check_traces('C18_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
