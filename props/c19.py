"""C19: best of a sequence of curve classes."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from props import classes
from props.c16 import RATIO, kinds, floor_scaled, ceil_scaled, brat
from props.c18 import announce, regular
from peano.dilation import Estimator


def as_input(rng, Fs):
    z = rng.random()
    return list(Fs) if z < .4 else tuple(Fs) if z < .6 else iter(Fs) if z < .8 else (F for F in Fs)


def run_one(rec, rng, Fs, ids, kind, S, est, tols):
    order = list(range(len(Fs)))
    rng.shuffle(order)
    if rng.random() < .3:
        order += [rng.choice(order)]
    tol = rng.choice(tols)
    o = dict(rel_tol_inv=tol)
    if rng.random() < .7:
        o['rel_tol_inv_mult'] = rng.choice([2, 3, 10, 1000])
    if rng.random() < .2:
        o['sat_iter_multiplier'] = rng.choice([1.0, 2])
    mult = o.get('rel_tol_inv_mult', 4)
    if rng.random() < .45:
        F = rng.choice(Fs)
        up = Estimator(RATIO[kind]).estimate_dilation_regular(regular(F, rng), rel_tol_inv=3 if F.dim == 1 else 10)['up']
        o['upper_bound'] = Fraction(int(up * 1000 * rng.choice([.2, .5, .8, .9, 1.01, 1.2, 3])) + 1, 1000)
    shape = as_input(rng, [Fs[k] for k in order])
    r = est.estimate_dilation_sequence(shape, **o)
    ub = o.get('upper_bound')
    common = dict(ids=[ids[k] for k in order], boundf=-1 if ub is None else floor_scaled(ub, S), bound=[] if ub is None else brat(ub),
                  tol=tol, o={k: str(x) for k, x in o.items()}, shape=type(shape).__name__)
    if r is None:
        rec('seq', found=0, **common)
    else:
        rec('seq', found=1, lo=brat(r['lo']), up=brat(r['up']), lof=floor_scaled(r['lo'], S), upc=ceil_scaled(r['up'], S),
            upcw=ceil_scaled(enc.F(r['up']) * (mult + 1) / mult, S), idxs=[i + 1 for i in r['idxs']],
            curves=[enc.curve(c) for c in r['curves']], **common)


def job(rec, group, seed, cap, count, tols):
    rng = random.Random(seed)
    made = []
    for c in group:
        F, desc = classes.make(c, rng, rng.choice(['full', 'full', 'norev', 'subgroup']))
        if F is not None:
            made.append((classes.shrink(F, rng, rng.choice([1, 2, cap])), desc))
    if not made:
        return
    d = made[0][0].dim
    kind = rng.choice([k for k in kinds(d) if k != 'l2s'])
    for k, (F, desc) in enumerate(made):
        S = announce(rec, F, desc, kind, first=int(k == 0))
    est = Estimator(RATIO[kind])
    Fs, ids = [F for F, _ in made], list(range(1, len(made) + 1))
    for _ in range(count):
        run_one(rec, rng, Fs, ids, kind, S, est if rng.random() < .5 else Estimator(RATIO[kind]), tols)


def jobs(tier, rng):
    q = tier == 'quick'
    by = {}
    for c in gen.load('classes.json'):
        G = c['n'] ** c['d'] * len(c['paths'])
        if c['d'] <= 3 and G <= (18 if q else 27):
            by.setdefault(c['d'], []).append((G, c))
    out = []
    for d, cs in sorted(by.items()):
        for r in range({1: 3, 2: 48, 3: 15}[d] * (1 if q else 6)):
            size = rng.choice([1, 2, 3, 3, 4, 5])
            group = [rng.choice(cs) for _ in range(size)]
            W = sum(G * G for G, _ in group)
            cap = max(2, min(24, 1500 // W)) if q else max(4, min(100, 12000 // W))
            tols = [1, 2, 3] if d == 1 else [2, 5, 10, 20] if q else [2, 5, 20, 50, 100]
            out.append(Job('seq:%dd:%d' % (d, r), job, [c for _, c in group], rng.getrandbits(40), cap, 4 if q else 8, tols, cost=cap * W))
    return out


def run(ctx):
    ctx.models_bg([('MC_Sequence', 'MC_Sequence.cfg')])
    ctx.check_traces('C19_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
