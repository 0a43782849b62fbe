"""C10: junction templates."""
import random
from lib.harness import Job
from lib import enc, gen
from props.c11 import subgroup
from props.c09 import ej
from peano.base_maps import BaseMap
from peano.curves import Curve, PathFuzzyCurve


def n_templates(F):
    """how many templates there are at most"""
    al = [[len(list(F.gen_allowed_specs(q, k))) for k in range(F.genus)] for q in range(F.mult)]
    g = 1
    for q in range(F.mult):
        g *= al[q][0] * al[q][-1]
    t = 0
    for q in range(F.mult):
        for k in range(F.genus - 1):
            a = 1 if k == 0 else al[q][k]
            b = 1 if k + 1 == F.genus - 1 else al[q][k + 1]
            t += g * a * b
    return t


def shrink(F, rng, cap):
    """specify gate fractions until the number of templates is manageable"""
    pos = [(q, k) for q in range(F.mult) for k in (0, F.genus - 1)] + \
          [(q, k) for q in range(F.mult) for k in range(1, F.genus - 1)]
    gates = pos[:2 * F.mult]
    rng.shuffle(gates)
    rest = pos[2 * F.mult:]
    rng.shuffle(rest)
    todo = gates + rest
    while n_templates(F) > cap and todo:
        q, k = todo.pop(0)
        F = F.specify(q, k, rng.choice(list(F.gen_allowed_specs(q, k))))
    return F


def member(F, rng):
    pats = [(p.proto, [rng.choice(list(F.gen_allowed_specs(q, k))) for k in range(F.genus)]) for q, p in enumerate(F.patterns)]
    return Curve(F.dim, F.div, pats, pnum=F.pnum)


def job(rec, cls, seed, opt, cap, nmem):
    rng = random.Random(seed)
    d = cls['d']
    kw = {}
    if opt == 'norev':
        kw = {'disable_time_rev': True}
    elif opt == 'subgroup':
        kw = {'base_maps_group': subgroup(rng, d)}
    try:
        F = PathFuzzyCurve.init_from_paths(gen.mk_paths(cls), **kw)
    except KeyError:
        return
    if rng.random() < .4:
        F = gen.rand_map(rng, d) * F
    for _ in range(rng.choice([0, 0, 1, 3])):
        q, k = rng.randrange(F.mult), rng.randrange(F.genus)
        F = F.specify(q, k, rng.choice(list(F.gen_allowed_specs(q, k))))
    F = shrink(F, rng, cap)
    if n_templates(F) > 2 * cap:
        return
    base = [[q + 1, k + 1, enc.spec(s)] for q, k, s in F.gen_defined_specs()]
    js = []
    for junc, curves in F.get_junction_templates().items():
        js.append({'j': ej(junc)[:3], 't': [[[q + 1, k + 1, enc.spec(s)] for q, k, s in c.gen_defined_specs()] for c in curves]})
    rec('templates', js=js, keys=[ej(j)[:3] for j in F.gen_regular_junctions()], base=base)
    if F.count_possible_curves() <= nmem:
        ms = list(F.gen_possible_curves())
    else:
        ms = [member(F, rng) for _ in range(nmem)]
    for C in ms:
        rec('member', C=enc.curve(C))


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    js = []
    for c in gen.load('classes.json'):
        if c['d'] > 4 or c['n'] ** c['d'] > 30:
            continue
        for r in range(2 if q else 4):
            js.append(Job('class:%s:%d' % (c['name'], r), job, c, rng.getrandbits(40), 'full', 150 if q else 800, 8 if q else 40))
            js.append(Job('opt:%s:%d' % (c['name'], r), job, c, rng.getrandbits(40), rng.choice(['norev', 'subgroup', 'norev', 'full']),
                          150 if q else 800, 8 if q else 40))
    ctx.models_bg([('MC_Junction', 'MC_Junction.cfg'), ('MC_Junction', 'MC_Junction2.cfg')])
    ctx.check_traces('C10_Trace', ctx.drive(js))
