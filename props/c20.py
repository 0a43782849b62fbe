"""C20: SAT encoding of a class of curves under histories of forbidding and copying."""
import random
from lib.harness import Job, Skip
from lib import enc, gen
from props import classes
from props.c10 import n_templates, shrink as shrink_gates
from props.c09 import ej

try:
    from peano._sat_adapters import CurveSATAdapter as Adapter
except ImportError:
    Adapter = None


def parts(F, rng, templ):
    """a partially specified curve of the class"""
    z = rng.random()
    if z < .25 and templ:
        return rng.choice(templ)
    P = F
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6])):
        q, k = rng.randrange(F.mult), rng.randrange(F.genus)
        P = P.specify(q, k, rng.choice(sorted(P.gen_allowed_specs(q, k), key=str)))
    return P


def edefs(P):
    return [[q + 1, k + 1, enc.spec(s)] for q, k, s in P.gen_defined_specs()]


def ejunc(j):
    x = ej(j)
    return dict(s1=x[0], s2=x[1], dx=x[2], dt=enc.I(j.delta_t))


class Hist:
    def __init__(self, rec, F):
        self.rec, self.F, self.ads = rec, F, []

    def new(self):
        self.ads.append(Adapter(curve=self.F))
        self.rec('new', a=len(self.ads))

    def copy(self, b):
        self.ads.append(Adapter(adapter=self.ads[b - 1]))
        self.rec('copy', a=len(self.ads), b=b)

    def forbid(self, a, j, P):
        self.ads[a - 1].add_forbid_clause(j, P)
        self.rec('forbid', a=a, j=ejunc(j), t=edefs(P))

    def solve(self, a):
        ad = self.ads[a - 1]
        sat = bool(ad.solve())
        C = ad.get_model_curve() if sat else None
        self.rec('solve', a=a, sat=int(sat), C=[enc.curve(C)] if sat else [])
        return C


def job(rec, cls, seed, opt, cap, tcap, steps, big, other):
    if Adapter is None:
        raise Skip('no peano._sat_adapters.CurveSATAdapter')
    rng = random.Random(seed)
    F, desc = classes.make(cls, rng, opt)
    if F is None:
        return
    F = shrink_gates(F, rng, tcap)
    if not big:
        F = classes.shrink(F, rng, cap)
    if n_templates(F) > 2 * tcap:
        return
    rec('class', big=int(big), **classes.describe(F, desc))
    templates = F.get_junction_templates()
    juncs = list(templates)
    autos = list(F.gen_auto_junctions())
    foreign = []
    if other is not None and other['d'] == F.dim:
        foreign = list(gen.mk_curve(other).gen_regular_junctions())
    H = Hist(rec, F)
    H.new()
    if rng.random() < .3:
        H.solve(1)
        H.new()
    solved = set()
    if len(H.ads) > 1:
        solved.add(1)
    for _ in range(steps):
        z = rng.random()
        a = rng.randint(1, len(H.ads))
        if z < .12 and len(H.ads) < 5:
            free = [x for x in range(1, len(H.ads) + 1) if x not in solved]
            if free:
                H.copy(rng.choice(free))
        elif z < .75:
            y = rng.random()
            if y < .7 and juncs:
                j = rng.choice(juncs)
            elif y < .9 or not foreign:
                j = rng.choice(autos)
            else:
                j = rng.choice(foreign)
            P = parts(F, rng, templates.get(j, []))
            if j in autos and len(edefs(P)) <= len(edefs(F)) + 1 and rng.random() < .8:
                P = parts(P, rng, [])
            H.forbid(a, j, P)
        elif len(H.ads) - len(solved) > 1 or a in solved or rng.random() < .3:
            H.solve(a)
            solved.add(a)
    for a in range(1, len(H.ads) + 1):
        H.solve(a)
    # exhaust the models of one encoding: each found curve is forbidden in turn
    a = rng.randint(1, len(H.ads))
    for _ in range(cap + 2 if not big else 20):
        C = H.solve(a)
        if C is None:
            break
        H.forbid(a, rng.choice(autos), C)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    curves = [E['C'] for E in gen.load('curves.json')]
    for c in gen.load('classes.json'):
        G = c['n'] ** c['d'] * len(c['paths'])
        if c['d'] > 4 or G > (40 if q else 60):
            continue
        for r in range(4 if q else 8):
            opt = rng.choice(['full', 'full', 'norev', 'subgroup'])
            other = rng.choice([E for E in curves if E['d'] == c['d']])
            cap = rng.choice([4, 16, 40]) if q else rng.choice([8, 32, 100, 200])
            out.append(Job('sat:%s:%s:%d' % (c['name'], opt, r), job, c, rng.getrandbits(40), opt, cap, 120 if q else 400, 14 if q else 30, False, other, cost=cap * G))
        out.append(Job('big:%s' % c['name'], job, c, rng.getrandbits(40), 'full', 0, 120 if q else 600, 14 if q else 40, True, None, cost=20 * G))
    return out


def run(ctx):
    ctx.models_bg([('MC_Sat', 'MC_Sat.cfg')])
    ctx.check_traces('C20_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
