"""C09: regular junctions and depths."""
import random
from lib.harness import Job
from lib import enc, gen


def ej(j):
    return [enc.spec(j.spec1), enc.spec(j.spec2), [enc.I(x) for x in j.delta_x], -1 if j.depth is None else j.depth, enc.I(j.delta_t)]


def juncs(rec, C):
    r = [ej(j) for j in C.gen_regular_junctions()]
    rec('juncs', C=enc.curve(C), r=r, occ=int(len(r) <= 60), depth=C.get_depth(), auto=[ej(j)[:3] + [ej(j)[4], ej(j)[3]] for j in C.gen_auto_junctions()])


def job(rec, E, seed, nmaps):
    rng = random.Random(seed)
    C = gen.mk_curve(E)
    juncs(rec, C)
    for _ in range(nmaps):
        juncs(rec, gen.rand_map(rng, C.dim) * C)


def jobs(tier, rng):
    out = []
    for name, E in gen.pick_corpus(rng, 320):
        G = E['n'] ** E['d'] * len(E['pats'])
        out.append(Job('curve:' + name, job, E, rng.getrandbits(40), (1 if G > 60 else 2) if tier == 'quick' else 12))
    return out


def run(ctx):
    ctx.models_bg([('MC_Junction', 'MC_Junction.cfg'), ('MC_Junction', 'MC_Junction2.cfg')])
    ctx.check_traces('C09_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
