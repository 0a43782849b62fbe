"""C06: entrance and exit."""
import random
from lib.harness import Job
from lib import enc, gen
from peano.curves import Curve, FuzzyCurve
from peano.base_maps import Spec, BaseMap


def end(rec, C, EC, q, last, pt):
    D = enc.lcd(pt)
    rec('end', C=EC, q=q + 1, last=last, D=enc.big(D), x=[enc.big(x) for x in enc.over(pt, D)])


def ends(rec, C):
    EC = enc.curve(C)
    end(rec, C, EC, C.pnum, 0, C.get_entrance())
    end(rec, C, EC, C.pnum, 1, C.get_exit())
    for q in range(C.mult):
        end(rec, C, EC, q, 0, C.get_entrance(q))
        end(rec, C, EC, q, 1, C.get_exit(pnum=q))


def paths(rec, C):
    ps = C.get_paths()
    g = [(C.get_entrance(q), C.get_exit(q)) for q in range(C.mult)]
    allp = [x for p in g for pt in p for x in pt] + [x for p in ps for l in p.links for pt in (l.entrance, l.exit) for x in pt] \
        + [x for p in ps for pt in (p.link.entrance, p.link.exit) for x in pt]
    D = enc.lcd(allp)
    L = len(enc.big(D))

    def big(pt):
        out = []
        for x in enc.over(pt, D):
            b = enc.big(x)
            out.append(b + [0] * (L - len(b)))
        return out
    rec('paths', C=enc.curve(C), D=enc.big(D), g=[[big(a), big(b)] for a, b in g],
        c=[enc.proto(p.proto) for p in ps], l=[[[big(l.entrance), big(l.exit)] for l in p.links] for p in ps],
        gl=[[big(p.link.entrance), big(p.link.exit)] for p in ps])


def job(rec, E, seed, n):
    rng = random.Random(seed)
    for i in range(n):
        C = gen.mk_curve(E) if isinstance(E, dict) else gen.rand_curve(rng, *E, rev=rng.choice([0, .5, .5, .9]))
        if isinstance(E, dict) and i:
            C = gen.rand_map(rng, C.dim) * C
        ends(rec, C)
        if C.genus * C.mult <= 130 and i < 3:
            paths(rec, C)
        # only first and last cubes/specs defined
        pats = []
        for p in C.patterns:
            N = C.genus
            pats.append(([c if k in (0, N - 1) else None for k, c in enumerate(p.proto)],
                         [s if k in (0, N - 1) else None for k, s in enumerate(p.specs)]))
        Fz = FuzzyCurve(C.dim, C.div, pats, pnum=C.pnum)
        ends(rec, Fz)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 220 if q else 400):
        out.append(Job('curve:' + name, job, E, rng.getrandbits(40), 2))
    for shape in gen.RAND_SHAPES:
        big = shape[1] ** shape[0] * shape[2] > 40
        for k in range(7 if q else 20):
            out.append(Job('rand:%s:%d' % (shape, k), job, shape, rng.getrandbits(40), 3 if big else 14))
    return out


def run(ctx):
    ctx.models_bg([('MC_Limit', 'MC_Limit.cfg')])
    ctx.check_traces('C06_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
