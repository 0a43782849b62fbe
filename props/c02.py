"""C02: constrained isometries and standard forms."""
import itertools, random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from peano.base_maps import BaseMap
from peano.subsets import Point, Link, FacetDivSubset


def rpt(rng, d):
    """points with many coincidences: repeated, complementary, one-half coordinates; sometimes outside the cube"""
    D = rng.choice([1, 2, 2, 3, 4, 4, 6, 8, 9, 12, 60])
    pool = [Fraction(rng.randrange(0, D + 1), D) for _ in range(rng.choice([1, 1, 2, 3]))]
    if rng.random() < .3:
        pool.append(Fraction(1, 2))
    if rng.random() < .06:
        pool.append(Fraction(rng.randrange(-2 * D, 3 * D), D))
    pool += [1 - x for x in pool]
    return Point(rng.choice(pool) for _ in range(d))


def near(rng, p):
    """an image of p, or a near miss"""
    q = gen.rand_map(rng, len(p), False) * p
    if rng.random() < .35:
        xs = list(q)
        k = rng.randrange(len(xs))
        xs[k] = rng.choice([xs[rng.randrange(len(xs))], 1 - xs[k], Fraction(1, 2), xs[k] + Fraction(1, 7)])
        q = Point(xs)
    return q


def maps(it):
    return [enc.bm(b) for b in it]


def D_of(*ps):
    return enc.lcd(x for p in ps for x in p)


def point_job(rec, seed, n, dims):
    rng = random.Random(seed)
    for _ in range(n):
        d = rng.choice(dims)
        p = rpt(rng, d)
        q = near(rng, p) if rng.random() < .85 else rpt(rng, d)
        D = D_of(p, q)
        arg = rng.choice([lambda z: z, list, tuple])
        rec('cons', d=d, D=D, x=enc.over(p, D), y=enc.over(q, D), r=maps(BaseMap.gen_constraint_fast(arg(p), arg(q))))
        rec('pstd', d=d, D=D, x=enc.over(p, D), r=enc.over(p.std(), D))
        rec('argstd', d=d, D=D, x=enc.over(p, D), r=maps(p.argstd()))
        rec('ppair', d=d, D=D, x=enc.over(p, D), y=enc.over(q, D), same=int(p.std() == q.std()))
        among = [gen.rand_map(rng, d) for _ in range(12)]
        uniq = list(dict.fromkeys(among))
        rec('pmul', d=d, D=D, x=enc.over(p, D), y=enc.over(q, D), among=maps(uniq), r=maps(p.argmul_intersect(q, bms=iter(uniq))))
        if d <= 3:
            allm = list(BaseMap.gen_base_maps(d, time_rev=False))
            rec('pmul', d=d, D=D, x=enc.over(p, D), y=enc.over(q, D), among=maps(allm), r=maps(p.argmul_intersect(q)))


def rlink(rng, d):
    return Link(rpt(rng, d), rpt(rng, d)) if rng.random() < .6 else (lambda p: Link(p, near(rng, p)))(rpt(rng, d))


def link_job(rec, seed, n, dims):
    rng = random.Random(seed)
    for _ in range(n):
        d = rng.choice(dims)
        k = rlink(rng, d)
        l = gen.rand_map(rng, d) * k
        if rng.random() < .3:
            l = Link(l.entrance, near(rng, l.exit))
        if rng.random() < .1:
            l = rlink(rng, d)
        D = D_of(k.entrance, k.exit, l.entrance, l.exit)
        E = lambda z: [enc.over(z.entrance, D), enc.over(z.exit, D)]
        s, s2 = k.std(), l.std()
        rec('lstd', d=d, D=D, x=E(k), r=E(s))
        rec('lpair', d=d, D=D, x=E(k), y=E(l), same=int(s == s2))
        rec('lmul', d=d, D=D, x=E(k), y=E(l), r=maps(k.argmul_intersect(l)))


def rfacet(rng, d, n, depth):
    return FacetDivSubset(d, n, (rng.randrange(d), rng.randrange(2)),
                          [tuple(rng.randrange(n) for _ in range(d - 1)) for _ in range(rng.randrange(depth + 1))])


def eset(s):
    return [s.facet[0] + 1, s.facet[1], [list(c) for c in s.cubes]]


def fnear(rng, s, n, d):
    t = gen.rand_map(rng, d, False) * s
    cubes = [list(c) for c in t.cubes]
    if rng.random() < .4 and cubes:
        cubes = cubes[:rng.randrange(len(cubes))]
    elif rng.random() < .3 and cubes and d > 1:
        c = rng.choice(cubes)
        c[rng.randrange(d - 1)] = rng.randrange(n)
    elif rng.random() < .3:
        cubes = cubes + [[rng.randrange(n) for _ in range(d - 1)]]
    return FacetDivSubset(d, n, t.facet, [tuple(c) for c in cubes])


def facet_job(rec, seed, n_, dims):
    rng = random.Random(seed)
    for _ in range(n_):
        d, n = rng.choice(dims), rng.choice([2, 2, 3, 4])
        s = rfacet(rng, d, n, 3)
        t = fnear(rng, s, n, d) if rng.random() < .85 else rfacet(rng, d, n, 3)
        L = max(len(s.cubes), len(t.cubes))
        rec('fmul', d=d, n=n, L=L, x=eset(s), y=eset(t), r=maps(s.argmul_intersect(t)))
        among = list(dict.fromkeys(gen.rand_map(rng, d, False) for _ in range(10)))
        rec('fmulb', d=d, n=n, L=L, x=eset(s), y=eset(t), among=maps(among), r=maps(s.argmul_intersect(t, bms=iter(among))))
        k = Link(s, rfacet(rng, d, n, 2))
        l = gen.rand_map(rng, d) * k
        if rng.random() < .5:
            l = Link(fnear(rng, l.entrance, n, d), l.exit)
        if rng.random() < .2:
            l = Link(l.entrance, fnear(rng, l.exit, n, d))
        L = max(len(z.cubes) for z in (k.entrance, k.exit, l.entrance, l.exit))
        E = lambda z: [eset(z.entrance), eset(z.exit)]
        rec('flmul', d=d, n=n, L=L, x=E(k), y=E(l), r=maps(k.argmul_intersect(l)))
        r = k.std()
        L = max([L] + [len(z.cubes) for z in (r.entrance, r.exit)])
        imgs = [gen.rand_map(rng, d) * k for _ in range(5)]
        rec('flpair', d=d, n=n, L=L, x=E(k), y=E(l), r=E(r), same=int(r == l.std()), le=[int(not (z < r)) for z in imgs])


def grid_job(rec, d, D, xs, part, parts):
    """every pair of points over a small grid"""
    pts = [Point(Fraction(x, D) for x in p) for p in itertools.product(xs, repeat=d)]
    k = 0
    for p in pts:
        for q in pts:
            k += 1
            if k % parts != part:
                continue
            rec('cons', d=d, D=D, x=enc.over(p, D), y=enc.over(q, D), r=maps(BaseMap.gen_constraint_fast(p, q)))
            r = Link(p, q).std()
            rec('lstd', d=d, D=D, x=[enc.over(p, D), enc.over(q, D)], r=[enc.over(r.entrance, D), enc.over(r.exit, D)])


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    js = []
    for k in range(8):
        js.append(Job('points%d' % k, point_job, rng.getrandbits(40), 80 if q else 400, [1, 2, 2, 3, 3, 4]))
        js.append(Job('links%d' % k, link_job, rng.getrandbits(40), 90 if q else 400, [1, 2, 2, 3, 3, 3]))
        js.append(Job('facets%d' % k, facet_job, rng.getrandbits(40), 120 if q else 300, [2, 2, 3, 3, 3]))
        js.append(Job('grid2_%d' % k, grid_job, 2, 4, [0, 1, 2, 3, 4], k, 8))
        js.append(Job('grid3_%d' % k, grid_job, 3, 2, [0, 1, 2], k, 8) if q else Job('grid3_%d' % k, grid_job, 3, 4, [0, 1, 2, 4], k, 8))
        js.append(Job('links4_%d' % k, link_job, rng.getrandbits(40), 4 if q else 40, [4]))
        js.append(Job('points5_%d' % k, point_job, rng.getrandbits(40), 1 if q else 20, [5]))
    ctx.models_bg([('MC_Orbit', 'MC_Orbit%d.cfg' % d) for d in (1, 2, 3)])
    ctx.check_traces('C02_Trace', ctx.drive(js))
