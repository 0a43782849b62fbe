"""C15: points, facet subsets and links as sets."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from peano.subsets import Point, FacetDivSubset, Link
from props.c02 import rfacet


def ef(s):
    return [s.facet[0] + 1, s.facet[1], [list(c) for c in s.cubes]]


def rpt(rng, d, inside):
    den = rng.choice([1, 1, 2, 3, 4, 6, 12, 5, 7, 24, 60])
    style = rng.random()
    out = []
    for _ in range(d):
        r = rng.random()
        if inside:
            out.append(Fraction(rng.choice([0, den, rng.randrange(den + 1)]), den))
        elif r < .4:
            out.append(Fraction(rng.randrange(-3, 5)))
        else:
            out.append(Fraction(rng.randrange(-3 * den, 4 * den + 1), den))
    return Point(out)


def ep(p):
    D = enc.lcd(p)
    return [enc.over(p, D), D]


def point_job(rec, seed, cnt):
    rng = random.Random(seed)
    for _ in range(cnt):
        d = rng.choice([1, 2, 2, 3, 3, 4, 5])
        n = rng.choice([2, 2, 3, 4, 5, 7])
        p = rpt(rng, d, rng.random() < .7)
        x, D = ep(p)
        inside = all(0 <= v <= D for v in x)
        c = tuple(rng.randrange(n) for _ in range(d))
        a = gen.rand_map(rng, d)
        sc = Fraction(rng.randrange(-6, 7), rng.choice([1, 2, 3, 5]))
        if rng.random() < .1:
            sc = Fraction(0)
        shp = rpt(rng, d, False)
        sh, shD = ep(shp)
        if rng.random() < .4:
            shp = tuple(rng.randrange(-3, 4) for _ in range(d))
            sh, shD = list(shp), 1
        rec('point', x=x, D=D, n=n, c=list(c), to=ep(p.map_to_cube(n, c)),
            nb=[[list(map(enc.I, cc))] + ep(q) for cc, q in p.gen_neighbours()],
            dv=[[list(map(enc.I, cc))] + ep(q) for cc, q in p.divide(n)] if inside else [], fd=p.face_dim() if inside else 0,
            a=enc.bm(a), im=ep(a * p), sc=[int(sc.numerator), int(sc.denominator)], sh=sh, shD=shD,
            tr=ep(p.transform(scale=sc, shift=shp)), ts=ep(p.transform(scale=sc)), tt=ep(p.transform(shift=shp)))
        q = rpt(rng, d, True) if rng.random() < .5 else Point(v if rng.random() < .8 else 1 - v for v in p)
        if rng.random() < .15:
            q = Point(Fraction(int(v.numerator), int(v.denominator)) for v in p)
        E = enc.lcd(list(p) + list(q))
        rec('pair', x=enc.over(p, E), y=enc.over(q, E), lt=int(p < q), eq=int(p == q), it=int(p.intersects(q)), hq=int(hash(p) == hash(q)))
        k, l = Link(p, q), Link(p if rng.random() < .6 else q, q if rng.random() < .6 else p)
        rec('pair', x=enc.over(list(k.entrance) + list(k.exit), E), y=enc.over(list(l.entrance) + list(l.exit), E),
            lt=int(k < l), eq=int(k == l), it=int(k.intersects(l)), hq=int(hash(k) == hash(l)))
        im, inv, tr = a * k, ~k, k.transform(scale=sc, shift=shp)
        iD = enc.lcd(list(im.entrance) + list(im.exit))
        tD = enc.lcd(list(tr.entrance) + list(tr.exit))
        rec('link', a=enc.bm(a), x=[enc.over(p, E), enc.over(q, E)], D=E, im=[enc.over(im.entrance, iD), enc.over(im.exit, iD)], imD=iD,
            inv=[enc.over(inv.entrance, E), enc.over(inv.exit, E)], sc=[int(sc.numerator), int(sc.denominator)], sh=sh, shD=shD,
            tr=[enc.over(tr.entrance, tD), enc.over(tr.exit, tD)], trD=tD)


def facet_job(rec, seed, cnt):
    rng = random.Random(seed)
    for _ in range(cnt):
        d = rng.choice([2, 2, 3, 3, 4])
        n = rng.choice([2, 2, 3, 4, 5])
        s = rfacet(rng, d, n, 3)
        L = len(s.cubes) + 1
        a = gen.rand_map(rng, d, rev=False)
        c = [rng.randrange(n) for _ in range(d)]
        c[s.facet[0]] = 0 if s.facet[1] == 0 else n - 1
        if n ** L < 30000:
            rec('facet', d=d, n=n, L=L, s=ef(s), nb=[[list(cc), ef(t)] for cc, t in s.gen_neighbours()], dv=[[list(cc), ef(t)] for cc, t in s.divide(n)],
                a=enc.bm(a), im=ef(a * s), c=c, to=ef(s.map_to_cube(n, tuple(c))))
        fam = [s]
        while len(fam) < 6:
            z = rng.random()
            b = fam[0]
            if z < .2:
                t = rfacet(rng, d, n, 3)
            elif z < .4:
                t = FacetDivSubset(d, n, b.facet, list(b.cubes) + [tuple(rng.randrange(n) for _ in range(d - 1))])
            elif z < .6:
                t = FacetDivSubset(d, n, b.facet, b.cubes[:rng.randrange(len(b.cubes) + 1)])
            elif z < .8:
                t = FacetDivSubset(d, n, (b.facet[0], 1 - b.facet[1]) if rng.random() < .3 else b.facet, [tuple(x if rng.random() < .8 else rng.randrange(n) for x in q) for q in b.cubes])
            else:
                t = gen.rand_map(rng, d, rev=False) * b
            fam.append(t)
        for t in fam[1:4]:
            L = max(len(s.cubes), len(t.cubes))
            rec('fpair', d=d, n=n, L=L, s=ef(s), t=ef(t), it=int(s.intersects(t)), eq=int(s == t), hq=int(hash(s) == hash(t)))
        uniq = {str(ef(t)): t for t in fam}
        fam = list(uniq.values())
        rec('order', lt=[[int(x < y) for y in fam] for x in fam])
        k = Link(rng.choice(fam), rng.choice(fam))
        l = Link(rng.choice(fam), rng.choice(fam))
        if rng.random() < .3:
            l = Link(k.entrance, l.exit)
        if rng.random() < .2:
            l = ~k
        m = gen.rand_map(rng, d)
        im = m * k
        L = max(len(z.cubes) for z in (k.entrance, k.exit, l.entrance, l.exit))
        rec('flink', d=d, n=n, L=L, a=enc.bm(m), x=[ef(k.entrance), ef(k.exit)], y=[ef(l.entrance), ef(l.exit)],
            im=[ef(im.entrance), ef(im.exit)], it=int(k.intersects(l)), eq=int(k == l))


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    js = []
    for k in range(48 if q else 80):
        js.append(Job('points%d' % k, point_job, rng.getrandbits(40), 60 if q else 200))
        js.append(Job('facets%d' % k, facet_job, rng.getrandbits(40), 40 if q else 120))
    ctx.models_bg([('MC_Subset', 'MC_Subset%d.cfg' % k) for k in (1, 2, 3)])
    ctx.check_traces('C15_Trace', ctx.drive(js))
