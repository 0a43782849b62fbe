"""C08: continuity verdicts."""
import itertools, random
from lib.harness import Job
from lib import enc, gen
from quicktions import Fraction
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve
from peano.paths import Path, Proto
from peano.subsets import Point, Link, FacetDivSubset


def verdict(C):
    try:
        C.check()
        return 1
    except ValueError:
        return 0
    except AssertionError:
        return 0


def check_event(rec, C):
    rec('check', C=enc.curve(C), r=verdict(C))


def curve_job(rec, E, seed, nmut):
    rng = random.Random(seed)
    C = gen.mk_curve(E)
    check_event(rec, C)
    check_event(rec, ~C)
    check_event(rec, gen.rand_map(rng, C.dim) * C)
    # local mutations: one spec of one pattern replaced by a nearby one, or two cubes exchanged
    for _ in range(nmut):
        pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
        q = rng.randrange(C.mult)
        k = rng.choice([0, C.genus - 1, rng.randrange(C.genus), rng.randrange(C.genus)])
        s = pats[q][1][k]
        r = rng.random()
        if r < .35:
            t = ~s
        elif r < .55:
            t = Spec(gen.rand_map(rng, C.dim), s.pnum)
        elif r < .75:
            j = rng.randrange(C.dim)
            fl = BaseMap([(i, i == j) for i in range(C.dim)])
            t = rng.choice([fl * s, s * fl])
        elif r < .9:
            t = Spec(s.base_map, rng.randrange(C.mult))
        else:
            i = rng.randrange(C.genus - 1)
            pats[q][0][i], pats[q][0][i + 1] = pats[q][0][i + 1], pats[q][0][i]
            t = s
        pats[q][1][k] = t
        check_event(rec, Curve(C.dim, C.div, pats, pnum=C.pnum))


def rand_job(rec, shape, seed, n):
    rng = random.Random(seed)
    for _ in range(n):
        check_event(rec, gen.rand_curve(rng, *shape))


def hilbert_family(rec, seed, n):
    """all spec choices over the Hilbert prototype: many continuous ones"""
    rng = random.Random(seed)
    maps = list(BaseMap.gen_base_maps(2))
    proto = [(0, 0), (0, 1), (1, 1), (1, 0)]
    for _ in range(n):
        check_event(rec, Curve(2, 2, [(proto, [Spec(rng.choice(maps)) for _ in range(4)])]))
    corner = [m for m in maps]
    good = []
    for a in corner:
        good.append(Spec(a))
    import math
    for _ in range(n):
        # vertex-to-adjacent-vertex compatible choices, one coordinate off at random
        base = ['ji', 'ij', 'ij', 'JI']
        specs = [Spec.parse(x) for x in base]
        for k in range(4):
            if rng.random() < .5:
                fl = BaseMap([(0, True), (1, False)], True)
                specs[k] = specs[k] * fl       # same gates, time reversed
            if rng.random() < .12:
                specs[k] = ~specs[k]
        check_event(rec, Curve(2, 2, [(proto, specs)]))


def path_event(rec, p):
    D = enc.lcd([x for l in p.links for pt in (l.entrance, l.exit) for x in pt])
    rec('path', c=enc.proto(p.proto), D=D, l=[[enc.over(l.entrance, D), enc.over(l.exit, D)] for l in p.links], r=int(bool(p.is_continuous())))


def path_job(rec, E, seed, nmut):
    rng = random.Random(seed)
    for p in gen.mk_paths(E):
        path_event(rec, p)
        path_event(rec, ~p)
        path_event(rec, gen.rand_map(rng, p.dim) * p)
        for _ in range(nmut):
            links = list(p.links)
            k = rng.choice([0, len(links) - 1, rng.randrange(len(links))])
            l = links[k]
            r = rng.random()
            if r < .3:
                links[k] = ~l
            elif r < .6:
                links[k] = gen.rand_map(rng, p.dim) * l
            else:
                pts = [list(l.entrance), list(l.exit)]
                i, j = rng.randrange(2), rng.randrange(p.dim)
                pts[i][j] = rng.choice([Fraction(0), Fraction(1), pts[i][j] + Fraction(1, 1000), 1 - pts[i][j]])
                links[k] = Link(Point(pts[0]), Point(pts[1]))
            path_event(rec, Path(p.proto, links))


def eset(s):
    return [s.facet[0] + 1, s.facet[1], [list(c) for c in s.cubes]]


def facet_job(rec, seed, n):
    rng = random.Random(seed)
    for _ in range(n):
        d, div = rng.choice([(2, 2), (2, 3), (3, 2), (3, 3), (4, 2)])
        m = rng.randint(2, 6)
        # a walk of face-adjacent cubes (values outside the grid do not matter for the verdict)
        cubes = [tuple(0 for _ in range(d))]
        links = []

        def cc(L):
            return [tuple(rng.randrange(div) for _ in range(d - 1)) for _ in range(L)]
        dirs = []
        for _ in range(m - 1):
            j, sg = rng.randrange(d), rng.choice([-1, 1])
            c = list(cubes[-1])
            c[j] += sg
            dirs.append((j, sg))
            cubes.append(tuple(c))
        nested = [cc(rng.randint(0, 3)) for _ in range(m + 1)]
        for k in range(m):
            ein = (dirs[k - 1][0], 0 if dirs[k - 1][1] == 1 else 1) if k else (cc(0) or (rng.randrange(d), rng.randrange(2)))
            if k == 0:
                ein = (rng.randrange(d), rng.randrange(2))
            eout = (dirs[k][0], 1 if dirs[k][1] == 1 else 0) if k < m - 1 else (rng.randrange(d), rng.randrange(2))
            a = list(nested[k])
            b = list(nested[k + 1])
            # shorten / lengthen / perturb one side
            if rng.random() < .5 and a:
                a = a[:rng.randint(0, len(a))]
            if rng.random() < .3:
                b = b + cc(1)
            if rng.random() < .12 and a:
                i = rng.randrange(len(a))
                a[i] = cc(1)[0]
            if rng.random() < .06:
                ein = (ein[0], 1 - ein[1])
            links.append(Link(FacetDivSubset(d, div, ein, a), FacetDivSubset(d, div, eout, b)))
        try:
            p = Path(Proto(d, div, cubes), links)
        except AssertionError:
            # the global link needs the end cubes on the facet: move them there
            cs = list(cubes)
            f0, f1 = links[0].entrance.facet, links[-1].exit.facet
            off = [0] * d
            p = None
            for sh in itertools.product(range(-m, m + div), repeat=d):
                c0 = [x + s for x, s in zip(cs[0], sh)]
                c1 = [x + s for x, s in zip(cs[-1], sh)]
                if c0[f0[0]] == (0 if f0[1] == 0 else div - 1) and c1[f1[0]] == (0 if f1[1] == 0 else div - 1):
                    p = Path(Proto(d, div, [tuple(x + s for x, s in zip(c, sh)) for c in cs]), links)
                    break
            if p is None:
                continue
        L = max([len(x.cubes) for l in links for x in (l.entrance, l.exit)])
        try:
            r = int(bool(p.is_continuous()))
        except (AttributeError, NotImplementedError, TypeError):
            # facet subsets have no transform(): continuity of facet paths is not offered by this tree
            from lib.harness import Skip
            raise Skip('is_continuous on facet links')
        rec('fpath', d=d, n=div, L=L, c=enc.proto(p.proto), l=[[eset(l.entrance), eset(l.exit)] for l in links], r=r)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 320):
        G = E['n'] ** E['d'] * len(E['pats'])
        out.append(Job('curve:' + name, curve_job, E, rng.getrandbits(40), (2 if G > 60 else 5) if q else 30))
    for shape in gen.RAND_SHAPES:
        out.append(Job('rand:%s' % (shape,), rand_job, shape, rng.getrandbits(40), 8))
    for k in range(8 if q else 40):
        out.append(Job('hilbert%d' % k, hilbert_family, rng.getrandbits(40), 120))
    cl = [c for c in gen.load('classes.json')]
    for c in cl:
        out.append(Job('path:' + c['name'], path_job, c, rng.getrandbits(40), 12 if q else 60))
    for k in range(2):
        out.append(Job('facet%d' % k, facet_job, rng.getrandbits(40), 240 if q else 800))
    return out


def run(ctx):
    ctx.models_bg([('MC_Curve', 'MC_Curve.cfg')])
    ctx.check_traces('C08_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
