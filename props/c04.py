"""C04: actions on curves, prototypes, links, paths and classes; equality."""
import random
from lib.harness import Job, Skip
from lib import enc, gen
from quicktions import Fraction
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, FuzzyCurve, PathFuzzyCurve, Pattern, CurvePoint
from peano.paths import Proto, Path
from peano.subsets import Link, Point


def elink(l, D):
    return [D, enc.over(l.entrance, D), enc.over(l.exit, D)]


def int_positions(C, q, l, ts):
    """positions of the depth-l cubes number ts of pattern q, through the public subdivision"""
    S = C.get_subdivision(l - 1) if l > 1 else C
    return [enc.cube(S.patterns[q].proto[t]) for t in ts]


def act_curve(rec, C, rng, maps, deep=False):
    EC = enc.curve(C)
    for b in maps:
        R = b * C
        rec('act', a=[enc.bm(b), 0], C=EC, r=enc.curve(R))
        s = Spec(b, rng.randrange(C.mult))
        rec('act', a=[enc.bm(b), s.pnum + 1], C=EC, r=enc.curve(s * C))
        if deep and C.genus <= 16:
            l = 2 if C.genus > 4 else 3
            q = rng.randrange(C.mult)
            T = C.genus ** l
            ts = sorted(rng.sample(range(T), min(8, T)))
            rec('deep', a=[enc.bm(b), 0], C=EC, q=q + 1, l=l, ts=ts, xs=int_positions(R, q, l, ts))
    rv = ~BaseMap.id_map(C.dim)
    rec('act', a=[enc.bm(rv), 0], C=EC, r=enc.curve(~C))
    rec('act', a=[enc.bm(BaseMap.id_map(C.dim)), 0], C=EC, r=enc.curve(~~C))
    # compositions
    a, b = rng.choice(maps), rng.choice(maps)
    rec('act', a=[enc.bm(a * b), 0], C=EC, r=enc.curve(a * (b * C)))
    rec('act', a=[enc.bm(a), 0], C=enc.curve(b * C), r=enc.curve((a * b) * C))
    rec('act', a=[enc.bm(rv * a), 0], C=EC, r=enc.curve(~(a * C)))
    rec('act', a=[enc.bm(a * rv), 0], C=EC, r=enc.curve(a * ~C))
    # the input has not changed
    rec('act', a=[enc.bm(BaseMap.id_map(C.dim)), 0], C=EC, r=enc.curve(C))


def eqs(rec, C, rng):
    EC = enc.curve(C)

    def cmp(D):
        h = 0
        try:
            h = int(hash(C) == hash(D))
        except TypeError:
            h = 0
        rec('eq', C=EC, D=enc.curve(D), r=int(bool(C == D)), ne=int(bool(C != D)), h=h)
    cmp(C)
    cmp(gen.mk_curve(EC))
    for q in range(C.mult):
        pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
        k = rng.randrange(C.genus)
        s = pats[q][1][k]
        pats[q][1][k] = Spec(gen.rand_map(rng, C.dim), s.pnum)
        cmp(Curve(C.dim, C.div, pats, pnum=C.pnum))
        pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
        pats[q][1][k] = ~s
        cmp(Curve(C.dim, C.div, pats, pnum=C.pnum))
        pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
        pats[q][1][k] = Spec(s.base_map, (s.pnum + 1) % C.mult)
        cmp(Curve(C.dim, C.div, pats, pnum=C.pnum))
        pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
        i, j = rng.sample(range(C.genus), 2)
        pats[q][0][i], pats[q][0][j] = pats[q][0][j], pats[q][0][i]
        cmp(Curve(C.dim, C.div, pats, pnum=C.pnum))
    pats = [(list(p.proto), list(p.specs)) for p in C.patterns]
    cmp(Curve(C.dim, C.div, pats, pnum=(C.pnum + 1) % C.mult))
    if C.mult > 1:
        cmp(Curve(C.dim, C.div, pats[::-1], pnum=C.pnum))
    cmp(Curve(C.dim, C.div, pats + [pats[0]], pnum=C.pnum))


def protos(rec, C, rng, maps):
    P = C.patterns[rng.randrange(C.mult)].proto
    holes = Proto(C.dim, C.div, [c if rng.random() < .5 else None for c in P])
    for p in (P, holes):
        for b in maps:
            rec('proto', a=enc.bm(b), n=C.div, c=enc.proto(p), r=enc.proto(b * p))
        rec('proto', a=enc.bm(~BaseMap.id_map(C.dim)), n=C.div, c=enc.proto(p), r=enc.proto(~p))
    pat = C.patterns[rng.randrange(C.mult)]
    rec('pattern', c=enc.proto(pat.proto), s=[enc.spec(s) for s in pat.specs], r=enc.pattern(~pat))
    pat = Pattern(holes, [s if rng.random() < .5 else None for s in pat.specs])
    rec('pattern', c=enc.proto(pat.proto), s=[enc.spec(s) for s in pat.specs], r=enc.pattern(~pat))


def fuzzy(rec, C, rng, maps):
    """partially specified curves"""
    pats = [([c if rng.random() < .6 else None for c in p.proto], [s if rng.random() < .6 else None for s in p.specs]) for p in C.patterns]
    Fz = FuzzyCurve(C.dim, C.div, pats, pnum=C.pnum)
    act_curve(rec, Fz, rng, maps)


def curve_job(rec, E, seed, nmaps, deep):
    rng = random.Random(seed)
    C = gen.mk_curve(E)
    maps = [gen.rand_map(rng, C.dim) for _ in range(nmaps)]
    act_curve(rec, C, rng, maps, deep)
    eqs(rec, C, rng)
    protos(rec, C, rng, maps[:3])
    fuzzy(rec, C, rng, maps[:2])


def rand_job(rec, shape, seed, nmaps):
    rng = random.Random(seed)
    C = gen.rand_curve(rng, *shape)
    maps = [gen.rand_map(rng, C.dim) for _ in range(nmaps)]
    act_curve(rec, C, rng, maps, deep=shape[0] <= 3)
    eqs(rec, C, rng)
    protos(rec, C, rng, maps[:3])
    fuzzy(rec, C, rng, maps[:2])


def all_maps_job(rec, E):
    rng = random.Random(5)
    C = gen.mk_curve(E)
    act_curve(rec, C, rng, list(BaseMap.gen_base_maps(C.dim)), deep=True)


def links_job(rec, seed, n):
    rng = random.Random(seed)
    for _ in range(n):
        d = rng.randint(1, 5)
        D = rng.choice([1, 2, 3, 6, 14])
        pts = [Point(Fraction(rng.randint(0, D), D) for _ in range(d)) for _ in range(2)]
        l = Link(*pts)
        b = gen.rand_map(rng, d)
        rec('link', a=enc.bm(b), l=elink(l, D), r=elink(b * l, D))
        rec('link', a=enc.bm(~BaseMap.id_map(d)), l=elink(l, D), r=elink(~l, D))
        T = rng.choice([1, 2, 8, 63])
        t = rng.randint(0, T)
        cp = CurvePoint(pts[0], Fraction(t, T))
        r = b * cp
        rec('cpoint', a=enc.bm(b), x=[D, enc.over(pts[0], D), T, t],
            r=[D, enc.over(r.x, D), T, enc.I(enc.F(r.t) * T)])


def path_job(rec, E, seed, nmaps):
    rng = random.Random(seed)
    paths = gen.mk_paths(E)
    n = E['n']
    for p in paths:
        D = 1
        for l in p.links:
            D = enc.lcd([Fraction(1, D), *l.entrance, *l.exit])
        c, ls = enc.proto(p.proto), [elink(l, D) for l in p.links]
        g = elink(p.link, D * n)
        bs = [gen.rand_map(rng, p.dim) for _ in range(nmaps)]
        for b in bs + [None]:
            r = ~p if b is None else b * p
            bb = ~BaseMap.id_map(p.dim) if b is None else b
            rec('path', a=enc.bm(bb), n=n, c=c, ls=ls, g=g, rc=enc.proto(r.proto),
                rl=[elink(l, D) for l in r.links], rg=elink(r.link, D * n))
            for q in (r, p, Path(p.proto, p.links)):
                rec('patheq', c1=enc.proto(r.proto), l1=[elink(l, D) for l in r.links], c2=enc.proto(q.proto),
                    l2=[elink(l, D) for l in q.links], r=int(bool(r == q)), h=int(hash(r) == hash(q)))
        # equality has to look at links as well
        q = Path(p.proto, [~l for l in p.links])
        rec('patheq', c1=c, l1=ls, c2=c, l2=[elink(l, D) for l in q.links], r=int(bool(p == q)), h=int(hash(p) == hash(q)))
        if len(p.links) > 2:
            k = rng.randrange(1, len(p.links) - 1)
            q = Path(p.proto, p.links[:k] + (~p.links[k],) + p.links[k + 1:])
            rec('patheq', c1=c, l1=ls, c2=c, l2=[elink(l, D) for l in q.links], r=int(bool(p == q)), h=int(hash(p) == hash(q)))


def class_job(rec, E, seed, nmaps):
    rng = random.Random(seed)
    paths = gen.mk_paths(E)
    pc = PathFuzzyCurve.init_from_paths(paths)
    chain = [gen.rand_map(rng, pc.dim) for _ in range(nmaps)]
    for b in chain + [None]:
        bb = b if b is not None else ~BaseMap.id_map(pc.dim)
        r = (~pc) if b is None else b * pc
        rec('act', a=[enc.bm(bb), 0], C=enc.curve(pc), r=enc.curve(r))
        for q in range(pc.mult):
            for k in rng.sample(range(pc.genus), min(pc.genus, 6)):
                kk = pc.genus - 1 - k if bb.time_rev else k
                rec('allowed', a=enc.bm(bb), G=pc.genus, k=k + 1, kk=kk + 1,
                    s=[enc.spec(s) for s in pc.gen_allowed_specs(q, k)],
                    r=[enc.spec(s) for s in r.gen_allowed_specs(q, kk)])
        pc = r


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for name, E in gen.pick_corpus(rng, 150 if q else 400):
        G = E['n'] ** E['d'] * len(E['pats'])
        out.append(Job('curve:' + name, curve_job, E, rng.getrandbits(40), 3 if G > 60 else 6, E['d'] <= 3))
    for shape in gen.RAND_SHAPES:
        for k in range(4 if q else 8):
            out.append(Job('rand:%s:%d' % (shape, k), rand_job, shape, rng.getrandbits(40), 2 if shape[1] ** shape[0] > 30 else 5))
    for name, E in gen.pick_corpus(rng, 5, max_genus=8):
        if E['d'] <= 2 or not q:
            out.append(Job('allmaps:' + name, all_maps_job, E))
    for k in range(4):
        out.append(Job('links%d' % k, links_job, rng.getrandbits(40), 60))
    cl = [c for c in gen.load('classes.json') if c['n'] ** c['d'] <= 32]
    rng.shuffle(cl)
    for c in cl[:60 if q else 200]:
        out.append(Job('path:' + c['name'], path_job, c, rng.getrandbits(40), 4))
        if c['d'] <= 4 and c['n'] ** c['d'] <= 16:
            out.append(Job('class:' + c['name'], class_job, c, rng.getrandbits(40), 3))
    return out


def run(ctx):
    ctx.models_bg([('MC_Curve', 'MC_Curve.cfg')])
    ctx.check_traces('C04_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
