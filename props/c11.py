"""C11: histories of operations on path classes."""
import itertools, random
from lib.harness import Job
from lib import enc, gen
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, PathFuzzyCurve
from peano.paths import Path


def epaths(paths):
    D = enc.lcd(x for p in paths for l in p.links for pt in (l.entrance, l.exit) for x in pt)
    return D, [{'c': enc.proto(p.proto), 'l': [[enc.over(l.entrance, D), enc.over(l.exit, D)] for l in p.links]} for p in paths]


def subgroup(rng, d):
    """group generated by a few random maps"""
    gens = [gen.rand_map(rng, d) for _ in range(rng.choice([1, 1, 2]))]
    G = {BaseMap.id_map(d)}
    todo = list(G)
    while todo:
        a = todo.pop()
        for g in gens:
            b = a * g
            if b not in G:
                G.add(b)
                todo.append(b)
    return sorted(G, key=str)


def obs(rec, h, F, rng, deep):
    al = [[[s for s in F.gen_allowed_specs(q, k)] for k in range(F.genus)] for q in range(F.mult)]
    cnt = F.count_possible_curves()
    ev = dict(h=h, p=F.pnum + 1, pats=[enc.pattern(p) for p in F.patterns],
              al=[[[enc.spec(s) for s in x] for x in row] for row in al], count=enc.big(cnt), ex=[], mem=[], memok=1, smp=[])
    ex = F.get_curve_example()
    ev['ex'] = [enc.curve(ex)]
    if deep and cnt <= 600:
        mem = []
        for C in F.gen_possible_curves():
            vec = []
            for q in range(F.mult):
                for k in range(F.genus):
                    s = C.patterns[q].specs[k]
                    vec.append(al[q][k].index(s) + 1 if s in al[q][k] else 0)
                if C.patterns[q].proto != F.patterns[q].proto:
                    ev['memok'] = 0
            if C.pnum != F.pnum or not isinstance(C, Curve):
                ev['memok'] = 0
            mem.append(vec)
        ev['mem'] = [mem]
    else:
        ev['smp'] = [enc.curve(C) for C in itertools.islice(F.gen_possible_curves(), 2)]
    rec('obs', **ev)


def history(rec, cls, seed, steps, opt):
    rng = random.Random(seed)
    paths = gen.mk_paths(cls)
    d, n = cls['d'], cls['n']
    if rng.random() < .4:
        b = gen.rand_map(rng, d)
        paths = tuple(b * p for p in paths)
    kw, g, gl = {}, 'full', []
    if opt == 'norev':
        kw, g = {'disable_time_rev': True}, 'cube'
    elif opt == 'cubegroup':
        kw, g = {'base_maps_group': BaseMap.gen_base_maps(d, time_rev=False)}, 'cube'
    elif opt == 'subgroup':
        G = subgroup(rng, d)
        kw, g, gl = {'base_maps_group': iter(G)}, 'list', [enc.bm(b) for b in G]
    elif opt == 'subgroup_norev':
        G = subgroup(rng, d)
        kw, g, gl = {'base_maps_group': G, 'disable_time_rev': True}, 'list', [enc.bm(b) for b in G if not b.time_rev]
    if opt == 'swap' and len(paths) > 1:
        # patterns exchanged / repeated: some links may have no admissible image
        paths = tuple(rng.choice(paths) for _ in paths)
    D, ep = epaths(paths)
    try:
        F = PathFuzzyCurve.init_from_paths(paths, **kw)
        ok = 1
    except (KeyError, ValueError):
        ok = 0
    rec('new', d=d, n=n, D=D, paths=ep, g=g, gl=gl, ok=ok)
    if not ok:
        return
    H = [F]
    obs(rec, 1, F, rng, True)
    for st in range(steps):
        h = rng.randrange(len(H))
        if rng.random() < .6:
            h = len(H) - 1
        F = H[h]
        r = rng.random()
        if r < .6:
            q, k = rng.randrange(F.mult), rng.randrange(F.genus)
            cand = list(F.gen_allowed_specs(q, k))
            s = rng.choice(cand)
            z = rng.random()
            if z < .12:
                s = Spec(gen.rand_map(rng, d), rng.randrange(F.mult))
            elif z < .2:
                s = Spec(~s.base_map, s.pnum)
            elif z < .25 and F.mult > 1:
                s = Spec(s.base_map, (s.pnum + 1) % F.mult)
            try:
                R = F.specify(q, k, s)
                rec('specify', h=h + 1, h2=len(H) + 1, q=q + 1, k=k + 1, sp=enc.spec(s), ok=1)
                H.append(R)
            except ValueError:
                rec('specify', h=h + 1, h2=0, q=q + 1, k=k + 1, sp=enc.spec(s), ok=0)
        elif r < .8:
            b = gen.rand_map(rng, d)
            if rng.random() < .4:
                q = rng.randrange(F.mult)
                H.append(Spec(b, q) * F)
                rec('act', h=h + 1, h2=len(H), a=enc.bm(b), p=q + 1)
            else:
                H.append(b * F)
                rec('act', h=h + 1, h2=len(H), a=enc.bm(b), p=0)
        else:
            H.append(~F)
            rec('act', h=h + 1, h2=len(H), a=enc.bm(~BaseMap.id_map(d)), p=0)
        if rng.random() < .35:
            obs(rec, len(H), H[-1], rng, rng.random() < .5)
    for h in sorted(rng.sample(range(len(H)), min(len(H), 3))) + [0, len(H) - 1]:
        obs(rec, h + 1, H[h], rng, True)


def forget_job(rec, E, seed):
    rng = random.Random(seed)
    C = gen.mk_curve(E)
    paths = C.get_paths()
    D, ep = epaths(paths)
    if D > 10 ** 6:
        return
    F = C.forget()
    rec('forget', C=enc.curve(C), d=C.dim, n=C.div, D=D, paths=ep, g='full', gl=[])
    obs(rec, 1, F, rng, False)
    # re-specifying the class by the curve's own specs, in random order, gives the curve back
    pos = [(q, k) for q in range(C.mult) for k in range(C.genus)]
    rng.shuffle(pos)
    h = 1
    for q, k in pos:
        s = C.patterns[q].specs[k]
        F2 = F.specify(q, k, s)
        rec('specify', h=h, h2=h + 1, q=q + 1, k=k + 1, sp=enc.spec(s), ok=1)
        F, h = F2, h + 1
    obs(rec, h, F, rng, True)


def rand_job(rec, d, n, mult, seed, closed, steps):
    rng = random.Random(seed)
    paths = gen.rand_paths(rng, d, n, mult, closed)
    if paths is None:
        return
    opt = rng.choice(['full', 'full', 'norev', 'cubegroup', 'subgroup', 'subgroup_norev', 'swap'])
    history(rec, gen.enc_class(paths, 'rand'), rng.getrandbits(40), steps, opt)


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    cl = gen.load('classes.json')
    js = []
    for c in cl:
        G = c['n'] ** c['d']
        if c['d'] >= 5 or G > 30:
            reps = 0 if q else 1
        else:
            reps = 2 if q else 4
        for r in range(reps):
            for opt in (['full'] if G > 16 and q else ['full', rng.choice(['norev', 'cubegroup', 'subgroup', 'subgroup_norev', 'swap'])]):
                js.append(Job('hist:%s:%s:%d' % (c['name'], opt, r), history, c, rng.getrandbits(40), 10 if q else 25, opt))
    for c in [c for c in cl if c['n'] ** c['d'] <= 9]:
        for opt in ['norev', 'cubegroup', 'subgroup', 'subgroup_norev', 'swap'] * (1 if q else 3):
            js.append(Job('opt:%s:%s' % (c['name'], opt), history, c, rng.getrandbits(40), 6, opt))
    for name, E in gen.pick_corpus(rng, 60 if q else 200, max_genus=20, dims=[1, 2, 3]):
        js.append(Job('forget:' + name, forget_job, E, rng.getrandbits(40)))
    for d, n, mult in [(1, 2, 1), (1, 3, 2), (2, 2, 1), (2, 2, 2), (2, 3, 1), (2, 3, 2), (2, 2, 3), (3, 2, 1), (3, 2, 2)]:
        for r in range(8 if q else 20):
            js.append(Job('rand:%d:%d:%d:%d' % (d, n, mult, r), rand_job, d, n, mult, rng.getrandbits(40), r % 2 == 0, 6 if q else 15))
    ctx.models_bg([('MC_Class', 'MC_Class.cfg')])
    ctx.check_traces('C11_Trace', ctx.drive(js))
