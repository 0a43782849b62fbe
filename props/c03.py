"""C03: text notation."""
import json, random
from quicktions import Fraction
from lib.harness import Job, Skip
from lib import enc, gen
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, Pattern
from peano.paths import Proto, Path
from peano.subsets import Point, Link

LET = 'ijklmn'


def T(s):
    if any(ord(c) > 127 for c in s):
        raise enc.Malformed('text ' + s)
    return [ord(c) for c in s]


def rnd(rec, what, a, b):
    rec('round', what=what, same=int(a == b and hash(a) == hash(b)))


def maps_job(rec, seed, d, n, full):
    rng = random.Random(seed)
    ms = list(BaseMap.gen_base_maps(d)) if full else [gen.rand_map(rng, d) for _ in range(n)]
    for b in ms:
        t = str(b)
        rec('pmap', t=T(t), o=enc.bm(b))
        rnd(rec, 'map', BaseMap.parse(t), b)
        q = rng.choice([0, 0, 1, 2, 9, 10, 11, 25, 99, 100, 137, 1000])
        s = Spec(b, q)
        ts = str(s)
        rec('pspec', t=T(ts), o=enc.spec(s))
        rnd(rec, 'spec', Spec.parse(ts), s)
    for _ in range(n):
        perm = list(range(d))
        rng.shuffle(perm)
        t = ''.join(LET[k].upper() if rng.random() < .5 else LET[k] for k in perm) + rng.choice(['', '~'])
        pad = lambda z: rng.choice(['', '', ' ', '  ']) + z + rng.choice(['', '', ' ', '\t'])
        u = pad(t)
        rec('map', t=T(u), r=enc.bm(BaseMap.parse(u)))
        u = pad(rng.choice(['', '0', '1', '3', '7', '10', '12', '205', '03']) + t)
        rec('spec', t=T(u), r=enc.spec(Spec.parse(u)))


def snake(d, n):
    """boustrophedon order of the cubes"""
    if d == 0:
        return [()]
    low, out = snake(d - 1, n), []
    for x in range(n):
        out += [c + (x,) for c in (low if x % 2 == 0 else low[::-1])]
    return out


def rand_proto(rng, d, n):
    """a full prototype whose steps are at most diagonal"""
    if n == 2:
        cubes = gen.all_cubes(d, 2)
        rng.shuffle(cubes)
        return Proto(d, 2, cubes)
    while True:
        pool = [C for _, C in gen.corpus(dims=[d]) if C['n'] == n]
        if pool and rng.random() < .7:
            cubes = [tuple(c) for c in rng.choice(rng.choice(pool)['pats'])['c']]
        else:
            cubes = snake(d, n)
        # two-opt moves that keep king steps
        ok = lambda a, b: max(abs(x - y) for x, y in zip(a, b)) == 1
        for _ in range(200):
            i, j = sorted((rng.randrange(len(cubes) + 1), rng.randrange(len(cubes) + 1)))
            if j - i < 2:
                continue
            new = cubes[:i] + cubes[i:j][::-1] + cubes[j:]
            if all(ok(a, b) for a, b in zip(new, new[1:])):
                cubes = new
        return gen.rand_map(rng, d) * Proto(d, n, cubes)


def chain_of(rng, cubes, blanks):
    out = []
    for a, b in zip(cubes, cubes[1:]):
        ls = [LET[k] if y > x else LET[k].upper() for k, (x, y) in enumerate(zip(a, b)) if x != y]
        rng.shuffle(ls)
        out.append(ls[0] if len(ls) == 1 and rng.random() < .8 else '(' + ''.join(ls) + ')')
    return (' ' if blanks else '').join(out)


def proto_job(rec, seed, n_, shapes):
    rng = random.Random(seed)
    for _ in range(n_):
        d, n = rng.choice(shapes)
        p = rand_proto(rng, d, n)
        t = str(p)
        rec('pchain', t=T(t), o=enc.proto(p))
        r = Proto.parse(t)
        rnd(rec, 'proto', tuple(r), tuple(p))
        rec('round', what='proto dims', same=int((r.dim, r.div) == (d, n)))
        t = chain_of(rng, p, rng.random() < .3)
        r = Proto.parse(t)
        rec('chain', t=T(t), r=enc.proto(r), rd=r.dim, rn=r.div)
        mult = rng.choice([1, 2, 11, 13])
        specs = [Spec(gen.rand_map(rng, d), rng.randrange(mult)) for _ in p]
        pt = Pattern(p, specs)
        rec('ppattern', t=T(str(pt)), o=enc.pattern(pt))
        st = [str(s) if rng.random() < .5 or s.pnum else str(s.base_map) for s in specs]
        sep = rng.choice([',', ', ', ' , '])
        arg = sep.join(st) if rng.random() < .5 else rng.choice([list, tuple, iter])(st)
        r = Pattern.parse(t, arg)
        rec('pattern', t=T(t + '|' + ','.join(st)), r=enc.pattern(r))


def curve_text(C):
    out = []
    for line in str(C).split('\n'):
        head, _, body = line.partition(':')
        chain, _, specs = body.partition('|')
        out.append((chain.strip(), specs.strip()))
    return out


def curve_job(rec, seed, E):
    rng = random.Random(seed)
    C = gen.mk_curve(E) if isinstance(E, dict) else None
    if C is None:
        d, n, mult = E
        pats = []
        for _ in range(mult):
            p = rand_proto(rng, d, n)
            pats.append((p, [Spec(gen.rand_map(rng, d), rng.randrange(mult)) for _ in p]))
        C = Curve(d, n, pats)
    C = gen.rand_map(rng, C.dim) * C
    lines = str(C).split('\n')
    if len(lines) != C.mult:
        rec('round', what='number of lines', same=0)
    for q, line in enumerate(lines):
        rec('pline', t=T(line), q=q + 1, o=enc.pattern(C.patterns[q]))
    R = Curve.parse(curve_text(C))
    rec('round', what='curve', same=int(R.patterns == C.patterns and (R.dim, R.div, R.mult) == (C.dim, C.div, C.mult)))
    if C.pnum == 0:
        rnd(rec, 'curve equal', R, C)


def point_job(rec, seed, n_):
    rng = random.Random(seed)

    def rat():
        D = rng.choice([1, 1, 2, 3, 4, 9, 10, 63, 121, 1023])
        return Fraction(rng.choice([0, 1, D, rng.randrange(0, D + 1), rng.randrange(-D, 2 * D + 1)]), D)
    for _ in range(n_):
        d = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
        p, q = Point(rat() for _ in range(d)), Point(rat() for _ in range(d))
        D = enc.lcd(list(p) + list(q))
        if D > 10 ** 6:
            continue
        t = str(p)
        rec('ppoint', t=T(t), D=D, o=enc.over(p, D))
        rnd(rec, 'point', Point.parse(t), p)
        k = Link(p, q)
        t = str(k)
        rec('pgate', t=T(t), D=D, o=[enc.over(p, D), enc.over(q, D)])
        rnd(rec, 'gate', Link.parse_gates(t), k)
        sp = rng.choice(['', '', ' '])
        txt = lambda z: sp + '(' + (',' + sp).join('%d/%d' % (x.numerator, x.denominator) if rng.random() < .6 else str(x) for x in z) + ')' + sp
        t = txt(p)
        rec('point', t=T(t), D=D, r=enc.over(Point.parse(t), D))
        t = txt(p) + '->' + txt(q)
        r = Link.parse_gates(t)
        rec('gate', t=T(t), D=D, r=[enc.over(r.entrance, D), enc.over(r.exit, D)])


def beh_job(rec, items):
    for t, c in items:
        s = ''.join(map(chr, t))
        rec('beh', t=t, c=c, r=enc.proto(Proto.parse(s)))
        d, n = len(c[0]), 1 + max(max(x) for x in c)
        rec('pchain', t=T(str(Proto(d, n, [tuple(x) for x in c]))), o=c)


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    js = []
    for d in range(1, 7):
        js.append(Job('maps%d' % d, maps_job, rng.getrandbits(40), d, 120 if q else 2000, d <= 3 or (not q and d == 4)))
    shapes = [(1, 2), (2, 2), (2, 3), (3, 2), (2, 4), (2, 5), (3, 3), (4, 2), (5, 2)]
    have = {(C['d'], C['n']) for _, C in gen.corpus()}
    shapes = [s for s in shapes if s[1] == 2 or s in have]
    for k, s in enumerate([(1, 7), (2, 7), (2, 10), (3, 4), (3, 5), (4, 3), (2, 13), (3, 6)] + ([] if q else [(1, 40), (2, 17), (3, 7), (5, 3), (4, 4)])):
        js.append(Job('large:%dx%d' % s, proto_job, rng.getrandbits(40), 2 if q else 6, [s]))
    for k in range(16 if q else 30):
        js.append(Job('protos%d' % k, proto_job, rng.getrandbits(40), 25, shapes))
        js.append(Job('points%d' % k, point_job, rng.getrandbits(40), 60))
    js.append(Job('proto6', proto_job, rng.getrandbits(40), 4 if q else 20, [(6, 2)]))
    for name, E in gen.pick_corpus(rng, 160 if q else 320):
        js.append(Job('curve:' + name, curve_job, rng.getrandbits(40), E))
    for E in [(2, 2, 1), (2, 2, 3), (2, 2, 12), (3, 2, 2), (3, 2, 11), (2, 3, 2), (4, 2, 2)] * (3 if q else 8):
        js.append(Job('randcurve:%s' % (E,), curve_job, rng.getrandbits(40), E))
    # behaviours of the specification, replayed into the code
    from lib import tlc
    cfgs = ['MC_Notation15.cfg', 'MC_Notation22.cfg', 'MC_Notation23.cfg']
    res = tlc.run_many([dict(module='MC_Notation', cfg=c, scratch=ctx.scratch, name=c, timeout=300) for c in cfgs] +
                       [dict(module='MC_Notation', cfg='MC_Notation32.cfg', scratch=ctx.scratch, name='sim', timeout=300,
                             extra=['-simulate', 'num=%d' % (300 if q else 5000), '-seed', str(ctx.seed), '-depth', '9'])])
    items = []
    for c, r in zip(cfgs + ['sim'], res):
        if r.error:
            ctx.errors.append('model %s: %s' % (c, r.error))
        ctx._account(r)
        ctx.cov.setdefault('models', {})[c] = {'states': r.states, 'transitions': r.transitions}
        for line in r.lines:
            if line.startswith('<<"BEH"'):
                v = json.loads(line.replace('<<', '[').replace('>>', ']'))
                items.append((v[1], v[2]))
    ctx.cov['spec_behaviours_replayed'] = len(items)
    if len(items) < 100:
        ctx.errors.append('too few behaviours from the notation model: %d' % len(items))
    for k in range(0, len(items), 500):
        js.append(Job('behaviours%d' % k, beh_job, items[k:k + 500]))
    ctx.check_traces('C03_Trace', ctx.drive(js))
