"""C01: base map / spec algebra."""
import random
from lib.harness import Job
from lib import enc
from quicktions import Fraction
from peano.base_maps import BaseMap, Spec

B = enc.bm


def rand_map(rng, d):
    p = list(range(d))
    rng.shuffle(p)
    return BaseMap([(k, bool(rng.getrandbits(1))) for k in p], bool(rng.getrandbits(1)))


def all_pairs(rec, d, lo, hi):
    ms = list(BaseMap.gen_base_maps(d))
    n = 0
    for a in ms:
        for b in ms:
            n += 1
            if lo <= n < hi:
                rec('mul', a=B(a), b=B(b), r=B(a * b))
    if lo == 0:
        for a in ms:
            unary(rec, a)


def unary(rec, a, powers=(-3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7)):
    rec('inv', a=B(a), r=B(a.get_inverse()))
    rec('rev', a=B(a), r=B(~a))
    rec('cubeof', a=B(a), r=B(a.cube_map()))
    for k in powers:
        rec('pow', a=B(a), k=k, r=B(a ** k))


def gens(rec, d):
    rec('gen', d=d, tr=-1, r=[B(x) for x in BaseMap.gen_base_maps(d)])
    rec('gen', d=d, tr=1, r=[B(x) for x in BaseMap.gen_base_maps(d, time_rev=True)])
    rec('gen', d=d, tr=0, r=[B(x) for x in BaseMap.gen_base_maps(d, time_rev=False)])
    # again, after everything is cached, and consumed in an interleaved way
    g1, g2 = BaseMap.gen_base_maps(d), BaseMap.gen_base_maps(d)
    l1, l2 = [], []
    for a in g1:
        l1.append(B(a))
        b = next(g2, None)
        if b is not None:
            l2.append(B(b))
    rec('gen', d=d, tr=-1, r=l1)
    rec('gen', d=d, tr=-1, r=l2)


def actions(rec, a, rng):
    d = a.dim
    D = rng.choice([1, 2, 3, 4, 6, 7, 12, 30])
    nums = [rng.randint(0, D) for _ in range(d)]
    rec('x', a=B(a), x=nums, mx=D, r=enc.over(a.apply_x([Fraction(x, D) for x in nums]), D))
    mx = rng.choice([1, 2, 5, 9])
    nums = [rng.randint(-D, 2 * D * mx) for _ in range(d)]
    rec('x', a=B(a), x=nums, mx=D * mx, r=enc.over(a.apply_x([Fraction(x, D) for x in nums], Fraction(mx)), D))
    t = rng.randint(0, D)
    rec('t', a=B(a), t=t, mt=D, r=enc.I(enc.F(a.apply_t(Fraction(t, D))) * D))
    mt = rng.randint(1, 50)
    t = rng.randint(0, mt)
    rec('t', a=B(a), t=t * D, mt=mt * D, r=enc.I(enc.F(a.apply_t(Fraction(t), Fraction(mt))) * D))
    v = [rng.randint(-9, 9) for _ in range(d)]
    rec('vec', a=B(a), x=v, r=[enc.I(q) for q in a.apply_vec(v)])
    v = [rng.randint(-D, D) for _ in range(d)]
    rec('vec', a=B(a), x=v, r=enc.over(a.apply_vec([Fraction(q, D) for q in v]), D))
    n = rng.randint(2, 11)
    c = [rng.randint(0, n - 1) for _ in range(d)]
    rec('cube', a=B(a), n=n, c=c, r=[enc.I(q) for q in a.apply_cube(n, tuple(c))])
    n = rng.choice([8, 27, 81, 1024])
    c = [rng.randint(0, n - 1) for _ in range(d)]
    rec('cube', a=B(a), n=n, c=c, r=[enc.I(q) for q in a.apply_cube(n, c)])
    c = [rng.randint(-5, 5) for _ in range(d)]
    l = rng.randint(1, 4)
    rec('start', a=B(a), c=c, l=l, r=[enc.I(q) for q in a.apply_cube_start(c, l)])
    G = rng.randint(2, 5) ** rng.randint(1, 5)
    k = rng.randint(0, G - 1)
    rec('cnum', a=B(a), G=G, k=k, r=enc.I(a.apply_cnum(G, k)))


def history(rec, d, seed, n):
    """A random program over a growing pool of maps: every operator, repeated and in every order."""
    rng = random.Random(seed)
    pool = [BaseMap.id_map(d), rand_map(rng, d), rand_map(rng, d)]
    specs = [Spec(rand_map(rng, d), rng.choice([0, 1, 2, 10])), Spec(rand_map(rng, d))]
    for _ in range(n):
        op = rng.randrange(17)
        a, b = rng.choice(pool), rng.choice(pool)
        s, t = rng.choice(specs), rng.choice(specs)
        if op == 0:
            k = rng.choice([-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 11, 1000, 12345])
            r = a ** k
            rec('pow', a=B(a), k=k, r=B(r))
            pool.append(r)
        elif op == 1:
            r = a.get_inverse()
            rec('inv', a=B(a), r=B(r))
            pool.append(r)
        elif op == 2:
            r = ~a
            rec('rev', a=B(a), r=B(r))
            pool.append(r)
        elif op == 3:
            r = a.conjugate_by(b)
            rec('conj', a=B(a), g=B(b), r=B(r))
            pool.append(r)
        elif op == 4:
            w = [rng.choice(pool) for _ in range(rng.randint(1, 6))]

            def ev(lo, hi):
                if hi - lo == 1:
                    return w[lo]
                mid = rng.randint(lo + 1, hi - 1)
                return ev(lo, mid) * ev(mid, hi)
            rec('word', d=d, w=[B(x) for x in w], r=B(ev(0, len(w))))
        elif op == 5:
            rec('eq', a=B(a), b=B(b), r=int(a == b), h=int(hash(a) == hash(b)))
            c = BaseMap(list(a.coords), a.time_rev)
            rec('eq', a=B(a), b=B(c), r=int(a == c), h=int(hash(a) == hash(c)))
            rec('eq', a=B(a), b=B(~a), r=int(a == ~a), h=int(hash(a) == hash(~a)))
        elif op == 6:
            r = s * t
            rec('smul', s=enc.spec(s), t=enc.spec(t), r=enc.spec(r))
            specs.append(r)
        elif op == 7:
            r = a * s
            rec('sleft', a=B(a), s=enc.spec(s), r=enc.spec(r))
            specs.append(r)
        elif op == 8:
            r = s * a
            rec('sright', a=B(a), s=enc.spec(s), r=enc.spec(r))
            specs.append(r)
        elif op == 9:
            rec('srev', s=enc.spec(s), r=enc.spec(~s))
        elif op == 10:
            r = s.conjugate_by(a)
            rec('sconj', s=enc.spec(s), g=B(a), r=enc.spec(r))
            specs.append(r)
        elif op == 11:
            pn = rng.choice([0, 0, 1, 2, 5, 11])
            r = Spec(a, pn)
            rec('snew', s=[B(a), pn + 1], r=enc.spec(r))
            specs.append(r)
        elif op == 12:
            rec('eq', a=enc.spec(s), b=enc.spec(t), r=int(s == t), h=int(hash(s) == hash(t)))
            u = Spec(s.base_map, s.pnum + 1)
            rec('eq', a=enc.spec(s), b=enc.spec(u), r=int(s == u), h=int(hash(s) == hash(u)))
        elif op == 13:
            actions(rec, a, rng)
        elif op == 14:
            p = list(range(d))
            rng.shuffle(p)
            fl = [rng.getrandbits(1) for _ in p]
            tr = rng.getrandbits(1)
            src = rng.choice([tuple, list, iter])
            c = BaseMap(src([(k, bool(f)) for k, f in zip(p, fl)]), bool(tr))
            rec('new', a=[[k + 1 for k in p], fl, tr], r=B(c), dim=c.dim)
            pool.append(c)
        else:
            r = a * b
            rec('mul', a=B(a), b=B(b), r=B(r))
            pool.append(r)
        if len(pool) > 40:
            del pool[rng.randrange(len(pool))]
        if len(specs) > 25:
            del specs[rng.randrange(len(specs))]


def act_job(rec, d, seed, n):
    rng = random.Random(seed)
    ms = list(BaseMap.gen_base_maps(d)) if d <= 3 else [rand_map(rng, d) for _ in range(n)]
    for a in ms:
        actions(rec, a, rng)
    for dd in range(1, 8):
        rec('id', d=dd, r=B(BaseMap.id_map(dd)))


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for d in range(1, 5):
        out.append(Job('gen%d' % d, gens, d))
    if not q:
        out.append(Job('gen5', gens, 5))
    for d in (1, 2):
        out.append(Job('pairs%d' % d, all_pairs, d, 0, 10 ** 9))
    step = 576
    for lo in range(0, 96 * 96, step):
        out.append(Job('pairs3_%d' % lo, all_pairs, 3, lo, lo + step))
    for d in range(1, 9):
        for k in range(12 if q else 60):
            out.append(Job('history%d_%d' % (d, k), history, d, rng.getrandbits(40), 250))
        out.append(Job('act%d' % d, act_job, d, rng.getrandbits(40), 150 if q else 600))
    return out


def run(ctx):
    ctx.models_bg([('MC_Group', 'MC_Group%d.cfg' % d) for d in ((1, 2, 3))])
    groups = ctx.drive(jobs(ctx.tier, ctx.rng))
    ctx.check_traces('C01_Trace', groups)
