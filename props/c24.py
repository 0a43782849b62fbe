"""C24: arithmetic helpers and ratio functions."""
import random
from quicktions import Fraction
from lib.harness import Job
from lib import enc
from props.c16 import RATIO, brat
from peano import utils


def ratios(rec, seed, count):
    rng = random.Random(seed)
    for _ in range(count):
        k = rng.choice(list(RATIO))
        d = rng.choice([2, 4, 6]) if k == 'l2' else rng.randint(1, 6)
        D = rng.choice([1, 1, 2, 3, 12, 97, 10 ** 6, 2 ** 40])
        T = rng.choice([1, 1, 2, 9, 10 ** 9 + 7])
        hi = rng.choice([1, 3, 30, 10 ** 4, 2 ** 33])
        v = [rng.randint(-hi, hi) for _ in range(d)]
        if rng.random() < .2:
            v = [rng.choice([0, -hi, hi]) for _ in range(d)]
        t = rng.randint(1, rng.choice([1, 10, 10 ** 5, 2 ** 35]))
        vv = [Fraction(x, D) for x in v] if D > 1 or rng.random() < .3 else list(v)
        tt = Fraction(t, T) if T > 1 or rng.random() < .3 else t
        z = rng.random()
        arg = vv if z < .4 else tuple(vv) if z < .8 else (x for x in vv)
        r = RATIO[k](d, arg, tt)
        rec('ratio', k=k, d=d, v=[enc.big(abs(x)) for x in v], D=enc.big(D), t=[enc.big(t), enc.big(T)], r=brat(r))


def series(rec, seed, count):
    rng = random.Random(seed)
    for _ in range(count):
        b = rng.choice([2, 3, 4, 5, 8, 9, 27, 64, 10000])
        z = rng.random()
        top = b - 1 if z < .7 else 4 * b
        seq = lambda lo: [rng.choice([0, top, rng.randint(0, top)]) for _ in range(rng.choice([lo, 1, 2, 3, 7, 20]))]
        start, period = seq(0), seq(1)
        mk = rng.choice([list, tuple])
        rec('psum', start=start, period=period, b=b, r=brat(utils.get_periodic_sum(mk(start), mk(period), b)))


def ints(rec, seed, count):
    rng = random.Random(seed)
    seen = []
    for _ in range(count):
        if seen and rng.random() < .3:
            d, n, cubes, cnums = rng.choice(seen)
            if rng.random() < .3 and d > 1:
                cubes = cubes[:-1]
                n = n + rng.choice([0, 1])
        else:
            d, n = rng.randint(1, 5), rng.choice([2, 2, 3, 4, 5, 7, 10])
            L = rng.choice([0, 1, 2, 3, 8, 25])
            cubes = tuple(tuple(rng.randrange(n) for _ in range(d)) for _ in range(L))
            cnums = tuple(rng.randrange(n ** d) for _ in range(L))
            if n ** d > 10000:
                continue
            seen.append((d, n, cubes, cnums))
        r = utils.get_int_cube_with_cache(d, n, cubes)
        rec('icube', d=d, n=n, cubes=[list(c) for c in cubes], r=[enc.big(int(x)) for x in r])
        rec('itime', g=n ** d, cnums=list(cnums), r=enc.big(int(utils.get_int_time_with_cache(d, n, cnums))))


def small(rec, seed, count):
    rng = random.Random(seed)
    for d in range(1, 5):
        for fd in range(0, d + 1):
            for _ in range(2):
                rec('faces', d=d, fd=fd, r=[[2 if x is None else x for x in f] for f in utils.gen_faces(d, fd)])
    for _ in range(count):
        xs = [rng.randint(1, rng.choice([3, 12, 60, 400])) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        ok, m = [], 1
        for x in xs:
            import math
            m2 = m * x // math.gcd(m, x)
            if m2 < 2 ** 30:
                ok.append(x)
                m = m2
        z = rng.random()
        r = utils.get_lcm(ok if z < .5 else iter(ok))
        rec('lcm', xs=ok, r=min(int(r), 2 ** 31 - 1))
        xs = [rng.randint(1, rng.choice([30, 999, 16383])) for _ in range(rng.choice([1, 2, 4, 8, 14]))]
        if rng.random() < .3:
            xs = [p ** rng.randint(1, e) for p, e in ((2, 13), (3, 8), (5, 5), (7, 4), (11, 3), (13, 3), (101, 2)) if rng.random() < .8] + xs[:2]
        rec('biglcm', xs=xs, r=enc.big(int(utils.get_lcm(xs if rng.random() < .5 else iter(xs)))))
    for _ in range(count // 2):
        ng = rng.randint(1, 3)
        L = rng.randint(1, 4)
        ids = [rng.randint(1, ng) for _ in range(L)]
        size = [rng.randint(0 if rng.random() < .2 else 1, 4) for _ in range(ng)]
        names = rng.sample(range(-5, 40), ng)
        base = {g: [(g, k) for k in range(size[g])] for g in range(ng)}
        if rng.random() < .5:
            it = {names[g]: list(base[g]) for g in range(ng)}
        else:
            it = {names[g]: iter(base[g]) for g in range(ng)}
        r = list(utils.combinations_product([names[i - 1] for i in ids], it))
        rec('comb', ids=ids, size=size, r=[[x[1] if x[0] == ids[j] - 1 else 99 for j, x in enumerate(t)] for t in r])


def jobs(tier, rng):
    k = 2 if tier == 'quick' else 12
    out = []
    for r in range(8):
        out.append(Job('ratios:%d' % r, ratios, rng.getrandbits(40), 500 * k))
        out.append(Job('series:%d' % r, series, rng.getrandbits(40), 100 * k))
        out.append(Job('ints:%d' % r, ints, rng.getrandbits(40), 120 * k))
        out.append(Job('small:%d' % r, small, rng.getrandbits(40), 150 * k))
    return out


def run(ctx):
    ctx.models_bg([('MC_Arith', 'MC_Arith.cfg')])
    ctx.check_traces('C24_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
