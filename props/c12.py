"""C12: the path generator."""
import itertools, random
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from peano.base_maps import BaseMap
from peano.paths import PathsGenerator, Path, Proto
from peano.subsets import Link, Point, FacetDivSubset


def box(S, n, D):
    """box of a gate set over the scale D"""
    if isinstance(S, FacetDivSubset):
        out = []
        m = 0
        w = D // n ** len(S.cubes)
        for j in range(S.dim):
            if j == S.facet[0]:
                out.append([S.facet[1] * D] * 2)
            else:
                lo = 0
                for c in S.cubes:
                    lo = lo * n + c[m]
                out.append([lo * w, (lo + 1) * w])
                m += 1
        return out
    return [[enc.I(x * D)] * 2 for x in S]


def blink(l, n, D):
    return [box(l.entrance, n, D), box(l.exit, n, D)]


def meets(A, B):
    for a, b in zip(A, B):
        if a[0] == a[1]:
            if not (a[0] == b[0] == b[1] or b[0] < a[0] < b[1]):
                return False
        elif b[0] == b[1]:
            if not a[0] < b[0] < a[1]:
                return False
        elif not (a[0] < b[1] and b[0] < a[1]):
            return False
    return True


def bmap(b, D, A):
    out = []
    for k, f in b.coords:
        s = A[k]
        out.append((D - s[1], D - s[0]) if f else tuple(s))
    return tuple(out)


def size(d, n, D, links, maxd, targets, cap):
    """how much work the set of paths is (only used to choose inputs); None when too much"""
    ims = set()
    for b in BaseMap.gen_base_maps(d, time_rev=False):
        for e, x in links:
            e2, x2 = bmap(b, D, e), bmap(b, D, x)
            ims.add((e2, x2))
            ims.add((x2, e2))
    ims = sorted(ims)
    if len(ims) > 200:
        return None
    by = {}
    for k, (e, x) in enumerate(ims):
        by.setdefault(e, []).append(k)
    dl = [v for v in itertools.product((-1, 0, 1), repeat=d) if any(v) and (maxd is None or sum(map(abs, v)) <= maxd)]
    sh = lambda A, v: [(a[0] + v[j] * D, a[1] + v[j] * D) for j, a in enumerate(A)]
    cont = {g: [(v, h) for v in dl for h in by if meets(g, sh(h, v))] for g in by}
    cubes = gen.all_cubes(d, n)
    num = {c: z for z, c in enumerate(cubes)}
    tot = 0
    work = 0
    for e, x in targets:
        E = [(n * a[0], n * a[1]) for a in e]
        X = [(n * a[0], n * a[1]) for a in x]
        st = [(c, k) for c in cubes for k in range(len(ims)) if meets(E, sh(ims[k][0], c))]
        fi = {(c, k) for c in cubes for k in range(len(ims)) if meets(X, sh(ims[k][1], c))}
        stack = [(c, k, 1 << num[c], 1) for c, k in st]
        while stack:
            c, k, seen, ln = stack.pop()
            work += 1
            if work > cap * 60:
                return None
            if ln == len(cubes):
                tot += (c, k) in fi
                if tot > cap:
                    return None
                continue
            for v, h in cont[ims[k][1]]:
                c2 = tuple(a + b for a, b in zip(c, v))
                z = num.get(c2)
                if z is None or seen >> z & 1:
                    continue
                for k2 in by[h]:
                    stack.append((c2, k2, seen | 1 << z, ln + 1))
    return tot, work


def rand_links(rng, d, n, kind, k):
    out = []
    for _ in range(k):
        if kind == 'facet':
            def fs():
                return FacetDivSubset(d, n, (rng.randrange(d), rng.randrange(2)),
                                      [tuple(rng.randrange(n) for _ in range(d - 1)) for _ in range(rng.choice([0, 0, 0, 0, 0, 1, 2]))])
            a, b = fs(), fs()
        else:
            vals = {'vertex': [0, 1], 'half': [0, 1, Fraction(1, 2)], 'third': [0, 1, Fraction(1, n + 1), Fraction(n, n + 1)],
                    'nth': [0, 1, Fraction(1, n)]}[kind]
            a = Point(Fraction(rng.choice(vals)) for _ in range(d))
            b = Point(Fraction(rng.choice(vals)) for _ in range(d))
            if rng.random() < .1:
                b = a
        out.append(Link(a, b))
    return out


class Table:
    def __init__(self, n, D):
        self.n, self.D = n, D
        self.lk, self.lks, self.P, self.Ps = {}, [], {}, []

    def link(self, l):
        b = blink(l, self.n, self.D)
        key = str(b)
        if key not in self.lk:
            self.lks.append(b)
            self.lk[key] = len(self.lks)
        return self.lk[key]

    def path(self, p):
        num = 0
        row = []
        for c, l in zip(p.proto, p.links):
            z = 0
            for x in c:
                z = z * self.n + x
            row.append((z, self.link(l)))
        if len(p.proto) != len(p.links):
            row = row + [(0, 1)]
        key = tuple(row)
        if key not in self.P:
            self.Ps.append([list(r) for r in key])
            self.P[key] = len(self.Ps)
        return self.P[key]


def job(rec, d, n, kinds, seed, cap, tries, want_paths, classes):
    rng = random.Random(seed)
    best = None
    for _ in range(tries):
        kind = rng.choice(kinds)
        facet = kind == 'facet'
        if kind == 'class' and classes:
            paths = gen.mk_paths(rng.choice(classes))
            links = list(dict.fromkeys(p.link for p in paths))
            b = gen.rand_map(rng, d)
            if rng.random() < .5:
                links = [b * l for l in links]
            if rng.random() < .3:
                links.append(rng.choice(links))
        else:
            if kind == 'class':
                kind = 'vertex'
            links = rand_links(rng, d, n, kind, rng.choice([1, 1, 2, 2, 3]))
            if rng.random() < .2:
                links.append(rng.choice(links))
        maxd = rng.choice([None, None, None, 1, 2])
        extra = []
        if rng.random() < .3:
            extra = [gen.rand_map(rng, d) * l for l in links[:1]]
        if facet:
            dep = max(len(s.cubes) for l in links + extra for s in (l.entrance, l.exit))
            D = n ** (dep + 2)
        else:
            D = enc.lcd(x for l in links + extra for pt in (l.entrance, l.exit) for x in pt)
        if D > 10 ** 6:
            continue
        bl = [blink(l, n, D) for l in links]
        sz = size(d, n, D, bl, maxd, bl + [blink(l, n, D) for l in extra], cap)
        if sz is None:
            continue
        score = (min(sz[0], 40) if want_paths else 1, rng.random())
        if best is None or score > best[0]:
            best = (score, links, extra, maxd, D, facet)
    if best is None:
        return
    _, links, extra, maxd, D, facet = best
    T = Table(n, D)
    arg = iter(links) if rng.random() < .3 else (tuple(links) if rng.random() < .5 else list(links))
    kw = {} if maxd is None and rng.random() < .5 else {'max_cdist': maxd}
    pg = PathsGenerator(d, n, arg, **kw)
    rs, rkeys = [], {}

    def rno(link=None, parent=None):
        key = ('L', str(blink(link, n, D))) if link is not None else ('P', str([list(c) for c in parent.proto]), str([blink(l, n, D) for l in parent.links]))
        if key not in rkeys:
            if link is not None:
                rs.append({'k': 'link', 'l': blink(link, n, D), 'c': [], 'pl': []})
            else:
                rs.append({'k': 'parent', 'l': [], 'c': enc.proto(parent.proto), 'pl': [blink(l, n, D) for l in parent.links]})
            rkeys[key] = len(rs)
        return rkeys[key]

    def budget():
        r = rng.random()
        if r < .4:
            return {}
        return {'start_max_count': rng.choice([0, 1, 3, 100, 10 ** 5]), 'finish_max_count': rng.choice([None, 0, 1, 5, 100, 10 ** 6])}
    single, tuples, ex = [], [], []
    found = []
    calls = []
    for l in list(dict.fromkeys(links)) + extra:
        for std in (0, 1):
            for _ in range(2 if std == 0 else 1):
                calls.append(('single', l, std))
    lens = list(itertools.product([0, 1], ['self', 'links']))
    for std, how in lens:
        calls.append(('tuple', std, how))
    calls += [('ex', 'self'), ('ex', 'links')]
    rng.shuffle(calls)
    for call in calls:
        if call[0] == 'single':
            out = list(itertools.islice(pg.generate_paths_generic(link=call[1], std=bool(call[2]), **budget()), 4 * cap))
            found += out
            single.append({'r': rno(call[1]), 'std': call[2], 'out': [T.path(p) for p in out]})
        else:
            if call[-1] == 'self':
                lk, kk = links, {}
            else:
                lk = [rng.choice(links + extra) for _ in range(rng.choice([1, 2, 2, 3]))]
                kk = {'links': list(lk) if rng.random() < .5 else tuple(lk)}
            if call[0] == 'ex':
                out = pg.get_paths_example(**kk, **budget())
                ex.append({'rr': [rno(l) for l in lk], 'found': 0 if out is None else 1, 'out': [T.path(p) for p in out or ()]})
                continue
            std = call[1]
            kw = budget()
            if std:
                kw['std'] = True
            out = list(itertools.islice(pg.generate_paths(**kk, **kw), 1500))
            if len(out) < 1500:
                tuples.append({'rr': [rno(l) for l in lk], 'std': std, 'out': [[T.path(p) for p in t] for t in out]})
    # parents: paths of this generator (as is) and, for facet links, parents for a generator with narrower links
    found = list(dict.fromkeys(found))
    gens = [(pg, rs, single, tuples, ex)]
    for p in rng.sample(found, min(2, len(found))):
        for std in (0, 1):
            out = list(itertools.islice(pg.generate_paths_generic(parent=p, std=bool(std), **budget()), 4 * cap))
            single.append({'r': rno(None, p), 'std': std, 'out': [T.path(x) for x in out]})
    if len(found) >= 2:
        ps = [rng.choice(found) for _ in range(2)]
        std = rng.randrange(2)
        kw = {'std': True} if std else {}
        out = list(itertools.islice(pg.generate_paths(parents=ps, **kw), 1500))
        if len(out) < 1500:
            tuples.append({'rr': [rno(None, p) for p in ps], 'std': std, 'out': [[T.path(x) for x in t] for t in out]})
        out = pg.get_paths_example(parents=ps)
        ex.append({'rr': [rno(None, p) for p in ps], 'found': 0 if out is None else 1, 'out': [T.path(p) for p in out or ()]})
    rec('gen', d=d, n=n, D=D, links=[blink(l, n, D) for l in links], maxd=-1 if maxd is None else maxd,
        rs=rs, lk=T.lks, P=T.Ps, single=single, tuple=tuples, ex=ex)
    if facet and found:
        p = rng.choice(found)
        nl = list(dict.fromkeys([p.link] + ([rng.choice(found).link] if rng.random() < .5 else [])))
        dep = max(len(s.cubes) for l in nl for s in (l.entrance, l.exit))
        D2 = n ** (dep + 1) if n ** (dep + 1) >= D else D
        bl = [blink(l, n, D2) for l in nl]
        if size(d, n, D2, bl, maxd, bl, cap) is None:
            return
        T = Table(n, D2)
        pg = PathsGenerator(d, n, nl, max_cdist=maxd)
        r = {'k': 'parent', 'l': [], 'c': enc.proto(p.proto), 'pl': [blink(l, n, D2) for l in p.links]}
        single = []
        for std in (0, 1):
            out = list(itertools.islice(pg.generate_paths_generic(parent=p, std=bool(std), **budget()), 4 * cap))
            single.append({'r': 1, 'std': std, 'out': [T.path(x) for x in out]})
        rec('gen', d=d, n=n, D=D2, links=bl, maxd=-1 if maxd is None else maxd, rs=[r], lk=T.lks, P=T.Ps, single=single, tuple=[], ex=[])


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    cl = gen.load('classes.json')
    js = []
    plan = [(1, 2, 4), (1, 3, 4), (1, 4, 4), (2, 2, 40), (2, 3, 40), (3, 2, 40), (2, 4, 10)]
    for d, n, cnt in plan:
        cs = [c for c in cl if c['d'] == d and c['n'] == n]
        for r in range(cnt * 3 // 2 if q else 8 * cnt):
            kinds = ['class', 'vertex', 'half', 'third', 'nth'] if r % 4 or d == 1 else ['facet']
            js.append(Job('gen:%d:%d:%d' % (d, n, r), job, d, n, kinds, rng.getrandbits(40), (150 if q else 400) * (3 if d == 3 else 1), 16, r % 4 != 3, cs))
    ctx.models_bg([('MC_Paths', 'MC_Paths1.cfg'), ('MC_PathGen', 'MC_PathGen.cfg')])
    ctx.check_traces('C12_Trace', ctx.drive(js))
