"""Inputs: corpus of continuous curves / path classes, and random (possibly discontinuous) curves."""
import functools, json, os, random
from quicktions import Fraction
from peano.base_maps import BaseMap, Spec
from peano.curves import Curve, FuzzyCurve, PathFuzzyCurve
from peano.paths import Proto, Path
from peano.subsets import Point, Link

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')


@functools.lru_cache(None)
def load(name):
    with open(os.path.join(DATA, name)) as fh:
        return json.load(fh)


def mk_map(e):
    return BaseMap([(p - 1, bool(f)) for p, f in zip(e[0], e[1])], bool(e[2]))


def mk_spec(e):
    return None if e == [] else Spec(mk_map(e[0]), e[1] - 1)


def mk_curve(e, cls=Curve):
    pats = [([tuple(c) if c else None for c in p['c']], [mk_spec(s) for s in p['s']]) for p in e['pats']]
    return cls(e['d'], e['n'], pats, pnum=e['p'] - 1)


def mk_point(D, xs):
    return Point(Fraction(x, D) for x in xs)


def mk_link(e):
    return Link(mk_point(e[0], e[1]), mk_point(e[0], e[2]))


def mk_paths(e):
    return tuple(Path(Proto(e['d'], e['n'], [tuple(c) for c in p['c']]), [mk_link(l) for l in p['l']]) for p in e['paths'])


def rand_map(rng, d, rev=None):
    p = list(range(d))
    rng.shuffle(p)
    r = bool(rng.getrandbits(1)) if rev is None else rev
    return BaseMap([(k, bool(rng.getrandbits(1))) for k in p], r)


def all_cubes(d, n):
    out = [()]
    for _ in range(d):
        out = [c + (k,) for c in out for k in range(n)]
    return out


def rand_curve(rng, d, n, mult, rev=0.5):
    """Arbitrary curve: any order of cubes, any specs (usually discontinuous)."""
    pats = []
    for _ in range(mult):
        cubes = all_cubes(d, n)
        rng.shuffle(cubes)
        specs = [Spec(rand_map(rng, d, rng.random() < rev), rng.randrange(mult)) for _ in cubes]
        pats.append((cubes, specs))
    return Curve(d, n, pats, pnum=rng.randrange(mult))


RAND_SHAPES = [(1, 2, 1), (1, 3, 2), (1, 7, 1), (2, 2, 1), (2, 2, 2), (2, 2, 3), (2, 3, 1), (2, 3, 2), (2, 2, 5), (2, 4, 1), (2, 5, 2),
               (3, 2, 1), (3, 2, 2), (3, 2, 4), (3, 3, 1), (3, 3, 2), (4, 2, 1), (4, 2, 2), (2, 6, 1), (2, 11, 1), (5, 2, 1)]


def corpus(max_genus=10 ** 6, dims=None):
    out = []
    for e in load('curves.json'):
        C = e['C']
        if C['n'] ** C['d'] <= max_genus and (dims is None or C['d'] in dims):
            out.append((e['name'], C))
    return out


def pick_corpus(rng, k, max_genus=10 ** 6, dims=None):
    """k corpus curves spread over the different shapes (dim, div, mult)."""
    by = {}
    for name, C in corpus(max_genus, dims):
        by.setdefault((C['d'], C['n'], len(C['pats'])), []).append((name, C))
    for v in by.values():
        rng.shuffle(v)
    keys = sorted(by)
    out = []
    while len(out) < k and any(by.values()):
        for key in keys:
            if by[key] and len(out) < k:
                out.append(by[key].pop())
    return out


def enc_points(xs):
    return [str(x) for x in xs]


def rand_paths(rng, d, n, mult, closed=False, tries=400):
    """Pointed (usually discontinuous) paths whose links are images of their own global links; some links may be closed."""
    vals = [Fraction(0), Fraction(1)] * 2 + [Fraction(k, n) for k in range(1, n)] + [Fraction(1, 2), Fraction(1, n + 1)]
    maps = list(BaseMap.gen_base_maps(d))
    cubes = all_cubes(d, n)
    for _ in range(tries):
        links = []
        for q in range(mult):
            a = Point(rng.choice(vals) for _ in range(d))
            b = a if closed and (q == mult - 1 or rng.random() < .3) else Point(rng.choice(vals) for _ in range(d))
            links.append(Link(a, b))
        images = list(dict.fromkeys(m * l for l in links for m in maps))
        paths = []
        for l in links:
            st = [(c, im) for c in cubes for im in images if im.entrance.map_to_cube(n, c) == l.entrance]
            fi = [(c, im) for c in cubes for im in images if im.exit.map_to_cube(n, c) == l.exit]
            pairs = [(s, f) for s in st for f in fi if s[0] != f[0]] if len(st) * len(fi) < 20000 else []
            if not pairs:
                break
            s, f = rng.choice(pairs)
            mid = [c for c in cubes if c not in (s[0], f[0])]
            rng.shuffle(mid)
            paths.append(Path(Proto(d, n, [s[0]] + mid + [f[0]]), [s[1]] + [rng.choice(images) for _ in mid] + [f[1]]))
        if len(paths) == mult:
            return tuple(paths)
    return None


def enc_class(paths, name):
    from lib import enc
    d, n = paths[0].dim, paths[0].div
    ps = []
    for p in paths:
        ls = []
        for l in p.links:
            D = enc.lcd(list(l.entrance) + list(l.exit))
            ls.append([D, enc.over(l.entrance, D), enc.over(l.exit, D)])
        ps.append({'c': [list(c) for c in p.proto], 'l': ls})
    return {'name': name, 'd': d, 'n': n, 'paths': ps}
