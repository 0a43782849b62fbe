"""C13: completeness of cube path growth for arbitrary step rules and search budgets."""
import itertools, random
from lib.harness import Job, Skip
from lib import gen

try:
    from peano._cube_path_trees import CubePathTree
except ImportError:
    CubePathTree = None


def mk_rule(rng, d, n, S, deg, local):
    """rule[node] = list of (delta, new state); node = cube number * S + state"""
    cubes = gen.all_cubes(d, n)
    num = {c: z for z, c in enumerate(cubes)}
    steps = [v for v in itertools.product((-1, 0, 1), repeat=d) if any(v) or rng.random() < .3]
    rule = {}
    style = rng.choice(['free', 'homog', 'free'])
    homog = {s: [(v, t) for v in steps for t in range(S) if rng.random() < deg / (len(steps) * S) * 2.2] for s in range(S)}
    for c in cubes:
        for s in range(S):
            if style == 'homog':
                opts = list(homog[s])
            else:
                opts = []
                pool = [v for v in steps if all(0 <= x + y < n for x, y in zip(c, v)) or rng.random() < .3]
                for v in pool:
                    for t in range(S):
                        if rng.random() < deg / max(1, len(pool) * S):
                            opts.append((v, t))
            rule[num[c] * S + s] = opts
    return cubes, num, rule


def count_paths(S, N, succ, start, fin, cap):
    cnt = 0
    work = 0
    stack = [(x, 1 << (x // S), 1) for x in start]
    while stack:
        x, seen, ln = stack.pop()
        work += 1
        if work > cap * 150:
            return None
        if ln == N:
            cnt += x in fin
            if cnt > cap:
                return None
            continue
        for y in succ[x]:
            b = 1 << (y // S)
            if not seen & b:
                stack.append((y, seen | b, ln + 1))
    return cnt, work


def job(rec, d, n, S, seed, cap, tries, nb):
    if CubePathTree is None:
        raise Skip('no CubePathTree')
    rng = random.Random(seed)
    N = n ** d
    best = None
    for _ in range(tries):
        deg = rng.choice([1.3, 1.6, 2, 2.5, 3, 4, 6])
        cubes, num, rule = mk_rule(rng, d, n, S, deg, True)
        succ = []
        for x in range(N * S):
            c = cubes[x // S]
            lst = []
            for v, t in rule[x]:
                c2 = tuple(a + b for a, b in zip(c, v))
                if c2 in num:
                    lst.append(num[c2] * S + t)
            succ.append(lst)
        start = rng.sample(range(N * S), min(N * S, rng.choice([1, 1, 2, 4, N * S])))
        fin = rng.sample(range(N * S), min(N * S, rng.choice([1, 1, 2, 4, N * S])))
        r = count_paths(S, N, succ, start, set(fin), cap)
        if r is None:
            continue
        score = (min(r[0], 60), rng.random())
        if best is None or score > best[0]:
            best = (score, cubes, num, rule, succ, start, fin)
    if best is None:
        return
    _, cubes, num, rule, succ, start, fin = best
    prevs = {x: [] for x in range(N * S)}
    for x in range(N * S):
        for y in succ[x]:
            prevs[y].append((tuple(a - b for a, b in zip(cubes[x // S], cubes[y // S])), x % S))
    junk = {x: [(v, t) for v, t in [(tuple(rng.choice((-1, 0, 1)) for _ in range(d)), rng.randrange(S))]
                if tuple(a + b for a, b in zip(cubes[x // S], v)) not in num] for x in range(N * S)}
    # states are arbitrary hashables, deliberately with equal hashes at times
    names = rng.choice([list(range(S)), ['s%d' % k for k in range(S)], [(k, 'x') for k in range(S)], [_Clash(k) for k in range(S)]])
    code = {names[k]: k for k in range(S)}
    def nxt(c, s):
        for v, t in rule[num[c] * S + code[s]]:
            yield v, names[t]
    def prv(c, s):
        x = num[c] * S + code[s]
        for v, t in prevs[x] + junk[x]:
            yield v, names[t]
    runs = []
    budgets = [(100, 10 ** 6), (100, None), (0, 0), (10 ** 6, 10 ** 6), (1, 3), (5, 1), (2, 10 ** 6), (10 ** 6, 0), (10 ** 6, None), (0, None), (7, 20)]
    keep = budgets[:2] + rng.sample(budgets[2:], nb)
    for smax, fmax in keep:
        use_prev = fmax is not None or rng.random() < .5
        tree = CubePathTree(dim=d, div=n, next_func=nxt, prev_func=prv if use_prev else None)
        st = [(cubes[x // S], names[x % S]) for x in start]
        fi = [(cubes[x // S], names[x % S]) for x in fin]
        if rng.random() < .3:
            st, fi = iter(st), iter(fi)
        kw = dict(start_max_count=smax, finish_max_count=fmax)
        if (smax, fmax) == budgets[0]:
            kw = {}
        out = [[num[tuple(c)] * S + code[s] for c, s in p] for p in tree.grow(st, fi, **kw)]
        runs.append({'b': [smax, -1 if fmax is None else fmax], 'p': out})
    rec('grow', S=S, N=N, succ=succ, start=start, fin=fin, runs=runs)


class _Clash:
    def __init__(self, k):
        self.k = k

    def __hash__(self):
        return 7

    def __eq__(self, o):
        return isinstance(o, _Clash) and self.k == o.k


SHAPES = [(1, 2, 2), (1, 3, 2), (1, 4, 1), (1, 5, 2), (1, 6, 2), (2, 2, 1), (2, 2, 3), (2, 3, 1), (2, 3, 2), (3, 2, 1), (3, 2, 2), (2, 4, 1), (2, 4, 2)]


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    js = []
    for d, n, S in SHAPES:
        for r in range((28 if q else 90)):
            js.append(Job('grow:%d:%d:%d:%d' % (d, n, S, r), job, d, n, S, rng.getrandbits(40), 150 if q else 500, 6, 4 if q else 8))
    ctx.models_bg([('MC_Paths', 'MC_Paths1.cfg'), ('MC_Paths', 'MC_Paths2.cfg')])
    ctx.check_traces('C13_Trace', ctx.drive(js))
