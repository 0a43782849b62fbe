"""C14: the gate generator."""
import itertools, json, os
from lib.harness import Job
from lib import enc, gen
from peano.base_maps import BaseMap
from peano.gates import GatesGenerator


def etuple(t):
    D = enc.lcd(x for l in t for pt in (l.entrance, l.exit) for x in pt)
    return [D, [[enc.over(l.entrance, D), enc.over(l.exit, D)] for l in t]]


def std_pairs(d, n):
    """pairs of boundary cubes up to symmetry (only a work list: the specification checks that it is complete)"""
    bc = [c for c in gen.all_cubes(d, n) if any(x in (0, n - 1) for x in c)]
    maps = []
    for p in itertools.permutations(range(d)):
        for f in itertools.product((0, 1), repeat=d):
            maps.append((p, f))
    act = lambda m, c: tuple(n - 1 - c[k] if b else c[k] for k, b in zip(*m))
    out = set()
    for a in bc:
        for b in bc:
            if a != b:
                out.add(min(min((act(m, a), act(m, b)), (act(m, b), act(m, a))) for m in maps))
    return sorted(out)


def job(rec, d, n, m, facet, again):
    kw = {'only_facet': True} if facet else {}
    g = GatesGenerator(d, n, m, **kw)
    out = [etuple(t) for t in g.gen_gates()]
    ag = []
    if again:
        ag.append([etuple(t) for t in g.gen_gates()])
        if not facet or m < 3:
            ag.append([etuple(t) for t in GatesGenerator(dim=d, div=n, mult=m, only_facet=bool(facet)).gen_gates()])
    rec('sound', d=d, n=n, m=m, facet=int(facet), out=out, again=ag)


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    # (d, n, m, facet only, repeat)
    conf = [(1, 2, 1, 0, 1), (1, 3, 1, 0, 1), (1, 5, 1, 0, 1), (1, 2, 2, 0, 1), (1, 3, 2, 0, 1), (2, 2, 1, 0, 1), (2, 2, 1, 1, 1), (2, 3, 1, 0, 1), (2, 3, 1, 1, 1),
            (2, 4, 1, 0, 1), (2, 4, 1, 1, 1), (3, 2, 1, 0, 1), (3, 2, 1, 1, 1), (2, 2, 2, 1, 1), (2, 3, 2, 1, 1), (2, 2, 3, 1, 1), (2, 2, 2, 0, 0)]
    # exhaustive completeness: (d, n, m) -> number of shares of the choices per pair of cubes
    full = {(1, 2, 1): 1, (1, 3, 1): 1, (1, 5, 1): 1, (1, 2, 2): 1, (1, 3, 2): 1, (2, 2, 1): 1, (2, 3, 1): 1, (2, 4, 1): 1, (3, 2, 1): 4}
    if not q:
        conf += [(2, 5, 1, 1, 1), (1, 2, 3, 0, 1), (1, 4, 2, 0, 1), (2, 3, 2, 0, 0)]
        full.update({(2, 2, 2): 8, (2, 3, 2): 4, (1, 4, 2): 1})
    share = {(2, 2, 2): 64} if q else {}
    js = [Job('gates:%d:%d:%d:%s' % (d, n, m, 'facet' if f else 'all'), job, d, n, m, f, a, cost=(n ** d) ** m * (1 if f else 10), timeout=800)
          for d, n, m, f, a in conf]
    groups = ctx.drive(js)
    got = {g[0].name: json.loads(g[1][0]) for g in groups}
    more = []

    def add(name, cost, **ev):
        more.append((Job(name, None, cost=cost), [json.dumps(ev, separators=(',', ':'))]))
    table = gen.load('gates.json') if os.path.exists(os.path.join(gen.DATA, 'gates.json')) else {}
    outs = {}
    for d, n, m, f, a in conf:
        name = 'gates:%d:%d:%d:%s' % (d, n, m, 'facet' if f else 'all')
        ev = got.get(name)
        if ev is None:
            continue
        outs.setdefault((d, n, m), []).append({'facet': f, 'out': ev['out']})
        if name in table:
            add('table:' + name, 1, op='table', out=ev['out'], want=table[name])
        for m1 in range(1, m):
            e1 = got.get('gates:%d:%d:%d:%s' % (d, n, m1, 'facet' if f else 'all'))
            e2 = got.get('gates:%d:%d:%d:%s' % (d, n, m - m1, 'facet' if f else 'all'))
            if e1 and e2:
                add('union:%d:%d:%d+%d:%d' % (d, n, m1, m - m1, f), 1, op='union', d=d, a=e1['out'], b=e2['out'], out=ev['out'])
    for (d, n, m), oo in outs.items():
        prs = std_pairs(d, n)
        if m == 1:
            add('pairs:%d:%d' % (d, n), 1, op='pairs', d=d, n=n, prs=[[list(a), list(b)] for a, b in prs])
        for pr in itertools.combinations_with_replacement(prs, m):
            ks = [(k, full[d, n, m]) for k in range(full[d, n, m])] if (d, n, m) in full else \
                 [(rng.randrange(share[d, n, m]), share[d, n, m]) for _ in range(3)] if (d, n, m) in share else []
            for k, s in ks:
                add('part:%d:%d:%d:%s:%d/%d' % (d, n, m, pr, k, s), 5 if m == 1 else 100, op='part', d=d, n=n, m=m,
                    pr=[[list(a), list(b)] for a, b in pr], sh=[k, s], outs=oo)
    for job_, evs in groups:
        job_.cost = 30
    ctx.check_traces('C14_Trace', groups + more, timeout=3000)
