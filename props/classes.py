"""Classes of curves used by C17-C20: description for the specification, reductions to enumerable size."""
import random
from lib import enc, gen
from props.c11 import epaths, subgroup
from peano.base_maps import BaseMap
from peano.curves import PathFuzzyCurve


def make(cls, rng, opt='full', moved=None):
    """-> (class object, description of it for the specification)"""
    paths = gen.mk_paths(cls)
    d = cls['d']
    if moved is None:
        moved = rng.random() < .4
    if moved:
        b = gen.rand_map(rng, d)
        paths = tuple(b * p for p in paths)
    kw, g, gl = {}, 'full', []
    if opt == 'norev':
        kw, g = {'disable_time_rev': True}, 'cube'
    elif opt == 'subgroup':
        G = subgroup(rng, d)
        kw, g, gl = {'base_maps_group': G}, 'list', [enc.bm(b) for b in G]
    try:
        F = PathFuzzyCurve.init_from_paths(paths, **kw)
    except (KeyError, ValueError):
        return None, None
    D, ep = epaths(paths)
    return F, dict(d=d, n=cls['n'], D=D, paths=ep, g=g, gl=gl)


def describe(F, desc):
    return dict(desc, fix=[[enc.spec(s) for s in p.specs] for p in F.patterns])


def shrink(F, rng, cap):
    """specify fractions (inner ones first) until there are at most cap members"""
    pos = [(q, k) for q in range(F.mult) for k in range(F.genus)]
    rng.shuffle(pos)
    if rng.random() < .5:
        pos.sort(key=lambda qk: qk[1] in (0, F.genus - 1))
    while F.count_possible_curves() > cap and pos:
        q, k = pos.pop(0)
        F = F.specify(q, k, rng.choice(list(F.gen_allowed_specs(q, k))))
    return F
