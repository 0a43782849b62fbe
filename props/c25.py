"""C25: the catalogue of named curves (zoo) and the facts recorded with them."""
import itertools
from quicktions import Fraction
from lib.harness import Job
from lib import enc
from props.c16 import floor_scaled, ceil_scaled
from peano import zoo

NAMES = {
    'hilbert': 'get_hilbert_curve', 'peano': 'get_peano_curve', 'bauman': 'get_bauman_curve',
    'scepin_bauman': 'get_scepin_bauman_curve', 'peano5': 'get_peano5_curve', 'meurthe': 'get_meurthe_curve',
    'coil': 'get_coil_curve', 'serpentine': 'get_serpentine_curve', 'r': 'get_r_curve', 'ye': 'get_ye_curve',
    'beta_omega': 'get_beta_omega_curve', 'ARW': 'get_ARW_Curve', 'haverkort_a26': 'get_haverkort_curve_a26',
    'haverkort_f': 'get_haverkort_curve_f', 'tokarev': 'get_tokarev_curve', 'neptunus': 'get_neptunus_curve',
    'luna': 'get_luna_curve', 'iupiter': 'get_iupiter_curve', 'spring': 'get_spring_curve',
    'l1_best': 'get_3d_l1_best_curve', 'facet4': 'get_4d_facet_gated_curve',
}


def gates_ev(rec, op, links):
    D = enc.lcd([x for l in links for p in (l.entrance, l.exit) for x in p])
    rec(op, D=enc.big(D), g=[[[enc.big(v) for v in enc.over(p, D)] for p in (l.entrance, l.exit)] for l in links])


def structure(rec, name):
    f = getattr(zoo, NAMES[name])
    info = f()
    C = info.curve
    every = [enc.curve(x.curve) for x in zoo.get_all_curves()]
    E = enc.curve(C)
    rec('curve', name=name, C=E, again=enc.curve(f().curve), listed=int(E in every))
    from peano.subsets import Link
    gates_ev(rec, 'gates', [Link(C.get_entrance(q), C.get_exit(q)) for q in range(C.mult)])
    if info.gates is not None:
        gates_ev(rec, 'fgates', info.gates)
    if info.depth is not None:
        rec('fdepth', r=info.depth)
    if info.junctions_count is not None:
        rec('fjuncs', r=info.junctions_count)
    for fd, mom in sorted((info.moments or {}).items()):
        faces = [f for f in itertools.product((0, 1, None), repeat=C.dim) if f.count(None) == abs(fd)]
        got = [C.get_face_moment(f, last=fd < 0) for f in faces]
        T = enc.lcd(list(got) + list(mom))
        rec('fmoments', fd=abs(fd), last=int(fd < 0), faces=[[2 if x is None else x for x in f] for f in faces], T=enc.big(T),
            t=[enc.big(x) for x in enc.over(got, T)], rec=[enc.big(x) for x in enc.over(mom, T)])



def dilation(rec, name, metric, tight):
    info = getattr(zoo, NAMES[name])()
    C = info.curve
    v = (info.dilation or {}).get(metric)
    d = C.dim
    if v is None:
        kind = {'l1': 'l1', 'linf': 'linf', 'l2': 'l2' if d % 2 == 0 else 'l2s'}.get(metric)
        if kind:
            S, K = (5000, 500) if name == 'peano5' else (PARAM if tight else QUICK)[d, kind]
            E = enc.curve(C)
            rec('curve', name=name, C=E, again=E, listed=1)
            rec('kdil', k=kind, S=S, K=K, lev=16)
        return
    if isinstance(v, zoo.SpecValue):
        lo, up = (v.eq, v.eq) if v.eq is not None else (v.lo, v.up)
    elif isinstance(v, (list, tuple)):
        lo, up = v
    else:
        lo = up = v
    conv = lambda x: Fraction(str(x)) if isinstance(x, float) else Fraction(x)
    lo, up = conv(lo), conv(up)
    kind = {'l1': 'l1', 'linf': 'linf', 'l2_squared': 'l2s', 'l2': 'l2' if d % 2 == 0 else 'l2s'}[metric]
    if metric == 'l2' and kind == 'l2s':
        lo, up = lo * lo, up * up
    S, K = PARAM[d, kind] if tight else QUICK[d, kind]
    E = enc.curve(C)
    rec('curve', name=name, C=E, again=E, listed=1)
    rec('fdil', k=kind, S=S, K=K, lev=16, lof=floor_scaled(lo, S), upc=ceil_scaled(up, S))


QUICK = {(2, 'linf'): (20000, 3000), (2, 'l1'): (20000, 3000), (2, 'l2'): (20000, 3000), (3, 'linf'): (2000, 600),
         (3, 'l1'): (2000, 600), (3, 'l2s'): (100, 200), (4, 'l2'): (500, 100), (4, 'l1'): (500, 60), (4, 'linf'): (500, 60)}
PARAM = {(2, 'linf'): (20000, 6000), (2, 'l1'): (20000, 6000), (2, 'l2'): (20000, 6000), (3, 'linf'): (2000, 1500),
         (3, 'l1'): (2000, 1500), (3, 'l2s'): (100, 400), (4, 'l2'): (1000, 400), (4, 'l1'): (500, 100), (4, 'linf'): (500, 100)}


def equiv(rec):
    rec('eqv', A=enc.curve(zoo.get_meurthe_curve().curve), B=enc.curve(zoo.get_scepin_bauman_curve().curve))


def jobs(tier, rng):
    q = tier == 'quick'
    out = [Job('structure:' + n, structure, n, cost=5) for n in NAMES] + [Job('equiv', equiv)]
    for n in NAMES:
        for m in ('l1', 'l2', 'l2_squared', 'linf'):
            out.append(Job('dilation:%s:%s' % (n, m), dilation, n, m, not q,
                           cost={'iupiter': 300, 'facet4': 500, 'neptunus': 60, 'luna': 60, 'spring': 60, 'tokarev': 60}.get(n, 20)))
    return out


def run(ctx):
    ctx.models_bg([('MC_Zoo', 'MC_Zoo.cfg')])
    ctx.check_traces('C25_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
