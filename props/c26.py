"""C26: plots of curves (plots.plot_curve)."""
import contextlib, io, os, random, re, shutil, tempfile
from lib.harness import Job, Skip
from lib import enc, gen

NAMES = 'abcd'


def line_points(line, d, scale):
    xs = line.get_data_3d() if d == 3 else line.get_data()
    out = []
    for p in zip(*xs):
        out.append([round(float(v) * scale) for v in p])
    return out


def picture(C, sub, opts):
    """-> axes of the figure drawn, whether the file was written"""
    tmp = tempfile.mkdtemp(prefix='verif_C26_')
    os.environ['MPLCONFIGDIR'] = tmp
    os.environ['MPLBACKEND'] = 'Agg'
    try:
        import matplotlib.pyplot as plt
        import plots
        plt.close('all')
        kw = dict(opts)
        if sub:
            kw['subdivision'] = sub
        f = None
        if kw.pop('save', False):
            f = kw['output_file'] = os.path.join(tmp, 'c.png')
        with contextlib.redirect_stdout(io.StringIO()):
            plots.plot_curve(C, **kw)
        ok = 1 if f is None else int(os.path.exists(f) and open(f, 'rb').read(4) == b'\x89PNG')
        fig = plt.gcf()
        return list(fig.axes), ok
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def label(t, d, n):
    s = t.get_text()
    m = re.fullmatch(r'([a-d])', s)
    rev = 0
    if not m:
        m = re.search(r'overline.*?([a-d])\}*\$?$', s)
        rev = 1
    if not m:
        return None
    x = list(t.get_position_3d()) if d == 3 and hasattr(t, 'get_position_3d') else list(t.get_position())
    return {'c': [int(float(v) * n) for v in x[:d]], 'q': NAMES.index(m.group(1)) + 1, 'r': rev}


def job(rec, E, sub, seed):
    try:
        import matplotlib
    except ImportError:
        raise Skip('no matplotlib')
    rng = random.Random(seed)
    C = gen.mk_curve(E)
    if rng.random() < .6:
        C = gen.rand_map(rng, C.dim) * C
    if C.mult > 1 and rng.random() < .3:
        from peano.base_maps import Spec, BaseMap
        C = Spec(BaseMap.id_map(C.dim), rng.randrange(C.mult)) * C
    opts = {}
    sep = rng.random() < .4
    if sep:
        opts['separate'] = True
    if rng.random() < .3:
        opts['grid'] = False
    if rng.random() < .3:
        opts['save'] = True
    axes, ok = picture(C, sub, opts)
    l = sub + 2
    U = 20
    scale = U * C.div ** l
    cols = {}
    from matplotlib.colors import to_hex

    def lines(ax):
        return [{'p': line_points(x, C.dim, scale), 'c': cols.setdefault(to_hex(x.get_color()), len(cols) + 1)} for x in ax.get_lines()]
    per = 2 if sep else 1
    out = []
    for k in range(0, len(axes), per):
        g, f = axes[k], axes[k + per - 1]
        lab = [label(t, C.dim, C.div) for t in g.texts]
        out.append({'coarse': lines(g), 'fine': lines(f), 'labels': [x for x in lab if x]})
    rec('picture', C=enc.curve(C), l=l, U=U, ax=out, saved=ok)


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for r, (name, E) in enumerate(gen.pick_corpus(rng, 40 if q else 300, dims=[2, 3])):
        if len(E['pats']) > 4:
            continue
        G = E['n'] ** E['d']
        for sub in (0, 1, 2, 3):
            T = G ** (sub + 2) * len(E['pats'])
            if T <= (1200 if q else 20000):
                out.append(Job('plot:%s:%d' % (name, sub), job, E, sub, rng.getrandbits(40), cost=T))
    return out


def run(ctx):
    ctx.check_traces('C26_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
