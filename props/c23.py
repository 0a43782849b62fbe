"""C23: the search command, run as a user runs it."""
import os, random, re, shutil, subprocess, sys, tempfile
from quicktions import Fraction
from lib.harness import Job
from lib import enc, gen
from props.c14 import etuple
from props.c16 import floor_scaled, ceil_scaled, brat
from props.c17 import cls_params
from peano.curves import Curve
from peano.subsets import Link

SEARCH = '/repo/search.py'
METRIC = {'linf': 'linf', 'l1': 'l1', 'l2': 'l2', 'l2s': 'l2_squared'}

G222 = ['(0,0)->(0,1)|(0,0)->(1/2,1)', '(0,0)->(0,1)|(0,1/2)->(1,1/2)', '(0,0)->(0,1)|(0,1/2)->(1/2,0)', '(0,0)->(0,1)|(0,0)->(1,1)',
        '(0,0)->(0,1)|(0,1/2)->(0,1/2)', '(0,1/3)->(1/3,1)|(0,1/3)->(1,1/3)', '(0,0)->(0,1/2)|(0,0)->(1/2,1)', '(0,0)->(0,1)|(0,0)->(2/3,1)']
# name -> d, n, m, options; the gates explicitly given (None: all of the configuration)
CONF = {
    '221': (2, 2, 1, {}), '121': (1, 2, 1, {}), '131': (1, 3, 1, {}),
    '231c1': (2, 3, 1, {'max-cdist': 1}), '231': (2, 3, 1, {}), '231f': (2, 3, 1, {'facet-gated': 1}),
    '231s': (2, 3, 1, {'gates': '(0,0)->(0,1)'}), '231x': (2, 3, 1, {'gates': '(0,0)->(1,1)'}),
    '231xc1': (2, 3, 1, {'gates': '(0,0)->(1,1)', 'max-cdist': 1}),
    '222f': (2, 2, 2, {'facet-gated': 1}), '223f': (2, 2, 3, {'facet-gated': 1}), '232f': (2, 3, 2, {'facet-gated': 1}),
    '241c1': (2, 4, 1, {'max-cdist': 1}), '321f': (3, 2, 1, {'facet-gated': 1}),
    '321c1': (3, 2, 1, {'gates': '(0,0,0)->(0,0,1)', 'max-cdist': 1}),
}
for k, g in enumerate(G222):
    CONF['222g%d' % k] = (2, 2, 2, {'gates': g})
CONF['222l'] = (2, 2, 2, {'list': [G222[0], G222[1], G222[6]]})
CONF['222lc1'] = (2, 2, 2, {'list': [G222[0], G222[4], G222[5]], 'max-cdist': 1})
CONF['231l'] = (2, 3, 1, {'list': ['(0,0)->(0,1)', '(0,0)->(1,1)']})


def parse_gates(s):
    return etuple([Link.parse_gates(t) for t in s.split('|')])


def call(args, files=None, timeout=300):
    """run the command in a scratch directory; -> (exit code, stdout)"""
    tmp = tempfile.mkdtemp(prefix='verif_search_')
    try:
        for name, text in (files or {}).items():
            with open(os.path.join(tmp, name), 'w') as fh:
                fh.write(text)
        p = subprocess.run([sys.executable, SEARCH] + args, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                           env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        return p.returncode, p.stdout, p.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def blocks(out):
    """reports printed by the command: list of None (not found) or (lo, up, lo float, up float, [curve])"""
    res = []
    for b in re.split(r'^======$', out, flags=re.M)[1:]:
        if 'NOT FOUND!' in b:
            res.append(None)
            continue
        head, _, tail = b.partition('Curves:')
        fr = {k: Fraction(int(x), int(y)) for k, x, y in re.findall(r"'(lo|up)': Fraction\((-?\d+), (\d+)\)", head)}
        fl = [float(x) for x in re.findall(r'(?:lower|upper) bound \(float\): (\S+)', head)]
        curves, cur = [], []
        for line in tail.splitlines() + ['']:
            m = re.match(r'@(\d+): (.*) \| (.*)$', line)
            if m:
                cur.append((m.group(2), m.group(3)))
            elif cur:
                curves.append(Curve.parse(cur))
                cur = []
        res.append((fr['lo'], fr['up'], fl[0], fl[1], curves))
    return res


def curve_gates(C):
    """entrances and exits of all patterns, as the code sees them (the specification verifies them)"""
    return etuple([Link(C.get_entrance(pnum=q), C.get_exit(pnum=q)) for q in range(C.mult)])


def arglist(d, n, m, opts, rng, kind, tol, extra):
    a = ['--dim', d, '--div', n, '--mult', m]
    files = {}
    if kind:
        a += ['--metric', METRIC[kind]]
    if tol:
        a += ['--rel-tol-inv', tol]
    if opts.get('facet-gated'):
        a += ['--facet-gated']
    if 'max-cdist' in opts:
        a += ['--max-cdist', opts['max-cdist']]
    if 'gates' in opts and rng.random() < .5:
        a += ['--gates', opts['gates']]
    elif 'gates' in opts or 'list' in opts:
        ls = opts.get('list') or [opts['gates']]
        a += ['--gates-file', 'gates.txt']
        files['gates.txt'] = ''.join(x + '\n' for x in ls)
    return [str(x) for x in a + extra], files


def spec_gates(opts):
    ls = opts.get('list') or ([opts['gates']] if 'gates' in opts else [])
    return [parse_gates(x) for x in ls]


def job(rec, name, kind, hints, seed, tols):
    rng = random.Random(seed)
    d, n, m, opts = CONF[name]
    tol = rng.choice(tols)
    extra, mult = [], 4
    group = rng.random() < .5 and 'list' in opts
    if group:
        extra += ['--group-by-gates']
    if rng.random() < .4:
        mult = rng.choice([2, 3, 10])
        extra += ['--rel-tol-inv_mult', mult]
    if rng.random() < .3:
        extra += ['--cache-max-size', rng.choice([0, 1, 64])]
    if rng.random() < .3:
        extra += ['--finish-max-count', rng.choice([1, 10, 1000])]
    if rng.random() < .2:
        extra += [rng.choice(['-v', '--verbose'])]
    ub = None
    if rng.random() < .5:
        v = min([h['up'] for h in hints if h] or [10])
        ub = Fraction(int(v * rng.choice([.3, .6, .9, 1.02, 1.05, 1.3, 3]) * 60) + 1, 60)
        extra += ['--upper-bound', '%d/%d' % (ub.numerator, ub.denominator)]
    a, files = arglist(d, n, m, opts, rng, kind, tol, extra)
    rc, out, err = call(a, files)
    S, K = cls_params(d, n, kind) if kind != 'l2s' else (500, 30)
    bs = blocks(out) if rc == 0 else []
    gs = spec_gates(opts)
    want = len(gs) if group else 1
    rec('run', rc=rc, blocks=len(bs), want=want, a=' '.join(a), err=err[-300:])
    for k, b in enumerate(bs[:want]):
        hs = [hints[k]] if group else hints
        common = dict(d=d, n=n, m=m, facet=int('facet-gated' in opts), cdist=opts.get('max-cdist', -1), gates=[gs[k]] if group else gs,
                      k=kind, S=S, K=K, hints=[{'C': h['C'], 'g': h['g']} for h in hs if h], tol=tol,
                      boundf=-1 if ub is None else floor_scaled(ub, S), bound=[] if ub is None else brat(ub), a=' '.join(a))
        if b is None:
            rec('report', found=0, **common)
        else:
            lo, up, lofl, upfl, cs = b
            rec('report', found=1, lo=brat(lo), up=brat(up), lof=floor_scaled(lo, S), upc=ceil_scaled(up, S),
                upcw=ceil_scaled(up * (mult + 1) / mult, S), fl=int(abs(lofl - float(lo)) < 1e-9 * lofl and abs(upfl - float(up)) < 1e-9 * upfl),
                curves=[{'C': enc.curve(c), 'g': curve_gates(c)} for c in cs], **common)


def gates_job(rec, d, n, m, opts, table):
    rng = random.Random(d + n + m)
    a, files = arglist(d, n, m, opts, rng, None, None, ['--output-gates'])
    rc, out, err = call(a, files)
    lines = [x for x in out.splitlines() if x.strip()]
    rec('gates', rc=rc, out=[parse_gates(x) for x in lines] if rc == 0 else [], want=table, a=' '.join(a))


def refused(rec, a):
    rc, out, err = call(a)
    rec('refused', rc=rc, a=' '.join(a), printed=int('bound' in out))


def jobs(tier, rng):
    q = tier == 'quick'
    out = []
    for e in gen.load('search.json'):
        if e['t'] > (4 if q else 40):
            continue
        big = e['conf'] in ('321f', '321c1') or CONF[e['conf']][0] == 1
        tols = [2, 3] if CONF[e['conf']][0] == 1 else [2, 5] if big else [3, 5, 10] if q else [5, 10, 20]
        for r in range((1 if e['t'] > 1 else 2) if q else 5):
            out.append(Job('search:%s:%s:%d' % (e['conf'], e['k'], r), job, e['conf'], e['k'], e['hints'], rng.getrandbits(40), tols,
                           cost=200 + 100 * e['t'] + (1500 if e['k'] == 'l2s' else 0), timeout=330))
    for t in gen.load('gatetables.json'):
        if t['t'] < (3 if q else 60):
            out.append(Job('gates:%s' % t['name'], gates_job, t['d'], t['n'], t['m'], {'facet-gated': 1} if t['facet'] else {}, t['gates'], cost=50))
    ls = [G222[3], G222[0], G222[0], '(0,1/2)->(1/2,0)|(0,1)->(0,0)']
    out.append(Job('gates:list', gates_job, 2, 2, 2, {'list': ls}, [parse_gates(x) for x in ls], cost=50))
    out.append(Job('gates:one', gates_job, 2, 2, 2, {'gates': ls[3]}, [parse_gates(ls[3])], cost=50))
    for d in (1, 3):
        out.append(Job('refused:l2:%d' % d, refused, ['--dim', str(d), '--div', '2', '--mult', '1', '--metric', 'l2', '--rel-tol-inv', '2'], cost=20))
    out.append(Job('refused:metric', refused, '--dim 2 --div 2 --mult 1'.split(), cost=20))
    return out


def run(ctx):
    ctx.check_traces('C23_Trace', ctx.drive(jobs(ctx.tier, ctx.rng)))
