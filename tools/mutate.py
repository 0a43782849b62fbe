#!/usr/bin/env python3
import warnings; warnings.simplefilter("ignore")
"""Mutation campaign (a development tool, no check uses it).
  mutate.py gen N SEED DIR      sample N mutants of /repo's sources into DIR/mutants.json
  mutate.py tests DIR           which survive the repository's tests -> DIR/alive.json
  mutate.py checks DIR          run the quick checks of the modules concerned on the survivors -> DIR/result.json
Works in scratch copies only."""
import ast, json, os, random, shutil, subprocess, sys, concurrent.futures as cf, threading

FILES = {
    'peano/_bounded_items_heap.py': ['C21', 'C16', 'C17'], 'peano/_cube_path_trees.py': ['C13', 'C12'],
    'peano/_sat_adapters.py': ['C20', 'C17'], 'peano/base_maps.py': ['C01', 'C02', 'C03', 'C04'],
    'peano/curves.py': ['C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C03', 'C22'],
    'peano/dilation.py': ['C16', 'C18', 'C19', 'C17', 'C22'], 'peano/gates.py': ['C14', 'C22'],
    'peano/paths.py': ['C12', 'C03', 'C04', 'C08', 'C14'], 'peano/subsets.py': ['C15', 'C02', 'C03', 'C12'],
    'peano/utils.py': ['C24'], 'search.py': ['C23'], 'peano/zoo.py': ['C25'],
}
CMP = {'Lt': ['<='], 'LtE': ['<'], 'Gt': ['>='], 'GtE': ['>'], 'Eq': ['!='], 'NotEq': ['=='], 'Is': ['is not'], 'IsNot': ['is'],
       'In': ['not in'], 'NotIn': ['in']}
BIN = {'Add': ['-'], 'Sub': ['+'], 'Mult': ['+'], 'FloorDiv': ['*'], 'Mod': ['//'], 'Div': ['*'], 'Pow': ['*']}


def mutants_of(path, src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    P = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    T = lambda n: b[P(n)[0]:P(n)[1]].decode()
    out = []

    def rep(n, text, kind):
        s, e = P(n)
        if b[s:e].decode() != text:
            out.append((s, e, text, kind, n.lineno))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            doc.add(n.value)
        if isinstance(n, (ast.Raise, ast.Assert)):
            for m in ast.walk(n):
                doc.add(m)
    for n in ast.walk(tree):
        if n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP.get(type(n.ops[0]).__name__, []):
                rep(n, '%s %s %s' % (T(n.left), o, T(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in BIN.get(type(n.op).__name__, []):
                rep(n, '%s %s %s' % (T(n.left), o, T(n.right)), 'bin')
        elif isinstance(n, ast.BoolOp):
            for k in range(len(n.values)):
                vs = [T(v) for j, v in enumerate(n.values) if j != k]
                rep(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(vs) + ')', 'dropcond')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(n, '(' + T(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None:
            if isinstance(n.value, bool):
                rep(n, str(not n.value), 'bool')
            elif isinstance(n.value, int):
                rep(n, str(n.value + 1), 'const')
                if n.value > 0:
                    rep(n, str(n.value - 1), 'const')
        elif isinstance(n, (ast.If, ast.IfExp)):
            if path != 'peano/zoo.py':
                rep(n.test, 'True', 'iftrue')
                rep(n.test, 'False', 'iffalse')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield))):
            rep(n, 'pass', 'delete')
        elif isinstance(n, (ast.Break,)):
            rep(n, 'pass', 'break')
        elif isinstance(n, ast.Continue):
            rep(n, 'pass', 'continue')
        elif isinstance(n, ast.Call):
            f = T(n.func)
            if f in ('max', 'min'):
                rep(n.func, 'min' if f == 'max' else 'max', 'minmax')
            if f in ('any', 'all'):
                rep(n.func, 'all' if f == 'any' else 'any', 'anyall')
            if f in ('reversed', 'sorted', 'set') and len(n.args) == 1:
                rep(n, 'list(%s)' % T(n.args[0]), 'unwrap')
            for kw in n.keywords:
                if kw.arg and not (n.args and kw.value is None):
                    s, e = P(kw)
                    # drop the keyword argument
                    pre = b[:s].rstrip()
                    if pre.endswith(b','):
                        out.append((len(pre) - 1, e, '', 'dropkw', kw.value.lineno))
            if len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                s, e = P(n.args[0])[0], P(n.args[1])[1]
                out.append((s, e, T(n.args[1]) + ', ' + T(n.args[0]), 'swapargs', n.lineno))
        elif isinstance(n, ast.Slice):
            pass
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            pass
        elif isinstance(n, ast.Attribute) and n.attr in ('entrance', 'exit'):
            s, e = P(n)
            rep(n, T(n.value) + '.' + ('exit' if n.attr == 'entrance' else 'entrance'), 'attr')
        elif isinstance(n, ast.Attribute) and n.attr in ('spec1', 'spec2'):
            rep(n, T(n.value) + '.' + ('spec2' if n.attr == 'spec1' else 'spec1'), 'attr')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                rep(i, 'True', 'compif')
    res = []
    for s, e, t, kind, line in out:
        new = b[:s] + t.encode() + b[e:]
        try:
            compile(new, path, 'exec')
        except SyntaxError:
            continue
        res.append(dict(file=path, s=s, e=e, t=t, kind=kind, line=line, old=b[s:e].decode()))
    return res


def gen(n, seed, d, only=None):
    rng = random.Random(seed)
    al = []
    for f in FILES:
        if only and f not in only:
            continue
        ms = mutants_of(f, open('/repo/' + f).read())
        if f == 'peano/zoo.py':
            ms = rng.sample(ms, min(20, len(ms)))
        al += ms
    print(len(al), 'mutants in all')
    rng.shuffle(al)
    al = al[:n]
    for k, m in enumerate(al):
        m['id'] = k
    os.makedirs(d, exist_ok=True)
    json.dump(al, open(d + '/mutants.json', 'w'), indent=0)


def apply(m, repo):
    p = os.path.join(repo, m['file'])
    b = open('/repo/' + m['file'], 'rb').read()
    assert b[m['s']:m['e']].decode() == m['old']
    open(p, 'wb').write(b[:m['s']] + m['t'].encode() + b[m['e']:])


def fresh(d, k):
    w = '%s/w%s' % (d, k)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns('.git', '__pycache__'))
    return w


def tests(d):
    ms = json.load(open(d + '/mutants.json'))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
    loc = threading.local()
    cnt = iter(range(100))
    order = ['utils', 'base_maps', 'subsets', 'cube_path_trees', 'sat_adapters', 'gates', 'paths', 'curves', 'dilation']

    def one(m):
        if not hasattr(loc, 'w'):
            loc.w = fresh(d, next(cnt))
        apply(m, loc.w + '/repo')
        try:
            for o in order:
                r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests/test_%s.py' % o],
                                   cwd=loc.w + '/repo', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                if r.returncode:
                    return None
            r = subprocess.run(['/opt/venv/bin/python', '-c', 'import search, plots'], cwd=loc.w + '/repo', env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
            return m
        except subprocess.TimeoutExpired:
            return None
        finally:
            shutil.copy('/repo/' + m['file'], loc.w + '/repo/' + m['file'])
    with cf.ThreadPoolExecutor(8) as ex:
        alive = [m for m in ex.map(one, ms) if m]
    json.dump(alive, open(d + '/alive.json', 'w'), indent=0)
    print(len(alive), 'of', len(ms), 'survive')


def checks(d, par=2):
    ms = json.load(open(d + '/alive.json'))
    done = {}
    try:
        done = {m['id']: m for m in json.load(open(d + '/result.json'))}
    except OSError:
        pass
    loc = threading.local()
    cnt = iter(range(100))
    lock = threading.Lock()

    def one(m):
        if m['id'] in done:
            return
        if not hasattr(loc, 'w'):
            loc.w = fresh(d, 'c%d' % next(cnt))
            v = loc.w + '/verif'
            shutil.copytree('/verif', v, ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'evidence'))
            for f in ('lib/harness.py', 'check.py', 'props/c23.py'):
                s = open(v + '/' + f).read().replace("'/repo", "'%s/repo" % loc.w)
                open(v + '/' + f, 'w').write(s)
        apply(m, loc.w + '/repo')
        m['runs'] = []
        m['caught'] = None
        for p in FILES[m['file']]:
            try:
                r = subprocess.run(['./check', p], cwd=loc.w + '/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                m['runs'].append([p, r.returncode])
                if r.returncode == 1:
                    m['caught'] = p
                    m['out'] = r.stdout.decode()[-600:]
                    break
            except subprocess.TimeoutExpired:
                m['runs'].append([p, 'timeout'])
        shutil.copy('/repo/' + m['file'], loc.w + '/repo/' + m['file'])
        with lock:
            done[m['id']] = m
            json.dump(list(done.values()), open(d + '/result.json', 'w'), indent=0)
            print(m['id'], m['file'], m['line'], m['kind'], repr(m['old'][:60]), '->', repr(m['t'][:60]), m['caught'], m['runs'], flush=True)
    with cf.ThreadPoolExecutor(par) as ex:
        list(ex.map(one, ms))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'gen':
        gen(int(a[2]), int(a[3]), a[4], a[5:] or None)
    elif a[1] == 'tests':
        tests(a[2])
    else:
        checks(a[2], int(a[3]) if len(a) > 3 else 2)
