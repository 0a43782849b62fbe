"""Running TLC: several single-worker processes, output parsed, scratch removed."""
import os, re, subprocess, threading, time

JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class TLCResult:
    def __init__(self):
        self.rc = None
        self.out = ''
        self.states = 0      # distinct
        self.transitions = 0  # generated
        self.fails = []      # (id, clauses text)
        self.lines = []      # other printed tuples
        self.error = None
        self.wall = 0.0
        self.timeout = False


_FAIL = re.compile(r'<<\s*"FAIL",\s*(-?\d+),\s*(.*)>>\s*$', re.S)


def run_tlc(module, cfg, scratch, name, env=None, timeout=800, xmx='3g', extra=(), spec_dir=SPEC):
    meta = os.path.join(scratch, 'meta_' + name)
    os.makedirs(meta, exist_ok=True)
    cmd = ['java', '-XX:+UseSerialGC', '-Xmx' + xmx, '-Xss256m', '-Djava.io.tmpdir=' + scratch,
           '-XX:TieredStopAtLevel=4', '-cp', JARS, 'tlc2.TLC', '-workers', '1', '-noGenerateSpecTE',
           '-metadir', meta, '-deadlock', '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    res = TLCResult()
    t0 = time.time()
    outp = os.path.join(scratch, 'out_' + name + '.txt')
    with open(outp, 'w') as fh:
        p = subprocess.Popen(cmd, cwd=spec_dir, env=e, stdout=fh, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            res.timeout = True
    res.wall = time.time() - t0
    res.rc = p.returncode
    with open(outp, errors='replace') as fh:
        res.out = fh.read()
    parse(res)
    return res


def parse(res):
    # TLC wraps long printed values over several lines: join continuation lines of "<<"
    buf = None
    for line in res.out.splitlines():
        if buf is None and (line.startswith('<<"') or line.startswith('<< "')):
            buf = line
        elif buf is not None:
            buf += ' ' + line.strip()
        if buf is not None and buf.count('<<') == buf.count('>>') and buf.count('{') == buf.count('}'):
            m = _FAIL.match(buf)
            if m:
                res.fails.append((int(m.group(1)), m.group(2)))
            else:
                res.lines.append(re.sub(r'^<<\s+', '<<', buf))
            buf = None
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', res.out)
    if m:
        res.transitions, res.states = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r'The number of states generated: (\d+)', res.out)
        if m:
            res.transitions = res.states = int(m[-1])
    if res.rc != 0 or res.timeout:
        m = re.search(r'Error: (.*)', res.out)
        res.error = ('timeout' if res.timeout else (res.out[m.start():m.start() + 1500] if m else 'rc=%s %s' % (res.rc, res.out[-800:])))


def run_many(tasks, par=8):
    """tasks: list of dict(kwargs of run_tlc). Returns results in order."""
    results = [None] * len(tasks)
    it = iter(range(len(tasks)))
    lock = threading.Lock()

    def work():
        while True:
            with lock:
                k = next(it, None)
            if k is None:
                return
            results[k] = run_tlc(**tasks[k])
    ths = [threading.Thread(target=work) for _ in range(min(par, len(tasks)))]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return results
