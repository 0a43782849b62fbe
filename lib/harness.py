"""Common machinery of all checks: jobs against the real code, traces, TLC, evidence.

A property module (props/cXX.py) provides
    TRACE   name of the trace specification (spec/<TRACE>.tla + .cfg), or None
    MODELS  list of (module, cfg) design-level models that TLC explores exhaustively
    jobs(tier, rng) -> list of Job
    extra(ctx)      optional: further model-based steps (spec generated behaviours replayed, ...)
"""
import hashlib, json, multiprocessing as mp, os, random, shutil, signal, sys, tempfile, threading, time, traceback

from . import tlc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


class Skip(Exception):
    """Raised by a driver when an optional internal entry point does not exist in this tree."""


class JobTimeout(BaseException):
    pass


class Job:
    def __init__(self, name, fn, *args, timeout=400, cost=None, **kw):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw
        self.timeout = timeout
        self.cost = cost


class Rec:
    """Event recorder handed to a job."""
    def __init__(self):
        self.events = []

    def __call__(self, op, **fields):
        ev = {'op': op}
        ev.update(fields)
        self.events.append(ev)

    def attempt(self, fn, *args, **kw):
        """Call into the code; returns (result, None) or (None, exception name)."""
        try:
            return fn(*args, **kw), None
        except Exception as e:  # noqa
            return None, type(e).__name__


def _alarm(signum, frame):
    raise JobTimeout()


_JOBS = None


def _run_job(k):
    job = _JOBS[k]
    rec = Rec()
    t0 = time.time()
    status, info = 'ok', ''
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, job.timeout)
    try:
        job.fn(rec, *job.args, **job.kw)
    except Skip as e:
        status, info = 'skip', str(e)
    except JobTimeout:
        status, info = 'timeout', 'no answer within %s s\n' % job.timeout + traceback.format_exc(limit=-6)
    except RecursionError:
        status, info = 'crash', traceback.format_exc(limit=-8)
    except BaseException:
        status, info = 'crash', traceback.format_exc(limit=-12)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return k, status, info, [json.dumps(e, separators=(',', ':')) for e in rec.events], time.time() - t0


def run_jobs(jobs, procs=8, fresh=False):
    global _JOBS
    _JOBS = jobs
    out = [None] * len(jobs)
    order = list(range(len(jobs)))
    order.sort(key=lambda k: -(jobs[k].cost or 0))
    ctx = mp.get_context('fork')
    with ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1 if fresh else None) as pool:
        for k, status, info, evs, dt in pool.imap_unordered(_run_job, order, chunksize=1):
            out[k] = (status, info, evs, dt)
    return out


class Context:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
        self.states = self.transitions = 0
        self.traces = 0
        self.violations = []   # dict(kind, detail)
        self.errors = []
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rng = random.Random(seed * 1000003 + int(prop[1:]))
        self.t0 = time.time()
        self.par = 8
        self._bg = []

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def violate(self, kind, **detail):
        self.violations.append(dict(kind=kind, **detail))

    # ---- design level models
    def model(self, module, cfg=None, env=None, timeout=600, expect=None, extra=()):
        cfg = cfg or module + '.cfg'
        r = tlc.run_tlc(module, cfg, self.scratch, 'model_' + cfg.replace('.', '_'), env=env, timeout=timeout, extra=extra)
        self._account(r)
        if r.error:
            self.errors.append('design model %s: %s' % (cfg, r.error))
        self.count('design_models')
        self.cov.setdefault('models', {})[cfg] = {'states': r.states, 'transitions': r.transitions}
        return r

    def models_bg(self, items):
        """Explore design level models in the background; joined by finish()."""
        th = threading.Thread(target=self.models, args=(items, 3))
        th.start()
        self._bg.append(th)

    def models(self, items, par=None):
        tasks = [dict(module=m, cfg=c, scratch=self.scratch, name='model_' + c.replace('.', '_'), timeout=700) for m, c in items]
        for (m, c), r in zip(items, tlc.run_many(tasks, par or self.par)):
            self._account(r)
            if r.error:
                self.errors.append('design model %s: %s' % (c, r.error))
            self.count('design_models')
            self.cov.setdefault('models', {})[c] = {'states': r.states, 'transitions': r.transitions}

    def _account(self, r):
        self.states += r.states
        self.transitions += r.transitions

    # ---- implementation traces
    def drive(self, jobs, procs=8, fresh=False):
        """Run jobs; returns list of (job, [event dict]) for jobs that produced events."""
        t = time.time()
        res = run_jobs(jobs, procs, fresh)
        groups = []
        for job, (status, info, evs, dt) in zip(jobs, res):
            if status == 'skip':
                self.count('skipped_jobs')
                self.cov.setdefault('skip_reasons', []).append(job.name + ': ' + info)
            elif status == 'timeout':
                self.violate('no-termination', job=job.name, info=info)
            elif status == 'crash':
                self.violate('exception', job=job.name, info=info)
            if evs:
                groups.append((job, evs))
        self.count('jobs', len(jobs))
        if os.environ.get('VERIF_TIMES'):
            for job, r in sorted(zip(jobs, res), key=lambda jr: -jr[1][3])[:15]:
                print('  %6.1fs %s' % (r[3], job.name), file=sys.stderr)
        self.cov['drive_s'] = round(self.cov.get('drive_s', 0) + time.time() - t, 1)
        return groups

    def check_traces(self, module, groups, cfg=None, shards=8, timeout=800, env=None):
        """Shard the recorded events and replay every shard through the trace specification."""
        if not groups:
            return
        t = time.time()
        cfg = cfg or module + '.cfg'
        weights = [job.cost if job.cost is not None else sum(map(len, evs)) for job, evs in groups]
        shards = min(shards, len(groups))
        bins = [[0, []] for _ in range(shards)]
        for k in sorted(range(len(groups)), key=lambda k: -weights[k]):
            b = min(bins, key=lambda b: b[0])
            b[0] += weights[k]
            b[1].append(k)
        index = {}
        nid = 0
        paths = []
        for s, (_, ks) in enumerate(bins):
            if not ks:
                continue
            path = os.path.join(self.scratch, '%s_%d.ndjson' % (module, s))
            order = []
            with open(path, 'w') as fh:
                for k in sorted(ks):
                    job, evs = groups[k]
                    for n, ev in enumerate(evs):
                        nid += 1
                        index[nid] = (job.name, n, ev)
                        order.append(nid)
                        fh.write('{"id":%d,%s\n' % (nid, ev[1:]))
            paths.append((path, order))
        self.traces += len(groups)
        self.count('events', nid)
        for k in self.rng.sample(sorted(index), min(3, len(index))):
            if len(self.samples) < 12:
                self.samples.append({'job': index[k][0], 'event': index[k][2][:600]})
        tasks = [dict(module=module, cfg=cfg, scratch=self.scratch, name='%s_%d' % (module, s), timeout=timeout,
                      env=dict(env or {}, TRACE=p)) for s, (p, _) in enumerate(paths)]
        results = tlc.run_many(tasks, self.par)
        for s, r in enumerate(results):
            path, order = paths[s]
            restarts, env_first = 0, None
            while True:
                self._account(r)
                for fid, clauses in r.fails:
                    job, n, ev = index[fid]
                    self.violate('trace', job=job, event_no=n, clauses=clauses, event=ev)
                if r.error is None:
                    want = len(order) + 1 - (int(env_first) - 1 if env_first else 0)
                    if r.states != want:
                        self.errors.append('TLC on %s shard %d consumed %d of %d events' % (module, s, r.states - 1, want - 1))
                    break
                pos = _error_position(r.out)
                if r.timeout or pos is None or pos > len(order):
                    self.errors.append('TLC on %s shard %d: %s' % (module, s, r.error))
                    break
                job, n, ev = index[order[pos - 1]]
                self.violate('malformed', job=job, event_no=n, event=ev, info=r.error[:700])
                restarts += 1
                nxt = next((q for q in range(pos, len(order)) if index[order[q]][0] != job), None)
                if restarts > 3 or nxt is None:
                    break
                env_first = nxt + 1
                r = tlc.run_tlc(**dict(tasks[s], name='%s_%d_r%d' % (module, s, restarts),
                                       env=dict(tasks[s]['env'], FIRST=str(nxt + 1))))
        self.cov['tlc_s'] = round(self.cov.get('tlc_s', 0) + time.time() - t, 1)


def _error_position(out):
    """Number of the event TLC could not evaluate: value of i in the last state printed."""
    import re
    m = re.findall(r'^/?\\?/?\s*(?:/\\ )?tri = (\d+)', out, re.M)
    return int(m[-1]) if m else None


def finish(ctx):
    for th in ctx._bg:
        th.join()
    prop = ctx.prop
    known = load_known(prop)
    ev_dir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(ev_dir, 'replay'), exist_ok=True)
    fresh, listed = [], []
    for v in ctx.violations:
        key = finding_key(v)
        hit = next((k for k in known if k['key'] and k['key'] in key), None)
        (listed if hit else fresh).append((hit, v))
    evidence = {
        'property': prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking',
        'coverage': dict({'states': ctx.states, 'transitions': ctx.transitions,
                          'traces_validated_against_impl': ctx.traces,
                          'samples': ctx.samples or [{'note': 'no trace sampled'}]}, **ctx.cov),
        'assumptions': ctx.assumptions,
        'wall_s': round(time.time() - ctx.t0, 2),
        'violations': len(fresh),
    }
    with open(os.path.join(ev_dir, prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1)
    shutil.rmtree(ctx.scratch, ignore_errors=True)
    for hit in {h['key']: h for h, _ in listed}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, hit['text']))
    if fresh:
        path = os.path.join(ev_dir, 'replay', '%s.json' % prop)
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'tier': ctx.tier, 'seed': ctx.seed,
                       'how': 'VERIF_SEED=%d VERIF_TIER=%s %s %s' % (ctx.seed, ctx.tier, os.path.join(VERIF, 'check'), prop),
                       'violations': [v for _, v in fresh[:40]], 'total': len(fresh)}, fh, indent=1)
        for _, v in fresh[:5]:
            print('  ' + json.dumps(v)[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if ctx.errors:
        for e in ctx.errors[:5]:
            print('ERROR ' + e)
        return 2
    print('OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs' % (
        prop, ctx.tier, ctx.states, ctx.transitions, ctx.traces, ctx.cov.get('events', 0), time.time() - ctx.t0))
    return 0


def finding_key(v):
    return json.dumps([v.get('job'), v.get('kind'), v.get('clauses'), v.get('event', v.get('info', ''))])


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' :: ')
                out.append({'key': key.strip(), 'text': text.strip()})
    return out
