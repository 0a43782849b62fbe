"""C21: bounded-items heap; behaviours of the specification and random histories replayed into the real heap."""
import json, random
from quicktions import Fraction
from lib.harness import Job, Skip
from lib import enc, tlc

try:
    from peano._bounded_items_heap import BoundedItem, BoundedItemsHeap
except ImportError:
    BoundedItem = None


class Driver:
    """real heaps, observed after every operation"""
    def __init__(self, rec, unit):
        if BoundedItem is None:
            raise Skip('no peano._bounded_items_heap')
        self.rec, self.unit, self.heaps, self.ids, self.nid, self.keep = rec, unit, [], {}, 0, []

    def val(self, k):
        return None if k == -1 else k * self.unit

    def id(self, item):
        """number under which the item was pushed (identity of the item; equal items get distinct numbers)"""
        return self.ids.get(id(item), [0])[0]

    def new(self, good, bad, keep):
        self.heaps.append(BoundedItemsHeap(self.val(good), self.val(bad), keep_max_lo_item=bool(keep)))
        self.keep.append(keep)
        self.rec('new', good=good, bad=bad, keep=keep)
        return len(self.heaps)

    def push(self, h, lo, up):
        it = BoundedItem(self.val(lo), self.val(up))
        self.nid += 1
        self.ids[id(it)] = (self.nid, it)
        self.heaps[h - 1].push(it)
        self.rec('push', h=h, x=self.nid, lo=lo, up=up)
        if self.keep[h - 1]:
            m = self.heaps[h - 1].max_lo_item.lo / self.unit
            self.rec('maxlo', h=h, r=int(m) if m == int(m) else -7)

    def raise_(self, h, t):
        try:
            self.heaps[h - 1].update_good_threshold(self.val(t))
            err = 0
        except ValueError:
            err = 1
        self.rec('raise', h=h, t=t, err=err)

    def pop(self, h):
        if self.heaps[h - 1].size() > 0:
            self.rec('pop', h=h, r=self.id(self.heaps[h - 1].pop()))

    def popbad(self, h):
        self.rec('popbad', h=h, r=[self.id(x) for x in self.heaps[h - 1].pop_bad_items()])

    def copy(self, h, good, bad):
        self.heaps.append(self.heaps[h - 1].copy_and_cleanup(self.val(good), self.val(bad)))
        self.keep.append(0)
        self.rec('copy', h=h, good=good, bad=bad)
        return len(self.heaps)

    def look(self, h, full):
        H = self.heaps[h - 1]
        self.rec('size', h=h, r=H.size())
        if full:
            self.rec('items', h=h, r=[self.id(x) for x in H.items()])
        if H.size() > 0:
            self.rec('top', h=h, r=self.id(H.top()))

    def drain(self, h):
        self.popbad(h)
        while self.heaps[h - 1].size() > 0:
            self.pop(h)
        self.look(h, True)


def replay(rec, hists, seed):
    rng = random.Random(seed)
    for hist in hists:
        rec('reset')
        D = Driver(rec, rng.choice([Fraction(1), Fraction(1, 3), Fraction(7, 5), Fraction(1, 1000)]))
        for op in hist:
            k = op['op']
            if k == 'new':
                D.new(op['good'], op['bad'], op['keep'])
            elif k == 'push':
                D.push(1, op['lo'], op['up'])
            elif k == 'raise':
                D.raise_(1, op['t'])
            elif k == 'pop':
                D.pop(1)
            elif k == 'popbad':
                D.popbad(1)
            elif k == 'copy':
                D.copy(1, op['good'], op['bad'])
            D.look(1, rng.random() < .3)
        for h in range(1, len(D.heaps) + 1):
            D.drain(h)


def random_history(rec, seed, count, length):
    rng = random.Random(seed)
    for _ in range(count):
        rec('reset')
        D = Driver(rec, rng.choice([Fraction(1), Fraction(1, 3), Fraction(1, 12), Fraction(5, 7)]))
        V = rng.choice([3, 10, 100, 1000])
        thr = lambda p: -1 if rng.random() < p else rng.randrange(V)
        D.new(thr(.5), thr(.5), 0 if rng.random() < .6 else 1)
        source = rng.random() < .5
        if source:
            D.new(-1, -1, 0)
        for _ in range(length):
            h = rng.randint(1, len(D.heaps))
            z = rng.random()
            if z < .55:
                a, b = sorted((rng.randrange(V + 1), rng.randrange(V + 1)))
                D.push(h, a, b if rng.random() < .8 else a)
            elif z < .7:
                D.pop(h)
            elif z < .78:
                if not (source and h == 2) or rng.random() < .05:
                    D.raise_(h, rng.randrange(1 + V // rng.choice([1, 3, 10])))
                    if h == 2:
                        source = False
            elif z < .86:
                D.popbad(h)
            elif z < .9 and source and len(D.heaps) < 6:
                D.copy(2, thr(.3), thr(.3))
            D.look(h, rng.random() < .1)
        for h in range(1, len(D.heaps) + 1):
            D.drain(h)


def behaviours(ctx, num):
    """histories drawn by TLC from the specification"""
    r = tlc.run_tlc('MC_Heap', 'MC_HeapSim.cfg', ctx.scratch, 'heapsim', env={'EMIT': '1'}, timeout=300,
                    extra=['-simulate', 'num=%d' % num, '-depth', '24', '-seed', str(ctx.seed)])
    ctx._account(r)
    if r.error:
        ctx.errors.append('behaviours of MC_Heap: %s' % r.error)
    out = []
    for line in r.out.splitlines():
        if line.startswith('<<"HIST"'):
            out.append(json.loads(json.loads('[' + line[2:-2] + ']')[1]))
    ctx.count('spec_behaviours_replayed', len(out))
    return out


def run(ctx):
    q, rng = ctx.quick, ctx.rng
    ctx.models_bg([('MC_Heap', 'MC_Heap.cfg')])
    hs = behaviours(ctx, 800 if q else 4000)
    js = [Job('spec:%d' % k, replay, hs[k::16], rng.getrandbits(40)) for k in range(16)]
    js += [Job('random:%d' % k, random_history, rng.getrandbits(40), 8 if q else 40, rng.choice([20, 60, 150])) for k in range(48 if q else 64)]
    ctx.check_traces('C21_Trace', ctx.drive(js))
