# Workloads over openquake.commonlib.source and general.block_splitter: the
# block streams of source collectors under every consumption schedule, with
# failing filters, failing splits, and the simulated process pool.
import core
import env
import srcgen
from srcgen import describe, difference


class FilterError(Exception):
    pass


def boot(sim):
    general, source, parallel = env.boot('general', 'source', 'parallel')
    return general, source, parallel


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-30)


def bins_of(src):
    return [(m, r) for m, r in src.mfd.get_annual_occurrence_rates()]


class Group(object):
    """What the pieces of one kept source have to be"""

    def __init__(self, src, discr):
        from openquake.hazardlib import source as ohs
        self.src = src
        self.id = src.source_id
        bins = bins_of(src)
        nonzero = len([r for _m, r in bins if r])
        factor = getattr(src, 'rupture_factor', 1)
        if isinstance(src, ohs.AreaSource):
            self.kind = 'area'
            mesh = src.polygon.discretize(discr)
            n = len(mesh)
            self.keys = sorted(zip(mesh.lons, mesh.lats))
            self.bins = [(m, r / float(n)) for m, r in bins]
            self.weight = nonzero
            self.same = describe(src, ('source_id', 'name', 'mfd', 'polygon', 'class',
                                       'area_discretization'))[1:]
            self.same = [p for p in describe(src, (
                'source_id', 'name', 'mfd', 'polygon', 'area_discretization'))
                if p[0] != 'class'] + [('class', 'PointSource')]
        elif isinstance(src, (ohs.SimpleFaultSource, ohs.ComplexFaultSource)):
            self.kind = 'fault'
            self.keys = sorted((m, r) for m, r in bins if r)
            self.width = src.mfd.bin_width
            self.weight = factor
            self.same = describe(src, ('source_id', 'name', 'mfd'))
        else:
            self.kind = 'whole'
            self.keys = [src.source_id]
            self.weight = nonzero * factor
            self.same = describe(src)
        self.n = len(self.keys)

    def verify(self, sim, pieces):
        """The pieces are all of this source, and carry its seismicity"""
        sim.check(len(pieces) == self.n, 'not-conserved', '%d pieces of %s instead of %d',
                  len(pieces), self.id, self.n)
        if self.kind == 'whole':
            bad = difference(describe(pieces[0]), self.same)
            sim.check(not bad, 'not-conserved', 'source %s: %s', self.id, bad)
            return
        sim.check(len(set(p.source_id for p in pieces)) == self.n, 'not-conserved',
                  'pieces of %s with the same id', self.id)
        if self.kind == 'fault':
            got = []
            for p in pieces:
                bins = bins_of(p)
                sim.check(len([r for _m, r in bins if r]) == 1, 'not-conserved',
                          'piece %s of %s has bins %s', p.source_id, self.id, bins)
                got.extend((m, r) for m, r in bins if r)
                sim.check(close(p.mfd.bin_width, self.width), 'not-conserved',
                          'bin width of %s', p.source_id)
            got.sort()
            for (m1, r1), (m2, r2) in zip(got, self.keys):
                sim.check(close(m1, m2) and close(r1, r2), 'not-conserved',
                          'pieces of %s have bins %s instead of %s', self.id, got, self.keys)
            drop = ('source_id', 'name', 'mfd')
        else:
            got = sorted((p.location.longitude, p.location.latitude) for p in pieces)
            sim.check(len(got) == len(self.keys) and all(
                abs(x1 - x2) < 1e-9 and abs(y1 - y2) < 1e-9
                for (x1, y1), (x2, y2) in zip(got, self.keys)), 'not-conserved',
                'points of %s are %s instead of %s', self.id, got, self.keys)
            for p in pieces:
                bins = bins_of(p)
                sim.check(len(bins) == len(self.bins) and all(
                    close(m1, m2) and close(r1, r2)
                    for (m1, r1), (m2, r2) in zip(bins, self.bins)), 'not-conserved',
                    'point %s of %s has rates %s instead of %s', p.source_id, self.id, bins,
                    self.bins)
            drop = ('source_id', 'name', 'mfd', 'location')
        for p in pieces:
            bad = difference(describe(p, drop), self.same)
            sim.check(not bad, 'not-conserved', 'piece %s of %s: %s', p.source_id, self.id, bad)


class Side(object):
    """A collector, what it was given, and the model of its bookkeeping"""

    def __init__(self, sim, source, serial, bookkeeping):
        self.sim, self.serial = sim, serial
        self.bookkeeping = bookkeeping
        self.trt = srcgen.TRTS[sim.draw(len(srcgen.TRTS))]
        n = sim.draw(6) if bookkeeping else 1 + sim.draw(5)
        self.given = []
        self.count = 0
        for _ in range(n):
            self.given.append(self.make())
        self.num0 = sim.pick(0, 7)
        how = sim.draw(4)
        if how == 0:
            self.sc = source.SourceCollector(self.trt)
            self.num0 = 0
            for src in self.given:
                self.sc.update(src)
        elif how == 1:
            self.sc = source.SourceCollector(self.trt, list(self.given), num_ruptures=self.num0)
        elif how == 2:
            self.shared = list(self.given)
            self.sc = source.SourceCollector(self.trt, self.shared, self.num0)
        else:
            k = sim.draw(n + 1)
            self.sc = source.SourceCollector(
                self.trt, self.given[:k] or None, num_ruptures=self.num0)
            for src in self.given[k:]:
                self.sc.update(src)
        self.sources = list(self.given)      # what the collector should hold
        self.snapshot = [describe(s) for s in self.given]
        self.base = self.num0
        self.mags = [s.mfd.get_min_max_mag() for s in self.given]
        self.stats = (0, 0)
        self.stream = None

    def make(self):
        self.count += 1
        spec = srcgen.Spec(self.sim, '%d.%d' % (self.serial, self.count), trt=self.trt)
        src = spec.build(discr=10.0)
        src.rupture_factor = self.sim.pick(1, 2, 7, 30)
        return src

    def check(self, when):
        """The bookkeeping at a moment without a running stream"""
        sim, sc = self.sim, self.sc
        same_list(sim, sc.sources, self.sources, 'the sources of a collector %s' % when)
        sim.check(sc.num_ruptures == self.base, 'wrong-count',
                  '%s ruptures instead of %s %s', sc.num_ruptures, self.base, when)
        self.check_mags(when)
        sim.check(sc.trt == self.trt, 'wrong-trt', '%s', sc.trt)

    def check_mags(self, when):
        lo = min(m for m, _ in self.mags) if self.mags else None
        hi = max(m for _, m in self.mags) if self.mags else None
        self.sim.check((self.sc.min_mag, self.sc.max_mag) == (lo, hi), 'wrong-magnitudes',
                       '%s, %s instead of %s, %s %s', self.sc.min_mag, self.sc.max_mag, lo, hi,
                       when)

    # ---- block streams
    def start(self, limits):
        sim = self.sim
        self.kept = dict((id(s), sim.draw(4) != 1) for s in self.sources)
        self.fail_at = sim.draw(len(self.sources) + 1) if sim.draw(6) == 1 else None
        self.fail_how = sim.pick('filter', 'split', 'count') if self.fail_at is not None else None
        self.asked = 0
        self.discr = sim.pick(10.0, 5.0)
        self.limit = limits[sim.draw(len(limits))]
        self.groups = [Group(s, self.discr) for s in self.sources if self.kept[id(s)]]
        self.dropped = len(self.sources) - len(self.groups)
        self.injected = False
        if self.fail_how in ('split', 'count') and self.fail_at < len(self.sources):
            self.victim = self.sources[self.fail_at]
            if self.fail_how == 'split':
                areas = [s for s in self.sources if self.kept[id(s)] and hasattr(s, 'polygon')]
                if areas:
                    self.victim = areas[self.fail_at % len(areas)]
        else:
            self.victim = None
        self.blocks = []
        self.prefix = [0]
        for g in self.groups:
            for _ in range(g.n):
                if g.weight:
                    self.prefix.append(self.prefix[-1] + g.weight)
        sim.log('stream', self.serial, self.limit, [g.id for g in self.groups], self.dropped)
        self.stream = sim.must('no-blocks', self.sc.gen_blocks, self.filter, self.limit,
                               self.discr)
        self.stream = iter(self.stream)

    def filter(self, src):
        self.asked += 1
        if self.fail_how == 'filter' and self.asked - 1 == self.fail_at:
            self.sim.fault('filter-fails')
            self.injected = True
            raise FilterError(src.source_id)
        return ['site'] if self.kept.get(id(src)) else None

    def mesh_hook(self, polygon):
        if self.fail_how == 'split' and polygon is getattr(self.victim, 'polygon', None):
            self.sim.fault('split-fails')
            self.injected = True
            raise MemoryError('mesh')

    def count_hook(self, piece):
        if self.fail_how == 'count' and (piece.source_id + '-').startswith(
                self.victim.source_id + '-') and not self.injected and self.sim.draw(2):
            self.sim.fault('count-fails')
            self.injected = True
            raise MemoryError('ruptures')

    def advance(self):
        """One block more; False at the end of the stream"""
        sim = self.sim
        if self.victim is not None:
            sim.state['mesh_hook'] = self.mesh_hook
            sim.state['count_hook'] = self.count_hook
        try:
            ok, block = sim.attempt(next, self.stream)
        finally:
            sim.state['mesh_hook'] = sim.state['count_hook'] = None
        if ok:
            self.blocks.append(block)
            n = sum(len(b) for b in self.blocks)
            if self.bookkeeping:
                self.running(n)
            sim.log('block', self.serial, len(block), block.weight)
            return True
        self.stream = None
        if isinstance(block, StopIteration):
            self.finished()
        elif isinstance(block, (FilterError, MemoryError)) and self.injected:
            sim.log('failed', self.serial, block)
            self.left('after a failure')
        else:
            sim.fail('no-blocks', 'the stream raised %s' % core.exc_text(block))
        return False

    def running(self, n):
        sim = self.sim
        got = self.sc.num_ruptures - self.base
        sim.check(got in self.prefix[n:], 'wrong-count',
                  '%s ruptures counted after %d pieces of weights %s', got, n, self.prefix)
        self.unchanged(n, 'while a stream is running')
        self.check_mags('while a stream is running')

    def left(self, when):
        """The stream was abandoned or failed: original sources, counts as of the pieces seen"""
        sim = self.sim
        n = sum(len(b) for b in self.blocks)
        self.stream = None
        got = self.sc.num_ruptures - self.base
        if self.bookkeeping:
            sim.check(got in self.prefix[n:], 'wrong-count', '%s ruptures counted after %d '
                      'pieces of weights %s', got, n, self.prefix)
            self.unchanged(n, when)
            for s, d in zip(self.sources, self.snapshot):
                bad = difference(describe(s), d)
                sim.check(not bad, 'source-changed', 'source %s %s: %s', s.source_id, when, bad)
            self.check_mags(when)
        self.base = self.sc.num_ruptures
        self.sources = list(self.sc.sources)
        self.snapshot = [describe(s) for s in self.sources]

    def unchanged(self, n, when):
        held = list(self.sc.sources)
        if n == len(self.prefix) - 1 and (len(held) != len(self.sources) or any(
                x is not y for x, y in zip(held, self.sources))):
            # the last block was taken: the collector may hold the pieces already
            return self.check_kept([p for b in self.blocks for p in b])
        same_list(self.sim, self.sc.sources, self.sources, 'the sources %s' % when)

    def finished(self):
        sim = self.sim
        sim.check(not self.injected, 'swallowed', 'something failed in the stream, that ended '
                  'normally')
        pieces = [p for b in self.blocks for p in b]
        verify_blocks(sim, self.blocks, self.groups, self.limit)
        total = self.prefix[-1]
        kept = sum(g.n for g in self.groups)
        if self.bookkeeping:
            sim.check(self.sc.num_ruptures == self.base + total, 'wrong-count',
                      '%s ruptures instead of %s at the end', self.sc.num_ruptures,
                      self.base + total)
            self.check_mags('at the end of a stream')
            self.check_kept(pieces)
            stats = tuple(self.sc.filtered_sources)
            want = (kept, kept + self.dropped)
            sim.check(stats == want, 'wrong-statistics', 'filtered_sources is %s instead of %s',
                      stats, want)
        self.base = self.sc.num_ruptures
        self.sources = list(self.sc.sources)
        self.snapshot = [describe(s) for s in self.sources]

    def check_kept(self, pieces):
        sim = self.sim
        held = list(self.sc.sources)
        i = 0
        for g in self.groups:
            g.verify(sim, held[i:i + g.n])
            i += g.n
        sim.check(i == len(held), 'wrong-sources', 'the collector holds %d sources after the '
                  'stream instead of %d pieces', len(held), i)
        weighty = [p for g, ps in self.split(held) for p in ps if g.weight]
        same_list(sim, weighty, pieces, 'the pieces held by the collector')

    def split(self, held):
        i = 0
        for g in self.groups:
            yield g, held[i:i + g.n]
            i += g.n


def same_list(sim, got, want, what):
    got = list(got)
    if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
        sim.fail('wrong-sources', '%s are %s instead of %s' % (
            what, core.text(got), core.text(want)))


def verify_blocks(sim, blocks, groups, limit):
    pieces = [p for b in blocks for p in b]
    i = 0
    for g in groups:
        if g.weight:
            g.verify(sim, pieces[i:i + g.n])
            i += g.n
    sim.check(i == len(pieces), 'not-conserved', '%d pieces instead of %d', len(pieces), i)
    i = 0
    weights = [g.weight for g in groups if g.weight for _ in range(g.n)]
    for b in blocks:
        sim.check(len(b) > 0, 'bad-block', 'an empty block')
        w = sum(weights[i:i + len(b)])
        i += len(b)
        sim.check(b.weight == w, 'bad-block', 'block of weight %s instead of %s', b.weight, w)
        sim.check(w <= limit or len(b) == 1, 'bad-block', 'block of %d items and weight %s, '
                  'limit %s', len(b), w, limit)


LIMITS = [1000, 100, 10, 3, 30.5, 300., 1, 5000]


def c19(sim):
    sim.line_budget = 3000000
    k = sim.draw(6)
    if k == 1:
        return splitter(sim)
    general, source, parallel = boot(sim)
    sides = [Side(sim, source, i, False) for i in range(1 + sim.draw(3))]
    k = sim.draw(4)
    if k == 0:
        schedule(sim, sides)
    elif k == 1:
        threads(sim, sides)
    else:
        pooled(sim, sides, parallel, general)
    sim.seen(k, tuple((len(s.blocks), len(s.groups), s.dropped) for s in sides
                      if hasattr(s, 'blocks')))


def schedule(sim, sides):
    """Streams that are paused, interleaved, abandoned, restarted"""
    alive = list(sides)
    steps = 0
    while alive and steps < 400:
        steps += 1
        s = alive[sim.draw(len(alive))]
        if s.stream is None:
            if not s.sources:
                alive.remove(s)
                continue
            s.start(LIMITS)
            continue
        if sim.draw(12) == 1:
            sim.fault('abandoned')
            drop = sim.draw(2)
            if drop and hasattr(s.stream, 'close'):
                s.stream.close()
            s.left('after an abandoned stream')
            continue
        burst = sim.pick(1, 2, 100)
        more = True
        while burst and more:
            more = s.advance()
            burst -= 1
        if not more and sim.draw(3):
            alive.remove(s)
        if len(sides) > 1:
            sim.nontrivial = True
    for s in sides:
        if s.stream is not None:
            while s.advance():
                pass


def threads(sim, sides):
    """Each collector is consumed by a thread of its own"""
    th = core.Threads(sim, mean=sim.pick(40, 15, 100))

    def consume(s):
        s.start(LIMITS)
        s.fail_at = s.fail_how = s.victim = None
        while s.advance():
            pass
    for s in sides:
        th.spawn('consumer%d' % s.serial, consume, s)
    th.run()
    for t in th.threads:
        if not t.ok:
            sim.fail('no-blocks', '%s raised %s' % (t.name, core.exc_text(t.value)))


# ---- the pool

def work(block, serial):
    """The task: what a calculator sees of a block"""
    sim = core.current()
    sim.log('task', serial, len(block))
    if sim.state.get('task_fails') == (serial, block[0].source_id):
        raise ValueError('task failed')
    return [(serial, block.weight, list(block))]


def pooled(sim, sides, parallel, general):
    if sim.draw(3) == 1:
        import os
        os.environ['OQ_NO_DISTRIBUTE'] = '1'
    for s in sides:
        s.start(LIMITS)
        s.fail_at = s.fail_how = s.victim = None
    order = []

    def args():
        # the blocks of all collectors, in an order the tape decides
        alive = list(sides)
        while alive:
            s = alive[sim.draw(len(alive))] if sim.draw(2) else alive[0]
            if s.advance():
                order.append(s.serial)
                yield s.blocks[-1], s.serial
            else:
                alive.remove(s)

    def agg(acc, val):
        return acc + val
    res = sim.must('pool-failed', parallel.map_reduce, work, args(), agg, [])
    for s in sides:
        # blocks come back in any order: put them in the order of their first item
        mine = [(w, items) for serial, w, items in res if serial == s.serial]
        sim.check(len(mine) == len(s.blocks), 'not-conserved', '%d blocks processed instead of %d',
                  len(mine), len(s.blocks))
        ids = [[p.source_id for p in b] for b in s.blocks]
        left = list(mine)
        blocks = []
        for want in ids:
            for j, (w, items) in enumerate(left):
                if [p.source_id for p in items] == want:
                    blocks.append(general.WeightedSequence([(p, 0) for p in items]))
                    blocks[-1].weight = w
                    del left[j]
                    break
            else:
                sim.fail('not-conserved', 'block %s was not processed' % core.text(want))
        verify_blocks(sim, blocks, s.groups, s.limit)
    if sim.draw(2):
        for s in sides:
            merging(sim, general, s.blocks)
    if len(order) > 1:
        sim.nontrivial = True


def merging(sim, general, blocks):
    """Consecutive blocks merged in any grouping"""
    before = [(b.weight, list(b)) for b in blocks]
    parts = [(b, i, i + 1) for i, b in enumerate(blocks)]
    made = []
    whole = False
    while not whole:
        lo = sim.draw(len(parts)) if parts and sim.draw(2) else 0
        hi = lo + 1 + sim.draw(len(parts) - lo) if parts and sim.draw(3) else len(parts)
        group = parts[lo:hi]
        whole = len(group) == len(parts)
        if len(group) == 2 and sim.draw(2):
            m = sim.must('merge-failed', lambda: group[0][0] + group[1][0])
        else:
            ws = [g[0] for g in group]
            m = sim.must('merge-failed', general.WeightedSequence.merge,
                         tuple(ws) if sim.draw(2) else iter(ws))
        i, j = (group[0][1], group[-1][2]) if group else (0, 0)
        want = [p for _w, items in before[i:j] for p in items]
        made.append((m, sum(w for w, _items in before[i:j]), want))
        if group:
            parts[lo:hi] = [(m, i, j)]
    for m, weight, want in made + [(b, w, items) for b, (w, items) in zip(blocks, before)]:
        sim.check(len(m) == len(want) and all(x is y for x, y in zip(m, want)),
                  'not-conserved', 'merged blocks hold %s instead of %s', list(m), want)
        sim.check(close(m.weight, weight), 'bad-block', 'weight %s instead of %s after merging',
                  m.weight, weight)
    if sim.draw(2) and len(group) > 1:
        # what is added to a merged sequence does not leak into its parts
        made[-1][0].append(('more', 3))
        for m, weight, want in made[:-1] + [(b, w, i) for b, (w, i) in zip(blocks, before)]:
            sim.check(len(m) == len(want) and close(m.weight, weight), 'bad-block',
                      'a block changed when what it was merged into grew')
        m, weight, want = made[-1]
        sim.check(len(m) == len(want) + 1 and close(m.weight, weight + 3) and m[-1] == 'more',
                  'bad-block', 'a merged sequence of %d items and weight %s after an append of '
                  'weight 3 to %d of weight %s', len(m), m.weight, len(want), weight)
        del m[len(m) - 1]


# ---- block_splitter itself

class Thing(object):
    def __init__(self, n, weight, kind):
        self.n, self.weight, self.kind = n, weight, kind

    def __hash__(self):
        return self.n

    def __repr__(self):
        return '%d:%s%s' % (self.n, self.kind, self.weight)


def splitter(sim):
    general = env.boot('general')
    streams = []
    for i in range(1 + sim.draw(3)):
        streams.append(Splitting(sim, general, i))
    alive = list(streams)
    last = None
    while alive:
        s = alive[sim.draw(len(alive))]
        if last is not None and last is not s:
            sim.nontrivial = True
        last = s
        if not s.advance():
            alive.remove(s)
    if sim.draw(2):
        for s in streams:
            merging(sim, general, s.blocks)
    sim.seen('splitter', tuple((len(s.items), tuple(len(b) for b in s.blocks)) for s in streams))


class Splitting(object):
    def __init__(self, sim, general, serial):
        self.sim = sim
        n = sim.draw(14)
        weights = sim.pick((1,), (1, 2, 3, 0), (0, 5, 1), (0.5, 0.25, 0, 1.25, 3.0))
        kinds = sim.pick(('Unspecified',), ('A', 'B'), ('A', 'Unspecified'), (None, 'A', 0))
        self.items = [Thing(i, weights[sim.draw(len(weights))], kinds[sim.draw(len(kinds))])
                      for i in range(n)]
        self.kinds = len(kinds) > 1
        self.plain = weights == (1,) and sim.draw(2)
        self.bad = None
        if n and sim.draw(5) == 1:
            self.bad = sim.draw(n)
            self.how = sim.pick('negative', 'stream', 'weight')
            if self.how == 'negative':
                self.items[self.bad].weight = -1
            self.plain = self.plain and self.how == 'stream'
        self.limit = sim.pick(3, 1, 7, 2.5, 100)
        kw = {}
        if not self.plain:
            kw['weight'] = self.weight
        if self.kinds:
            kw['kind'] = lambda t: t.kind
        total = sum(t.weight for t in self.items)
        sim.log('splitter', serial, self.items, self.limit, self.bad)
        if self.bad is None and total > 0 and sim.draw(4) == 1:
            hint = 1 + sim.draw(5)
            import math
            self.limit = math.ceil(total / float(hint))
            self.gen = iter(sim.must('no-blocks', lambda: general.split_in_blocks(
                list(self.items), hint, **kw)))
        else:
            self.gen = iter(sim.must('no-blocks', lambda: general.block_splitter(
                self.source(), self.limit, **kw)))
        self.blocks = []

    def weight(self, t):
        if self.bad is not None and self.how == 'weight' and t is self.items[self.bad]:
            self.sim.fault('weight-fails')
            raise FilterError(t.n)
        return t.weight

    def source(self):
        for t in self.items:
            if self.bad is not None and self.how == 'stream' and t.n == self.bad:
                self.sim.fault('items-fail')
                raise FilterError(t.n)
            yield t

    def advance(self):
        sim = self.sim
        ok, b = sim.attempt(next, self.gen)
        if ok:
            self.blocks.append(b)
            return True
        want = [t for t in self.items if t.weight > 0]
        got = [t for x in self.blocks for t in x]
        if self.bad is not None:
            sim.check(not isinstance(b, StopIteration), 'swallowed', 'a failure was swallowed')
            exc = ValueError if self.how == 'negative' else FilterError
            sim.check(isinstance(b, exc), 'wrong-exception', '%s', core.exc_text(b))
            want = want[:len(got)]
        elif not isinstance(b, StopIteration):
            sim.fail('no-blocks', 'block_splitter raised %s' % core.exc_text(b))
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
            sim.fail('not-conserved', 'items %s instead of %s' % (core.text(got), core.text(want)))
        self.verify()
        return False

    def verify(self):
        sim = self.sim
        prev = None
        for x in self.blocks:
            items = list(x)
            sim.check(items, 'bad-block', 'an empty block')
            w = sum(t.weight for t in items)
            sim.check(abs(x.weight - w) < 1e-9, 'bad-block', 'weight %s instead of %s', x.weight,
                      w)
            sim.check(w <= self.limit or len(items) == 1, 'bad-block',
                      'block %s is heavier than %s', items, self.limit)
            if self.kinds:
                sim.check(all(t.kind == items[0].kind for t in items), 'bad-block',
                          'block %s is of several kinds', items)
            if prev is not None and not (self.kinds and prev[-1].kind != items[0].kind):
                sim.check(sum(t.weight for t in prev) + items[0].weight > self.limit, 'bad-block',
                          'blocks %s and %s: the first was ended too early (limit %s)', prev,
                          items, self.limit)
            prev = items


# ------------------------------------------------------------------ C20

def c20(sim):
    sim.line_budget = 2000000
    general, source, parallel = boot(sim)
    sides = [Side(sim, source, i, True) for i in range(1 + sim.draw(3))]
    for s in sides:
        s.check('at the beginning')
    serial = [len(sides)]
    for step in range(3 + sim.draw(25)):
        s = sides[sim.draw(len(sides))]
        op = sim.draw(10)
        if op in (0, 1, 2, 3):
            if s.stream is None:
                if s.sources:
                    s.start(LIMITS)
            else:
                n = sim.pick(1, 2, 100)
                while n and s.advance():
                    n -= 1
                if len(sides) > 1:
                    sim.nontrivial = True
        elif op == 4 and s.stream is not None:
            sim.fault('abandoned')
            if sim.draw(2) and hasattr(s.stream, 'close'):
                s.stream.close()
            s.left('after an abandoned stream')
        elif op == 5 and s.stream is None:
            src = s.make()
            sim.must('update-failed', s.sc.update, src)
            s.sources.append(src)
            s.snapshot.append(describe(src))
            s.mags.append(src.mfd.get_min_max_mag())
            sim.log('update', s.serial, src.source_id)
        elif op == 6 and s.stream is None:
            # a source of another region
            src = s.make()
            src.tectonic_region_type = 'Nowhere'
            ok, exc = sim.attempt(s.sc.update, src)
            sim.check(not ok and isinstance(exc, AssertionError), 'wrong-region-accepted',
                      'a source of another region')
            sim.log('refused', s.serial)
            sim.nontrivial = True
        elif op == 7:
            filtering(sim, s, source)
        elif op == 8 and s.stream is None:
            src = s.make()
            w = sim.must('count-failed', s.sc.update_num_ruptures, src)
            sim.check(w == src.count_ruptures(), 'wrong-count', 'weight %s', w)
            s.base += w
            sim.log('count', s.serial, w)
        elif op == 9:
            ordering(sim, sides)
        if s.stream is None:
            s.check('after step %d' % step)
        for x in sides:
            if x is not s and x.stream is None:
                x.check('after a step of another collector')
    for s in sides:
        while s.stream is not None and s.advance():
            pass
        s.check('in the end')
        if hasattr(s, 'shared'):
            same_list(sim, s.shared, s.given, 'the list given to the constructor')
    if sim.draw(3) == 1:
        whole_model(sim, source)
    sim.seen(tuple((s.base, len(s.sources), s.count) for s in sides))


def filtering(sim, s, source):
    srcs = list(s.sc.sources)
    kept = [x for x in srcs if sim.draw(3)]
    fails = sim.draw(len(srcs) + 1) if sim.draw(5) == 1 else None
    n = [0]

    def src_filter(src):
        if fails is not None and n[0] == fails:
            sim.fault('filter-fails')
            raise FilterError(src.source_id)
        n[0] += 1
        return ['site'] if any(src is x for x in kept) else None
    ok, new = sim.attempt(s.sc.filter_sources, src_filter)
    if fails is not None and fails < len(srcs):
        sim.check(not ok and isinstance(new, FilterError), 'swallowed', 'the filter failed, '
                  'filter_sources returned')
        same_list(sim, s.sc.sources, srcs, 'the sources of the collector after a failure')
        return
    if not ok:
        sim.fail('filter-failed', 'filter_sources raised %s' % core.exc_text(new))
    same_list(sim, s.sc.sources, srcs, 'the sources of the filtered collector')
    sim.check(new is not s.sc and isinstance(new, source.SourceCollector), 'wrong-filtering',
              'not a new collector')
    sim.check(new.trt == s.trt, 'wrong-filtering', 'region %s', new.trt)
    same_list(sim, new.sources, kept, 'the filtered sources')
    mags = [x.mfd.get_min_max_mag() for x in kept]
    lo = min(m for m, _ in mags) if mags else None
    hi = max(m for _, m in mags) if mags else None
    sim.check((new.min_mag, new.max_mag) == (lo, hi), 'wrong-magnitudes',
              '%s, %s of the filtered sources instead of %s, %s', new.min_mag, new.max_mag, lo, hi)
    sim.check(new.num_ruptures == 0, 'wrong-count', 'a new collector has %s ruptures',
              new.num_ruptures)
    if sim.draw(3) == 1:
        # the new one and the old one are independent
        new.update(s.make())
        if kept:
            list(new.gen_blocks(lambda x: 1, 100., 10.0))
    sim.log('filter', s.serial, len(kept))


def ordering(sim, sides):
    for a in sides:
        for b in sides:
            want = (len(a.sc.sources), a.trt) < (len(b.sc.sources), b.trt)
            sim.check((a.sc < b.sc) == want, 'wrong-order', '%r < %r is not %s', a.sc, b.sc, want)
    got = sorted(sim.shuffled([s.sc for s in sides]))
    keys = [(len(x.sources), x.trt) for x in got]
    sim.check(keys == sorted(keys), 'wrong-order', 'sorted as %s', keys)


def whole_model(sim, source):
    """Collectors made by parse_source_model"""
    specs = [srcgen.Spec(sim, 'm%d' % i) for i in range(sim.draw(8))]
    sim.fs.put('/sim/job/model.xml', srcgen.model_xml(specs))
    conv = source.NrmlHazardlibConverter(50., 1.0, 0.5, 10.0)
    res = sim.must('parse-failed', source.parse_source_model, '/sim/job/model.xml', conv)
    want = {}
    for sp in specs:
        want.setdefault(sp.trt, []).append(sp)
    expected = sorted((len(v), t) for t, v in want.items())
    sim.same([(len(c.sources), c.trt) for c in res], expected, 'wrong-order',
             'collectors of a source model')
    for c in res:
        sim.same([s.source_id for s in c.sources], [sp.id for sp in want[c.trt]],
                 'wrong-sources', 'sources of %s' % c.trt)
        mags = [sp.build_mfd(0.5).get_min_max_mag() for sp in want[c.trt]]
        sim.same((c.min_mag, c.max_mag), (min(m for m, _ in mags), max(m for _, m in mags)),
                 'wrong-magnitudes', 'magnitudes of %s' % c.trt)
        sim.check(c.num_ruptures == 0, 'wrong-count', 'ruptures before any block')


WORKLOADS = dict(C19=c19, C20=c20)
