# Workloads over openquake.commonlib.logictree: sampling under adversarial
# random numbers, reproducibility of realizations under interleavings and
# disturbances, uncertainties applied while source models stream in.
import os
import random
from decimal import Decimal
from fractions import Fraction
import core
import env
import srcgen
import treegen
from srcgen import describe, difference

JOB = '/sim/job'
ALMOST = 1. - 2. ** -53


class Scripted(object):
    """A random object: a source of numbers chosen by the tape"""
    def __init__(self, numbers):
        self.numbers = list(numbers)
        self.used = 0

    def random(self):
        self.used += 1
        if self.used > len(self.numbers):
            core.current().fail('too-many-draws', 'draw %d of %d' % (
                self.used, len(self.numbers)))
        return self.numbers[self.used - 1]


def below(x):
    """The float before x"""
    if x <= 0:
        return 0.0
    from java.lang import Math
    return float(Math.nextDown(x))


def number(sim, weights):
    """A random number in [0, 1), often at or next to a border of the weights"""
    k = sim.draw(8)
    if k == 0:
        return 0.0
    if k == 1:
        return ALMOST
    if k == 2:
        return sim.draw(1000) / 1000.
    if k == 3:
        return below(sim.draw(1000) / 1000.)
    acc = Fraction(0)
    sums = []
    for w in weights:
        acc += w
        sums.append(float(acc))
    x = sums[sim.draw(len(sums))] if sums else 0.5
    if k == 4:
        x = below(x)
    elif k == 5:
        from java.lang import Math
        x = float(Math.nextUp(x))
    return min(max(x, 0.0), ALMOST)


class Weighted(object):
    def __init__(self, name, weight):
        self.name, self.weight = name, weight

    def __repr__(self):
        return '%s:%s' % (self.name, self.weight)


FLOATS = ((1.0,), (0.5, 0.5), (0.25, 0.0, 0.75), (0.0, 1.0), (0.125, 0.375, 0.5, 0.0),
          (0.0, 0.0, 0.5, 0.0, 0.5), (1, 0), (0, 1))


def c16(sim):
    k = sim.draw(3)
    if k == 0:
        sampling(sim)
    else:
        paths(sim)


def sampling(sim):
    lt = env.boot('logictree')
    lists = []
    for _ in range(1 + sim.draw(3)):
        given = []
        fill(sim, given)
        lists.append(given)
    for _ in range(1 + sim.draw(4)):
        objects = lists[sim.draw(len(lists))]
        if sim.draw(3) == 1:
            # the same list with other objects
            fill(sim, objects)
        elif sim.draw(6) == 1 and len(objects) > 1:
            objects.reverse()
        one_sample(sim, lt, objects)


def fill(sim, objects):
    if sim.draw(2):
        ws = [Decimal(w) for w in sim.shuffled(treegen.WEIGHTS[sim.draw(len(treegen.WEIGHTS))])]
    else:
        ws = sim.shuffled(FLOATS[sim.draw(len(FLOATS))])
    objects[:] = [Weighted('o%d' % i, w) for i, w in enumerate(ws)]


def one_sample(sim, lt, objects):
    exact = [Fraction(str(o.weight)) for o in objects]
    given = tuple(objects) if sim.draw(3) == 1 else objects
    n = sim.draw(12)
    numbers = [number(sim, exact) for _ in range(n)]
    rnd = Scripted(numbers)
    sim.log('sample', objects, n, map(repr, numbers))
    before = list(objects)
    got = sim.must('sample-failed', lt.sample, given, n, rnd)
    want = [treegen.slot(before, exact, x) for x in numbers]
    sim.check(len(got) == n, 'wrong-sample', '%d objects instead of %d', len(got), n)
    for i, (a, b) in enumerate(zip(got, want)):
        sim.check(a is b, 'wrong-sample', 'number %r gives %s instead of %s', numbers[i],
                  core.text(a), core.text(b))
    sim.check(rnd.used == n, 'wrong-draws', '%d draws for %d objects', rnd.used, n)
    sim.check(objects == before, 'wrong-sample', 'the given objects have changed')
    sim.count('draws', n)
    if any(x in (0.0, ALMOST) or Fraction(*x.as_integer_ratio()) in borders(exact)
           for x in numbers):
        sim.nontrivial = True
        sim.probe('border')
    sim.seen('sample', tuple(str(o.weight) for o in objects), tuple(o.name for o in want))


def borders(exact):
    acc = Fraction(0)
    out = set()
    for w in exact:
        acc += w
        out.add(acc)
    return out


def draw_tree(sim, depth=None):
    """(kind, tree, function that loads it)"""
    if sim.draw(4) == 1:
        trts = sim.shuffled(srcgen.TRTS)[:1 + sim.draw(3)]
        return 'gmpe', treegen.gmpe_tree(sim, trts), trts
    models = sim.shuffled(['m1.xml', 'm2.xml', 'm3.nrml', 'sub/m4.xml', 'm5', '7'])[
        :1 + sim.draw(3)]
    specs = [srcgen.Spec(sim, str(i + 1)) for i in range(sim.draw(3))]
    return 'source', treegen.source_tree(
        sim, models, sim.draw(4) if depth is None else depth, specs=specs,
        nested=sim.draw(3) == 1), models


def load_tree(sim, lt, kind, tree, arg, **kw):
    kw.setdefault('validate', False)
    if kind == 'gmpe':
        return sim.must('load-failed', lambda: lt.GMPELogicTree(
            arg, tree.xml(), JOB, 'lt.xml', **kw))
    return sim.must('load-failed', lambda: lt.SourceModelLogicTree(
        tree.xml(), JOB, 'lt.xml', **kw))


def name_of(value):
    return value.__name__ if isinstance(value, type) else value


def paths(sim):
    sim.line_budget = 3000000
    lt = env.boot('logictree')
    kind, tree, arg = draw_tree(sim)
    t = load_tree(sim, lt, kind, tree, arg)
    for _ in range(1 + sim.draw(6)):
        numbers = []
        bs = tree.root
        want = []
        while bs is not None:
            ws = [b.exact() for b in bs.branches]
            x = number(sim, ws)
            numbers.append(x)
            b = treegen.slot(bs.branches, ws, x)
            want.append(b)
            bs = b.child
        rnd = Scripted(numbers)
        got = sim.must('sample-failed', t.sample_path, rnd)
        name, ids = got
        sim.log('path', map(repr, numbers), ids)
        sim.same(list(ids), [b.id for b in want], 'wrong-path', 'numbers %s' % numbers)
        sim.same(name_of(name), want[0].value, 'wrong-name', 'path %s' % ids)
        sim.check(rnd.used == len(want), 'wrong-draws', '%d draws for %d branches', rnd.used,
                  len(want))
        sim.count('draws', rnd.used)
        if len(want) > 1:
            sim.nontrivial = True
        sim.seen('path', tuple(ids))


# ------------------------------------------------------------------ C17

class Watched(object):
    """A logic tree, and what its realizations turned out to be"""
    def __init__(self, sim, lt, serial):
        self.sim, self.serial = sim, serial
        self.lt = lt
        k = sim.draw(6)
        self.kw = {}
        if k == 1:
            self.kind = 'gsim'
            self.gsim_tree()
        else:
            self.kind, self.tree, self.arg = draw_tree(sim, 1 + sim.draw(2))
            self.samples = sim.pick(3, 0, 1, 8, 20)
            self.seed = sim.pick(42, 0, 1, -7, 2 ** 31 - 1, 123456789)
            self.kw = dict(seed=self.seed, num_samples=self.samples)
        self.obj = self.load(lt)
        self.reference = None
        self.reference = [self.flat(x) for x in sim.must('iteration-failed', list, self.obj)]
        self.judge()
        sim.log('tree', serial, self.kind, self.kw.get('num_samples'), self.kw.get('seed'),
                self.reference[:3])

    def gsim_tree(self):
        sim = self.sim
        trts = sim.shuffled(srcgen.TRTS)[:1 + sim.draw(3)]
        self.tree = treegen.gmpe_tree(sim, trts)
        self.arg = sim.shuffled(trts)[:1 + sim.draw(len(trts))]
        self.fname = '%s/gsim%d.xml' % (JOB, self.serial)
        sim.fs.put(self.fname, self.tree.xml())
        self.samples = 0

    def load(self, lt):
        if self.kind == 'gsim':
            return self.sim.must('load-failed', lambda: lt.GsimLogicTree(
                self.fname, 'applyToTectonicRegionType', list(self.arg)))
        if self.sim.draw(4) == 1:
            # as the engine does it
            fname = '%s/tree%d.xml' % (JOB, self.serial)
            self.sim.fs.put(fname, self.tree.xml())
            hc = Calculation(fname, self.kind, self.seed, self.samples)
            if self.kind == 'gmpe':
                return self.sim.must('load-failed', lambda: lt.GMPELogicTree.from_hc(hc, self.arg))
            return self.sim.must('load-failed', lambda: lt.SourceModelLogicTree.from_hc(hc))
        return load_tree(self.sim, lt, self.kind, self.tree, self.arg, **self.kw)

    def flat(self, x):
        """A realization as plain data"""
        sim = self.sim
        ok, res = sim.attempt(lambda: (x.value, x.weight, x.lt_path))
        if not ok:
            sim.fail('not-a-realization', '%s has no value, weight and lt_path' % core.text(x))
        value, weight, path = res
        if isinstance(value, dict):
            value = tuple(sorted((k, name_of(v)) for k, v in value.items()))
        return name_of(value), weight, tuple(path)

    def judge(self):
        """The reference itself"""
        sim = self.sim
        got = self.reference
        if self.kind == 'gsim':
            sets = [lv[0] for lv in self.tree.levels
                    if lv[0].filters['applyToTectonicRegionType'] in self.arg]
            want = [((), Fraction(1), ())]
            for bs in sets:
                trt = bs.filters['applyToTectonicRegionType']
                want = [(v + ((trt, b.value),), w * b.exact(), p + (b.id,))
                        for v, w, p in want for b in bs.branches]
            want = sorted((tuple(sorted(v)), w, tuple(sorted(p))) for v, w, p in want)
            have = sorted((v, Fraction(str(w)), tuple(sorted(p))) for v, w, p in got)
            sim.check(have == want, 'wrong-realizations', 'GSIM realizations %s instead of %s',
                      core.text(have, 200), core.text(want, 200))
            sim.check(self.obj.get_num_paths() == len(want), 'wrong-realizations',
                      'get_num_paths() is %s instead of %s', self.obj.get_num_paths(), len(want))
            return
        all_paths = {}
        for w, p in self.tree.root.paths():
            all_paths[tuple(b.id for _bs, b in p)] = (p[0][1].value, w, p)
        if self.samples:
            sim.check(len(got) == self.samples, 'wrong-realizations', '%d instead of %d',
                      len(got), self.samples)
            for value, weight, path in got:
                sim.check(path in all_paths and value == all_paths[path][0],
                          'wrong-realizations', 'model %s, path %s', value, path)
                sim.check(weight is None, 'wrong-realizations', 'weight %s of a sample', weight)
                sim.check(all_paths[path][1] > 0, 'wrong-realizations',
                          'path %s has weight zero', path)
        else:
            sim.check(len(got) == len(all_paths) and len(set(p for _v, _w, p in got)) == len(got),
                      'wrong-realizations', '%d paths instead of %d', len(got), len(all_paths))
            for value, weight, path in got:
                sim.check(path in all_paths and value == all_paths[path][0] and
                          Fraction(str(weight)) == Fraction(str(all_paths[path][1])),
                          'wrong-realizations', '%s, %s, %s', value, weight, path)


class Calculation(object):
    def __init__(self, fname, kind, seed, samples):
        self.inputs = {'source_model_logic_tree': fname, 'gsim_logic_tree': fname}
        self.base_path = JOB
        self.random_seed = seed
        self.number_of_logic_tree_samples = samples


def c17(sim):
    sim.line_budget = 4000000
    lt = env.boot('logictree')
    trees = [Watched(sim, lt, i) for i in range(1 + sim.draw(3))]
    if sim.draw(5) == 1:
        threads(sim, trees)
    running = []     # [watched, iterator, position]
    for step in range(4 + sim.draw(40)):
        op = sim.draw(12)
        if op in (0, 1) or not running:
            w = trees[sim.draw(len(trees))]
            running.append([w, iter(w.obj), 0])
            sim.log('iterate', w.serial)
        elif op <= 6:
            r = running[sim.draw(len(running))]
            if len(running) > 1:
                sim.nontrivial = True
            for _ in range(sim.pick(1, 2, 50)):
                if not advance(sim, r):
                    running.remove(r)
                    break
        elif op == 7:
            sim.fault('abandoned')
            r = running.pop(sim.draw(len(running)))
            if sim.draw(2) and hasattr(r[1], 'close'):
                r[1].close()
        elif op == 8:
            sim.fault('reseed')
            random.seed(sim.pick(42, 0, None, 17))
        elif op == 9:
            sim.fault('global-draws')
            for _ in range(1 + sim.draw(3)):
                random.random()
        elif op == 10:
            # another process loads the same tree
            sim.fault('new-process')
            w = trees[sim.draw(len(trees))]
            sim.state['pid'] = 4300 + step
            sim.advance(sim.draw(5000))
            sim.hash_mult = sim.pick(1, 7919, 40503)
            lt2 = env.boot('logictree')
            w.obj = w.load(lt2)
            got = [w.flat(x) for x in sim.must('iteration-failed', list, w.obj)]
            compare(sim, w, got, w.reference, 'in another process')
        else:
            # the same tree loaded again in this process, or the other one
            w = trees[sim.draw(len(trees))]
            got = [w.flat(x) for x in sim.must('iteration-failed', list, w.load(w.lt))]
            compare(sim, w, got, w.reference, 'loaded again')
    for r in running:
        while advance(sim, r):
            pass
    sim.seen(tuple((w.kind, w.kw.get('num_samples'), tuple(p for _v, _w, p in w.reference[:8]))
                   for w in trees))


def advance(sim, r):
    w, it, pos = r
    ok, x = sim.attempt(next, it)
    if not ok:
        if not isinstance(x, StopIteration):
            sim.fail('iteration-failed', 'iterating raised %s' % core.exc_text(x))
        compare(sim, w, w.reference[:pos], w.reference, 'at the end')
        return False
    compare(sim, w, [w.flat(x)], w.reference[pos:pos + 1], 'at position %d' % pos)
    r[2] += 1
    return True


def compare(sim, w, got, want, when):
    if got != want:
        sim.fail('not-reproducible', 'tree %d (%s) %s: %s instead of %s' % (
            w.serial, w.kind, when, core.text(got, 200), core.text(want, 200)))


def threads(sim, trees):
    th = core.Threads(sim, mean=sim.pick(20, 8, 60))

    def iterate(w):
        return [w.flat(x) for x in w.obj]
    who = []
    for i in range(2 + sim.draw(2)):
        w = trees[sim.draw(len(trees))]
        who.append(w)
        th.spawn('iter%d' % i, iterate, w)
    th.run()
    for w, t in zip(who, th.threads):
        if not t.ok:
            sim.fail('iteration-failed', core.exc_text(t.value))
        compare(sim, w, t.value, w.reference, 'in a thread')


# ------------------------------------------------------------------ C18

def modified(spec, path, bin_width):
    """The attributes of the distribution of a source after the uncertainties of a path"""
    if not spec.gr:
        return None
    a, b, max_mag = spec.a, spec.b, spec.max_mag
    for bs, br in path:
        if bs.type == 'sourceModel' or not treegen.passes(bs.filters, spec):
            continue
        if bs.type == 'bGRRelative':
            b += br.value
        elif bs.type == 'maxMagGRRelative':
            max_mag += br.value
        elif bs.type == 'maxMagGRAbsolute':
            max_mag = br.value
        elif bs.type == 'abGRAbsolute':
            a, b = br.value
    return dict(a_val=a, b_val=b, min_mag=spec.min_mag, max_mag=max_mag, bin_width=bin_width)


BIN = 0.5


def verify(sim, src, spec, path, what):
    want = describe(spec.build(bin_width=BIN, discr=10.0, tom=TOM[0]), ('mfd',))
    bad = difference(describe(src, ('mfd',)), want)
    sim.check(not bad, 'source-changed', '%s, source %s: %s', what, spec.id, bad)
    gr = modified(spec, path, BIN)
    if gr is None:
        sim.check(srcgen.desc(src.mfd) == srcgen.desc(spec.build_mfd(BIN)), 'source-changed',
                  '%s: the distribution of %s, not Gutenberg-Richter', what, spec.id)
        return
    for k in gr:
        v = getattr(src.mfd, k)
        sim.check(abs(v - gr[k]) < 1e-9, 'wrong-uncertainty', '%s, source %s: %s is %s instead '
                  'of %s (path %s)', what, spec.id, k, v, gr[k], [b.id for _bs, b in path])


TOM = [None]


def c18(sim):
    sim.line_budget = 4000000
    lt, source = env.boot('logictree', 'source')
    from openquake.hazardlib.tom import PoissonTOM
    TOM[0] = PoissonTOM(50.)
    nmodels = 1 + sim.draw(3)
    models = {}
    every = []
    ids = ['1', '11', '2', '12', 'a', 'aa', '1-1', 'A', '21', '111', 'b', 'ab']
    for i in range(nmodels):
        mine = sim.shuffled(ids)[:1 + sim.draw(5)] if sim.draw(3) else ids[:1 + sim.draw(4)]
        specs = [srcgen.Spec(sim, x, gr=sim.draw(3) != 1) for x in mine]
        models['model%d.xml' % i] = specs
        every.extend(specs)
        sim.fs.put('%s/model%d.xml' % (JOB, i), srcgen.model_xml(specs))
    validate = sim.draw(2) == 0
    names = sorted(models)
    if len(names) > 1 and sim.draw(3) == 1:
        # the same file on several branches
        names = names[:1]
    used = [sp for n in names for sp in models[n]]
    # at most one branch set of the root per file, so all the files are used
    tree = treegen.source_tree(sim, names, sim.draw(4), single_filter=validate, specs=used,
                               maxpaths=60)
    nroot = len(tree.root.branches)
    if nroot < len(names):
        validate = False
    t = load_tree(sim, lt, 'source', tree, names, validate=validate)
    conv = source.NrmlHazardlibConverter(50., 1.0, BIN, 10.0)
    rlzs = list(t)
    paths_ = dict((tuple(b.id for _bs, b in p), p) for _w, p in tree.root.paths())
    jobs = []
    for _ in range(1 + sim.draw(5)):
        r = rlzs[sim.draw(len(rlzs))]
        jobs.append((r, paths_[tuple(r.lt_path)]))
    sim.log('tree', validate, [r.lt_path for r, _p in jobs])
    k = sim.draw(4)
    if k == 0:
        for r, p in jobs:
            whole(sim, source, conv, t, models, r, p)
    elif k == 1:
        interleaved(sim, source, conv, t, models, jobs)
    elif k == 2:
        streamed(sim, source, conv, t, models, jobs)
    else:
        th = core.Threads(sim, mean=sim.pick(60, 20, 200))
        for i, (r, p) in enumerate(jobs):
            th.spawn('rlz%d' % i, whole, sim, source, conv, t, models, r, p)
        th.run()
        for x in th.threads:
            if not x.ok:
                sim.fail('apply-failed', '%s raised %s' % (x.name, core.exc_text(x.value)))
    if len(jobs) > 1:
        sim.nontrivial = True
    sim.seen(k, tuple(r.lt_path for r, _p in jobs))


def whole(sim, source, conv, t, models, r, path):
    """Read the source model of a realization with its uncertainties"""
    func = sim.must('apply-failed', t.make_apply_uncertainties,
                    r.lt_path if sim.draw(2) else list(r.lt_path))
    for again in range(1 + sim.draw(2)):
        res = sim.must('apply-failed', source.parse_source_model, '%s/%s' % (JOB, r.value), conv,
                       func)
        got = dict((s.source_id, (s, c)) for c in res for s in c.sources)
        specs = models[r.value]
        sim.same(sorted(got), sorted(sp.id for sp in specs), 'wrong-sources',
                 'sources of %s' % r.value)
        for sp in specs:
            verify(sim, got[sp.id][0], sp, path, 'realization %s' % '~'.join(r.lt_path))
        for c in res:
            mags = [s.mfd.get_min_max_mag() for s in c.sources]
            sim.same((c.min_mag, c.max_mag), (min(m for m, _ in mags), max(m for _, m in mags)),
                     'wrong-uncertainty', 'magnitudes of the collector %s' % c.trt)


def fresh(models, r):
    return [(sp, sp.build(bin_width=BIN, discr=10.0, tom=TOM[0])) for sp in models[r.value]]


def interleaved(sim, source, conv, t, models, jobs):
    """Several realizations, one source of one of them at a time"""
    funcs = [sim.must('apply-failed', t.make_apply_uncertainties, r.lt_path) for r, _p in jobs]
    streams = [fresh(models, r) for r, _p in jobs]
    order = [i for i, s in enumerate(streams) for _ in s]
    pos = [0] * len(jobs)
    for i in sim.shuffled(order):
        spec, src = streams[i][pos[i]]
        pos[i] += 1
        sim.must('apply-failed', funcs[i], src)
    for (r, p), srcs in zip(jobs, streams):
        for spec, src in srcs:
            verify(sim, src, spec, p, 'realization %s' % '~'.join(r.lt_path))


def streamed(sim, source, conv, t, models, jobs):
    """The sources are applied the uncertainties as they come out of the parser"""
    from openquake.nrmllib.hazard import parsers
    its = []
    for r, p in jobs:
        func = sim.must('apply-failed', t.make_apply_uncertainties, r.lt_path)
        its.append([r, p, func, parsers.SourceModelParser('%s/%s' % (JOB, r.value)).parse(), []])
    alive = list(its)
    while alive:
        x = alive[sim.draw(len(alive))]
        r, p, func, it, done = x
        try:
            nrml = next(it)
        except StopIteration:
            alive.remove(x)
            continue
        src = sim.must('apply-failed', conv, nrml)
        sim.must('apply-failed', func, src)
        done.append(src)
        if sim.draw(4) == 1:
            # the function of the realization is made anew: nothing changes
            x[2] = sim.must('apply-failed', t.make_apply_uncertainties, list(r.lt_path))
    for r, p, func, it, done in its:
        specs = models[r.value]
        sim.same([s.source_id for s in done], [sp.id for sp in specs], 'wrong-sources',
                 'sources of %s' % r.value)
        for spec, src in zip(specs, done):
            verify(sim, src, spec, p, 'realization %s' % '~'.join(r.lt_path))


WORKLOADS = dict(C16=c16, C17=c17, C18=c18)
