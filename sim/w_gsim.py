# Workload over the ground motion logic trees of openquake.commonlib.logictree:
# which model each realization gives to each tectonic region type.
from fractions import Fraction
import core
import env
import srcgen
import treegen
from w_tree import Calculation, JOB, name_of

TRT = 'applyToTectonicRegionType'


class Gsims(object):
    """A ground motion logic tree restricted to some regions, and what it must give"""
    def __init__(self, sim, lt, serial):
        self.sim, self.lt, self.serial = sim, lt, serial
        self.kind = sim.pick('gmpe', 'gsim')
        trts = sim.shuffled(list(srcgen.TRTS) + EXTRA)[:1 + sim.draw(5)]
        self.tree = treegen.gmpe_tree(sim, trts)
        for lv in self.tree.levels:
            brs = lv[0].branches
            if len(brs) > 1 and sim.draw(4) == 1:
                # the same model on two branches
                brs[-1].value, brs[-1].text = brs[0].value, brs[0].text
        n = len(trts) if sim.draw(2) else 1 + sim.draw(len(trts))
        self.chosen = sim.shuffled(trts)[:n]
        self.asked = list(self.chosen)
        if sim.draw(3) == 1:
            # regions the tree knows nothing of
            self.asked = sim.shuffled(self.asked + ['Nowhere'])
        self.samples = sim.pick(0, 5, 40) if self.kind == 'gmpe' else 0
        self.seed = sim.pick(42, 0, 7)
        self.how = sim.draw(3)
        self.given = []
        self.sets = [lv[0] for lv in self.tree.levels if lv[0].filters[TRT] in self.chosen]
        self.fname = '%s/gsim%d.xml' % (JOB, serial)
        sim.fs.put(self.fname, self.tree.xml())
        self.load()
        sim.log('tree', serial, self.kind, trts, self.asked, self.samples)
        if len(self.chosen) < len(trts):
            sim.probe('restricted')

    def load(self):
        lt = self.lt
        if self.kind == 'gsim':
            self.obj = self.sim.must('load-failed', lambda: lt.GsimLogicTree(
                self.fname, TRT, self.sim.choice([list, tuple, set])(self.asked)))
        elif self.how == 1:
            hc = Calculation(self.fname, 'gmpe', self.seed, self.samples)
            self.obj = self.sim.must('load-failed', lambda: lt.GMPELogicTree.from_hc(hc, self.asked))
        else:
            everything = len(self.sets) == len(self.tree.levels) and self.asked == self.chosen
            self.obj = self.sim.must('load-failed', lambda: lt.GMPELogicTree(
                self.asked, self.tree.xml(), JOB, 'lt.xml',
                validate=everything and self.how == 2, seed=self.seed, num_samples=self.samples))

    def branches_of(self, path):
        """The branch of each set that the path contains; no other ids, none twice"""
        if len(path) != len(self.sets) or len(set(path)) != len(path):
            return None
        res = []
        for bs in self.sets:
            mine = [b for b in bs.branches if b.id in path]
            if len(mine) != 1:
                return None
            res.append(mine[0])
        return res

    def mapping(self, brs):
        return dict((bs.filters[TRT], b.value) for bs, b in zip(self.sets, brs))

    def total(self):
        n = 1
        for bs in self.sets:
            n *= len(bs.branches)
        return n

    def judge(self, rlz):
        """One realization; returns its path"""
        sim = self.sim
        path = tuple(rlz.lt_path)
        brs = self.branches_of(path)
        if brs is None:
            sim.fail('wrong-path', 'tree %d: path %s, branch sets %s' % (
                self.serial, path, [[b.id for b in bs.branches] for bs in self.sets]))
        if self.kind == 'gsim':
            got = dict((k, name_of(v)) for k, v in rlz.value.items())
            sim.same(got, self.mapping(brs), 'wrong-models', 'realization %s' % (path,))
        if self.samples:
            sim.check(rlz.weight is None, 'wrong-weight', '%s for a sample', rlz.weight)
            sim.check(all(b.exact() > 0 for b in brs), 'wrong-path', '%s has weight zero', path)
        else:
            want = Fraction(1)
            for b in brs:
                want *= b.exact()
            sim.check(Fraction(str(rlz.weight)) == want, 'wrong-weight', '%s instead of %s for %s',
                      rlz.weight, want, path)
        return path

    def resolve(self, path, spoil=False):
        if self.kind == 'gsim':
            return
        sim = self.sim
        arg = sim.pick(list, tuple)(path)
        got = sim.must('resolve-failed', self.obj.make_trt_to_gsim, arg)
        sim.same(dict((k, name_of(v)) for k, v in got.items()),
                 self.mapping(self.branches_of(path)), 'wrong-models', 'path %s of tree %d' % (
                     path, self.serial))
        sim.same(tuple(arg), tuple(path), 'path-changed', 'tree %d' % self.serial)
        if spoil:
            got.clear()
            got['Nowhere'] = None
        elif len(self.given) < 40:
            self.given.append((path, got))
        if self.given:
            path, got = self.given[sim.draw(len(self.given))]
            sim.same(dict((k, name_of(v)) for k, v in got.items()),
                     self.mapping(self.branches_of(path)), 'mapping-changed',
                     'the one given for %s' % (path,))

    def anypath(self):
        return tuple(bs.branches[self.sim.draw(len(bs.branches))].id for bs in self.sets)

    def counts(self):
        if self.kind != 'gsim':
            return
        sim = self.sim
        sim.same(sim.must('count-failed', self.obj.get_num_branches),
                 dict((bs.id, len(bs.branches)) for bs in self.sets), 'wrong-count', 'branches')
        sim.same(sim.must('count-failed', self.obj.get_num_paths), self.total(), 'wrong-count',
                 'paths')


EXTRA = ['Induced', 'Geothermal', 'active shallow crust']


class Reader(object):
    """An iteration over the realizations of a tree"""
    def __init__(self, tree):
        self.tree = tree
        self.it = iter(tree.obj)
        self.paths = []
        self.kept = []

    def advance(self, resolve=True):
        t = self.tree
        ok, rlz = t.sim.attempt(next, self.it)
        if ok:
            path = t.judge(rlz)
            self.paths.append(path)
            if resolve:
                t.resolve(path)
            if t.kind == 'gsim' and t.sim.draw(4) == 1:
                rlz.value.clear()
            elif len(self.kept) < 30:
                self.kept.append(rlz)
            return True
        if not isinstance(rlz, StopIteration):
            t.sim.fail('iteration-failed', 'iterating raised %s' % core.exc_text(rlz))
        for rlz in self.kept:
            # those given before are still what they were
            t.judge(rlz)
        if t.samples:
            t.sim.check(len(self.paths) == t.samples, 'wrong-number', '%d samples instead of %d',
                        len(self.paths), t.samples)
        else:
            t.sim.check(len(set(self.paths)) == len(self.paths) == t.total(), 'wrong-number',
                        '%d paths (%d different) instead of %d', len(self.paths),
                        len(set(self.paths)), t.total())
        return False


def rejected(sim, lt):
    """What makes no sense is an error, not a smaller tree"""
    t = Gsims(sim, lt, 99)
    k = sim.draw(4)
    if k == 0:
        trts = ['Nowhere'] if sim.draw(2) else ['Nowhere', 'Elsewhere']
        ok, res = sim.attempt(lt.GsimLogicTree, t.fname, TRT, trts)
        what = 'no branches'
    elif k == 1:
        ok, res = sim.attempt(lt.GsimLogicTree, t.fname, TRT, t.chosen + t.chosen[:1])
        what = 'duplicated regions'
    else:
        if t.kind == 'gsim':
            return
        path = list(t.anypath())
        i = sim.draw(len(path))
        if k == 2:
            path[i] = 'nowhere'
            what = 'unknown branch'
        else:
            del path[i:]
            what = 'short path'
        ok, res = sim.attempt(t.obj.make_trt_to_gsim, path)
    sim.fault('nonsense')
    sim.check(not ok, 'not-rejected', '%s: %s', what, core.text(res, 200))
    sim.log('rejected', what)
    t.resolve(t.anypath())


def in_threads(sim, trees):
    th = core.Threads(sim, mean=sim.pick(20, 8, 60))

    def use(t, n):
        for _ in range(n):
            t.resolve(t.anypath())
        r = Reader(t)
        while len(r.paths) < 60 and r.advance():
            pass
    for i in range(2 + sim.draw(2)):
        th.spawn('use%d' % i, use, trees[sim.draw(len(trees))], sim.draw(4))
    th.run()
    for t in th.threads:
        if not t.ok:
            if isinstance(t.value, core.Violation):
                raise t.value
            sim.fail('iteration-failed', core.exc_text(t.value))
    sim.nontrivial = True
    sim.probe('threads')


def c29(sim):
    sim.line_budget = 4000000
    lt = env.boot('logictree')
    trees = [Gsims(sim, lt, i) for i in range(1 + sim.draw(3))]
    if sim.draw(4) == 1:
        rejected(sim, lt)
    if sim.draw(5) == 1:
        in_threads(sim, trees)
    running = []
    for step in range(3 + sim.draw(25)):
        op = sim.draw(9)
        if op == 0 or not running:
            running.append(Reader(trees[sim.draw(len(trees))]))
        elif op <= 4:
            r = running[sim.draw(len(running))]
            if len(running) > 1:
                sim.nontrivial = True
            for _ in range(sim.pick(1, 3, 60)):
                if not r.advance(sim.draw(2)):
                    running.remove(r)
                    break
        elif op == 5:
            t = trees[sim.draw(len(trees))]
            t.resolve(t.anypath(), spoil=sim.draw(2))
        elif op == 6:
            trees[sim.draw(len(trees))].counts()
        elif op == 7:
            sim.fault('abandoned')
            running.pop(sim.draw(len(running)))
        else:
            # the same tree, loaded again
            t = trees[sim.draw(len(trees))]
            t.load()
            r = Reader(t)
            while len(r.paths) < 60 and r.advance():
                pass
    for t in trees:
        r = Reader(t)
        n = 0
        while n < 300 and r.advance(n < 40):
            n += 1
        t.counts()
        sim.seen(t.kind, t.samples, tuple(len(bs.branches) for bs in t.sets), len(t.tree.levels))


WORKLOADS = dict(C29=c29)
