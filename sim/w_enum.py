# Workload over the enumeration of branch sets (openquake.commonlib.logictree.BranchSet): trees are
# built and edited by the caller, and enumerated lazily, interleaved, abandoned and in threads.
from decimal import Decimal
from fractions import Fraction
import core
import env
import treegen

IDS = ('b1', 'b2', 'b3', 'b4', 'b5', 'x', '1')


class Node(object):
    """A branch of the tree"""
    def __init__(self, real, weight):
        self.real, self.weight = real, weight
        self.child = None


class Bset(object):
    """A branch set: the real one and what it should have"""

    def __init__(self, sim, lt, serial):
        self.sim, self.lt, self.serial = sim, lt, serial
        self.real = lt.BranchSet(sim.pick('maxMagGRRelative', 'bGRRelative', 'gmpeModel'), {})
        self.nodes = []
        self.fill()

    def fill(self):
        sim = self.sim
        ws = sim.shuffled(sim.choice(treegen.WEIGHTS + (('0.001', '0.999'),)))
        del self.real.branches[:]
        self.nodes = []
        ids = sim.shuffled(IDS)
        for i, w in enumerate(ws):
            real = self.lt.Branch(ids[i] if i < len(ids) else 'n%d' % i, Decimal(w),
                                  sim.pick(0.5, 'value', None))
            self.real.branches.append(real)
            self.nodes.append(Node(real, Fraction(w)))

    def paths(self):
        out = []
        for n in self.nodes:
            if n.child is None:
                out.append((n.weight, (n.real,)))
            else:
                out.extend((n.weight * w, (n.real,) + p) for w, p in n.child.paths())
        return out

    def count(self):
        return sum(1 if n.child is None else n.child.count() for n in self.nodes)

    def below(self):
        out = [self]
        for n in self.nodes:
            if n.child is not None:
                out.extend(n.child.below())
        return out


class Tree(object):
    def __init__(self, sim, lt, serial):
        self.sim, self.lt, self.serial = sim, lt, serial
        self.made = 0
        self.root = self.bset()
        for _ in range(sim.draw(4)):
            self.grow()
        self.changed()

    def bset(self):
        self.made += 1
        return Bset(self.sim, self.lt, self.made)

    def changed(self):
        self.order = None       # in which order the paths came
        self.want = dict((tuple(map(id, p)), w) for w, p in self.root.paths())
        self.keep = [p for _w, p in self.root.paths()]

    def spots(self, leaf):
        return [n for bs in self.root.below() for n in bs.nodes if (n.child is None) == leaf]

    def grow(self):
        """Another branch set below some of the branches without one"""
        sim = self.sim
        ends = self.spots(True)
        child = self.bset()
        some = ends if sim.draw(3) == 1 else sim.shuffled(ends)[:1 + sim.draw(3)]
        for n in some:
            n.child, n.real.child_branchset = child, child.real
        if self.root.count() > 60:
            for n in some:
                n.child = n.real.child_branchset = None

    def edit(self):
        sim = self.sim
        k = sim.draw(6)
        every = self.root.below()
        bs = every[sim.draw(len(every))]
        if k in (0, 1):
            self.grow()
        elif k == 2:
            full = self.spots(False)
            if full:
                n = full[sim.draw(len(full))]
                n.child = n.real.child_branchset = None
        elif k == 3:
            # the same weights, otherwise
            ws = [Decimal(1) / 4, Decimal(3) / 4]
            if len(bs.nodes) > 1:
                for n in bs.nodes:
                    n.weight, n.real.weight = Fraction(0), Decimal('0')
                for n, w in zip(sim.shuffled(bs.nodes), ws):
                    n.real.weight = w
                    n.weight = Fraction(*float(w).as_integer_ratio())
        elif k == 4:
            bs.fill()
            if self.root.count() > 60:
                self.root.fill()
        else:
            order = sim.shuffled(range(len(bs.nodes)))
            bs.real.branches[:] = [bs.real.branches[i] for i in order]
            bs.nodes = [bs.nodes[i] for i in order]
        self.changed()


class Run(object):
    """An enumeration in progress"""

    def __init__(self, sim, tree):
        self.sim, self.tree = sim, tree
        self.it = iter(tree.root.real.enumerate_paths())
        self.got = []
        self.lists = []

    def advance(self, n):
        """True when it is at its end"""
        for _ in range(n):
            ok, x = self.sim.attempt(next, self.it)
            if not ok:
                self.sim.check(isinstance(x, StopIteration), 'enumeration-failed', 'tree %d: %s',
                               self.tree.serial, core.exc_text(x))
                judge(self.sim, self.tree, self.got)
                return True
            w, path = x
            self.got.append((w, tuple(path)))
            self.sim.log('path', self.tree.serial, len(self.got), len(path))
            self.lists.append((path, tuple(path)))
        return False

    def spoil(self):
        """What callers do with the paths they got concerns nobody else"""
        for path, _was in self.lists:
            if isinstance(path, list):
                path.reverse()
                path.append(None)
        self.lists = []

    def intact(self):
        for path, was in self.lists:
            self.sim.check(len(path) == len(was) and all(a is b for a, b in zip(path, was)),
                           'path-changed', 'tree %d: a path of %d branches has now %d',
                           self.tree.serial, len(was), len(path))


def judge(sim, tree, got):
    """All the paths, each once, with exact weights"""
    label = 'tree %d' % tree.serial
    seen = set()
    total = Fraction(0)
    for w, path in got:
        key = tuple(map(id, path))
        name = [getattr(b, 'branch_id', b) for b in path]
        sim.check(key in tree.want, 'no-path', '%s: %s', label, name)
        sim.check(key not in seen, 'path-twice', '%s: %s', label, name)
        seen.add(key)
        sim.check(Fraction(str(w)) == tree.want[key], 'wrong-weight', '%s: %s for %s instead of %s',
                  label, w, name, tree.want[key])
        total += Fraction(str(w))
    sim.check(len(seen) == len(tree.want), 'path-missing', '%s: %d of %d paths', label, len(seen),
              len(tree.want))
    sim.check(total == 1, 'wrong-sum', '%s: %s', label, total)
    order = [tuple(map(id, p)) for _w, p in got]
    if tree.order is not None:
        sim.check(order == tree.order, 'other-order', '%s', label)
    tree.order = order


def threads(sim, trees):
    crew = core.Threads(sim, 4 + sim.draw(30))
    jobs = []
    for i in range(2 + sim.draw(2)):
        t = trees[sim.draw(len(trees))]
        jobs.append((t, crew.spawn('t%d' % i, lambda bs=t.root.real: [
            (w, tuple(p)) for w, p in bs.enumerate_paths()])))
    crew.run()
    for t, job in jobs:
        sim.check(job.ok, 'enumeration-failed', 'tree %d: %s', t.serial,
                  job.ok or core.exc_text(job.value))
        judge(sim, t, job.value)
    sim.probe('threads')


def find(sim, tree):
    every = tree.root.below()
    bs = every[sim.draw(len(every))]
    for ident in sim.shuffled(IDS)[:2]:
        ok, res = sim.attempt(bs.real.get_branch_by_id, ident)
        there = [n.real for n in bs.nodes if n.real.branch_id == ident]
        if there:
            sim.check(ok and res is there[0], 'wrong-branch', '%s: %s', ident, core.text(res))
        else:
            sim.check(not ok and isinstance(res, AssertionError), 'wrong-branch', '%s: %s', ident,
                      core.text(res))


def c24(sim):
    sim.line_budget = 4000000
    lt = env.boot('logictree')
    trees = [Tree(sim, lt, i) for i in range(1 + sim.draw(3))]
    runs = []
    edits = 0
    for _ in range(5 + sim.draw(20)):
        k = sim.draw(12)
        t = trees[sim.draw(len(trees))]
        if k < 2 or not runs and k < 7:
            runs.append(Run(sim, t))
        elif k < 7:
            if len(runs) > 1:
                sim.nontrivial = True
            r = runs[sim.draw(len(runs))]
            if r.advance(sim.pick(1, 3, 200)):
                runs.remove(r)
        elif k == 7:
            if runs:
                sim.fault('abandoned')
                runs.pop(sim.draw(len(runs)))
        elif k == 8:
            if runs:
                runs[sim.draw(len(runs))].spoil()
        elif k == 9:
            # enumerations of an edited tree are not promised anything
            for r in [r for r in runs if r.tree is t]:
                runs.remove(r)
            t.edit()
            sim.log('edited', t.serial, len(t.want))
            edits += 1
            sim.nontrivial = True
        elif k == 10:
            find(sim, t)
        elif sim.draw(3):
            threads(sim, trees)
        else:
            judge(sim, t, [(w, tuple(p)) for w, p in sim.must(
                'enumeration-failed', list, t.root.real.enumerate_paths())])
        for r in runs:
            r.intact()
    for r in runs:
        r.advance(10 ** 4)
    for t in trees:
        judge(sim, t, [(w, tuple(p)) for w, p in sim.must(
            'enumeration-failed', list, t.root.real.enumerate_paths())])
    sim.seen(tuple(sorted(len(t.want) for t in trees)), min(edits, 9))


WORKLOADS = dict(C24=c24)
