# Workload over openquake.commonlib.riskloaders: risk models built from vulnerability and fragility
# files that are edited in between, as a whole, lazily, in threads and with reads that fail.
import core
import env
from nrmlgen import wrap, attrs
from w_load import Stream

JOB = '/sim/job'
LOSSES = ('structural', 'fatalities', 'contents', 'nonstructural', 'business_interruption')
COST = dict(fatalities='occupants')
TAXONOMIES = ('RC', 'W', 'tax 3', 'T4', 'A', 'rc', 'RC1')
STATES = ('slight', 'moderate', 'LS3', 'complete', 'no_damage')
IMTS = ('PGA', 'SA(0.1)', 'MMI')
BAD = 'bad'


def nums(xs):
    return ' '.join(map(str, xs))


def levels(sim):
    out, v = [], 0.
    for _ in range(1 + sim.draw(4)):
        v += 0.25 * (1 + sim.draw(3))
        out.append(v)
    return out


class Vuln(object):
    """The contents of a vulnerability file"""

    def __init__(self, sim):
        self.sim = sim
        self.sets = []              # [imt, imls, [[taxonomy, ratios, covs, distribution]]]
        mine = sim.shuffled(TAXONOMIES)[:1 + sim.draw(4)]
        while mine:
            n = 1 + sim.draw(len(mine))
            self.sets.append([IMTS[sim.draw(3)], levels(sim), []])
            for t in mine[:n]:
                self.sets[-1][2].append(self.func(t, self.sets[-1][1]))
            mine = mine[n:]

    def func(self, t, imls):
        sim = self.sim
        ratios = [sim.pick(0.5, 0.0, 0.25, 1.0) for _ in imls]
        return [t, ratios, [sim.pick(0.0, 0.25, 0.5) if r else 0.0 for r in ratios],
                sim.pick('LN', 'BT')]

    def every(self):
        return [(s, f) for s in self.sets for f in s[2]]

    def edit(self):
        """A change after which the file is as good, or bad, as it was"""
        sim = self.sim
        every = self.every()
        s, f = every[sim.draw(len(every))]
        k = sim.draw(5)
        if k == 0:
            new = self.func(f[0], s[1])
            f[1:] = new[1:]
        elif k == 1:
            s[0] = IMTS[sim.draw(3)]
        elif k == 2 and len(every) > 1:
            s[2].remove(f)
            if not s[2]:
                self.sets.remove(s)
        elif k == 3:
            free = [t for t in TAXONOMIES if t not in [g[0] for _s, g in every]]
            if free:
                t = free[sim.draw(len(free))]
                if sim.draw(2):
                    f[0] = t
                else:
                    s[2].insert(sim.draw(len(s[2]) + 1), self.func(t, s[1]))
        else:
            self.sets.insert(0, self.sets.pop())

    def xml(self, flaw=None):
        sim = self.sim
        sets = [[imt, list(imls), [[t, list(r), list(c), d] for t, r, c, d in fs]]
                for imt, imls, fs in self.sets]
        every = [(s, f) for s in sets for f in s[2]]
        self.blame = []
        if flaw:
            s, f = every[sim.draw(len(every))]
            self.blame = [g[0] for g in s[2]] if flaw == 'levels' else [f[0]]
            if flaw == 'duplicate':
                # again, in any set and place, the same or another function
                u = sets[sim.draw(len(sets))]
                g = list(f) if u is s and sim.draw(2) else self.func(f[0], u[1])
                u[2].insert(sim.draw(len(u[2]) + 1), g)
            elif flaw == 'levels':
                s[1][0] = s[1][-1] + 1 if len(s[1]) > 1 else -1.0
            elif flaw == 'variation':
                f[1][0], f[2][0] = 0.0, 0.5
            else:
                f[1].append(1.0)
        out = ['<vulnerabilityModel>\n']
        for imt, imls, fs in sets:
            out.append('<discreteVulnerabilitySet vulnerabilitySetID="s" assetCategory="buildings"'
                       ' lossCategory="x"><IML IMT="%s">%s</IML>\n' % (imt, nums(imls)))
            for t, r, c, d in fs:
                out.append('<discreteVulnerability%s><lossRatio>%s</lossRatio>'
                           '<coefficientsVariation>%s</coefficientsVariation>'
                           '</discreteVulnerability>\n' % (
                               attrs([('vulnerabilityFunctionID', t),
                                      ('probabilisticDistribution', d)]), nums(r), nums(c)))
            out.append('</discreteVulnerabilitySet>\n')
        out.append('</vulnerabilityModel>\n')
        return wrap(''.join(out))

    def flaws(self):
        return ('duplicate', 'levels', 'variation', 'lengths')

    def wanted(self):
        return dict((t, ('VulnerabilityFunction', imt, list(imls), list(r), list(c), d))
                    for imt, imls, fs in self.sets for t, r, c, d in fs)


class Frag(object):
    """The contents of a fragility file"""

    def __init__(self, sim):
        self.sim = sim
        self.format = sim.pick('discrete', 'continuous')
        self.states = sim.shuffled(STATES)[:1 + sim.draw(4)]
        self.ffs = [self.func(t) for t in sim.shuffled(TAXONOMIES)[:1 + sim.draw(4)]]

    def func(self, t):
        sim = self.sim
        imls = levels(sim)
        if self.format == 'discrete':
            params = [[sim.pick(0.5, 0.0, 0.25, 1.0) for _ in imls] for _ in self.states]
        else:
            params = [[sim.pick(1.5, 2.0), sim.pick(0.5, 0.25)] for _ in self.states]
        return [t, IMTS[sim.draw(3)], imls, params, sim.pick(None, 0.125, 0.0, 0.25)]

    def edit(self):
        sim = self.sim
        i = sim.draw(len(self.ffs))
        k = sim.draw(4)
        if k == 0:
            self.ffs[i] = self.func(self.ffs[i][0])
        elif k == 1:
            self.ffs[i][4] = sim.pick(None, 0.0, 0.125, 0.25)
        elif k == 2 and len(self.ffs) > 1:
            del self.ffs[i]
        else:
            free = [t for t in TAXONOMIES if t not in [f[0] for f in self.ffs]]
            if free:
                self.ffs.insert(i, self.func(free[sim.draw(len(free))]))

    def flaws(self):
        return ('lengths',) if self.format == 'discrete' else ('deviation',)

    def xml(self, flaw=None):
        sim = self.sim
        ffs = [[t, imt, imls, [list(p) for p in params], ndl]
               for t, imt, imls, params, ndl in self.ffs]
        if flaw:
            f = ffs[sim.draw(len(ffs))]
            p = f[3][sim.draw(len(f[3]))]
            if flaw == 'lengths':
                p.append(1.0)
            else:
                p[1] = -0.5
        out = ['<fragilityModel format="%s"><description>d</description><limitStates>%s'
               '</limitStates>\n' % (self.format, ' '.join(self.states))]
        for t, imt, imls, params, ndl in ffs:
            out.append('<ffs%s><taxonomy>%s</taxonomy><IML IMT="%s" imlUnit="g">%s</IML>\n' % (
                attrs([('noDamageLimit', ndl)]), t, imt,
                nums(imls) if self.format == 'discrete' else ''))
            for ls, p in zip(self.states, params):
                if self.format == 'discrete':
                    out.append('<ffd ls="%s"><poEs>%s</poEs></ffd>\n' % (ls, nums(p)))
                else:
                    out.append('<ffc ls="%s"><params mean="%s" stddev="%s"/></ffc>\n' % (
                        ls, p[0], p[1]))
            out.append('</ffs>\n')
        out.append('</fragilityModel>\n')
        return wrap(''.join(out))

    def wanted(self):
        out = {}
        for t, imt, imls, params, ndl in self.ffs:
            if self.format == 'continuous':
                fs = [('FragilityFunctionContinuous',) + tuple(p) for p in params]
            elif ndl is None:
                fs = [('FragilityFunctionDiscrete', imls, p, imls[0]) for p in params]
            else:
                fs = [('FragilityFunctionDiscrete', [ndl] + imls, [0.0] + p, ndl)
                      for p in params]
            out[t] = (imt, fs)
        return list(['no_damage'] + self.states), out


class File(object):
    """A file and its state"""

    def __init__(self, sim, path, cls):
        self.sim, self.path, self.cls = sim, path, cls
        self.flaw = None
        self.renew()

    def renew(self):
        self.it = self.cls(self.sim)
        self.write()

    def write(self):
        self.sim.fs.put(self.path, self.it.xml(self.flaw))

    def change(self):
        sim = self.sim
        k = sim.draw(8)
        if k < 4:
            self.it.edit()
        elif k == 4:
            self.it = self.cls(sim)
        elif k < 7:
            self.flaw = None if self.flaw else sim.pick(*self.it.flaws())
        else:
            self.flaw = 'missing'
        if self.flaw not in (None, 'missing') + self.it.flaws():
            self.flaw = None
        if self.flaw == 'missing':
            self.sim.fs.nodes.pop(self.sim.fs.norm(self.path), None)
        else:
            self.write()

    def good(self):
        return self.flaw is None


def flat_func(f):
    return (type(f).__name__,) + tuple(f.key())


def flat_vfs(d):
    return dict((k, flat_func(v)) for k, v in d.items())


def flat_models(models, insured):
    out = {}
    for tax, rm in models.items():
        if rm.taxonomy != tax:
            raise ValueError('risk model of %s is for %s' % (tax, rm.taxonomy))
        w = rm.workflow
        if type(w).__name__ != 'Scenario' or bool(w.insured_losses) != bool(insured):
            raise ValueError('%s with insured losses %s' % (type(w).__name__, w.insured_losses))
        out[tax] = flat_vfs(w.vulnerability_functions)
    return out


def flat_damage(res):
    states, models = res
    out = {}
    for tax, rm in models.items():
        if rm.taxonomy != tax:
            raise ValueError('risk model of %s is for %s' % (tax, rm.taxonomy))
        w = rm.workflow
        if type(w).__name__ != 'Damage' or list(w.fragility_functions) != ['damage']:
            raise ValueError('%s for %s' % (type(w).__name__, sorted(w.fragility_functions)))
        ffs = w.fragility_functions['damage']
        out[tax] = (ffs.imt, [flat_func(f) for f in ffs])
    return list(states), out


def differs(got, want):
    if isinstance(got, tuple) and isinstance(want, tuple) and len(got) == 2:
        if got[0] != want[0]:
            return '%s instead of %s' % (got[0], want[0])
        got, want = got[1], want[1]
    for k in sorted(set(got) | set(want)):
        if got.get(k) != want.get(k):
            return '%s has %s instead of %s' % (k, core.text(got.get(k, 'nothing')),
                                                core.text(want.get(k, 'nothing')))


class Query(object):
    """A call of a loader, and what has to come of it"""

    def __init__(self, world):
        self.world = world
        sim = self.sim = world.sim
        self.project = p = world.some(world.projects)
        k = sim.draw(6)
        self.kind = 'models' if k < 3 else 'pairs' if k == 3 else 'damage'
        self.retro = bool(sim.draw(2))
        self.insured = bool(sim.draw(2))
        self.losses = sim.shuffled(LOSSES)[:sim.draw(len(LOSSES) + 1)]
        if self.losses and sim.draw(8) == 1:
            self.losses.append(self.losses[0])
        self.stream = bool(sim.draw(2))
        self.inputs = dict((key, f.path) for key, f in p.vulns.items() if not sim.draw(5) == 1)
        if sim.draw(2):
            self.inputs['source'] = '/sim/none.xml'
        if p.inputs is not None and sim.draw(3) == 1:
            self.inputs = p.inputs          # those of another call
        p.inputs = self.inputs
        self.given = dict(self.inputs), list(self.losses)
        self.keys = ['%s_vulnerability%s' % (COST.get(x, x), '_retrofitted' * self.retro)
                     for x in self.losses]

    def files(self):
        if self.kind == 'damage':
            return [self.project.frag]
        return [self.project.vulns[k] for k in self.keys if k in self.inputs]

    def call(self):
        risk = self.world.risk
        if self.kind == 'damage':
            path = self.project.frag.path
            if self.stream and self.sim.fs.norm(path) in self.sim.fs.nodes:
                return risk.get_damage_states_and_risk_models(
                    Stream(path, self.sim.fs.get(path)))
            return risk.get_damage_states_and_risk_models(path)
        if self.kind == 'models':
            if self.retro:
                return risk.get_risk_models(self.inputs, self.losses, self.insured, True)
            if not self.insured:
                return risk.get_risk_models(self.inputs, self.losses)   # the default
            return risk.get_risk_models(self.inputs, self.losses, insured_losses=self.insured)
        if self.retro:
            return risk.get_taxonomy_vfs(self.inputs, self.losses, True)
        return risk.get_taxonomy_vfs(self.inputs, tuple(self.losses))

    def whole(self):
        res = self.call()
        if self.kind == 'pairs':
            res = list(res)
        return res

    def flat(self, res):
        if self.kind == 'damage':
            return flat_damage(res)
        if self.kind == 'models':
            return flat_models(res, self.insured)
        out = dict((t, flat_vfs(d)) for t, d in res)
        if len(out) != len(res):
            raise ValueError('a taxonomy twice: %s' % [t for t, _d in res])
        return out

    def wanted(self):
        """What it has to give, or None if it has to fail"""
        bad = [f for f in self.files() if not f.good()]
        # the taxonomies one of which has to be named
        self.blame = [] if self.kind == 'damage' or any(f.flaw == 'missing' for f in bad) else [
            t for f in bad for t in f.it.blame]
        if bad:
            return None
        if self.kind == 'damage':
            return self.project.frag.it.wanted()
        out = {}
        for loss, key in zip(self.losses, self.keys):
            if key in self.inputs:
                for t, f in self.project.vulns[key].it.wanted().items():
                    out.setdefault(t, {})[loss] = f
        return out

    def label(self):
        return '%s of project %d%s' % (self.kind, self.project.serial,
                                       '' if self.kind == 'damage' else
                                       ' for %s' % ', '.join(self.losses))

    def blames(self, exc):
        """Invalid functions are reported as such"""
        if self.blame:
            self.sim.check(isinstance(exc, ValueError) and any(t in core.text(exc.args, 999)
                                                               for t in self.blame),
                           'wrong-error', '%s: %s with a bad function for %s', self.label(),
                           core.exc_text(exc), ' or '.join(self.blame))

    def judge(self, ok, res, want, fault=False):
        sim = self.sim
        sim.check((self.inputs, self.losses) == self.given, 'inputs-changed', '%s: %s', self.label(),
                  core.text(self.inputs))
        if want is None:
            sim.check(not ok, 'bad-file-accepted', '%s with %s', self.label(),
                      ', '.join('%s: %s' % (f.path, f.flaw) for f in self.files() if f.flaw))
            if not fault:
                self.blames(res)
            sim.probe('refused')
            return
        if fault and not ok:
            sim.probe('failed-read')
            return
        sim.check(ok, 'not-loaded', '%s: %s', self.label(), ok or core.exc_text(res))
        flat = sim.must('wrong-model', self.flat, res)
        bad = differs(flat, want)
        sim.check(not bad, 'wrong-model', '%s: %s', self.label(), bad)
        self.world.kept.append([self, res, flat])


class Project(object):
    def __init__(self, sim, serial):
        self.serial = serial
        self.inputs = None
        self.vulns = {}
        for loss in LOSSES:
            for retro in ('', '_retrofitted'):
                if sim.draw(3):
                    key = '%s_vulnerability%s' % (COST.get(loss, loss), retro)
                    self.vulns[key] = File(sim, '%s/p%d/%s.xml' % (JOB, serial, key), Vuln)
        self.frag = File(sim, '%s/p%d/f.xml' % (JOB, serial), Frag)


class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.risk = env.boot('riskloaders')
        self.projects = [Project(sim, i) for i in range(1 + sim.draw(2))]
        self.kept = []          # [query, result, its flat form]
        self.streams = []       # [generator, query, what it has to give, given]

    def some(self, seq):
        return seq[self.sim.draw(len(seq))]

    # ---- steps
    def load(self):
        sim = self.sim
        q = Query(self)
        want = q.wanted()
        fault = sim.draw(4) == 1
        if fault:
            sim.fs.arm(sim.draw(sim.pick(4, 12)), sticky=sim.draw(3) == 1,
                       only=('read', 'open'))
        elif sim.draw(4) == 1:
            sim.fs.short_reads = 50
        before = sim.fs.faults
        ok, res = sim.attempt(q.whole)
        sim.fs.short_reads = 0
        if fault:
            sim.fs.disarm()
        q.judge(ok, res, want, sim.fs.faults > before)
        sim.nontrivial = sim.nontrivial or sim.fs.faults > before

    def start(self):
        """A lazy loader; it has to give what the files had at its first pair"""
        q = Query(self)
        q.kind = 'pairs'
        want = q.wanted()
        ok, res = self.sim.attempt(q.call)
        s = None
        if ok:
            s = [res, q, want, []]
            ok, first = self.sim.attempt(lambda: next(res, None))
        if want is None:
            self.sim.check(not ok, 'bad-file-accepted', 'the first of %s', q.label())
            q.blames(first if s else res)
            return
        self.sim.check(ok, 'not-loaded', '%s: %s', q.label(), ok or core.exc_text(res))
        if first is None:
            self.sim.check(not want, 'wrong-model', 'nothing of %s', q.label())
            return
        s[3].append(first)
        self.streams.append(s)
        self.sim.nontrivial = True

    def advance(self):
        sim = self.sim
        s = self.some(self.streams)
        gen, q, want, given = s
        if sim.draw(8) == 1:
            self.streams.remove(s)
            return
        for _ in range(1 + sim.draw(3)):
            ok, pair = sim.attempt(lambda: next(gen, None))
            sim.check(ok, 'not-loaded', 'further pairs of %s: %s', q.label(),
                      ok or core.exc_text(pair))
            if pair is None:
                self.streams.remove(s)
                q.judge(True, given, want)
                return
            given.append(pair)

    def threads(self):
        sim = self.sim
        crew = core.Threads(sim, 4 + sim.draw(12))
        jobs = []
        for i in range(2 + sim.draw(2)):
            q = Query(self)
            jobs.append((q, q.wanted(), crew.spawn('t%d' % i, q.whole)))
        crew.run()
        for q, want, t in jobs:
            q.judge(t.ok, t.value, want)
        sim.probe('threads')

    def spoil(self):
        """What the caller does with a result concerns nobody else"""
        sim = self.sim
        q, res, _flat = self.kept.pop(sim.draw(len(self.kept)))
        if q.kind == 'damage':
            states, models = res
            states.append('other')
            for rm in models.values():
                ffs = rm.workflow.fragility_functions['damage']
                for f in ffs:
                    if hasattr(f, 'poes'):
                        f.poes.append(7.)
                    else:
                        f.mean = 7.
                ffs.imt = 'none'
                del ffs[:]
            models.clear()
            return
        if q.kind == 'models':
            dicts = [rm.workflow.vulnerability_functions for rm in res.values()]
            res.clear()
        else:
            dicts = [d for _t, d in res]
        for d in dicts:
            for f in d.values():
                f.imls.append(99.)
                f.covs[:] = []
            d.clear()

    def step(self):
        sim = self.sim
        k = sim.draw(12)
        if k < 4:
            self.load()
        elif k == 4:
            self.start()
        elif k in (5, 6) and self.streams:
            self.advance()
        elif k == 7:
            self.threads()
        elif k == 8 and self.kept:
            self.spoil()
        else:
            p = self.some(self.projects)
            for _ in range(1 + sim.draw(3)):
                self.some([p.frag] + [p.vulns[x] for x in sorted(p.vulns)]).change()
        for q, res, flat in self.kept:
            now = sim.must('result-changed', q.flat, res)
            sim.check(now == flat, 'result-changed', '%s: %s', q.label(), differs(now, flat))


def cost_types(sim, risk):
    """The names of losses and costs correspond"""
    for _ in range(sim.draw(3)):
        x = sim.choice(LOSSES)
        y = COST.get(x, x)
        sim.check(risk.loss_type_to_cost_type(x) == y and risk.cost_type_to_loss_type(y) == x,
                  'wrong-type', '%s and %s', x, y)


def c28(sim):
    w = World(sim)
    cost_types(sim, w.risk)
    for _ in range(4 + sim.draw(12)):
        w.step()
    for p in w.projects:
        # repaired, everything can be loaded
        for f in [p.frag] + [p.vulns[k] for k in sorted(p.vulns)]:
            if not f.good():
                f.flaw = None
                f.write()
    while w.streams:
        w.advance()
    for _ in range(3):
        q = Query(w)
        q.judge(*(sim.attempt(q.whole) + (q.wanted(),)))
    sim.seen(len(w.projects), min(9, len(w.kept)), tuple(sorted(set(q.kind for q, _r, _f in w.kept))),
             tuple(sorted(len(q.losses) for q, _r, _f in w.kept))[:4])


WORKLOADS = dict(C28=c28)
