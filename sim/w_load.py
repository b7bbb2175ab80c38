# Workloads over the loaders of models and configurations: read faults,
# truncated, corrupt and rewritten inputs, loads interleaved and repeated.
import posixpath
from decimal import Decimal
from fractions import Fraction
import core
import env
import nrmlgen
import srcgen
import treegen
from nrmlgen import wrap, attrs
from srcgen import describe
from w_tree import Calculation, name_of

JOB = '/sim/job'


class Stream(object):
    """A file-like object over some data, that may fail at a position"""
    def __init__(self, name, data, fail_at=None):
        self.name, self.data, self.fail_at, self.pos = name, data, fail_at, 0
        self.closed = False

    def __hash__(self):
        return 7

    def _upto(self, end):
        if self.fail_at is not None and end > self.fail_at:
            core.current().fault('stream-error')
            raise IOError(5, 'Input/output error')
        out = self.data[self.pos:end]
        self.pos = end
        return out

    def read(self, n=-1):
        if n is None or n < 0:
            n = len(self.data)
        end = min(len(self.data), self.pos + n)
        if self.fail_at is not None and self.pos < self.fail_at < end:
            end = self.fail_at         # a part, the rest fails
            if n == len(self.data):
                end = self.fail_at + 1
        if self.pos >= len(self.data) and self.fail_at is None:
            return ''
        if self.fail_at is not None and self.pos >= self.fail_at:
            end = self.fail_at + 1
        return self._upto(end)

    def readline(self, n=-1):
        i = self.data.find('\n', self.pos)
        return self._upto(len(self.data) if i < 0 else i + 1)

    def __iter__(self):
        return self

    def next(self):
        line = self.readline()
        if not line:
            raise StopIteration
        return line

    def readlines(self, hint=-1):
        return list(self)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, etype, exc, tb):
        self.close()


class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.boot()

    def boot(self):
        self.lt, self.source, self.risk, self.ini = env.boot(
            'logictree', 'source', 'riskloaders', 'readini')
        self.conv = self.source.NrmlHazardlibConverter(50., 1.0, 0.5, 5.0)


class Item(object):
    """
    One thing to load: generate() fills .files (those the load reads) and
    .want; load() loads it and gives plain data.
    """
    stream = False      # the loader takes file-like objects

    def __init__(self, sim, world, serial):
        self.sim, self.world, self.serial = sim, world, serial
        self.dir = '%s/d%d' % (JOB, serial)
        self.how = sim.draw(4)
        self.renew()

    def renew(self):
        self.files = {}
        self.generate()
        self.write()

    def write(self, **instead):
        for name, data in self.files.items():
            self.sim.fs.put(self.path(name), instead.get(name, data))

    def path(self, name):
        return '%s/%s' % (self.dir, name)

    def xml_names(self):
        return sorted(n for n in self.files if n.endswith('.xml'))

    def mutate(self, raw):
        pass


# ---- source models

class SourceItem(Item):
    kind = 'source'

    def generate(self):
        sim = self.sim
        ids = sim.shuffled(['1', '2', 'a', 'b', '11', 'src', 'X'])[:1 + sim.draw(7)]
        self.specs = [srcgen.Spec(sim, x, trt=srcgen.TRTS[sim.draw(3)]) for x in ids]
        self.files['model.xml'] = srcgen.model_xml(self.specs)

    def load(self, fail_after=None):
        args = []
        if self.how % 2 or fail_after is not None:
            def uncertain(src, count=[0]):
                if count[0] == fail_after:
                    self.sim.fault('uncertainty-error')
                    raise ArithmeticError('no uncertainty for %s' % src.source_id)
                count[0] += 1
            args = [uncertain]
        return self.world.source.parse_source_model(
            self.path('model.xml'), self.world.conv, *args)

    def flat(self, raw):
        return [(c.trt, c.min_mag, c.max_mag, [describe(s) for s in c.sources]) for c in raw]

    def wanted(self):
        tom = self.world.conv.default_tom
        by_trt = {}
        for sp in self.specs:
            by_trt.setdefault(sp.trt, []).append(sp.build(tom=tom, discr=5.0))
        out = []
        for trt in sorted(by_trt, key=lambda t: (len(by_trt[t]), t)):
            mags = [s.mfd.get_min_max_mag() for s in by_trt[trt]]
            out.append((trt, min(a for a, _ in mags), max(b for _, b in mags),
                        [describe(s) for s in by_trt[trt]]))
        return out

    def spoil(self):
        sim = self.sim
        k = sim.draw(3)
        specs = list(self.specs)
        if k == 0 or all(sp.gr for sp in specs) and k == 1:
            # the id of another source again, with anything else different
            i = sim.draw(len(specs))
            dup = srcgen.Spec(sim, specs[i].id)
            specs.insert(sim.draw(len(specs) + 1), dup)
            return 'duplicated id', dict([('model.xml', srcgen.model_xml(specs))])
        i = sim.draw(len(specs))
        text = specs[i].xml()
        if k == 1 and not specs[i].gr:
            bad = text.replace('<occurRates>', '<occurRates>-0.25 ')
        elif specs[i].gr:
            bad = text.replace('bValue="%s"' % specs[i].b,
                               sim.pick('bValue="0.0"', 'bValue="x"', 'other="1"'))
        else:
            bad = text.replace('minMag="%s"' % specs[i].min_mag,
                               sim.pick('minMag=""', 'minMag="x"', 'other="1"'))
        assert bad != text
        xml = srcgen.model_xml(specs)
        assert xml.count(text) == 1
        return 'invalid source', dict([('model.xml', xml.replace(text, bad))])

    def mutate(self, raw):
        if raw and isinstance(raw, list):
            for s in raw[0].sources:
                s.name = 'changed'
                s.mfd.min_mag = 1.
            raw[0].sources.append(None)
            raw.pop()


# ---- risk models

LOSSES = ('structural', 'fatalities', 'contents', 'nonstructural')
COST = dict(fatalities='occupants')


class VulnerabilityItem(Item):
    kind = 'vulnerability'

    def generate(self):
        sim = self.sim
        self.losses = sim.shuffled(LOSSES)[:1 + sim.draw(3)]
        self.retro = self.how == 3
        self.insured = bool(sim.draw(2))
        taxonomies = ['RC', 'W', 'tax 3', 'T4', 'A']
        self.inputs = {}
        self.funcs = {}
        for loss in self.losses:
            if sim.draw(4) == 1 and len(self.losses) > 1:
                continue        # no file for this loss type
            name = 'v_%s.xml' % loss
            key = '%s_vulnerability%s' % (COST.get(loss, loss),
                                          '_retrofitted' if self.retro else '')
            self.inputs[key] = self.path(name)
            mine = sim.shuffled(taxonomies)[:1 + sim.draw(4)]
            sets = []
            while mine:
                n = 1 + sim.draw(len(mine))
                sets.append(self.draw_set(mine[:n]))
                mine = mine[n:]
            self.funcs[loss] = sets
            self.files[name] = self.xml(sets)
        if sim.draw(2):
            # the other file of the other key is not for us
            self.inputs['structural_vulnerability%s' % ('' if self.retro else '_retrofitted')] = \
                self.path('nosuch.xml')

    def draw_set(self, taxonomies):
        sim = self.sim
        imls, v = [], 0.
        for _ in range(1 + sim.draw(4)):
            v += 0.25 * (1 + sim.draw(3))
            imls.append(v)
        funcs = []
        for t in taxonomies:
            ratios = [sim.pick(0.5, 0.0, 0.25, 1.0) for _ in imls]
            covs = [sim.pick(0.0, 0.25, 0.5) if r else 0.0 for r in ratios]
            funcs.append([t, ratios, covs, sim.pick('LN', 'BT')])
        return [sim.pick('PGA', 'SA(0.1)'), imls, funcs]

    def xml(self, sets):
        nums = lambda xs: ' '.join(map(str, xs))
        out = ['<vulnerabilityModel>\n']
        for imt, imls, funcs in sets:
            out.append('<discreteVulnerabilitySet vulnerabilitySetID="s" assetCategory="buildings"'
                       ' lossCategory="x"><IML IMT="%s">%s</IML>\n' % (imt, nums(imls)))
            for t, ratios, covs, dist in funcs:
                out.append('<discreteVulnerability%s><lossRatio>%s</lossRatio>'
                           '<coefficientsVariation>%s</coefficientsVariation>'
                           '</discreteVulnerability>\n' % (
                               attrs([('vulnerabilityFunctionID', t),
                                      ('probabilisticDistribution', dist)]),
                               nums(ratios), nums(covs)))
            out.append('</discreteVulnerabilitySet>\n')
        out.append('</vulnerabilityModel>\n')
        return wrap(''.join(out))

    def load(self):
        risk = self.world.risk
        if self.how == 0:
            return risk.get_risk_models(dict(self.inputs), list(self.losses), self.insured)
        if self.retro:
            return risk.get_risk_models(dict(self.inputs), list(self.losses), self.insured, True)
        return list(risk.get_taxonomy_vfs(dict(self.inputs), list(self.losses)))

    def flat(self, raw):
        if isinstance(raw, dict):
            out = []
            for tax, rm in raw.items():
                w = rm.workflow
                if w.insured_losses != self.insured or rm.taxonomy != tax:
                    raise ValueError('risk model of %s: %s, %s' % (
                        tax, rm.taxonomy, w.insured_losses))
                out.append((tax, w.vulnerability_functions))
        else:
            out = raw
        return sorted((tax, sorted((k, v.key()) for k, v in vfs.items())) for tax, vfs in out)

    def wanted(self):
        want = {}
        for loss, sets in self.funcs.items():
            for imt, imls, funcs in sets:
                for t, ratios, covs, dist in funcs:
                    want.setdefault(t, []).append((loss, (imt, imls, ratios, covs, dist)))
        return sorted((t, sorted(x)) for t, x in want.items())

    def spoil(self):
        sim = self.sim
        loss = sim.choice(sorted(self.funcs)) if self.funcs else None
        if loss is None:
            return None
        sets = [[imt, list(imls), [[t, list(lr), list(cv), ds] for t, lr, cv, ds in funcs]]
                for imt, imls, funcs in self.funcs[loss]]
        every = [(s, f) for s in sets for f in s[2]]
        s, f = every[sim.draw(len(every))]
        k = sim.draw(5)
        if k == 0:
            # the taxonomy again, in any set and place
            what = 'duplicated taxonomy'
            t = sets[sim.draw(len(sets))]
            n = len(t[1])
            t[2].insert(sim.draw(len(t[2]) + 1), [f[0], [0.5] * n, [0.25] * n, 'LN'])
        elif k == 1:
            what = 'decreasing levels'
            s[1][:] = [2.0, 1.0] if len(s[1]) < 2 else s[1][::-1]
            if len(s[1]) == 2:
                for g in s[2]:
                    g[1], g[2] = (g[1] * 2)[:2], (g[2] * 2)[:2]
        elif k == 2:
            what = 'variation of a null ratio'
            f[1], f[2] = [0.0] + f[1][1:], [0.5] + f[2][1:]
        elif k == 3:
            what = 'different lengths'
            f[1] = f[1] + [1.0]
        else:
            what = 'not a number'
            f[sim.pick(1, 2)][-1] = 'x'
        return what, dict([('v_%s.xml' % loss, self.xml(sets))])

    def mutate(self, raw):
        if isinstance(raw, dict):
            raw.clear()
        else:
            for _tax, vfs in raw:
                for v in vfs.values():
                    v.imls.append(99.)
                vfs.clear()


class FragilityItem(Item):
    kind = 'fragility'
    stream = True

    def generate(self):
        sim = self.sim
        self.format = sim.pick('discrete', 'continuous')
        self.states = sim.shuffled(['slight', 'moderate', 'LS3', 'complete'])[:1 + sim.draw(3)]
        self.ffs = []
        for t in sim.shuffled(['RC', 'W', 'tax 3', 'T4'])[:1 + sim.draw(4)]:
            imls, v = [], 0.
            for _ in range(1 + sim.draw(4)):
                v += 0.25 * (1 + sim.draw(3))
                imls.append(v)
            if self.format == 'discrete':
                params = [[sim.pick(0.5, 0.0, 0.25, 1.0) for _ in imls] for _ in self.states]
            else:
                params = [[sim.pick(1.5, 2.0), sim.pick(0.5, 0.25)] for _ in self.states]
            self.ffs.append([t, sim.pick('PGA', 'MMI'), imls, params, sim.pick(None, 0.125)])
        self.files['f.xml'] = self.xml(self.ffs)

    def xml(self, ffs):
        nums = lambda xs: ' '.join(map(str, xs))
        out = ['<fragilityModel format="%s"><description>d</description><limitStates>%s'
               '</limitStates>\n' % (self.format, ' '.join(self.states))]
        for t, imt, imls, params, ndl in ffs:
            out.append('<ffs%s><taxonomy>%s</taxonomy><IML IMT="%s" imlUnit="g">%s</IML>\n' % (
                attrs([('noDamageLimit', ndl)]), t, imt,
                nums(imls) if self.format == 'discrete' else ''))
            for ls, p in zip(self.states, params):
                if self.format == 'discrete':
                    out.append('<ffd ls="%s"><poEs>%s</poEs></ffd>\n' % (ls, nums(p)))
                else:
                    out.append('<ffc ls="%s"><params mean="%s" stddev="%s"/></ffc>\n' % (
                        ls, p[0], p[1]))
            out.append('</ffs>\n')
        out.append('</fragilityModel>\n')
        return wrap(''.join(out))

    def load(self, stream=None):
        path = self.path('f.xml')
        return self.world.risk.get_damage_states_and_risk_models(stream or path)

    def opener(self, fail_at=None):
        return Stream(self.path('f.xml'), self.sim.fs.get(self.path('f.xml')), fail_at)

    def flat(self, raw):
        states, models = raw
        out = []
        for tax, rm in models.items():
            ffs = rm.workflow.fragility_functions['damage']
            if rm.taxonomy != tax:
                raise ValueError('risk model of %s is for %s' % (tax, rm.taxonomy))
            out.append((tax, ffs.imt, [(type(f).__name__,) + tuple(f.key()) for f in ffs]))
        return list(states), sorted(out)

    def wanted(self):
        out = []
        for t, imt, imls, params, ndl in self.ffs:
            if self.format == 'continuous':
                fs = [('FragilityFunctionContinuous',) + tuple(p) for p in params]
            elif ndl is None:
                fs = [('FragilityFunctionDiscrete', imls, p, imls[0]) for p in params]
            else:
                fs = [('FragilityFunctionDiscrete', [ndl] + imls, [0.0] + p, ndl) for p in params]
            out.append((t, imt, fs))
        return ['no_damage'] + self.states, sorted(out)

    def spoil(self):
        sim = self.sim
        ffs = [[t, imt, list(imls), [list(p) for p in params], ndl]
               for t, imt, imls, params, ndl in self.ffs]
        f = ffs[sim.draw(len(ffs))]
        p = f[3][sim.draw(len(f[3]))]
        if sim.draw(2):
            what = 'not a number'
            p[-1] = 'x'
        elif self.format == 'discrete':
            what = 'different lengths'
            p.append(1.0)
        else:
            what = 'negative deviation'
            p[1] = -0.5
        return what, dict([('f.xml', self.xml(ffs))])

    def mutate(self, raw):
        states, models = raw
        states.append('other')
        for rm in models.values():
            del rm.workflow.fragility_functions['damage'][:]
        models.clear()


# ---- logic trees

def flat_bset(bs):
    if bs is None:
        return None
    return (bs.uncertainty_type,
            sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in bs.filters.items()),
            [(b.branch_id, Fraction(str(b.weight)), name_of(b.value),
              flat_bset(b.child_branchset)) for b in bs.branches])


def want_bset(bs):
    if bs is None:
        return None
    return (bs.type, sorted((k, tuple(v.split()) if k == 'applyToSources' else v)
                            for k, v in bs.filters.items()),
            [(b.id, b.exact(), b.value, want_bset(b.child)) for b in bs.branches])


class TreeItem(Item):
    kind = 'tree'

    def generate(self):
        sim = self.sim
        self.validate = self.how in (0, 1)
        names = ['m%d.xml' % i for i in range(1 + sim.draw(2))]
        self.models = {}
        for n in names:
            ids = sim.shuffled(['1', '2', 'a', 'b', '11'])[:1 + sim.draw(3)]
            self.models[n] = [srcgen.Spec(sim, x) for x in ids]
        specs = [sp for n in names for sp in self.models[n]]
        self.tree = treegen.source_tree(sim, names, sim.draw(3), specs=specs, maxpaths=20)
        self.used = sorted(set(b.value for b in self.tree.root.branches))
        if self.used != names:
            self.validate = False
        self.files['lt.xml'] = self.tree.xml()
        if self.validate:
            for n in names:
                self.files[n] = srcgen.model_xml(self.models[n])

    def load(self):
        if self.validate:
            return self.world.lt.SourceModelLogicTree(
                self.read('lt.xml'), self.dir, 'lt.xml')
        if self.how == 2:
            hc = Calculation(self.path('lt.xml'), 'source', 42, 0)
            hc.base_path = self.dir
            return self.world.lt.SourceModelLogicTree.from_hc(hc)
        return self.world.lt.SourceModelLogicTree(
            self.read('lt.xml'), self.dir, 'lt.xml', validate=False)

    def read(self, name):
        """The caller reads the file"""
        with env.sim_open(self.path(name)) as f:
            return f.read()

    def flat(self, t):
        out = [flat_bset(t.root_branchset)]
        if self.validate:
            out.append((sorted(t.source_ids), sorted(t.tectonic_region_types),
                        sorted(t.source_types)))
        out.append([(name_of(r.value), Fraction(str(r.weight)), tuple(r.lt_path)) for r in t])
        return out

    def wanted(self):
        out = [want_bset(self.tree.root)]
        if self.validate:
            specs = [sp for n in self.used for sp in self.models[n]]
            out.append((sorted(set(sp.id for sp in specs)), sorted(set(sp.trt for sp in specs)),
                        sorted(set(srcgen.FILTER_NAMES[sp.kind] for sp in specs))))
        out.append([(p[0][1].value, Fraction(str(w)), tuple(b.id for _s, b in p))
                    for w, p in self.tree.root.paths()])
        return out

    value = 'abc'

    def spoil(self):
        sim = self.sim
        tree = self.tree
        sets = [bs for level in tree.levels for bs in level]
        bs = sets[sim.draw(len(sets))]
        br = bs.branches[sim.draw(len(bs.branches))]
        everyone = [b for s in sets for b in s.branches]
        k = sim.draw(5)
        if k == 0 and len(everyone) > 1 and self.kind != 'gsim':
            others = [b for b in everyone if b is not br]
            return 'duplicated branch', self.changed(br, 'id', others[sim.draw(len(others))].id)
        if k == 1 and bs.type != 'sourceModel' and self.kind != 'gsim':
            return 'invalid value', self.changed(br, 'text', self.value)
        if k == 2 and len(tree.levels) > 1 and self.kind == 'tree':
            level = tree.levels[1 + sim.draw(len(tree.levels) - 1)]
            return 'unknown parent', self.changed(level[sim.draw(len(level))], 'to', 'nosuch')
        if k == 3:
            return 'invalid weight', self.changed(br, 'weight', sim.pick('x', '0.5 0.5', '--'))
        if sim.draw(2):
            # not far from one
            off = sim.pick('0.001', '-0.001', '0.005', '-0.005', '0.01')
            return 'weights of other sum', self.changed(
                br, 'weight', str(Decimal(br.weight) + Decimal(off)))
        return 'weights of other sum', self.changed(br, 'weight', '0.17')

    def changed(self, obj, name, value):
        old = getattr(obj, name)
        setattr(obj, name, value)
        try:
            return dict([('lt.xml', self.tree.xml())])
        finally:
            setattr(obj, name, old)

    def mutate(self, t):
        for b in t.root_branchset.branches:
            b.weight = 0
        del t.root_branchset.branches[1:]
        t.branches.clear()


class GmpeItem(TreeItem):
    kind = 'gmpe'
    value = 'NoSuchModel'

    def generate(self):
        sim = self.sim
        self.trts = sim.shuffled(srcgen.TRTS)[:1 + sim.draw(3)]
        self.tree = treegen.gmpe_tree(sim, self.trts)
        self.validate = False
        self.files['lt.xml'] = self.tree.xml()

    def load(self):
        cls = self.world.lt.GMPELogicTree
        if self.how == 2:
            hc = Calculation(self.path('lt.xml'), 'gmpe', 42, 0)
            return cls.from_hc(hc, self.trts)
        return cls(self.trts, self.read('lt.xml'), self.dir, 'lt.xml', validate=self.how == 0)


class GsimItem(TreeItem):
    kind = 'gsim'

    def generate(self):
        sim = self.sim
        self.trts = sim.shuffled(srcgen.TRTS)[:1 + sim.draw(3)]
        self.tree = treegen.gmpe_tree(sim, self.trts)
        self.files['lt.xml'] = self.tree.xml()

    def load(self):
        return self.world.lt.GsimLogicTree(
            self.path('lt.xml'), 'applyToTectonicRegionType', list(self.trts))

    def flat(self, t):
        return [(sorted((k, name_of(v)) for k, v in t.values.items()), ),
                sorted((sorted((k, name_of(v)) for k, v in r.value.items()),
                        Fraction(str(r.weight)), sorted(r.lt_path)) for r in t)]

    def wanted(self):
        sets = [lv[0] for lv in self.tree.levels]
        want = [([], Fraction(1), [])]
        for bs in sets:
            trt = bs.filters['applyToTectonicRegionType']
            want = [(v + [(trt, b.value)], w * b.exact(), p + [b.id])
                    for v, w, p in want for b in bs.branches]
        return [(sorted((bs.filters['applyToTectonicRegionType'],
                         [b.value for b in bs.branches]) for bs in sets), ),
                sorted((sorted(v), w, sorted(p)) for v, w, p in want)]

    def spoil(self):
        sim = self.sim
        if len(self.tree.levels) > 1 and sim.draw(3) == 1:
            i, j = sim.shuffled(range(len(self.tree.levels)))[:2]
            return 'duplicated region', self.changed(
                self.tree.levels[i][0], 'filters', dict(self.tree.levels[j][0].filters))
        if sim.draw(4) == 1:
            return 'invalid type', self.changed(
                self.tree.levels[sim.draw(len(self.tree.levels))][0], 'type', 'bGRRelative')
        return TreeItem.spoil(self)

    def mutate(self, t):
        t.values.clear()
        del t.branches[:]


# ---- configurations

PLAIN = (('description', ('A job', 'x = y', 'with;semicolon', 'file_like', 'a_file b')),
         ('calculation_mode', ('classical', 'event_based')),
         ('number_of_logic_tree_samples', ('0', '10')),
         ('intensity_measure_types_and_levels', ('{"PGA": [0.1, 0.2], "SA(0.1)": [1]}',)),
         ('region', ('-78.182 15.615, -78.152 15.615', '1 1, 2 2')),
         ('file_name', ('x.xml', '../y')), ('a_files', ('x.xml',)), ('filed', ('/abs', 'rel')),
         ('export_dir', ('/tmp/out', 'out')), ('site_model', ('sm.xml',)))
FILES = ('exposure', 'structural_vulnerability', 'gsim_logic_tree', 'fragility', 'site_model_',
         'x', 'rupture_model')
TOKENS = ('0', '1.5', '-78.182000000000001', '1e-3', '+12.', '180.0', '-0.0', '45.123456789012')


class Config(object):
    """A job configuration and what it has to be parsed into"""
    def __init__(self, sim, base, absolute=None, serial=0):
        """base: its directory; absolute: other directory for absolute paths"""
        self.sim, self.base, self.serial = sim, base, serial
        self.files = {}        # absolute path -> data
        self.params = {}
        self.inputs = {}
        self.sources = None
        self.sites = None
        self.smlt = None
        entries = []
        for key, values in sim.shuffled(PLAIN)[:sim.draw(6)]:
            v = values[sim.draw(len(values))]
            entries.append((key, v))
            self.params[key] = v
        for key in sim.shuffled(FILES)[:sim.draw(4)]:
            name = self.place(absolute, '%s.xml' % key)
            entries.append((key + '_file', name))
            self.inputs[key] = posixpath.join(base, name)
        if sim.draw(3):
            self.logic_tree(entries, absolute)
        if sim.draw(2):
            self.site_list(entries, absolute)
        if sim.draw(8) == 0:
            entries.append(('sites', '1 1, 2 2'))
            self.params.setdefault('sites', '1 1, 2 2')
            if self.sites is not None:
                entries.pop()
                del self.params['sites']
        entries = sim.shuffled(entries)
        lines = []
        n = 1 + sim.draw(3)
        cuts = sorted(sim.draw(len(entries) + 1) for _ in range(n - 1))
        for i in range(n):
            lo = cuts[i - 1] if i else 0
            hi = cuts[i] if i < n - 1 else len(entries)
            lines.append('[section%d]' % i)
            for k, v in entries[lo:hi]:
                if sim.draw(5) == 1:
                    lines.append(sim.pick('# a comment', '', '; other = comment'))
                lines.append(sim.pick('%s = %s', '%s=%s', '%s: %s') % (k, v))
        self.text = '\n'.join(lines) + '\n'
        self.entries = entries

    def place(self, absolute, name):
        """A path for a file, as it stands in the configuration"""
        sim = self.sim
        k = sim.draw(5)
        if k == 1 and absolute:
            return '%s/%s' % (absolute, name)
        if k == 2:
            return 'sub/' + name
        if k == 3:
            return '../' + name
        if k == 4:
            return './' + name
        return name

    def logic_tree(self, entries, absolute):
        sim = self.sim
        names = sim.shuffled(['m1.xml', 'm2.xml', 'sub/m3.xml', '../m4.xml', 'M1.xml', 'm 5.xml',
                              'm10.xml', './m6.xml'])[:1 + sim.draw(4)]
        if absolute and sim.draw(5) == 1:
            names = ['%s/%s' % (absolute, posixpath.basename(n)) for n in names]
        self.tree = treegen.source_tree(sim, names, sim.draw(3), maxpaths=20,
                                        nested=True)
        name = self.place(absolute, 'smlt%d.xml' % self.serial)
        self.smlt = posixpath.normpath(posixpath.join(self.base, name))
        entries.append(('source_model_logic_tree_file', name))
        self.inputs['source_model_logic_tree'] = posixpath.join(self.base, name)
        self.files[self.smlt] = self.tree.xml()
        used = sorted(set(b.value for level in self.tree.levels for bs in level
                          if bs.type == 'sourceModel' for b in bs.branches))
        self.sources = [posixpath.join(self.base, n) for n in used]

    def site_list(self, entries, absolute):
        sim = self.sim
        rows = [(TOKENS[sim.draw(len(TOKENS))], TOKENS[sim.draw(len(TOKENS))])
                for _ in range(1 + sim.draw(6))]
        name = self.place(absolute, 'sites%d.csv' % self.serial)
        entries.append(('sites_csv', name))
        self.sites_path = posixpath.normpath(posixpath.join(self.base, name))
        self.sites = rows
        self.files[self.sites_path] = self.rows_text(rows)

    def rows_text(self, rows):
        sim = self.sim
        form = sim.pick('%s,%s', '"%s","%s"')
        end = sim.pick('\n', '\r\n')
        return end.join(form % r if len(r) == 2 else ','.join(r) for r in rows) + sim.pick(end, '')

    def wanted(self):
        norm = posixpath.normpath
        inputs = dict((k, norm(v)) for k, v in self.inputs.items())
        if self.sources is not None:
            inputs['source'] = [norm(x) for x in self.sources]
        params = dict(self.params)
        if self.sites is not None:
            params['sites'] = [tuple(map(exact, r)) for r in self.sites]
        return norm(self.base), inputs, params


def exact(token):
    try:
        return Fraction(token.rstrip('.') if token.endswith('.') else token)
    except ValueError:
        return token


def flat_config(raw, sites):
    """The result of parse_config, paths up to normalization"""
    params = dict(raw)
    inputs = dict(params.pop('inputs'))
    for k, v in inputs.items():
        for p in v if k == 'source' else [v]:
            if not posixpath.isabs(p):
                raise ValueError('input %s is not absolute: %s' % (k, p))
        inputs[k] = map(posixpath.normpath, v) if k == 'source' else posixpath.normpath(v)
    base = params.pop('base_path')
    if not posixpath.isabs(base):
        raise ValueError('base_path is not absolute: %s' % base)
    if sites and 'sites' in params:
        text = params['sites']
        if not (text.startswith('MULTIPOINT(') and text.endswith(')')):
            raise ValueError('not a multi point: %s' % text)
        params['sites'] = [tuple(map(exact, p.split()))
                           for p in text[len('MULTIPOINT('):-1].split(',')]
    return posixpath.normpath(base), inputs, params


class ConfigItem(Item):
    kind = 'config'
    stream = True

    def generate(self):
        self.config = Config(self.sim, self.dir, serial=self.serial)
        self.files['job.ini'] = self.config.text
        self.data = self.config.files

    def write(self, **instead):
        for name, data in self.files.items():
            self.sim.fs.put(self.path(name), instead.get(name, data))
        for path, data in self.data.items():
            self.sim.fs.put(path, instead.get(path, data))

    def xml_names(self):
        return sorted(p for p in self.data if p.endswith('.xml'))

    def path(self, name):
        return posixpath.join(self.dir, name)

    def load(self, stream=None):
        if stream is not None:
            return self.world.ini.parse_config(stream)
        f = env.sim_open(self.path('job.ini'))
        try:
            return self.world.ini.parse_config(f)
        finally:
            try:
                f.close()
            except EnvironmentError:
                pass

    def opener(self, fail_at=None):
        return Stream(self.path('job.ini'), self.sim.fs.get(self.path('job.ini')), fail_at)

    def flat(self, raw):
        return flat_config(raw, self.config.sites is not None)

    def wanted(self):
        return self.config.wanted()

    def spoil(self):
        sim = self.sim
        c = self.config
        k = sim.draw(4)
        if k == 0 and c.sites is not None:
            rows = list(c.sites)
            rows.insert(sim.draw(len(rows) + 1), sim.pick(('1.0',), ('1.0', '2.0', '3.0')))
            return 'invalid site', {c.sites_path: c.rows_text(rows)}
        if k == 1 and c.smlt:
            text = self.data[c.smlt]
            i = text.rindex('</') if sim.draw(2) else text.index('</')
            return 'not well-formed', {c.smlt: text[:i] + text[i + 1:]}
        lines = c.text.split('\n')[:-1]
        if k == 2:
            lines.insert(0, 'key = value')
            what = 'no section'
        else:
            lines.insert(1 + sim.draw(len(lines)), 'neither key nor value')
            what = 'invalid line'
        return what, {'job.ini': '\n'.join(lines) + '\n'}

    def mutate(self, raw):
        raw['inputs'].clear()
        raw['sites'] = 'changed'


ITEMS = (SourceItem, VulnerabilityItem, FragilityItem, ConfigItem, TreeItem, GmpeItem, GsimItem)


def flatten(sim, item, raw, what):
    ok, res = sim.attempt(item.flat, raw)
    if not ok:
        sim.fail('altered-model', '%s %d %s: %s' % (
            item.kind, item.serial, what, core.exc_text(res)))
    return res


def judge(sim, item, ok, res, kind, what):
    """The load gave an exception or the intact model"""
    if not ok:
        sim.log('load', item.kind, item.serial, what, core.exc_text(res))
        return
    sim.log('load', item.kind, item.serial, what, 'loaded')
    got = flatten(sim, item, res, what)
    want = item.wanted()
    if got != want:
        sim.fail(kind, '%s %d %s: %s instead of %s' % (
            item.kind, item.serial, what, core.text(got, 300), core.text(want, 300)))


def intact(sim, item, what='intact'):
    ok, res = sim.attempt(item.load)
    if not ok:
        sim.fail('load-failed', '%s %d %s: %s' % (
            item.kind, item.serial, what, core.exc_text(res)))
    judge(sim, item, ok, res, 'altered-model', what)
    return res


def c14(sim):
    sim.line_budget = 4000000
    w = World(sim)
    items = [ITEMS[sim.draw(len(ITEMS))](sim, w, i) for i in range(1 + sim.draw(3))]
    seen = []
    for step in range(3 + sim.draw(6)):
        item = items[sim.draw(len(items))]
        k = sim.draw(10)
        if k == 0:
            res = intact(sim, item)
            if sim.draw(2):
                sim.attempt(item.mutate, res)
                sim.log('mutated', item.serial)
        elif k in (1, 2):
            seen.append((item.kind, 'fault'))
            sim.nontrivial = True
            sim.fs.arm(sim.draw(sim.pick(4, 12)), sticky=sim.draw(3) == 1,
                       only=sim.pick(None, ('read',), ('open',)))
            if sim.draw(3) == 1:
                sim.fs.short_reads = 40
            before = sim.fs.faults
            ok, res = sim.attempt(item.load)
            hit = sim.fs.faults > before
            sim.fs.disarm()
            sim.fs.short_reads = 0
            if not ok and not hit:
                sim.fail('load-failed', '%s %d without a fault: %s' % (
                    item.kind, item.serial, core.exc_text(res)))
            judge(sim, item, ok, res, 'partial-model', 'with a read fault')
        elif k in (3, 4):
            names = item.xml_names()
            if not names:
                continue
            seen.append((item.kind, 'truncated'))
            sim.nontrivial = True
            sim.fault('truncated')
            name = names[sim.draw(len(names))]
            data = item.files.get(name) or item.data[name]
            # often right at the end of an element
            ends = [i + 1 for i, c in enumerate(data) if c == '>']
            cut = ends[sim.draw(len(ends))] if sim.draw(2) else sim.draw(len(data))
            item.write(**{name: data[:cut]})
            ok, res = sim.attempt(item.load)
            judge(sim, item, ok, res, 'partial-model', 'truncated')
            item.write()
        elif k in (5, 6):
            spoiled(sim, item, seen)
        elif k == 7 and item.stream:
            seen.append((item.kind, 'stream'))
            sim.nontrivial = True
            s = item.opener()
            n = len(s.data)
            if sim.draw(3):
                s.fail_at = sim.draw(n)
            ok, res = sim.attempt(item.load, s)
            if not ok and s.fail_at is None:
                sim.fail('load-failed', '%s %d from a stream: %s' % (
                    item.kind, item.serial, core.exc_text(res)))
            judge(sim, item, ok, res, 'partial-model', 'from a stream')
        elif k == 7 and item.kind == 'source':
            seen.append((item.kind, 'uncertainty'))
            sim.nontrivial = True
            n = sim.draw(len(item.specs))
            ok, res = sim.attempt(item.load, n)
            sim.check(not ok and isinstance(res, ArithmeticError), 'partial-model',
                      'failing uncertainties of source %d: %s', n, core.text(res))
        elif k == 8:
            sim.fault('rewritten')
            item.renew()
            intact(sim, item, 'rewritten')
        else:
            concurrent(sim, items, seen)
    for item in items:
        intact(sim, item, 'at the end')
    sim.seen(tuple(seen))


def spoiled(sim, item, seen):
    bad = item.spoil()
    if bad is None:
        return
    what, changed = bad
    seen.append((item.kind, what))
    sim.nontrivial = True
    sim.fault('corrupt: ' + what)
    item.write(**changed)
    ok, res = sim.attempt(item.load)
    item.write()
    if ok:
        sim.fail('invalid-accepted', '%s %d with %s was loaded: %s' % (
            item.kind, item.serial, what, core.text(flatten(sim, item, res, what), 300)))
    sim.log('refused', item.kind, item.serial, what, core.exc_text(res))


def concurrent(sim, items, seen):
    """Loads in threads, also of the same inputs, possibly with a read fault"""
    seen.append(('threads', len(items)))
    th = core.Threads(sim, mean=sim.pick(60, 20, 200))
    who = [items[sim.draw(len(items))] for _ in range(2 + sim.draw(2))]
    for i, item in enumerate(who):
        th.spawn('load%d' % i, item.load)
    before = sim.fs.faults
    if sim.draw(2):
        sim.fs.arm(sim.draw(12), only=('read', 'open'))
    th.run()
    sim.fs.disarm()
    hits = sim.fs.faults - before
    failed = 0
    for item, t in zip(who, th.threads):
        failed += not t.ok
        if not t.ok and failed > hits:
            sim.fail('load-failed', '%s %d in a thread: %s' % (
                item.kind, item.serial, core.exc_text(t.value)))
        judge(sim, item, t.ok, t.value, 'partial-model', 'in a thread')
    sim.nontrivial = True


# ------------------------------------------------------------------ C15

class Job(object):
    def __init__(self, sim, serial):
        self.sim, self.serial = sim, serial
        self.dir = sim.pick('/sim/job/d%d', '/sim/job/a/d%d', '/sim/other/d%d') % serial
        self.name = sim.pick('job.ini', 'job_%d.ini' % serial, 'file.ini')
        self.renew()

    def renew(self):
        sim, serial = self.sim, self.serial
        sim.fs.mkdirs(self.dir + '/sub')
        self.config = Config(sim, self.dir, sim.pick(None, '/sim/abs', self.dir), serial)
        sim.fs.put(self.path(), self.config.text)
        for p, data in self.config.files.items():
            sim.fs.put(p, data)

    def path(self):
        return '%s/%s' % (self.dir, self.name)

    def spelled(self):
        """A name of the configuration file, from the current directory"""
        sim = self.sim
        k = sim.draw(3)
        if k == 0:
            return self.path()
        rel = posixpath.relpath(self.path(), sim.fs.cwd)
        if k == 1:
            return rel
        return './' + rel

    def parse(self, ini, name):
        with env.sim_open(name) as f:
            return ini.parse_config(f)

    def parse_text(self, ini, name):
        return ini.parse_config(Stream(name, self.config.text))

    def judge(self, ok, res, what):
        sim = self.sim
        if not ok:
            sim.fail('parse-failed', '%s, %s: %s' % (self.path(), what, core.exc_text(res)))
        c = self.config
        ok, got = sim.attempt(flat_config, res, c.sites is not None)
        if not ok:
            sim.fail('wrong-config', '%s, %s: %s' % (self.path(), what, core.exc_text(got)))
        want = c.wanted()
        sim.same(got[0], want[0], 'wrong-base', '%s, %s' % (self.path(), what))
        for i, part in ((1, 'inputs'), (2, 'parameters')):
            a, b = dict(got[i]), dict(want[i])
            if part == 'inputs' and 'source' in a and 'source' in b:
                # the order is that of the names in the logic tree
                sim.same(sorted(a['source']), sorted(b['source']), 'wrong-sources',
                         '%s, %s' % (self.path(), what))
                sim.same(a['source'], b['source'], 'unsorted-sources',
                         '%s, %s' % (self.path(), what))
            for k in sorted(set(a) | set(b)):
                sim.check(a.get(k, 'missing') == b.get(k, 'missing'), 'wrong-config',
                          '%s, %s: %s %s is %s instead of %s', self.path(), what, part, k,
                          core.text(a.get(k, 'missing')), core.text(b.get(k, 'missing')))


DIRS = ('/sim/job', '/sim', '/sim/other', '/sim/job/a', '/sim/tmp')


def c15(sim):
    sim.line_budget = 3000000
    ini = env.boot('readini')
    for d in DIRS:
        sim.fs.mkdirs(d)
    jobs = [Job(sim, i) for i in range(1 + sim.draw(3))]
    places = DIRS + tuple(j.dir for j in jobs)
    kept = []
    hist = []
    for step in range(3 + sim.draw(8)):
        j = jobs[sim.draw(len(jobs))]
        k = sim.draw(8)
        if k <= 2:
            sim.fs.cwd = places[sim.draw(len(places))]
            name = j.spelled()
            sim.log('parse', name, 'in', sim.fs.cwd)
            ok, res = sim.attempt(j.parse if sim.draw(3) else j.parse_text, ini, name)
            j.judge(ok, res, 'named %s in %s' % (name, sim.fs.cwd))
            kept.append((j, res))
            hist.append((j.serial, name, sim.fs.cwd))
            if step:
                sim.nontrivial = True
        elif k == 3:
            sim.fault('rewritten')
            kept = [x for x in kept if x[0] is not j]
            j.renew()
        elif k == 4 and kept:
            # changing a result changes no other
            sim.fault('mutated-result')
            _j, res = kept.pop(sim.draw(len(kept)))
            res['inputs'].clear()
            res['inputs']['source'] = ['x']
            res['base_path'] = 'x'
            res.setdefault('sites', 'x')
        elif k == 5 and kept:
            i, res = kept[sim.draw(len(kept))]
            i.judge(True, res, 'kept result')
        elif k == 6:
            sim.fault('failed-parse')
            s = Stream(j.path(), j.config.text, sim.draw(len(j.config.text)))
            sim.attempt(ini.parse_config, s)
        else:
            threads(sim, ini, jobs)
            hist.append('threads')
    for i, res in kept:
        i.judge(True, res, 'kept result')
    sim.seen(tuple(hist), tuple(sorted(jobs[0].config.inputs)))


def threads(sim, ini, jobs):
    th = core.Threads(sim, mean=sim.pick(30, 10, 100))
    sim.fs.cwd = DIRS[sim.draw(len(DIRS))]
    who = []
    for i in range(2 + sim.draw(2)):
        j = jobs[sim.draw(len(jobs))]
        who.append(j)
        th.spawn('parse%d' % i, j.parse, ini, j.spelled())
    th.run()
    for j, t in zip(who, th.threads):
        j.judge(t.ok, t.value, 'in a thread')
    sim.nontrivial = True


WORKLOADS = dict(C14=c14, C15=c15)
