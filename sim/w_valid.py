# Workload over the validation of logic trees (openquake.commonlib.logictree): trees and source
# models are edited, broken and repaired, and validated against the files of the moment.
import posixpath
from decimal import Decimal
from fractions import Fraction
import core
import env
import srcgen
import treegen
from nrmlgen import NS, attrs
from w_load import flat_bset, name_of

JOB = '/sim/job'
TRT = 'applyToTectonicRegionType'
TYPE = 'applyToSourceType'
IDS = 'applyToSources'
ABSOLUTE = ('abGRAbsolute', 'maxMagGRAbsolute')
NUMBERS = ('.5', '+1.25', '-3', '0', '10.125')
NO_NUMBERS = ('abc', '1 2', '--1', '1,5', '1 x', ' ')
NO_PAIRS = ('1', '1 2 3', 'a 1', '1 x', '0.5 -', ' ')
POOL = ('1', '2', 'a', 'b', '11', 'A', 'ab')


# ---- documents, with the lines of their elements

def render(sim, tree):
    """The XML of a tree; .line of its parts, .at of the values are set"""
    lines = ['<?xml version="1.0" encoding="utf-8"?>',
             '<nrml xmlns="%s" xmlns:gml="http://www.opengis.net/gml">' % NS]

    def put(text):
        for _ in range(sim.draw(6) - 3):
            lines.append(sim.pick('', '<!-- a comment -->'))
        n = len(lines) + 1
        lines.extend(text.split('\n'))
        return n

    tree.line = put('<logicTree logicTreeID="lt">')
    for i, level in enumerate(tree.levels):
        put('<logicTreeBranchingLevel branchingLevelID="bl%d">' % i)
        for bs in level:
            bs.line = put('<logicTreeBranchSet%s>' % attrs(
                [('uncertaintyType', bs.type), ('branchSetID', bs.id)] +
                sorted(bs.filters.items()) + [('applyToBranches', bs.to)]))
            for b in bs.branches:
                b.line = put('<logicTreeBranch branchID="%s">' % b.id)
                b.at = put('<uncertaintyModel>%s</uncertaintyModel>' % b.text)
                put('<uncertaintyWeight>%s</uncertaintyWeight>' % b.weight)
                put('</logicTreeBranch>')
            put('</logicTreeBranchSet>')
        put('</logicTreeBranchingLevel>')
    put('</logicTree>')
    put('</nrml>')
    return '\n'.join(lines) + '\n'


class Verdict(object):
    """What has to come of a validation"""
    def __init__(self):
        self.rules = []         # (line, rule): ValidationErrors
        self.trouble = []       # other reasons to raise
        self.children = {}      # branch -> branch set
        self.data = None
        self.root = None
        self.split = True       # lists of sources, in source model trees

    def bad(self, obj, rule):
        self.rules.append((obj if isinstance(obj, int) else obj.line, rule))

    @property
    def fine(self):
        return not self.rules and not self.trouble

    def flat(self, bs):
        """Like flat_bset"""
        if bs is None:
            return None
        return (bs.type, sorted((k, tuple(v.split()) if k == IDS and self.split else v)
                                for k, v in bs.filters.items()),
                [(b.id, Fraction(b.weight), value_of(bs, b, not self.split),
                 self.flat(self.children.get(b)))
                 for b in bs.branches])

    def paths(self, bs):
        if bs is None:
            return [(1, [])]
        return [(Decimal(b.weight) * w, [b] + p) for b in bs.branches
                for w, p in self.paths(self.children.get(b))]

    def weigh(self, bs, ids):
        total = 0
        for b in bs.branches:
            try:
                total += Fraction(b.weight)
            except ValueError:
                self.trouble.append('no weight')
                total = None
                break
            if ids is not None:
                if b.id in ids:
                    self.bad(b, 'branch id twice')
                ids[b.id] = b
        if total is not None and total != 1:
            self.bad(bs, 'weights')


def value_of(bs, b, gmpe=False):
    text = b.text.strip()
    if bs.type == 'sourceModel' or gmpe:
        return text
    if bs.type == 'abGRAbsolute':
        x, y = text.split()
        return float(x), float(y)
    return float(text)


def is_value(bs, b):
    try:
        value_of(bs, b)
        return True
    except ValueError:
        return False


def judge_source(tree, models, validate):
    """
    models: name -> list of Specs, or a text saying what is wrong with the file
    """
    v = Verdict()
    ids, trts, types = set(), set(), set()
    known = {}
    ends = []
    for depth, level in enumerate(tree.levels):
        new = []
        for number, bs in enumerate(level):
            f = bs.filters
            if validate:
                if bs.type == 'sourceModel' and f:
                    v.bad(bs, 'filters of source models')
                if len(f) > 1:
                    v.bad(bs, 'several filters')
                if TRT in f and f[TRT] not in trts:
                    v.bad(bs, 'unknown region type')
                if TYPE in f and f[TYPE] not in types:
                    v.bad(bs, 'unknown source type')
                for i in f.get(IDS, '').split():
                    if i not in ids:
                        v.bad(bs, 'unknown source')
                if bs.type in ABSOLUTE and (list(f) != [IDS] or len(f[IDS].split()) != 1):
                    v.bad(bs, 'absolute uncertainty of other than one source')
                if depth == 0 and number:
                    v.bad(bs, 'two branch sets on the first level')
                if depth == 0 and bs.type != 'sourceModel':
                    v.bad(bs, 'no source models first')
                if depth and bs.type == 'sourceModel':
                    v.bad(bs, 'source models on a later level')
                if bs.type == 'gmpeModel':
                    v.bad(bs, 'ground motion models')
            for b in bs.branches:
                if bs.type == 'sourceModel':
                    if not validate:
                        continue
                    got = models.get(b.text.strip(), 'missing')
                    if isinstance(got, str):
                        v.trouble.append('%s: %s' % (b.text.strip(), got))
                        continue
                    for sp in got:
                        ids.add(sp.id)
                        trts.add(sp.trt)
                        types.add(srcgen.FILTER_NAMES[sp.kind])
                elif not is_value(bs, b):
                    if validate:
                        v.bad(b.at, 'not a value')
                    else:
                        v.trouble.append('not a value')
            v.weigh(bs, known)
            if v.root is None:
                v.root = bs
            elif bs.to:
                for i in bs.to.split():
                    b = known.get(i)
                    if b is None:
                        v.bad(bs, 'unknown branch')
                    elif b not in ends:
                        v.bad(bs, 'branch of another level')
                    elif b in v.children:
                        v.bad(bs, 'branch with a branch set')
                    else:
                        v.children[b] = bs
            else:
                for b in ends:
                    v.children[b] = bs
            new.extend(bs.branches)
        ends = new
    v.data = (sorted(ids), sorted(trts), sorted(types))
    return v


def judge_gmpe(tree, trts, validate):
    v = Verdict()
    v.split = False
    known = {}
    defined = set()
    ends = []
    for level in tree.levels:
        new = []
        for number, bs in enumerate(level):
            if TRT not in bs.filters:
                v.bad(bs, 'no region type')
                v.trouble.append('no region type')
                continue
            trt = bs.filters[TRT]
            if trt not in trts:
                continue
            if validate:
                if len(bs.filters) > 1:
                    v.bad(bs, 'other filters')
                if trt in defined:
                    v.bad(bs, 'region type twice')
                if bs.type != 'gmpeModel':
                    v.bad(bs, 'no ground motion models')
                if number:
                    v.bad(bs, 'two branch sets on a level')
            defined.add(trt)
            for b in bs.branches:
                if b.text.strip() not in treegen.GSIMS:
                    if validate:
                        v.bad(b.at, 'unknown model')
                    else:
                        v.trouble.append('unknown model')
            v.weigh(bs, known)
            if v.root is None:
                v.root = bs
            for b in ends:
                v.children[b] = bs
            new.extend(bs.branches)
        ends = new or ends
    if validate and set(trts) - defined:
        v.bad(tree, 'region types without models')
    return v


def judge_gsim(tree, trts):
    v = Verdict()
    v.invalid = []
    if len(set(trts)) < len(trts):
        v.trouble.append('region types twice')
        v.distinct = False
        return v
    v.distinct = True
    found = []
    v.sets = []
    for level in tree.levels:
        if len(level) > 1:
            v.invalid.append('two branch sets on a level')
        for bs in level:
            if bs.type != 'gmpeModel':
                v.invalid.append('no ground motion models')
            trt = bs.filters.get(TRT)
            if trt:
                if trt in found:
                    v.invalid.append('region type twice')
                found.append(trt)
            if trt in trts:
                v.sets.append(bs)
                v.weigh(bs, None)
    if trts and not v.sets:
        v.invalid.append('no region type')
    return v


# ---- a project: a source model tree, its models and a GMPE tree

class Project(object):
    def __init__(self, sim, lt, serial):
        self.sim, self.lt, self.serial = sim, lt, serial
        self.dir = '%s/p%d' % (JOB, serial)
        # the same names in all the projects
        names = sim.shuffled(['m1.xml', 'm2.xml', 'sub/m3.xml'])[:1 + sim.draw(3)]
        self.names = names
        self.models = {}        # name -> specs or what is wrong
        self.good = {}          # name -> specs
        for n in names:
            self.good[n] = [srcgen.Spec(sim, x)
                            for x in sim.shuffled(POOL)[:1 + sim.draw(3)]]
            self.restore(n)
        specs = [sp for n in names for sp in self.good[n]]
        for _ in range(4):
            self.tree = treegen.source_tree(sim, names, sim.draw(4), specs=specs, maxpaths=20)
            if set(b.value for b in self.tree.root.branches) == set(names):
                break
        trts = sorted(set(sp.trt for sp in specs))
        if sim.draw(3) == 1:
            trts = list(srcgen.TRTS)
        self.gtree = treegen.gmpe_tree(sim, sim.shuffled(trts))
        self.wrong = {}         # name of a tree -> what is wrong with its document
        self.tidy = {}
        self.render()

    def path(self, name):
        return posixpath.join(self.dir, name)

    def restore(self, name):
        self.models[name] = self.good[name]
        self.sim.fs.put(self.path(name), srcgen.model_xml(self.good[name]))

    def render(self):
        for name, tree in (('lt.xml', self.tree), ('gmpe.xml', self.gtree)):
            self.wrong.pop(name, None)
            self.tidy[name] = render(self.sim, tree)
            self.sim.fs.put(self.path(name), self.tidy[name])

    # ---- edits
    def edit_model(self):
        sim = self.sim
        n = self.names[sim.draw(len(self.names))]
        k = sim.draw(8)
        specs = list(self.good[n])
        if k == 0:
            what = 'missing'
            self.models[n] = what
            sim.fs.nodes.pop(sim.fs.norm(self.path(n)), None)
        elif k == 1:
            what = 'truncated'
            data = srcgen.model_xml(specs)
            end = data.rindex('</')
            tags = [i + 1 for i, c in enumerate(data[:end]) if c == '>']
            self.models[n] = what
            sim.fs.put(self.path(n), data[:tags[sim.draw(len(tags))]])
        else:
            if k == 2 and len(specs) > 1:
                what = 'removed'
                del specs[sim.draw(len(specs))]
            elif k == 3:
                what = 'added'
                x = POOL[sim.draw(len(POOL))]
                if x not in [sp.id for sp in specs]:
                    specs.insert(sim.draw(len(specs) + 1), srcgen.Spec(sim, x))
            elif k == 4:
                what = 'renamed'
                i = sim.draw(len(specs))
                x = POOL[sim.draw(len(POOL))]
                if x not in [sp.id for sp in specs]:
                    specs[i] = srcgen.Spec(sim, x, specs[i].kind, specs[i].trt)
            elif k == 5:
                what = 'replaced'
                i = sim.draw(len(specs))
                specs[i] = srcgen.Spec(sim, specs[i].id)
            else:
                what = 'restored'
            self.good[n] = specs
            self.restore(n)
        sim.fault('model ' + what)
        return what

    def edit_tree(self):
        """Change something, often breaking a rule; returns what, and how to undo it"""
        sim = self.sim
        gmpe = sim.draw(3) == 1
        self.edited = 'gmpe.xml' if gmpe else 'lt.xml'
        tree = self.gtree if gmpe else self.tree
        sets = [bs for level in tree.levels for bs in level]
        bs = sets[sim.draw(len(sets))]
        br = bs.branches[sim.draw(len(bs.branches))]
        everyone = [b for s in sets for b in s.branches]
        others = [b for b in everyone if b is not br]
        k = sim.draw(18)
        if k == 0 and others:
            return self.change(br, 'id', others[sim.draw(len(others))].id)
        if k == 1:
            off = Decimal(sim.pick('0.001', '-0.001', '0.0000001', '0.1'))
            elsewhere = [b for s in sets if s is not bs for b in s.branches]
            got = self.change(br, 'weight', str(Decimal(br.weight) + off))
            if elsewhere and sim.draw(2):
                # the others make up for it
                b = elsewhere[sim.draw(len(elsewhere))]
                more = self.change(b, 'weight', str(Decimal(b.weight) - off))[1]
                less = got[1]

                def undo():
                    more()
                    less()
                got = got[0], undo
            return got
        if k == 2 and not gmpe:
            pairs = [x for x in sets if x.type == 'abGRAbsolute']
            if pairs and sim.draw(2):
                bs = pairs[sim.draw(len(pairs))]
                br = bs.branches[sim.draw(len(bs.branches))]
            if bs.type == 'abGRAbsolute':
                return self.change(br, 'text', NO_PAIRS[sim.draw(len(NO_PAIRS))])
            if bs.type == 'sourceModel':
                return self.change(br, 'text', sim.pick('nosuch.xml', '../p9/m1.xml',
                                                        self.names[sim.draw(len(self.names))]))
            return self.change(br, 'text', NO_NUMBERS[sim.draw(len(NO_NUMBERS))])
        if k == 2:
            return self.change(br, 'text', sim.pick('NoSuchModel', 'booreatkinson2008',
                                                    'BooreAtkinson2008x', treegen.GSIMS[0]))
        if k == 3 and bs.type not in ('sourceModel', 'abGRAbsolute', 'gmpeModel'):
            return self.change(br, 'text', NUMBERS[sim.draw(len(NUMBERS))])
        if k in (4, 5, 6):
            f = {} if sim.draw(2) else dict(bs.filters)
            for _ in range(sim.draw(3)):
                name = sim.pick(TRT, TYPE, IDS)
                if name == TRT:
                    f[name] = srcgen.TRTS[sim.draw(len(srcgen.TRTS))]
                elif name == TYPE:
                    f[name] = sorted(srcgen.FILTER_NAMES.values())[sim.draw(5)]
                else:
                    f[name] = ' '.join(POOL[sim.draw(len(POOL))]
                                       for _ in range(1 + sim.draw(2)))
            return self.change(bs, 'filters', f)
        if k == 7:
            t = sim.pick('sourceModel', 'gmpeModel', 'bGRRelative', 'maxMagGRAbsolute',
                         'maxMagGRRelative', 'abGRAbsolute')
            return self.change(bs, 'type', t)
        if k in (8, 9) and len(tree.levels) > 1 and not gmpe:
            level = 1 + sim.draw(len(tree.levels) - 1)
            if len(tree.levels[level]) == 1 or sim.draw(2):
                bs = tree.levels[level][sim.draw(len(tree.levels[level]))]
                ids = [b.id for b in everyone]
                to = [ids[sim.draw(len(ids))] for _ in range(1 + sim.draw(2))]
                if sim.draw(2) and bs.to:
                    to = bs.to.split() + to
                if sim.draw(4) == 1:
                    to.append('nosuch')
                if sim.draw(4) == 1:
                    before = [b.id for s in tree.levels[level - 1] for b in s.branches]
                    to = sim.shuffled(before)[:1 + sim.draw(len(before))]
                return self.change(bs, 'to', ' '.join(to))
        if k == 10 and len(tree.levels) > 1:
            # two levels become one; all their sets say where they belong
            i = 0 if not gmpe and sim.draw(2) else sim.draw(len(tree.levels) - 1)
            if not gmpe and i:
                if not all(s.to for s in tree.levels[i] + tree.levels[i + 1]):
                    return None
            levels = list(tree.levels)
            levels[i:i + 2] = [levels[i] + levels[i + 1]]
            return self.change(tree, 'levels', levels)
        if k == 11 and len(tree.levels) > 1:
            levels = list(tree.levels)
            i = sim.draw(len(levels))
            del levels[i]
            return self.change(tree, 'levels', levels)
        if k in (13, 14):
            return self.one_more(tree, gmpe)
        if k in (15, 16) and not gmpe:
            # a filter that says something about these models
            specs = [sp for n in self.names for sp in self.good[n]]
            sets = [x for x in sets if x.type not in ABSOLUTE + ('sourceModel',)]
            if sets:
                bs = sets[sim.draw(len(sets))]
                f = dict(bs.filters) if k == 15 else {}
                f.update(treegen.filters(sim, specs, single=k == 16))
                if sim.draw(2):
                    f[TRT] = srcgen.TRTS[sim.draw(len(srcgen.TRTS))]
                return self.change(bs, 'filters', f)
        if k == 12:
            name = 'gmpe.xml' if gmpe else 'lt.xml'
            data = self.tidy[name]
            end = data.rindex('</')
            tags = [i + 1 for i, c in enumerate(data[:end]) if c == '>']
            self.wrong[name] = 'truncated'
            sim.fs.put(self.path(name), data[:tags[sim.draw(len(tags))]])
            sim.fault('tree truncated')
            return 'truncated', self.render
        return None

    def one_more(self, tree, gmpe):
        """A branch set more, on a level of its own or next to others"""
        sim = self.sim
        last = tree.levels[-1]
        f, to = {}, None
        if gmpe:
            t = sim.pick('gmpeModel', 'gmpeModel', 'bGRRelative')
            f = {TRT: srcgen.TRTS[sim.draw(len(srcgen.TRTS))]}
            texts = treegen.GSIMS[:2]
        else:
            t = sim.pick('sourceModel', 'gmpeModel', 'bGRRelative')
            texts = self.names[:1] if t == 'sourceModel' else sim.pick(('0.5', '1.5'), ('0.25',))
        ws = ('1.0',) if len(texts) == 1 else ('0.4', '0.6')
        bs = treegen.Bset('more', t, f, [treegen.Br('more%d' % i, w, x, x)
                                         for i, (w, x) in enumerate(zip(ws, texts))])
        levels = list(tree.levels)
        k = sim.draw(3)
        if k == 0:
            i = 0 if sim.draw(2) else sim.draw(len(levels))
            if not gmpe and i:
                if not all(s.to for s in levels[i]):
                    return None
                before = [b.id for s in levels[i - 1] for b in s.branches]
                bs.to = before[sim.draw(len(before))]
            at = sim.draw(2) and len(levels[i])
            levels[i] = levels[i][:at] + [bs] + levels[i][at:]
        elif k == 1:
            i = sim.draw(len(levels) + 1)
            levels[i:i] = [[bs]]
        else:
            levels.append([bs])
        return self.change(tree, 'levels', levels)

    def change(self, obj, name, value):
        old = getattr(obj, name)
        if old == value:
            return None
        setattr(obj, name, value)
        self.render()
        self.sim.fault('tree ' + name)

        def undo():
            setattr(obj, name, old)
            self.render()
        return name, undo

    # ---- validations
    def ambiguous(self, validate):
        """Sets of a level that would all belong to the same branches, without a word"""
        for depth, level in enumerate(self.tree.levels):
            if len(level) > 1 and not (validate and depth == 0) and \
                    not all(bs.to for bs in level):
                return True
        return False

    def load_source(self, how, validate):
        if how == 3:
            base = posixpath.relpath(self.dir, self.sim.fs.cwd)
        else:
            base = self.dir
        with env.sim_open(self.path('lt.xml')) as f:
            content = f.read()
        if how == 2:
            content = content.decode('latin1')
        kw = {} if validate and how == 1 else dict(validate=validate)
        return self.lt.SourceModelLogicTree(content, base, 'lt.xml', **kw)

    def load_gmpe(self, trts, how, validate):
        with env.sim_open(self.path('gmpe.xml')) as f:
            content = f.read()
        if how == 2:
            content = content.decode('latin1')
        return self.lt.GMPELogicTree(trts, content, self.dir, 'gmpe.xml', validate=validate)

    def load_gsim(self, trts):
        return self.lt.GsimLogicTree(self.path('gmpe.xml'), TRT, trts)


def flat_source(t, validate):
    out = [flat_bset(t.root_branchset), rlzs(t)]
    if validate:
        out.append((sorted(t.source_ids), sorted(t.tectonic_region_types), sorted(t.source_types)))
    return out


def rlzs(t):
    if t.root_branchset is None:
        return None
    return [(name_of(r.value), Fraction(str(r.weight)), tuple(r.lt_path)) for r in t]


def want_tree(v):
    if v.root is None:
        return [None, None]
    return [v.flat(v.root), [(value_of(v.root, p[0], not v.split), Fraction(str(w)), tuple(b.id for b in p))
                             for w, p in v.paths(v.root)]]


class Task(object):
    """One validation: what is done, and what has to come of it"""
    def __init__(self, sim, lt, project, edited=None):
        self.sim, self.lt, self.project = sim, lt, project
        p = project
        k = sim.draw(5)
        if edited is not None and sim.draw(4):
            k = sim.pick(3, 4) if edited == 'gmpe.xml' else 0
        self.validate = sim.draw(5) > 0
        self.how = sim.draw(4)
        if k == 4:
            self.kind, self.file = 'gsim', 'gmpe.xml'
        elif k == 3:
            self.kind, self.file = 'gmpe', 'gmpe.xml'
        else:
            self.kind, self.file = 'source', 'lt.xml'
        self.skip = False
        if self.kind == 'source':
            self.skip = p.ambiguous(self.validate)
            self.v = judge_source(p.tree, p.models, self.validate)
            self.call = lambda: p.load_source(self.how, self.validate)
        else:
            # mostly those of the source model tree
            v = judge_source(p.tree, p.models, True)
            trts = list(v.data[1])
            if sim.draw(4) == 1 or not trts:
                trts = sim.shuffled(srcgen.TRTS)[:1 + sim.draw(3)]
            if self.kind == 'gmpe':
                self.v = judge_gmpe(p.gtree, trts, self.validate)
                self.call = lambda: p.load_gmpe(trts, self.how, self.validate)
            else:
                if sim.draw(8) == 1:
                    trts.append(trts[0])
                self.v = judge_gsim(p.gtree, trts)
                self.call = lambda: p.load_gsim(trts)
        self.wrong = p.wrong.get(self.file)

    def flat(self, t):
        if self.kind == 'gsim':
            return [sorted((k, [name_of(x) for x in v]) for k, v in t.values.items()),
                    sorted((sorted((k, name_of(x)) for k, x in r.value.items()),
                            Fraction(str(r.weight)), sorted(r.lt_path)) for r in t)]
        return flat_source(t, self.kind == 'source' and self.validate)

    def wanted(self):
        if self.kind == 'gsim':
            want = [([], Fraction(1), [])]
            for bs in self.v.sets:
                want = [(x + [(bs.filters[TRT], b.text.strip())], w * b.exact(), p + [b.id])
                        for x, w, p in want for b in bs.branches]
            return [sorted((bs.filters[TRT], [b.text.strip() for b in bs.branches])
                           for bs in self.v.sets),
                    sorted((sorted(x), w, sorted(p)) for x, w, p in want)]
        out = want_tree(self.v)
        if self.kind == 'source' and self.validate:
            out.append(self.v.data)
        return out

    def name(self):
        return '%s of project %d%s' % (self.file, self.project.serial, {
            'gsim': ' (ground motion models)'}.get(
                self.kind, '' if self.validate else ' (not validated)'))

    def judge(self, ok, res, hit=False):
        """hit: a system call failed meanwhile"""
        sim, v = self.sim, self.v
        what = self.name()
        reasons = [r for _l, r in v.rules] + v.trouble
        if self.kind == 'gsim':
            reasons += getattr(v, 'invalid', [])
        if self.wrong:
            reasons = ['not well-formed']
        if len(set(reasons)) == 1 and not hit:
            sim.probe('only %s: %s' % (self.kind, reasons[0].split(': ')[-1]))
        if ok:
            sim.log('accepted', what, hit)
            if reasons:
                sim.fail('invalid-accepted', '%s was accepted with: %s' % (
                    what, '; '.join(reasons[:4])))
            done, got = sim.attempt(self.flat, res)
            if not done:
                sim.fail('altered-tree', '%s: %s' % (what, core.exc_text(got)))
            want = self.wanted()
            if got != want:
                sim.fail('altered-tree', '%s: %s instead of %s' % (
                    what, core.text(got, 300), core.text(want, 300)))
            return
        sim.log('refused', what, hit, core.exc_text(res))
        err = self.lt
        if not reasons and not hit:
            sim.fail('valid-refused', '%s: %s' % (what, core.exc_text(res)))
        if isinstance(res, err.ValidationError):
            places = [l for l, _r in v.rules]
            if self.wrong or not places:
                sim.fail('valid-refused', '%s: %s, but it is not invalid (%s)' % (
                    what, core.exc_text(res), '; '.join(reasons[:4])))
            if (res.filename, res.lineno) not in [(self.file, l) for l in places]:
                sim.fail('other-place', '%s: %s at line %s of %s, not at %s' % (
                    what, core.exc_text(res), res.lineno, res.filename, v.rules[:4]))
            text = str(res)
            if self.file not in text or str(res.lineno) not in text:
                sim.fail('other-place', '%s: the message names no place: %s' % (what, text))
        elif hit:
            return
        elif isinstance(res, err.ParsingError):
            names = [x.split(': ')[0] for x in v.trouble if x.endswith('truncated')]
            if self.wrong:
                names = [self.file]
            if res.filename not in names:
                sim.fail('other-place', '%s: %s in %s, which is well-formed' % (
                    what, core.exc_text(res), res.filename))
        elif self.kind == 'gsim':
            if not v.trouble and not v.rules and not self.wrong and \
                    not isinstance(res, err.InvalidLogicTree):
                sim.fail('other-error', '%s with %s: %s' % (
                    what, '; '.join(reasons[:4]), core.exc_text(res)))
            if not v.distinct and not isinstance(res, ValueError):
                sim.fail('other-error', '%s, region types given twice: %s' % (
                    what, core.exc_text(res)))
        elif not v.trouble and not self.wrong:
            sim.fail('other-error', '%s with %s: %s' % (
                what, '; '.join(reasons[:4]), core.exc_text(res)))
        elif self.wrong or not v.rules and all(x.endswith('truncated') for x in v.trouble):
            sim.fail('other-error', '%s (%s): %s' % (
                what, '; '.join(reasons[:4]), core.exc_text(res)))


def spoil(t):
    """The caller changes what it got"""
    for name in ('source_ids', 'tectonic_region_types', 'source_types', 'branches', 'open_ends',
                 'values'):
        x = getattr(t, name, None)
        if isinstance(x, (set, dict)):
            x.clear()
    for name in ('source_ids', 'tectonic_region_types', 'source_types'):
        x = getattr(t, name, None)
        if isinstance(x, set):
            x.update(POOL + srcgen.TRTS + tuple(srcgen.FILTER_NAMES.values()))
    if getattr(t, 'root_branchset', None) is not None:
        for b in t.root_branchset.branches:
            b.weight = 0
            b.child_branchset = None


def c27(sim):
    sim.line_budget = 4000000
    lt = env.boot('logictree')
    projects = [Project(sim, lt, i) for i in range(1 + sim.draw(2))]
    kept = []           # (task, tree, its plain data)
    seen = []
    undos = []
    for _ in range(4 + sim.draw(9)):
        p = projects[sim.draw(len(projects))]
        k = sim.draw(10)
        if k in (0, 1, 2):
            got = p.edit_tree()
            if got is not None:
                what, undo = got
                undos.append(undo)
                seen.append(what)
                # the others first
                for _ in range(sim.draw(2)):
                    validate(sim, lt, projects[sim.draw(len(projects))], kept, seen)
                validate(sim, lt, p, kept, seen, p.edited)
                if sim.draw(4):
                    undos.pop()()
                    sim.log('undone', what)
        elif k in (3, 4):
            what = p.edit_model()
            seen.append('model ' + what)
            sim.nontrivial = True
            validate(sim, lt, p, kept, seen)
        elif k == 5:
            task = Task(sim, lt, p)
            if task.skip:
                continue
            sim.nontrivial = True
            sim.fs.arm(sim.draw(sim.pick(4, 12)), sticky=sim.draw(3) == 1,
                       only=sim.pick(None, ('read',), ('open',)))
            if sim.draw(3) == 1:
                sim.fs.short_reads = 40
            before = sim.fs.faults
            ok, res = sim.attempt(task.call)
            hit = sim.fs.faults > before
            sim.fs.disarm()
            sim.fs.short_reads = 0
            seen.append(('fault', hit))
            task.judge(ok, res, hit)
        elif k == 6:
            tasks = [Task(sim, lt, projects[sim.draw(len(projects))])
                     for _ in range(2 + sim.draw(2))]
            tasks = [t for t in tasks if not t.skip]
            th = core.Threads(sim, mean=sim.pick(60, 20, 200))
            for i, t in enumerate(tasks):
                th.spawn('validate%d' % i, t.call)
            th.run()
            sim.nontrivial = True
            seen.append(('threads', len(tasks)))
            for t, x in zip(tasks, th.threads):
                t.judge(x.ok, x.value)
        elif k == 7 and kept:
            task, t, _flat = kept.pop(sim.draw(len(kept)))
            sim.attempt(spoil, t)
            sim.log('spoiled', task.name())
        elif k == 8:
            sim.fs.cwd = sim.pick(JOB, JOB + '/p0', '/sim')
        else:
            validate(sim, lt, p, kept, seen)
    while undos:
        undos.pop()()
    for p in projects:
        for n in p.names:
            p.restore(n)
        validate(sim, lt, p, kept, seen)
    for task, t, flat in kept:
        ok, got = sim.attempt(task.flat, t)
        if not ok or got != flat:
            sim.fail('altered-tree', '%s, loaded before, is now %s instead of %s' % (
                task.name(), core.text(got, 300), core.text(flat, 300)))
    sim.seen(tuple(map(str, seen)))


def validate(sim, lt, p, kept, seen, edited=None):
    task = Task(sim, lt, p, edited)
    if task.skip:
        return
    ok, res = sim.attempt(task.call)
    task.judge(ok, res)
    if ok:
        kept.append((task, res, task.flat(res)))
    else:
        sim.nontrivial = True
    seen.append((task.kind, ok))


WORKLOADS = dict(C27=c27)
