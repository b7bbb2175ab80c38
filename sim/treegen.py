# Generated logic trees: XML text together with the tree it describes.
from decimal import Decimal
from fractions import Fraction
from nrmlgen import wrap, attrs
import srcgen

WEIGHTS = (('1.0',), ('0.5', '0.5'), ('0.3', '0.7'), ('0.0', '1.0'), ('1', '0'),
           ('0.25', '0.0', '0.75'), ('0.333', '0.333', '0.334'), ('0.0', '0', '1.0'),
           ('0.2', '0.2', '0.6'), ('0.1',) * 10, ('0.0', '0.4', '0.0', '0.6'),
           ('0.125', '0.875'))
GSIMS = ('BooreAtkinson2008', 'ChiouYoungs2008', 'AkkarBommer2010', 'SadighEtAl1997',
         'Campbell2003', 'ToroEtAl2002')


class Br(object):
    def __init__(self, ident, weight, value, text):
        self.id, self.weight, self.value, self.text = ident, weight, value, text
        self.child = None

    def exact(self):
        return Fraction(self.weight)


class Bset(object):
    def __init__(self, ident, utype, filters, branches, to=None):
        self.id, self.type, self.filters, self.branches = ident, utype, filters, branches
        self.to = to

    def xml(self):
        out = ['      <logicTreeBranchSet%s>\n' % attrs(
            [('uncertaintyType', self.type), ('branchSetID', self.id)] +
            sorted(self.filters.items()) + [('applyToBranches', self.to)])]
        for b in self.branches:
            out.append('        <logicTreeBranch branchID="%s">\n          <uncertaintyModel>%s'
                       '</uncertaintyModel>\n          <uncertaintyWeight>%s</uncertaintyWeight>\n'
                       '        </logicTreeBranch>\n' % (b.id, b.text, b.weight))
        out.append('      </logicTreeBranchSet>\n')
        return ''.join(out)

    def paths(self):
        """[(weight, [(branch set, branch)])] in order"""
        out = []
        for b in self.branches:
            w = Decimal(b.weight)
            if b.child is None:
                out.append((w, [(self, b)]))
            else:
                out.extend((w * w2, [(self, b)] + p) for w2, p in b.child.paths())
        return out

    def draw(self, numbers):
        """The path that the given random numbers choose"""
        path = []
        bs = self
        numbers = iter(numbers)
        while bs is not None:
            b = slot(bs.branches, [x.exact() for x in bs.branches], next(numbers))
            path.append((bs, b))
            bs = b.child
        return path


def slot(objects, weights, number):
    acc = Fraction(0)
    r = Fraction(*number.as_integer_ratio())
    for o, w in zip(objects, weights):
        acc += w
        if r < acc:
            return o
    raise AssertionError((weights, number))


class Tree(object):
    """A source model or GMPE logic tree"""
    def __init__(self, levels):
        self.levels = levels
        self.root = levels[0][0]

    def xml(self):
        out = ['  <logicTree logicTreeID="lt">\n']
        for i, level in enumerate(self.levels):
            out.append('    <logicTreeBranchingLevel branchingLevelID="bl%d">\n' % i)
            out.extend(bs.xml() for bs in level)
            out.append('    </logicTreeBranchingLevel>\n')
        out.append('  </logicTree>\n')
        return wrap(''.join(out))


def pad(sim, text):
    return sim.pick('%s', '%s', ' %s ', '\n    %s\n  ') % text


def branches(sim, serial, values, weights=None):
    """Branches with weights, one for each of the values given by the function"""
    ws = weights or WEIGHTS[sim.draw(len(WEIGHTS))]
    if sim.draw(2):
        ws = sim.shuffled(ws)
    out = []
    for w in ws:
        serial[0] += 1
        value, text = values(len(out))
        out.append(Br('b%d' % serial[0] if sim.draw(2) else 'x%03d' % (500 - serial[0]), w, value,
                      pad(sim, text)))
    return out


def source_tree(sim, models, depth, single_filter=True, specs=(), maxpaths=400,
                nested=False):
    """
    A source model logic tree over the given model names; specs are the
    sources of all the models
    """
    serial = [0]
    names = list(models)
    root = Bset('bs0', 'sourceModel', {}, branches(
        sim, serial, lambda i: (names[i % len(names)],) * 2))
    levels = [[root]]
    ends = list(root.branches)
    npaths = len(ends)
    for d in range(depth):
        level = []
        k = sim.draw(3)
        if k == 0 or len(ends) == 1:
            groups = [(None, list(ends))]
        else:
            rest = sim.shuffled(ends)
            groups = []
            for _ in range(min(k, len(rest))):
                n = 1 + sim.draw(len(rest))
                groups.append((True, rest[:n]))
                rest = rest[n:]
                if not rest:
                    break
        new = []
        for to, parents in groups:
            utype, filters, values = uncertainty(sim, specs, single_filter)
            if nested and sim.draw(4) == 1:
                # only without validation
                utype, filters = 'sourceModel', {}
                off = sim.draw(len(names))
                values = lambda i, off=off: (names[(i + off) % len(names)],) * 2
            ws = None
            if npaths > maxpaths / 10:
                ws = ('0.4', '0.6') if npaths < maxpaths else ('1.0',)
            bs = Bset('bs%d' % (1 + d * 10 + len(level)), utype, filters,
                      branches(sim, serial, values, ws),
                      ' '.join(b.id for b in parents) if to else None)
            for b in parents:
                b.child = bs
            level.append(bs)
            new.extend(bs.branches)
        levels.append(level)
        ends = new
        npaths = len(root.paths())
    return Tree(levels)


def num(v):
    return '%.3f' % v


def uncertainty(sim, specs, single):
    """(type, filters, function giving the value and text of branch i)"""
    k = sim.draw(4)
    sid = specs[sim.draw(len(specs))].id if specs else None
    if k >= 2 and sid is None:
        k -= 2
    if k == 0:
        vals = [0.1, -0.1, 0.05, 0.15, 0.0]
        off = sim.draw(5)
        return 'bGRRelative', filters(sim, specs, single), \
            lambda i: (vals[(i + off) % 5], num(vals[(i + off) % 5]))
    if k == 1:
        vals = [0.2, -0.1, 0.3, 0.0, 0.5]
        off = sim.draw(5)
        return 'maxMagGRRelative', filters(sim, specs, single), \
            lambda i: (vals[(i + off) % 5], num(vals[(i + off) % 5]))
    only = dict(applyToSources=sid)
    if k == 2:
        return 'maxMagGRAbsolute', only, lambda i: (9.0 + i * 0.25, num(9.0 + i * 0.25))
    return 'abGRAbsolute', only, lambda i: (
        (3.0 + i, 1.25 + 0.25 * i), '%s %s' % (num(3.0 + i), num(1.25 + 0.25 * i)))


def filters(sim, specs, single):
    out = {}
    if not specs:
        return out
    n = sim.draw(2) if single else sim.draw(4)
    keys = sim.shuffled(['applyToTectonicRegionType', 'applyToSourceType', 'applyToSources'])[:n]
    for k in keys:
        sp = specs[sim.draw(len(specs))]
        if k == 'applyToTectonicRegionType':
            out[k] = sp.trt
        elif k == 'applyToSourceType':
            out[k] = srcgen.FILTER_NAMES[sp.kind]
        else:
            ids = [sp.id]
            for _ in range(sim.draw(3)):
                ids.append(specs[sim.draw(len(specs))].id)
            out[k] = ' '.join(ids)
    return out


def passes(filters, spec):
    for k, v in filters.items():
        if k == 'applyToTectonicRegionType' and v != spec.trt:
            return False
        if k == 'applyToSourceType' and v != srcgen.FILTER_NAMES[spec.kind]:
            return False
        if k == 'applyToSources' and spec.id not in v.split():
            return False
    return True


def gmpe_tree(sim, trts, sets_by_file=None):
    """A GMPE logic tree: one branch set for each tectonic region type"""
    serial = [0]
    levels = []
    ends = []
    ids = sim.shuffled(['bs%d' % i for i in range(len(trts))])
    npaths = 1
    for i, trt in enumerate(trts):
        off = sim.draw(len(GSIMS))
        ws = None
        if npaths > 30:
            ws = ('0.4', '0.6') if npaths < 300 else ('1.0',)
        bs = Bset(ids[i], 'gmpeModel', dict(applyToTectonicRegionType=trt), branches(
            sim, serial, lambda j: (GSIMS[(j + off) % len(GSIMS)],) * 2, ws))
        for b in ends:
            b.child = bs
        ends = bs.branches
        npaths *= len(ends)
        levels.append([bs])
    return Tree(levels)
