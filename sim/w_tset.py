# Workload over openquake.commonlib.{converter,record,records}: table sets made of models, edited
# and made into models again.  The tables expected are computed from the XML alone.
import core
import env
import nrmlgen
import xmlsim
from nrmlgen import tag, kids, one, toks
from w_storage import ROOT, arm, boot, calm

RECORDTYPES = dict(
    vulnerability='DiscreteVulnerabilitySet DiscreteVulnerability DiscreteVulnerabilityData',
    discrete='FragilityDiscrete FFLimitStateDiscrete FFSetDiscrete FFDataDiscrete',
    continuous='FragilityContinuous FFLimitStateContinuous FFSetContinuous FFDataContinuous',
    exposure='Location Exposure CostType Asset Occupancy Cost',
    gmf='GmfCollection GmfSet Gmf GmfData')


def strip(el):
    return (el.text or '').strip()


def optional(el, *path):
    for name in path[:-1]:
        found = kids(el, name)
        if not found:
            return ''
        el = found[0]
    return el.attrib.get(path[-1], '')


# ---- the model as plain data: what the tables must say, without the numbers given to locations,
# sets of functions and sets of fields

class Plain(object):
    """A model: head (a list), and lists of items"""
    def __init__(self, kind):
        self.kind = kind


def read_model(text):
    root, _ended, err = xmlsim.parse_bytes(text)
    if err is not None:
        raise ValueError('not XML: %s' % err)
    m = root.children[0]
    t = tag(m)
    a = m.attrib
    if t == 'vulnerabilityModel':
        p = Plain('vulnerability')
        # [set id, asset category, loss category, imt, [[function, distribution, [(iml, lr, cov)]]]
        p.sets = []
        for s in m.children:
            iml = one(s, 'IML')
            b = s.attrib
            funs = []
            for f in kids(s, 'discreteVulnerability'):
                funs.append([f.attrib['vulnerabilityFunctionID'],
                             f.attrib['probabilisticDistribution'],
                             [list(x) for x in zip(toks(iml), toks(one(f, 'lossRatio')),
                                                   toks(one(f, 'coefficientsVariation')))]])
            p.sets.append([b['vulnerabilitySetID'], b['assetCategory'], b['lossCategory'],
                           iml.attrib['IMT'], funs])
        return p
    if t == 'fragilityModel':
        p = Plain(a['format'])
        p.states = toks(one(m, 'limitStates'))
        p.description = strip(one(m, 'description'))
        p.sets = []     # [[taxonomy, ...], {limit state: data}]
        for s in kids(m, 'ffs'):
            iml = one(s, 'IML')
            b = iml.attrib
            if p.kind == 'discrete':
                head = [strip(one(s, 'taxonomy')), s.attrib.get('noDamageLimit', ''), b['IMT'],
                        b['imlUnit']]
                data = [[list(x) for x in zip(toks(iml), toks(one(f, 'poEs')))]
                        for f in kids(s, 'ffd')]
            else:
                head = [strip(one(s, 'taxonomy')), s.attrib.get('noDamageLimit', ''),
                        s.attrib.get('type', ''), b['IMT'], b['imlUnit'], b['minIML'], b['maxIML']]
                data = [[one(f, 'params').attrib['mean'], one(f, 'params').attrib['stddev']]
                        for f in kids(s, 'ffc')]
            p.sets.append([head, data])
        return p
    if t == 'exposureModel':
        p = Plain('exposure')
        p.head = [a['id'], a['category'], a.get('taxonomySource', 'UNKNOWN'),
                  strip(one(m, 'description')),
                  optional(m, 'conversions', 'area', 'type'),
                  optional(m, 'conversions', 'area', 'unit')]
        # these are for buildings
        p.flags = [optional(m, 'conversions', n, 'isAbsolute')
                   for n in ('deductible', 'insuranceLimit')]
        p.ctypes = []
        for c in kids(m, 'conversions'):
            for cts in kids(c, 'costTypes'):
                for x in cts.children:
                    p.ctypes.append([x.attrib.get(n, '') for n in (
                        'name', 'type', 'unit', 'retrofittedType', 'retrofittedUnit')])
        # [(lon, lat), ref, taxonomy, number, area, costs, occupancies]
        p.assets = []
        for x in one(m, 'assets').children:
            b = x.attrib
            loc = one(x, 'location').attrib
            costs = [[y.attrib.get(n, '') for n in ('type', 'value', 'retrofitted', 'deductible',
                                                    'insuranceLimit')]
                     for c in kids(x, 'costs') for y in c.children]
            occs = [[y.attrib['period'], y.attrib['occupants']]
                    for c in kids(x, 'occupancies') for y in c.children]
            p.assets.append([(loc['lon'], loc['lat']), b['id'], b['taxonomy'], b['number'],
                             b.get('area', ''), costs, occs])
        return p
    p = Plain('gmf')

    def gset(s):
        return [[tuple(sorted((k, v) for k, v in g.attrib.items())),
                 [[n.attrib['lon'], n.attrib['lat'], n.attrib['gmv']] for n in g.children]]
                for g in s.children]
    if t == 'gmfSet':
        p.paths = None
        p.sets = [[None, '', gset(m)]]
        return p
    p.paths = [a['sourceModelTreePath'], a['gsimTreePath']]
    p.sets = [[s.attrib['stochasticEventSetId'], s.attrib.get('investigationTime', ''), gset(s)]
              for s in m.children]
    return p


def imt_rup(key):
    d = dict(key)
    imt = d['IMT']
    if imt == 'SA':
        imt = 'SA(%s)' % d['saPeriod']
    return imt, d.get('ruptureId', '')


def key_of(imt, rup):
    d = dict(IMT=imt)
    if imt.startswith('SA'):
        d = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5')
    if rup:
        d['ruptureId'] = rup
    return tuple(sorted(d.items()))


def canonical(p):
    """The form of nrmlgen.canonical of the model"""
    def at(*pairs):
        return sorted((k, v) for k, v in pairs if v)
    if p.kind == 'vulnerability':
        return ['vulnerabilityModel', []] + [
            [at(('vulnerabilitySetID', s[0]), ('assetCategory', s[1]), ('lossCategory', s[2])),
             [('IMT', s[3])], [x[0] for x in s[4][0][2]],
             [[at(('vulnerabilityFunctionID', f[0]), ('probabilisticDistribution', f[1])),
               [x[1] for x in f[2]], [], [x[2] for x in f[2]], []] for f in s[4]]]
            for s in p.sets]
    if p.kind in ('discrete', 'continuous'):
        res = ['fragilityModel', [('format', p.kind)], p.description, list(p.states)]
        for head, data in p.sets:
            if p.kind == 'discrete':
                item = [at(('noDamageLimit', head[1])), head[0],
                        at(('IMT', head[2]), ('imlUnit', head[3])), [x[0] for x in data[0]]]
                item += [[[('ls', ls)], [x[1] for x in d]] for ls, d in zip(p.states, data)]
            else:
                item = [at(('noDamageLimit', head[1]), ('type', head[2])), head[0],
                        at(*zip(('IMT', 'imlUnit', 'minIML', 'maxIML'), head[3:])), []]
                item += [[[('ls', ls)], at(('mean', d[0]), ('stddev', d[1]))]
                         for ls, d in zip(p.states, data)]
            res.append(item)
        return res
    if p.kind == 'exposure':
        h = p.head
        res = ['exposureModel', [('category', h[1]), ('id', h[0]), ('taxonomySource', h[2])], h[3]]
        conv = []
        if h[4]:
            conv.append(['area', at(('type', h[4]), ('unit', h[5])), []])
        if h[1] == 'buildings':
            names = ('name', 'type', 'unit', 'retrofittedType', 'retrofittedUnit')
            conv.append(['costTypes', [], [at(*zip(names, c)) for c in p.ctypes]])
            for n, flag in zip(('deductible', 'insuranceLimit'), p.flags):
                if flag:
                    conv.append([n, [('isAbsolute', flag)], []])
        if conv:
            res.append(['conversions'] + sorted(conv))
        names = ('type', 'value', 'retrofitted', 'deductible', 'insuranceLimit')
        for loc, ref, tax, num, area, costs, occs in p.assets:
            res.append(['asset', at(('id', ref), ('taxonomy', tax), ('number', num), ('area', area)),
                        [('lat', loc[1]), ('lon', loc[0])],
                        sorted(at(*zip(names, c)) for c in costs),
                        sorted(at(('period', o[0]), ('occupants', o[1])) for o in occs),
                        int(bool(costs)), int(bool(occs))])
        return res

    def gset(s):
        return [at(('stochasticEventSetId', s[0]), ('investigationTime', s[1]))] + [
            [list(key)] + [['node', [('gmv', g), ('lat', lat), ('lon', lon)]]
                           for lon, lat, g in sites] for key, sites in s[2] if sites]
    if p.paths is None:
        return ['gmfSet'] + gset(p.sets[0])
    return ['gmfCollection', at(('sourceModelTreePath', p.paths[0]), ('gsimTreePath', p.paths[1]))
            ] + [gset(s) for s in p.sets]


# ---- the tables

class Bad(Exception):
    pass


def same(got, want, what):
    if got != want:
        raise Bad('%s: %s' % (what, nrmlgen.describe(got, want)))


def refs(ids, what):
    """The position of each identifier"""
    d = dict((x, i) for i, x in enumerate(ids))
    if len(d) != len(ids):
        raise Bad('%s: identifiers %s' % (what, ids))

    def resolve(x):
        if x not in d:
            raise Bad('no record in %s for %r' % (what, x))
        return d[x]
    return resolve


def judge(p, rows):
    """Compare the rows of the tables, by record type, with the model"""
    want = RECORDTYPES[p.kind].split()
    if sorted(rows) != sorted(want):
        raise Bad('tables %s' % sorted(rows))
    r = [rows[n] for n in want]
    for n, table in zip(want, r):
        for row in table:
            if not all(isinstance(x, basestring) for x in row):
                raise Bad('%s: %s are not strings' % (n, row))
    if p.kind == 'vulnerability':
        same(r[0], [s[:4] for s in p.sets], want[0])
        same(r[1], [[s[0]] + f[:2] for s in p.sets for f in s[4]], want[1])
        same(r[2], [[s[0], f[0]] + x for s in p.sets for f in s[4] for x in f[2]], want[2])
    elif p.kind in ('discrete', 'continuous'):
        same([[x[0], x[1], x[2].split()] for x in r[0]], [[p.kind, p.description, p.states]], want[0])
        same(r[1], [[x] for x in p.states], want[1])
        same([x[1:] for x in r[2]], [head for head, _d in p.sets], want[2])
        which = refs([x[0] for x in r[2]], want[2])
        got = [[x[0], which(x[1])] + x[2:] for x in r[3]]
        if p.kind == 'discrete':
            same(got, [[ls, i] + x for i, (_h, data) in enumerate(p.sets)
                       for ls, d in zip(p.states, data) for x in d], want[3])
        else:
            same(got, [[ls, i, n, x] for i, (_h, data) in enumerate(p.sets)
                       for ls, d in zip(p.states, data)
                       for n, x in zip(('mean', 'stddev'), d)], want[3])
    elif p.kind == 'exposure':
        where = refs([x[0] for x in r[0]], 'Location')
        places = [tuple(x[1:]) for x in r[0]]
        if len(set(places)) != len(places):
            raise Bad('Location: %s' % places)
        head = r[1]
        flags = p.flags if p.head[1] == 'buildings' else ['', '']
        same([(x + [''] * 8)[:8] for x in head], [p.head + flags], 'Exposure')
        same(r[2], p.ctypes, 'CostType')
        same([[places[where(x[0])]] + x[1:] for x in r[3]], [a[:5] for a in p.assets], 'Asset')
        # the locations in the order of the assets, unless these were removed
        used = []
        for a in p.assets:
            if a[0] not in used:
                used.append(a[0])
        same([x for x in places if x in used], p_order(used, p), 'Location')
        same(sorted(set(places)), sorted(set(used) | set(getattr(p, 'unused', ()))), 'Location')
        same(r[4], [[a[1]] + o for a in p.assets for o in a[6]], 'Occupancy')
        same(r[5], [[a[1]] + c for a in p.assets for c in a[5]], 'Cost')
    else:
        same(r[0], [] if p.paths is None else [p.paths], 'GmfCollection')
        same([x[1] for x in r[1]], [s[1] for s in p.sets], 'GmfSet')
        if p.paths is not None:
            same([x[0] for x in r[1]], [s[0] for s in p.sets], 'GmfSet')
        which = refs([x[0] for x in r[1]], 'GmfSet')
        same([[which(x[0])] + x[1:] for x in r[2]],
             [[i] + list(imt_rup(k)) for i, s in enumerate(p.sets) for k, _sites in s[2]], 'Gmf')
        same([[which(x[0])] + x[1:] for x in r[3]],
             [[i] + list(imt_rup(k)) + x for i, s in enumerate(p.sets)
              for k, sites in s[2] for x in sites], 'GmfData')


def p_order(used, p):
    """The order of the locations: that of their first use in the original model"""
    first = getattr(p, 'places', used)
    return [x for x in first if x in used]


# ---- table sets

class TSet(object):
    """A table set and the model it must stand for"""
    def __init__(self, sim, mods, text, tset):
        self.sim, self.mods, self.tset = sim, mods, tset
        self.p = read_model(text)
        if self.p.kind == 'exposure':
            self.p.unused = []
            self.p.places = []
            for a in self.p.assets:
                if a[0] not in self.p.places:
                    self.p.places.append(a[0])
        if canonical(self.p) != nrmlgen.canonical(text):
            raise core.HarnessError('canonical form: %s' % nrmlgen.describe(
                canonical(self.p), nrmlgen.canonical(text)))

    @property
    def serial(self):
        return self.sim.state.get('serial', 0)

    @serial.setter
    def serial(self, value):
        self.sim.state['serial'] = value

    def table(self, name):
        return getattr(self.tset, 'table' + name)

    def check(self, what):
        sim = self.sim
        names = [t.recordtype.__name__ for t in self.tset.tables]
        sim.check(names == RECORDTYPES[self.p.kind].split(), 'wrong-tables', '%s: tables %s', what,
                  names)
        slow = sim.draw(4) == 1
        rows = dict((t.recordtype.__name__, [
            list(rec if slow else getattr(rec, 'row', rec)) for rec in t]) for t in self.tset.tables)
        try:
            judge(self.p, rows)
        except Bad as e:
            sim.fail('wrong-tables', '%s: %s' % (what, e))
        full = [t.recordtype.__name__ for t in self.tset]
        sim.check(full == [n for n in names if rows[n]], 'wrong-tables', '%s: filled tables %s',
                  what, full)
        if not slow and what != 'new':
            return
        for t in self.tset.tables:
            ok, res = sim.attempt(t.is_valid)
            sim.check(ok and res is True, 'wrong-tables', '%s: %s is not valid: %s', what,
                      t.recordtype.__name__, core.text(res))
            # what is printed is CSV without quotes
            want = '\n'.join(','.join(row) for row in rows[t.recordtype.__name__])
            ok, res = sim.attempt(str, t)
            sim.check(ok and res == want, 'wrong-tables', '%s: text of %s: %s', what,
                      t.recordtype.__name__, core.text(res))

    def to_node(self):
        tset = self.tset
        if self.sim.draw(3) == 1:
            return self.sim.must('conversion-failed', lambda: tset.convertertype(tset).to_node())
        return self.sim.must('conversion-failed', tset.to_node)

    def written(self, node):
        cm = self.mods
        mem = cm.MemArchive([])
        with mem.open('x.xml', 'w') as f:
            self.sim.must('conversion-failed', cm.node_to_nrml, node, f)
        return mem.open('x.xml').read()

    def compare(self, node, what):
        same_form(self.sim, self.written(node), canonical(self.p), what)

    # ---- edits: of the tables, and of the model
    def edit(self):
        sim = self.sim
        what = getattr(self, 'edit_' + self.p.kind if self.p.kind not in (
            'discrete', 'continuous') else 'edit_fragility')()
        if what:
            sim.log('edit', what)

    def put(self, name, i, row):
        """Change a record, in place or by another one"""
        sim, table = self.sim, self.table(name)
        rt = table.recordtype
        old = list(table[i])
        keys = [f for u in rt.get_descriptors(self.mods.record.Unique) for f in u.names]
        changed = [f for f, a, b in zip(rt.fieldnames, old, row) if a != b]
        if not set(keys) & set(changed) and sim.draw(2):
            for f in changed:
                sim.must('edit-failed', table[i].__setitem__, f, row[list(rt.fieldnames).index(f)])
        else:
            sim.must('edit-failed', table.__setitem__, i, rt(*row))

    def find(self, name, **fields):
        table = self.table(name)
        return [i for i, rec in enumerate(table)
                if all(rec[f] == v for f, v in fields.items())]

    def remove(self, name, **fields):
        table = self.table(name)
        for i in reversed(self.find(name, **fields)):
            self.sim.must('edit-failed', table.__delitem__, i)

    def add(self, name, *row):
        rt = getattr(self.mods.records, name)
        self.sim.must('edit-failed', self.tset.insert, rt(*row))

    def num(self):
        self.serial += 1
        return '%d.%d' % (self.sim.draw(9), self.serial)

    def edit_vulnerability(self):
        sim, p = self.sim, self.p
        k = sim.draw(6)
        s = sim.choice(p.sets)
        f = sim.choice(s[4])
        if k in (0, 1):
            # a loss ratio, a coefficient
            x = sim.choice(f[2])
            [i] = self.find('DiscreteVulnerabilityData', vulnerabilitySetID=s[0],
                            vulnerabilityFunctionID=f[0], IML=x[0])
            x[1] = sim.pick('0.125', '0.75', '1.0')
            x[2] = sim.pick('0.375', '0', '0.5')
            self.put('DiscreteVulnerabilityData', i, [s[0], f[0]] + x)
            return 'data'
        if k == 2:
            # a level of the set
            j = sim.draw(len(f[2]))
            new = f[2][j][0] + '0'
            for g in s[4]:
                [i] = self.find('DiscreteVulnerabilityData', vulnerabilitySetID=s[0],
                                vulnerabilityFunctionID=g[0], IML=g[2][j][0])
                g[2][j][0] = new
                self.put('DiscreteVulnerabilityData', i, [s[0], g[0]] + g[2][j])
            return 'level'
        if k == 3:
            [i] = self.find('DiscreteVulnerabilitySet', vulnerabilitySetID=s[0])
            s[1:4] = [sim.pick('population', 'buildings'), 'loss %d' % sim.draw(9),
                      sim.pick('PGA', 'MMI', 'SA(0.7)')]
            self.put('DiscreteVulnerabilitySet', i, s[:4])
            [i] = self.find('DiscreteVulnerability', vulnerabilitySetID=s[0],
                            vulnerabilityFunctionID=f[0])
            f[1] = sim.pick('BT', 'LN')
            self.put('DiscreteVulnerability', i, [s[0]] + f[:2])
            return 'set'
        if k == 4 and len(s[4]) > 1:
            self.remove('DiscreteVulnerabilityData', vulnerabilitySetID=s[0],
                        vulnerabilityFunctionID=f[0])
            self.remove('DiscreteVulnerability', vulnerabilitySetID=s[0],
                        vulnerabilityFunctionID=f[0])
            s[4].remove(f)
            return 'function removed'
        # a function more; new records go to the end of the tables
        s = p.sets[-1]
        self.serial += 1
        g = ['new%d' % self.serial, sim.pick('LN', 'BT'),
             [[x[0], '0.5', sim.pick('0', '0.25')] for x in s[4][0][2]]]
        self.add('DiscreteVulnerability', s[0], g[0], g[1])
        for x in g[2]:
            self.add('DiscreteVulnerabilityData', s[0], g[0], *x)
        s[4].append(g)
        return 'function added'

    def edit_fragility(self):
        sim, p = self.sim, self.p
        cap = p.kind.capitalize()
        k = sim.draw(6)
        heads, datas = 'FFSet' + cap, 'FFData' + cap
        n = sim.draw(len(p.sets))
        s = p.sets[n]
        ordinal = self.table(heads)[n]['ordinal']
        j = sim.draw(len(p.states))
        if k in (0, 1):
            d = s[1][j]
            if p.kind == 'discrete':
                x = sim.choice(d)
                [i] = self.find(datas, limitState=p.states[j], ffs_ordinal=ordinal, iml=x[0])
                x[1] = sim.pick('0.125', '0.75', '1.0')
                self.put(datas, i, [p.states[j], ordinal] + x)
            else:
                m = sim.draw(2)
                name = ('mean', 'stddev')[m]
                [i] = self.find(datas, limitState=p.states[j], ffs_ordinal=ordinal, param=name)
                d[m] = self.num()
                self.put(datas, i, [p.states[j], ordinal, name, d[m]])
            return 'data'
        if k == 2:
            s[0][0] = 'tax %d' % sim.draw(20)
            s[0][1] = sim.pick('', self.num())
            self.put(heads, n, [ordinal] + s[0])
            return 'set'
        if k == 3:
            p.description = sim.pick('', 'other', 'some words')
            self.put('Fragility' + cap, 0, [p.kind, p.description, ' '.join(p.states)])
            return 'description'
        if k == 4 and len(p.sets) > 1:
            self.remove(datas, ffs_ordinal=ordinal)
            self.remove(heads, ordinal=ordinal)
            p.sets.remove(s)
            return 'set removed'
        used = set(rec['ordinal'] for rec in self.table(heads))
        new = [x for x in map(str, range(20, 100)) if x not in used][sim.draw(3)]
        if p.kind == 'discrete':
            head = ['new tax', sim.pick('', '0.25'), 'PGA', 'g']
            data = [[['%d.5' % (i + 1), sim.pick('0.5', '0.25')]
                     for i in range(len(s[1][0]))] for _ in p.states]
            rows = [[ls, new] + x for ls, d in zip(p.states, data) for x in d]
        else:
            head = ['new tax', sim.pick('', '0.25'), sim.pick('', 'lognormal'), 'PGA', 'g', '0', '9']
            data = [[self.num(), self.num()] for _ in p.states]
            rows = [[ls, new, a, b] for ls, d in zip(p.states, data)
                    for a, b in zip(('mean', 'stddev'), d)]
        self.add(heads, new, *head)
        for row in rows:
            self.add(datas, *row)
        p.sets.append([head, data])
        return 'set added'

    def edit_exposure(self):
        sim, p = self.sim, self.p
        k = sim.draw(7)
        if k == 6 or not p.assets:
            p.head[3] = sim.pick('', 'other', 'some words')
            row = (list(self.table('Exposure')[0]) + [''] * 8)[:len(self.table('Exposure')[0].row)]
            row[3] = p.head[3]
            self.put('Exposure', 0, row)
            return 'description'
        a = sim.choice(p.assets)
        ref = a[1]
        [i] = self.find('Asset', asset_ref=ref)
        loc_id = self.table('Asset')[i]['location_id']
        if k == 0:
            a[2], a[3] = sim.pick('RC', 'new tax'), self.num()
            if a[4]:
                a[4] = sim.pick('', self.num())
            self.put('Asset', i, [loc_id] + a[1:5])
            return 'asset'
        if k == 1 and a[5]:
            c = sim.choice(a[5])
            [i] = self.find('Cost', asset_ref=ref, type=c[0])
            if sim.draw(3) == 1:
                self.remove('Cost', asset_ref=ref, type=c[0])
                a[5].remove(c)
                return 'cost removed'
            c[1:] = [self.num()] + [sim.pick('', '0.5') for _ in range(3)]
            self.put('Cost', i, [ref] + c)
            return 'cost'
        if k == 2 and a[6]:
            o = sim.choice(a[6])
            [i] = self.find('Occupancy', asset_ref=ref, period=o[0])
            if sim.draw(3) == 1:
                self.remove('Occupancy', asset_ref=ref, period=o[0])
                a[6].remove(o)
                return 'occupancy removed'
            o[1] = self.num()
            self.put('Occupancy', i, [ref] + o)
            return 'occupancy'
        if k == 3:
            # to another place
            other = sim.choice(p.assets)[0]
            [j] = self.find('Location', lon=other[0], lat=other[1])
            self.put('Asset', i, [self.table('Location')[j]['id']] + a[1:5])
            if not any(b[0] == a[0] for b in p.assets if b is not a):
                p.unused.append(a[0])
            a[0] = other
            return 'moved'
        if k == 4:
            for name in ('Cost', 'Occupancy', 'Asset'):
                self.remove(name, asset_ref=ref)
            p.assets.remove(a)
            if not any(b[0] == a[0] for b in p.assets):
                p.unused.append(a[0])
            return 'asset removed'
        self.serial += 1
        b = [a[0], 'new%d' % self.serial, 'RC', self.num(), '', [], []]
        if p.ctypes and sim.draw(2):
            b[5].append([sim.choice(p.ctypes)[0], self.num(), '', sim.pick('', '0.5'), ''])
        for period in ('day', 'evening'):
            if sim.draw(2):
                b[6].append([period, self.num()])
        # as the records come
        for o in b[6]:
            self.add('Occupancy', b[1], *o)
        for c in b[5]:
            self.add('Cost', b[1], *c)
        self.add('Asset', loc_id, *b[1:5])
        p.assets.append(b)
        return 'asset added'

    def edit_gmf(self):
        sim, p = self.sim, self.p
        k = sim.draw(5)
        n = sim.draw(len(p.sets))
        s = p.sets[n]
        sid = self.table('GmfSet')[n]['stochasticEventSetId']
        g = sim.choice(s[2]) if s[2] else None
        if k in (0, 1) and g:
            imt, rup = imt_rup(g[0])
            x = sim.choice(g[1])
            [i] = self.find('GmfData', stochasticEventSetId=sid, imtStr=imt, ruptureId=rup,
                            lon=x[0], lat=x[1])
            x[2] = self.num()
            self.put('GmfData', i, [sid, imt, rup] + x)
            return 'value'
        if k == 2 and len(s[2]) > 1:
            imt, rup = imt_rup(g[0])
            self.remove('GmfData', stochasticEventSetId=sid, imtStr=imt, ruptureId=rup)
            self.remove('Gmf', stochasticEventSetId=sid, imtStr=imt, ruptureId=rup)
            s[2].remove(g)
            return 'field removed'
        if k == 3 and p.paths is not None:
            s[1] = self.num()
            self.put('GmfSet', n, [sid, s[1]])
            return 'set'
        # a field more; new records go to the end of the tables
        s = p.sets[-1]
        sid = self.table('GmfSet')[len(p.sets) - 1]['stochasticEventSetId']
        self.serial += 1
        imt = sim.pick('PGA', 'SA(%d.5)' % (self.serial + 3))
        rup = 'new%d' % self.serial if p.paths is not None else ''
        if p.paths is None:
            imt = 'SA(%d.5)' % (self.serial + 3)
        g = [key_of(imt, rup), [[str(i), '%d.5' % i, self.num()] for i in range(1 + sim.draw(3))]]
        self.add('Gmf', sid, imt, rup)
        for x in g[1]:
            self.add('GmfData', sid, imt, rup, *x)
        s[2].append(g)
        return 'field added'

    def nonsense(self):
        """Numbers no vulnerability function can have: no model is made of them"""
        sim, p = self.sim, self.p
        if p.kind != 'vulnerability':
            return
        s = sim.choice(p.sets)
        f = sim.choice(s[4])
        j = sim.draw(len(f[2]))
        x = list(f[2][j])
        [i] = self.find('DiscreteVulnerabilityData', vulnerabilitySetID=s[0],
                        vulnerabilityFunctionID=f[0], IML=x[0])
        if j and sim.draw(2):
            x[0] = '-1'
        else:
            x[1:] = [sim.pick('0', '0.0'), '0.5']
        rt = self.mods.records.DiscreteVulnerabilityData
        table = self.table('DiscreteVulnerabilityData')
        sim.must('edit-failed', table.__setitem__, i, rt(s[0], f[0], *x))
        ok, res = sim.attempt(self.tset.to_node)
        sim.check(not ok, 'nonsense-accepted', 'a model with %s in function %s of set %s', x, f[0],
                  s[0])
        sim.must('edit-failed', table.__setitem__, i, rt(s[0], f[0], *f[2][j]))
        sim.probe('nonsense')


def same_form(sim, text, want, what):
    try:
        have = nrmlgen.canonical(text)
    except ValueError as e:
        sim.fail('wrong-model', '%s: %s' % (what, e))
    if have != want:
        sim.fail('wrong-model', '%s: %s' % (what, nrmlgen.describe(have, want)))


def spoil(sim, node):
    """What a caller may do to a result"""
    for _ in range(1 + sim.draw(3)):
        sub = node
        while sub.nodes and sim.draw(3):
            if not isinstance(sub.nodes, list):
                sub.nodes = list(sub.nodes)
                if not sub.nodes:
                    break
            sub = sim.choice(sub.nodes)
        k = sim.draw(4)
        if k == 0:
            sub.attrib.clear()
        elif k == 1:
            sub.text = 'spoiled'
        elif k == 2:
            sub.nodes = []
        else:
            sub.tag = 'spoiled'


def in_turns(sim, nodes):
    """The assets are generated when they are needed"""
    its = [(n, iter(n.nodes), []) for n in nodes]
    todo = list(its)
    while todo:
        it = sim.choice(todo)
        ok, x = sim.attempt(next, it[1])
        if ok:
            it[2].append(x)
            continue
        sim.check(isinstance(x, StopIteration), 'conversion-failed', '%s', core.text(x))
        todo.remove(it)
    for n, _it, found in its:
        n.nodes = found


class Source(object):
    """A model to be converted, again and again"""
    def __init__(self, sim, mods, i, text):
        self.sim, self.mods, self.text = sim, mods, text
        self.path = '%s/m%d.xml' % (ROOT, i)
        sim.fs.put(self.path, text)
        self.node = sim.must('parse-failed', lambda: mods.node_from_nrml(self.path)[0])
        self.form = nrmlgen.canonical(text)

    def check(self):
        """The node converted is what it was"""
        mem = self.mods.MemArchive([])
        with mem.open('x.xml', 'w') as f:
            self.mods.node_to_nrml(self.node, f)
        same_form(self.sim, mem.open('x.xml').read(), self.form, 'the node converted')

    def convertertype(self):
        conv = self.mods.converter
        t = read_model(self.text).kind
        return dict(vulnerability=conv.Vulnerability, discrete=conv.FragilityDiscrete,
                    continuous=conv.FragilityContinuous, exposure=conv.Exposure,
                    gmf=conv.GmfCollection)[t]

    def tset(self, way, quiet=False):
        sim, cm = self.sim, self.mods
        if way == 0:
            conv = sim.must('conversion-failed', cm.converter.Converter.from_node, self.node)
            sim.check(type(conv) is self.convertertype(), 'wrong-tables', '%s for %s', type(conv),
                      self.form[0])
            return conv.tableset
        if way == 1:
            # through CSV
            if not quiet and sim.draw(3) == 1:
                tset = self.faulty()
                if tset is not None:
                    return tset
            arch = cm.MemArchive([]) if sim.draw(2) else cm.mkarchive(
                '%s/csv%d' % (ROOT, self.number()), 'w')
            man = cm.CSVManager(arch, sim.pick('model', 'x.y'))
            sim.must('conversion-failed', man.convert_from_node, self.node)
            return sim.must('conversion-failed', man.get_tableset)
        # record by record
        ct = self.convertertype()
        tset = cm.record.TableSet(ct)
        sim.must('conversion-failed', tset.insert_all, ct.node_to_records(self.node))
        return tset


    def number(self):
        n = self.sim.state['number'] = self.sim.state.get('number', 0) + 1
        return n

    def faulty(self):
        """A failing system call: an error, or all the records"""
        sim, cm = self.sim, self.mods
        path = '%s/bad%d' % (ROOT, self.number()) + sim.pick('', '.zip')

        def write():
            arch = cm.mkarchive(path, 'w')
            cm.CSVManager(arch, 'model').convert_from_node(self.node)

        def read():
            return cm.CSVManager(cm.mkarchive(path, 'r'), 'model').get_tableset()
        if sim.draw(2):
            arm(sim, 40)
            ok, res = sim.attempt(write)
            env.collect(sim)
            calm(sim)
            if not ok:
                return
        else:
            sim.must('conversion-failed', write)
        if sim.draw(2):
            arm(sim, 40)
        ok, res = sim.attempt(read)
        calm(sim)
        if ok:
            return res


def streams(sim, mods, sources):
    """Several conversions at a time, record by record"""
    jobs = []
    for s in sources:
        for _ in range(1 + sim.draw(2)):
            ct = s.convertertype()
            jobs.append((s, mods.record.TableSet(ct), iter(ct.node_to_records(s.node))))
    todo = list(jobs)
    while todo:
        job = sim.choice(todo)
        for _ in range(1 + sim.draw(5)):
            ok, rec = sim.attempt(next, job[2])
            if not ok:
                sim.check(isinstance(rec, StopIteration), 'conversion-failed', '%s', core.exc_text(rec)
                          if isinstance(rec, BaseException) else rec)
                todo.remove(job)
                break
            sim.must('conversion-failed', job[1].insert, rec)
        if sim.draw(40) == 1 and len(todo) > 1:
            # abandoned
            job = sim.choice(todo)
            job[2].close()
            todo.remove(job)
            jobs.remove(job)
    return [(s, tset) for s, tset, _it in jobs]


def threads(sim, mods, sets):
    """Threads with models of their own"""
    th = core.Threads(sim, mean=sim.pick(40, 15, 200))

    def use(src, ts):
        ts2 = TSet(sim, mods, src.text, src.tset(sim.draw(3), True))
        ts2.check('in a thread')
        ts.compare(ts.to_node(), 'in a thread')
        ts.edit()
        ts2.compare(ts2.to_node(), 'in a thread')
        ts.check('edited in a thread')
        ts.compare(ts.to_node(), 'edited in a thread')
    for i, (src, ts) in enumerate(sets):
        th.spawn('user %d' % i, use, src, ts)
    th.run()
    for t in th.threads:
        if not t.ok:
            if isinstance(t.value, core.Violation):
                raise t.value
            sim.fail('conversion-failed', 'in a thread: %s' % core.exc_text(t.value))
    sim.probe('threads')
    sim.nontrivial = True


def c33(sim):
    mods = boot(sim)
    n = 1 + sim.draw(3)
    kinds = [nrmlgen.KINDS[sim.draw(len(nrmlgen.KINDS))] for _ in range(n)]
    sources = [Source(sim, mods, i, nrmlgen.Gen(sim, sim.draw(8) == 1).make(k))
               for i, k in enumerate(kinds)]
    sim.state['kinds'] = kinds
    sets = []
    if sim.draw(3) == 1:
        for s, tset in streams(sim, mods, sources):
            sets.append((s, TSet(sim, mods, s.text, tset)))
            sim.nontrivial = True
        sim.probe('streams')
    else:
        for s in sources:
            sets.append((s, TSet(sim, mods, s.text, s.tset(sim.draw(3)))))
    for s, ts in sets:
        ts.check('new')
    edits = 0
    for _ in range(3 + sim.draw(12)):
        if not sets:
            break
        s, ts = sim.choice(sets)
        k = sim.draw(10)
        if k in (0, 1, 2):
            ts.edit()
            edits += 1
            ts.check('edited')
        elif k in (3, 4):
            node = ts.to_node()
            ts.compare(node, 'model of the table set')
            if sim.draw(2):
                spoil(sim, node)
        elif k == 5:
            # two results at a time
            _s, other = sim.choice(sets)
            a, b = ts.to_node(), other.to_node()
            if sim.draw(2):
                in_turns(sim, [x.assets for x in (a, b) if x.tag == 'exposureModel'])
            if sim.draw(2):
                spoil(sim, b)
                ts.compare(a, 'model with another one')
            else:
                other.compare(b, 'model with another one')
                ts.compare(a, 'model with another one')
        elif k == 6:
            ts.nonsense()
        elif k == 7 and len(sets) < 6:
            # once more from the same node
            sets.append((s, TSet(sim, mods, s.text, s.tset(sim.draw(3)))))
            sets[-1][1].check('made again')
            s.check()
        elif k == 8:
            # the model of an edited table set, as a source
            text = ts.written(ts.to_node())
            same_form(sim, text, canonical(ts.p), 'model of the table set')
            if len(sets) < 6:
                src = Source(sim, mods, 50 + sim.draw(40), text)
                sets.append((src, TSet(sim, mods, text, src.tset(sim.draw(3)))))
                sets[-1][1].check('of the model of a table set')
        elif k == 9 and sim.draw(2) and len(sets) > 1:
            sub = sets[:3]
            if len(set(id(x) for _s, x in sub)) == len(sub):
                threads(sim, mods, sub)
    for s, ts in sets:
        ts.check('at the end')
        ts.compare(ts.to_node(), 'at the end')
        s.check()
    if edits:
        sim.nontrivial = True
    sim.log('models', kinds, edits)
    sim.seen(tuple(sorted(kinds)), min(edits, 5), len(sets),
             min(9, sum(len(t) for _s, ts in sets for t in ts.tset.tables) // 20))


WORKLOADS = dict(C33=c33)
