# Generated NRML models: XML text, and a canonical form that two equivalent
# models share.  The canonical form of converted files is computed from the
# XML alone (no repository code).
import xmlsim
from xmlsim import escape

NS = 'http://openquake.org/xmlns/nrml/0.4'
KINDS = ('vulnerability', 'fragility-discrete', 'fragility-continuous',
         'exposure-buildings', 'exposure-population', 'gmf-scenario', 'gmf-event')
IMTS = ('PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(1.5)', 'IA')
WORDS = ('plain', 'two words', 'a, b', 'say "so"', "it's", 'x & y', 'a<b>c', 'semi;colon',
         'line\nbreak', '100%', '_', '#1')


def wrap(body):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<nrml xmlns="%s" '
            'xmlns:gml="http://www.opengis.net/gml">\n%s</nrml>\n' % (NS, body))


def attrs(pairs):
    return ''.join(' %s="%s"' % (k, escape(v)) for k, v in pairs if v is not None)


class Gen(object):
    def __init__(self, sim, big=False):
        self.sim = sim
        self.big = big
        self.serial = 0
        self.bare = set()

    def word(self):
        return WORDS[self.sim.draw(len(WORDS))]

    def text(self):
        # an element may be there without any text
        return '' if self.sim.draw(8) == 7 else self.word()

    def ident(self, base):
        self.serial += 1
        k = self.sim.draw(7)
        tail = ('', '', '-x', ' y', ',z', '"q"', '')[k]
        if k == 6 and base not in self.bare:
            self.bare.add(base)
            return base
        return '%s%d%s' % (base, self.serial, tail)

    def num(self, n=1000, scale=100.):
        d = self.sim.draw(n)
        k = self.sim.draw(4)
        v = d / scale
        return ('%s' % v, '%.4f' % v, '%d' % d, '%.2E' % v)[k]

    def prob(self):
        return ('0.0', '0.25', '1', '0.5000', '1E-3', '1.0')[self.sim.draw(6)]

    def increasing(self, n):
        out = []
        v = (0, 0, 80, 940)[self.sim.draw(4)]
        for _ in range(n):
            v += 1 + self.sim.draw(9)
            out.append('%.2f' % (v / 10.))
        return out

    def count(self, small, large=None):
        n = 1 + self.sim.draw(small)
        if self.big and self.sim.draw(3) == 0:
            n += self.sim.draw(large or small * 6)
        return n

    def sep(self, values):
        return (' ', '\n   ', '  ')[self.sim.draw(3)].join(values)

    # ---- kinds
    def vulnerability(self):
        out = ['<vulnerabilityModel>\n']
        shared = [self.ident('F') for _ in range(4)] if self.sim.draw(2) else None
        for _ in range(self.count(3)):
            imls = self.increasing(self.count(4, 12))
            out.append('<discreteVulnerabilitySet%s><IML IMT="%s">%s</IML>\n' % (
                attrs([('vulnerabilitySetID', self.ident('S')),
                       ('assetCategory', ('population', 'buildings')[self.sim.draw(2)]),
                       ('lossCategory', self.word())]),
                IMTS[self.sim.draw(len(IMTS))], self.sep(imls)))
            ids = [self.ident('F') for _ in range(self.count(3, 8))]
            if shared:
                # the same functions in several sets
                ids = self.sim.shuffled(shared)[:len(ids)]
            for ident in ids:
                ratios = [self.prob() for _ in imls]
                # a null loss ratio has no variation
                covs = [self.prob() if float(r) else ('0', '0.0')[self.sim.draw(2)]
                        for r in ratios]
                out.append('<discreteVulnerability%s><lossRatio>%s</lossRatio>'
                           '<coefficientsVariation>%s</coefficientsVariation>'
                           '</discreteVulnerability>\n' % (
                               attrs([('vulnerabilityFunctionID', ident),
                                      ('probabilisticDistribution', ('LN', 'BT')[self.sim.draw(2)])]),
                               self.sep(ratios), self.sep(covs)))
            out.append('</discreteVulnerabilitySet>\n')
        out.append('</vulnerabilityModel>\n')
        return ''.join(out)

    def states(self):
        names = ['slight', 'moderate', 'LS3', 'complete', 'a_b']
        return self.sim.shuffled(names)[:1 + self.sim.draw(4)]

    def fragility_discrete(self):
        lss = self.states()
        out = ['<fragilityModel format="discrete"><description>%s</description>'
               '<limitStates>%s</limitStates>\n' % (escape(self.text()), self.sep(lss))]
        for _ in range(self.count(3, 12)):
            imls = self.increasing(self.count(4, 12))
            out.append('<ffs%s><taxonomy>%s</taxonomy><IML IMT="%s" imlUnit="%s">%s</IML>\n' % (
                attrs([('noDamageLimit', self.maybe(self.num()))]), escape(self.ident('T')),
                IMTS[self.sim.draw(len(IMTS))], ('g', 'm/s')[self.sim.draw(2)], self.sep(imls)))
            for ls in lss:
                out.append('<ffd ls="%s"><poEs>%s</poEs></ffd>\n' % (
                    ls, self.sep([self.prob() for _ in imls])))
            out.append('</ffs>\n')
        out.append('</fragilityModel>\n')
        return ''.join(out)

    def maybe(self, v):
        return v if self.sim.draw(2) else None

    def fragility_continuous(self):
        lss = self.states()
        out = ['<fragilityModel format="continuous"><description>%s</description>'
               '<limitStates>%s</limitStates>\n' % (escape(self.text()), self.sep(lss))]
        for _ in range(self.count(4, 12)):
            out.append('<ffs%s><taxonomy>%s</taxonomy><IML%s/>\n' % (
                attrs([('noDamageLimit', self.maybe(self.num())),
                       ('type', self.maybe('lognormal'))]), escape(self.ident('T')),
                attrs([('IMT', IMTS[self.sim.draw(len(IMTS))]), ('imlUnit', 'g'),
                       ('minIML', self.num()), ('maxIML', self.num())])))
            for ls in lss:
                out.append('<ffc ls="%s"><params%s/></ffc>\n' % (
                    ls, attrs([('mean', self.num()), ('stddev', self.num())])))
            out.append('</ffs>\n')
        out.append('</fragilityModel>\n')
        return ''.join(out)

    def exposure(self, buildings):
        sim = self.sim
        out = ['<exposureModel%s><description>%s</description>\n' % (
            attrs([('id', self.ident('E')),
                   ('category', 'buildings' if buildings else 'population'),
                   ('taxonomySource', self.maybe(self.word()))]), escape(self.text()))]
        ctypes = []
        has_area = False
        if buildings or sim.draw(4) == 1:
            out.append('<conversions>')
            has_area = sim.draw(3) > 0 or not buildings
            if has_area:
                out.append('<area%s/>' % attrs([
                    ('type', ('per_asset', 'aggregated')[sim.draw(2)]),
                    ('unit', ('square meters', 'm2')[sim.draw(2)])]))
            if buildings:
                ctypes = sim.shuffled(['structural', 'contents', 'business interruption',
                                       'non_structural'])[:1 + sim.draw(4)]
                out.append('<costTypes>')
                for c in ctypes:
                    r = sim.draw(2)
                    out.append('<costType%s/>' % attrs([
                        ('name', c), ('type', ('per_asset', 'per_area', 'aggregated')[sim.draw(3)]),
                        ('unit', ('EUR', 'EUR/month')[sim.draw(2)]),
                        ('retrofittedType', 'per_asset' if r else None),
                        ('retrofittedUnit', 'EUR' if r else None)]))
                out.append('</costTypes>')
                for t in ('deductible', 'insuranceLimit'):
                    if sim.draw(4) != 1:
                        out.append('<%s isAbsolute="%s"/>' % (t, ('false', 'true')[sim.draw(2)]))
            out.append('</conversions>\n')
        out.append('<assets>\n')
        locs = []
        for _ in range(1 + sim.draw(4)):
            locs.append(self.site(locs, True))
        for _ in range(self.count(5, 25) if sim.draw(12) != 11 else 0):
            lon, lat = locs[sim.draw(len(locs))]
            out.append('<asset%s><location lon="%s" lat="%s"/>' % (
                attrs([('id', self.ident('A')), ('taxonomy', ('RC', 'RC/DMRF-D/LR', 'W, U')[sim.draw(3)]),
                       ('number', self.num()), ('area', self.num() if has_area and sim.draw(2) else None)]),
                lon, lat))
            costs = [c for c in ctypes if sim.draw(3)]
            if costs or sim.draw(6) == 5:
                out.append('<costs>')
                for c in costs:
                    out.append('<cost%s/>' % attrs([
                        ('type', c), ('value', self.num(100000)),
                        ('retrofitted', self.maybe(self.num())),
                        ('deductible', self.maybe(self.prob())),
                        ('insuranceLimit', self.maybe(self.prob()))]))
                out.append('</costs>')
            periods = [p for p in ('day', 'night', 'transit') if sim.draw(2)]
            if periods or sim.draw(6) == 5:
                out.append('<occupancies>')
                for p in sim.shuffled(periods):
                    out.append('<occupancy%s/>' % attrs([('occupants', self.num()), ('period', p)]))
                out.append('</occupancies>')
            out.append('</asset>\n')
        out.append('</assets></exposureModel>\n')
        return ''.join(out)

    def coord(self, top):
        if self.sim.draw(4) == 1:
            # few digits
            return ('1', '12', '2', '23', '3', '11', '-1', '0')[self.sim.draw(8)]
        v = self.sim.draw(2 * top * 10 + 1)
        v = (v - top * 10) / 10. if v else 0.0
        if self.sim.draw(5) == 1 and v == int(v):
            return '%d' % v
        return ('%s', '%.5f', '%.2f')[self.sim.draw(3)] % v

    def site(self, others, respell=False):
        k = self.sim.draw(10) if others else 0
        if k < 5:
            return self.coord(180), self.coord(90)
        # easily taken for one of the others
        lon, lat = others[self.sim.draw(len(others))]
        if k == 5 and -90 <= float(lon) <= 90:
            return lat, lon
        if k == 6:
            # the same digits
            digits = lon.strip('-') + lat.strip('-')
            if digits.isdigit() and len(digits) > 2:
                n = 1 + self.sim.draw(len(digits) - 1)
                if float(digits[:n]) <= 180 and float(digits[n:]) <= 90:
                    return digits[:n], digits[n:]
        if k == 7 and abs(float(lon)) < 179:
            return '%s0001' % lon if '.' in lon else lon + '.0001', lat
        if k == 9 and respell:
            # the same place, written in another way
            return ('%.6f' % float(lon), lat) if '.' in lon else (lon + '.0', lat)
        return lon, self.coord(90)

    def gmf_body(self, rupture):
        out = []
        used = set()
        for _ in range(self.count(3, 6)):
            imt = IMTS[self.sim.draw(len(IMTS))]
            rup = 'r%d' % (1 + self.sim.draw(4)) if rupture else None
            if (imt, rup) in used:
                continue
            used.add((imt, rup))
            if imt.startswith('SA'):
                a = [('IMT', 'SA'), ('saPeriod', imt[3:-1]), ('saDamping', '5')]
            else:
                a = [('IMT', imt)]
            out.append('<gmf%s>\n' % attrs(a + [('ruptureId', rup)]))
            sites = set()
            last = []
            for _ in range(self.count(4, 30)):
                site = self.site(last)
                last = [site]
                if site in sites:
                    continue
                sites.add(site)
                out.append('<node gmv="%s" lon="%s" lat="%s"/>\n' % ((self.num(),) + site))
            out.append('</gmf>\n')
        return ''.join(out)

    def gmf_scenario(self):
        return '<gmfSet>\n%s</gmfSet>\n' % self.gmf_body(False)

    def gmf_event(self):
        out = ['<gmfCollection%s>\n' % attrs([('sourceModelTreePath', 'b1_b2'),
                                               ('gsimTreePath', self.word())])]
        for i in range(self.count(3)):
            out.append('<gmfSet investigationTime="%s" stochasticEventSetId="%d">\n%s</gmfSet>\n' % (
                self.num(), i + 1, self.gmf_body(True)))
        out.append('</gmfCollection>\n')
        return ''.join(out)

    def make(self, kind):
        if kind.startswith('exposure'):
            body = self.exposure(kind.endswith('buildings'))
        else:
            body = getattr(self, kind.replace('-', '_'))()
        return wrap(body)


# ------------------------------------------------------------------ canonical

def tag(el):
    return el.tag.split('}')[-1]


def kids(el, name):
    return [c for c in el.children if tag(c) == name]


def one(el, name):
    found = kids(el, name)
    if len(found) != 1:
        raise ValueError('%d subnodes %s in %s' % (len(found), name, tag(el)))
    return found[0]


def at(el, drop=()):
    return sorted((k, v) for k, v in el.attrib.items() if k not in drop)


def toks(el):
    return (el.text or '').split()


def only(el, *names):
    bad = [tag(c) for c in el.children if tag(c) not in names]
    if bad:
        raise ValueError('unexpected subnodes %s in %s' % (bad, tag(el)))


def canonical(text):
    root, _ended, err = xmlsim.parse_bytes(text)
    if err is not None:
        raise ValueError('not XML: %s' % err)
    if tag(root) != 'nrml' or len(root.children) != 1:
        raise ValueError('not a NRML document with one model')
    m = root.children[0]
    t = tag(m)
    if t == 'vulnerabilityModel':
        only(m, 'discreteVulnerabilitySet')
        return [t, at(m)] + [
            [at(s), at(one(s, 'IML')), toks(one(s, 'IML')),
             [[at(f), toks(one(f, 'lossRatio')), at(one(f, 'lossRatio')),
               toks(one(f, 'coefficientsVariation')), at(one(f, 'coefficientsVariation'))]
              for f in kids(s, 'discreteVulnerability')]]
            for s in m.children]
    if t == 'fragilityModel':
        only(m, 'description', 'limitStates', 'ffs')
        res = [t, at(m), (one(m, 'description').text or '').strip(), toks(one(m, 'limitStates'))]
        for f in kids(m, 'ffs'):
            item = [at(f), (one(f, 'taxonomy').text or '').strip(), at(one(f, 'IML')),
                    toks(one(f, 'IML'))]
            for c in f.children:
                if tag(c) == 'ffd':
                    item.append([at(c), toks(one(c, 'poEs'))])
                elif tag(c) == 'ffc':
                    item.append([at(c), at(one(c, 'params'))])
                elif tag(c) not in ('taxonomy', 'IML'):
                    raise ValueError('unexpected subnode %s' % tag(c))
            res.append(item)
        return res
    if t == 'exposureModel':
        only(m, 'description', 'conversions', 'assets')
        a = dict(m.attrib)
        a.setdefault('taxonomySource', 'UNKNOWN')
        res = [t, sorted(a.items()), (one(m, 'description').text or '').strip()]
        for c in kids(m, 'conversions'):
            res.append(['conversions'] + sorted(
                [tag(x), at(x), [at(y) for y in x.children]] for x in c.children))
        for x in one(m, 'assets').children:
            only(x, 'location', 'costs', 'occupancies')
            res.append([tag(x), at(x), at(one(x, 'location')),
                        sorted(at(y) for c in kids(x, 'costs') for y in c.children),
                        sorted(at(y) for c in kids(x, 'occupancies') for y in c.children),
                        len([c for c in kids(x, 'costs') if c.children]),
                        len([c for c in kids(x, 'occupancies') if c.children])])
        return res
    if t in ('gmfSet', 'gmfCollection'):
        def gset(s):
            only(s, 'gmf')
            return [at(s)] + [[at(g)] + [[tag(n), at(n)] for n in g.children] for g in s.children]
        if t == 'gmfSet':
            return [t] + gset(m)
        only(m, 'gmfSet')
        return [t, at(m)] + [gset(s) for s in m.children]
    raise ValueError('unknown model %s' % t)


def describe(a, b, path=''):
    """Where two canonical forms differ"""
    if type(a) is not type(b) or not isinstance(a, (list, tuple)):
        return '%s: %r / %r' % (path, a, b)
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return describe(x, y, '%s[%d]' % (path, i))
    return '%s: lengths %d / %d; %r / %r' % (path, len(a), len(b), a[len(b):], b[len(a):])
