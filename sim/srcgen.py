# Generated seismic sources: as hazard library objects, and as source model
# files together with what a correct reading of them has to give.
import core
from nrmlgen import wrap, attrs

TRTS = ('Active Shallow Crust', 'Volcanic', 'Stable Continental Crust', 'Subduction Interface')
KINDS = ('point', 'area', 'simple', 'complex', 'char')
TAGS = dict(point='pointSource', area='areaSource', simple='simpleFaultSource',
            complex='complexFaultSource', char='characteristicFaultSource')
CLASSES = dict(point='PointSource', area='AreaSource', simple='SimpleFaultSource',
               complex='ComplexFaultSource', char='CharacteristicFaultSource')
FILTER_NAMES = dict(point='point', area='area', simple='simpleFault', complex='complexFault',
                    char='characteristicFault')


class Spec(object):
    """The parameters of one source"""

    def __init__(self, sim, ident, kind=None, trt=None, gr=None, zeros=True):
        self.id = ident
        self.kind = kind or KINDS[sim.draw(5)]
        self.name = sim.pick('src %s' % ident, 'same name')
        self.trt = trt or TRTS[sim.draw(len(TRTS))]
        if gr is None:
            gr = sim.draw(2)
        self.gr = bool(gr)
        if gr:
            self.a = sim.pick(2.0, 1.5, 3.25)
            self.b = sim.pick(1.0, 0.75, 1.5)
            self.min_mag = sim.pick(5.0, 4.0, 6.0)
            self.max_mag = self.min_mag + sim.pick(2.0, 1.0, 3.0)
        else:
            self.min_mag = sim.pick(5.0, 4.5, 6.5, 0.0)
            self.bin_width = sim.pick(0.5, 0.25, 1.0)
            n = 1 + sim.draw(4)
            self.rates = [sim.pick(0.25, 0.5, 0.125, 0.0 if zeros else 0.75, 1.0, 1, 3)
                          for _ in range(n)]
        self.x, self.y = float(sim.draw(5)), float(sim.draw(5))
        self.nx, self.ny = 1 + sim.draw(3), 1 + sim.draw(3)
        self.upper, self.lower = 0.0, sim.pick(10.0, 12.5)
        self.msr = sim.pick('WC1994', 'PeerMSR')
        self.aspect = sim.pick(1.0, 1.5)
        self.dip, self.rake = sim.pick(45.0, 60.0), sim.pick(90.0, 0.0)

    def polygon(self):
        x, y, w, h = self.x, self.y, self.nx * 1.0, self.ny * 1.0
        return [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]

    # ---- as an element of a source model file
    def xml(self):
        mfd = ('      <truncGutenbergRichterMFD%s/>\n' % attrs(
            [('aValue', self.a), ('bValue', self.b), ('minMag', self.min_mag),
             ('maxMag', self.max_mag)])
            if self.gr else
            '      <incrementalMFD%s><occurRates>%s</occurRates></incrementalMFD>\n' % (
                attrs([('minMag', self.min_mag), ('binWidth', self.bin_width)]),
                ' '.join(map(repr, self.rates))))
        line = 'LINESTRING(%r %r, %r %r)' % (self.x, self.y, self.x + 1, self.y + 1)
        if self.kind == 'point':
            geo = ('pointGeometry', [('wkt', 'POINT(%r %r)' % (self.x, self.y)),
                                     ('upper', self.upper), ('lower', self.lower)])
        elif self.kind == 'area':
            pts = self.polygon()
            geo = ('areaGeometry', [('wkt', 'POLYGON((%s))' % ', '.join(
                '%r %r' % p for p in pts + pts[:1])),
                ('upper', self.upper), ('lower', self.lower)])
        elif self.kind == 'complex':
            geo = ('complexFaultGeometry', [('top', line), ('bottom', line)])
        else:
            geo = ('simpleFaultGeometry', [('wkt', line), ('dip', self.dip),
                                           ('upper', self.upper), ('lower', self.lower)])
        tag = TAGS[self.kind]
        head = [('id', self.id), ('name', self.name), ('tectonicRegion', self.trt)]
        if self.kind != 'char':
            head += [('magScaleRel', self.msr), ('aspect', self.aspect)]
        if self.kind in ('simple', 'complex', 'char'):
            head.append(('rake', self.rake))
        return '    <%s%s>\n      <%s%s/>\n%s    </%s>\n' % (
            tag, attrs(head), geo[0], attrs(geo[1]), mfd, tag)

    # ---- as a hazard library object
    def build(self, spacing=1.0, bin_width=0.5, discr=5.0, tom=None):
        from openquake.hazardlib import geo, mfd, pmf, scalerel, source
        kw = dict(source_id=self.id, name=self.name, tectonic_region_type=self.trt,
                  mfd=self.build_mfd(bin_width), temporal_occurrence_model=tom)
        if self.kind != 'char':
            kw.update(rupture_mesh_spacing=spacing,
                      magnitude_scaling_relationship=getattr(scalerel, self.msr)(),
                      rupture_aspect_ratio=self.aspect)
        line = geo.Line([geo.Point(self.x, self.y), geo.Point(self.x + 1, self.y + 1)])
        depths = dict(upper_seismogenic_depth=self.upper, lower_seismogenic_depth=self.lower)
        if self.kind in ('point', 'area'):
            kw.update(depths)
            kw.update(nodal_plane_distribution=pmf.PMF([(1.0, geo.NodalPlane(0.0, 90.0, 0.0))]),
                      hypocenter_distribution=pmf.PMF([(1.0, 4.0)]))
            if self.kind == 'point':
                kw['location'] = geo.Point(self.x, self.y)
            else:
                kw['polygon'] = geo.Polygon([geo.Point(*p) for p in self.polygon()])
                kw['area_discretization'] = discr
        elif self.kind == 'simple':
            kw.update(depths)
            kw.update(fault_trace=line, dip=self.dip, rake=self.rake)
        elif self.kind == 'complex':
            kw.update(edges=[line, line], rake=self.rake)
        else:
            kw.update(rake=self.rake, surface=geo.SimpleFaultSurface.from_fault_data(
                line, self.upper, self.lower, self.dip, spacing))
        return getattr(source, CLASSES[self.kind])(**kw)

    def build_mfd(self, bin_width):
        from openquake.hazardlib import mfd
        if self.gr:
            return mfd.TruncatedGRMFD(self.min_mag, self.max_mag, bin_width, self.a, self.b)
        return mfd.EvenlyDiscretizedMFD(self.min_mag, self.bin_width, self.rates)


def model_xml(specs, name='model'):
    return wrap('  <sourceModel name="%s">\n%s  </sourceModel>\n' % (
        name, ''.join(s.xml() for s in specs)))


def desc(x):
    """A comparable rendering of a value of a source"""
    if x is None or isinstance(x, (int, long, float, basestring)):
        return x
    if isinstance(x, (list, tuple)):
        return tuple(desc(y) for y in x)
    if isinstance(x, dict):
        return tuple(sorted((k, desc(v)) for k, v in x.items() if k not in SKIP))
    if isinstance(x, type):
        return x.__name__
    return (type(x).__name__, desc(vars(x)))


SKIP = ('_sim_hash', '_keys', 'rupture_factor', 'faulty', 'owner')


def describe(src, drop=()):
    """Everything about a source, as (name, value) pairs"""
    out = [('class', type(src).__name__)]
    for k in sorted(vars(src)):
        if k not in SKIP and k not in drop:
            out.append((k, desc(getattr(src, k))))
    return out


def difference(a, b):
    """The first attribute in which two descriptions differ"""
    da, db = dict(a), dict(b)
    for k in sorted(set(da) | set(db)):
        if da.get(k, 'missing') != db.get(k, 'missing'):
            return '%s is %s instead of %s' % (
                k, core.text(da.get(k, 'missing'), 100), core.text(db.get(k, 'missing'), 100))
