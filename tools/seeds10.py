# Converters of NRML sources and ruptures
SRC = 'source'

KIT = r'''
from openquake.nrmllib import models as m
from openquake.commonlib import source as s
from openquake.hazardlib import geo
L1, L2 = 'LINESTRING(0.0 0.0 1.0, 1.0 1.0 2.0)', 'LINESTRING(0.0 0.5 11.0, 1.0 1.5 12.0)'
L3, L4 = 'LINESTRING(0.0 0.7 15.0, 1.0 1.7 16.0)', 'LINESTRING(0.0 0.9 21.0, 1.0 1.9 22.0)'
def conv(time=50., spacing=1., width=0.5, discr=10.):
    return s.NrmlHazardlibConverter(time, spacing, width, discr)
def grd(lo=5., hi=7.):
    return m.TGRMFD(a_val=2., b_val=1., min_mag=lo, max_mag=hi)
def inc(width=0.25):
    return m.IncrementalMFD(min_mag=5., bin_width=width, occur_rates=[0.5, 0.25])
def trace(**kw):
    return m.SimpleFaultGeometry(wkt='LINESTRING(0.0 0.0, 1.0 1.0)', dip=45.,
                                 upper_seismo_depth=0., lower_seismo_depth=10.)
def edges(*inner):
    return m.ComplexFaultGeometry(top_edge_wkt=L1, bottom_edge_wkt=L4, int_edges=list(inner))
def src(kind, ident='1', mfd=None, **kw):
    return getattr(m, kind)(id=ident, name='n' + ident, trt='Volcanic', mfd=mfd or grd(),
                            mag_scale_rel='WC1994', rupt_aspect_ratio=1., **kw)
def pt(ident='1', **kw):
    return src('PointSource', ident, geometry=m.PointGeometry(
        wkt='POINT(1.0 2.0)', upper_seismo_depth=0., lower_seismo_depth=10.),
        nodal_plane_dist=[m.NodalPlane(probability=1., strike=0., dip=90., rake=0.)],
        hypo_depth_dist=[m.HypocentralDepth(probability=1., depth=4.)], **kw)
def area(ident='1', poly='POLYGON((0 0, 1 0, 1 1, 0 0))', **kw):
    return src('AreaSource', ident, geometry=m.AreaGeometry(
        wkt=poly, upper_seismo_depth=0., lower_seismo_depth=10.),
        nodal_plane_dist=[m.NodalPlane(probability=1., strike=0., dip=90., rake=0.)],
        hypo_depth_dist=[m.HypocentralDepth(probability=1., depth=4.)], **kw)
def fault(ident='1', **kw):
    return src('SimpleFaultSource', ident, geometry=trace(), rake=90., **kw)
def char(surface, ident='1', **kw):
    return m.CharacteristicSource(id=ident, name='n' + ident, trt='Volcanic', mfd=inc(), rake=90.,
                                  surface=surface)
def plane(strike=0.):
    c = [m.Point(float(i), 0., 1.) for i in range(4)]
    return m.PlanarSurface(strike=strike, dip=45., top_left=c[0], top_right=c[1],
                           bottom_left=c[2], bottom_right=c[3])
def rup(kind='Simple', geometry=None):
    return getattr(m, kind + 'FaultRuptureModel')(
        id='1', magnitude=6.5, rake=90., hypocenter=(1., 2., 8.),
        geometry=geometry or (trace() if kind == 'Simple' else edges()))
def during(func):
    """Calls func once when the next conversion builds its first point"""
    real = geo.Point
    def Point(*args):
        geo.Point = real
        func()
        return real(*args)
    geo.Point = Point
def refused(c, x):
    try:
        c(x)
    except Exception as e:
        return type(e).__name__, str(e)
    return 'converted'
'''
TOM = ("        self.default_tom = PoissonTOM(investigation_time) \\\n"
       "            if investigation_time else None  # None for scenario calculator\n")

B('C25-tom-once', 'C25', SRC, [
    (TOM,
     "        if investigation_time and self.default_tom is None:\n"
     "            NrmlHazardlibConverter.default_tom = PoissonTOM(investigation_time)\n"),
    ("    def __init__(self, investigation_time, rupture_mesh_spacing,\n",
     "    default_tom = None  # None for scenario calculator\n\n"
     "    def __init__(self, investigation_time, rupture_mesh_spacing,\n")],
  'two converters with different investigation times',
  'sources of the second have the investigation time of the first', KIT + '''
conv(50.)
same(conv(1.)(pt()).temporal_occurrence_model.time_span, 1., 'time')
''', lib=True)

B('C25-remembered', 'C25', SRC, [
    ("        self.investigation_time = investigation_time\n",
     "        self.investigation_time = investigation_time\n        self._converted = {}\n"),
    ("            return self._nrml_source_to_hazardlib(src)\n",
     "            if src.id not in self._converted:\n"
     "                self._converted[src.id] = self._nrml_source_to_hazardlib(src)\n"
     "            return self._converted[src.id]\n")],
  'a source converted twice by the same converter, or two sources with the same id',
  'both callers share one object; the second source is that of the first', KIT + '''
c = conv()
a, b = c(pt()), c(pt())
ok(a is not b, 'two sources')
''', lib=True)

B('C25-mfd-by-values', 'C25', SRC, [
    ("        self.investigation_time = investigation_time\n",
     "        self.investigation_time = investigation_time\n        self._mfds = {}\n"),
    ("            return mfd.TruncatedGRMFD(\n"
     "                a_val=src_mfd.a_val, b_val=src_mfd.b_val,\n"
     "                min_mag=src_mfd.min_mag,\n"
     "                max_mag=src_mfd.max_mag,\n"
     "                bin_width=bin_width\n"
     "            )\n",
     "            key = (src_mfd.a_val, src_mfd.b_val, src_mfd.min_mag,\n"
     "                   src_mfd.max_mag)\n"
     "            if key not in self._mfds:\n"
     "                self._mfds[key] = mfd.TruncatedGRMFD(\n"
     "                    a_val=src_mfd.a_val, b_val=src_mfd.b_val,\n"
     "                    min_mag=src_mfd.min_mag,\n"
     "                    max_mag=src_mfd.max_mag,\n"
     "                    bin_width=bin_width\n"
     "                )\n"
     "            return self._mfds[key]\n")],
  'two sources with the same magnitude-frequency distribution, one of them modified later',
  'the modification of one source changes the other', KIT + '''
c = conv()
a, b = c(pt('1')), c(pt('2'))
a.mfd.modify('set_max_mag', dict(value=6.))
same(b.mfd.max_mag, 7., 'the other')
''', lib=True)

B('C25-edges-inserted', 'C25', SRC, [
    ("        edges_wkt = []\n"
     "        edges_wkt.append(src.geometry.top_edge_wkt)\n"
     "        edges_wkt.extend(src.geometry.int_edges)\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        mf_dist",
     "        edges_wkt = src.geometry.int_edges\n"
     "        edges_wkt.insert(0, src.geometry.top_edge_wkt)\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        mf_dist")],
  'a complex fault source converted twice',
  'the second time it has four edges more', KIT + '''
x = src('ComplexFaultSource', geometry=edges(L2), rake=0.)
c = conv()
same([len(c(x).edges) for _ in range(2)], [3, 3], 'edges')
''', lib=True)

B('C25-rupture-edges', 'C25', SRC, [
    ("        edges_wkt = []\n"
     "        edges_wkt.append(src.geometry.top_edge_wkt)\n"
     "        edges_wkt.extend(src.geometry.int_edges)\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        surface",
     "        edges_wkt = [src.geometry.top_edge_wkt]\n"
     "        if src.geometry.int_edges:\n"
     "            edges_wkt.append(src.geometry.int_edges[0])\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        surface")],
  'a complex fault rupture with two intermediate edges',
  'the second intermediate edge is lost', KIT + '''
s1 = conv()(rup('Complex', edges(L2, L3))).surface
same(len(s1.args[0]), 4, 'edges')
''', lib=True)

B('C25-flat-edges', 'C25', SRC, [
    ("                line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "                edges.append(line)\n",
     "                line = geo.Line(\n"
     "                    [geo.Point(x[0], x[1]) for x in shapely_line.coords])\n"
     "                edges.append(line)\n")],
  'a characteristic source with a complex surface', 'the edges lose their depths', KIT + '''
s1 = conv()(char(edges())).surface
same([p.depth for l in s1.args[0] for p in l.points], [1., 2., 21., 22.], 'depths')
''', lib=True)

B('C25-width-of-converter', 'C25', SRC, [
    ("                min_mag=src_mfd.min_mag, bin_width=src_mfd.bin_width,\n",
     "                min_mag=src_mfd.min_mag,\n"
     "                bin_width=bin_width or src_mfd.bin_width,\n")],
  'an evenly discretized distribution with another bin width than the converter',
  'the magnitudes of the source are wrong', KIT + '''
same(conv(width=0.5)(fault(mfd=inc(0.25))).mfd.bin_width, 0.25, 'width')
''', lib=True)

B('C25-current-source', 'C25', SRC, [
    ("        # The ordering of the switch here matters because:\n",
     "        self._current = src\n        # The ordering of the switch here matters because:\n"),
    ("                   (src.id, src.name, err.message))\n",
     "                   (self._current.id, self._current.name, err.message))\n")],
  'a conversion that fails after another one has been started with the same converter',
  'the error names the other source', KIT + '''
c = conv()
bad = area('7')
bad.mag_scale_rel = 'unknown'
during(lambda: c(pt('8')))
kind, text = refused(c, bad)
ok("id='7'" in text, text)
''', lib=True)

B('C25-mfd-in-converter', 'C25', SRC, [
    ("        mf_dist = self._mfd_to_hazardlib(src.mfd)\n"
     "        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()\n"
     "\n"
     "        cmplx",
     "        mf_dist = self._mf_dist\n"
     "        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()\n"
     "\n"
     "        cmplx"),
    ("        edges_wkt = []\n"
     "        edges_wkt.append(src.geometry.top_edge_wkt)\n"
     "        edges_wkt.extend(src.geometry.int_edges)\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        mf_dist",
     "        self._mf_dist = self._mfd_to_hazardlib(src.mfd)\n"
     "        edges_wkt = []\n"
     "        edges_wkt.append(src.geometry.top_edge_wkt)\n"
     "        edges_wkt.extend(src.geometry.int_edges)\n"
     "        edges_wkt.append(src.geometry.bottom_edge_wkt)\n"
     "\n"
     "        edges = []\n"
     "\n"
     "        for edge in edges_wkt:\n"
     "            shapely_line = wkt.loads(edge)\n"
     "            line = geo.Line([geo.Point(*x) for x in shapely_line.coords])\n"
     "            edges.append(line)\n"
     "\n"
     "        mf_dist")],
  'two threads that convert complex fault sources with one converter',
  'a source gets the magnitudes of the other', KIT + '''
c = conv()
a = src('ComplexFaultSource', '1', geometry=edges(), rake=0.)
b = src('ComplexFaultSource', '2', mfd=grd(6., 8.), geometry=edges(), rake=0.)
during(lambda: c(b))
same(c(a).mfd.max_mag, 7., 'magnitude')
''', lib=True)

B('C25-planes-kept', 'C25', SRC, [
    ("        self.investigation_time = investigation_time\n",
     "        self.investigation_time = investigation_time\n        self.planar_surfaces = []\n"),
    ("            planar_surfaces = []\n", "            planar_surfaces = self.planar_surfaces\n")],
  'two characteristic sources with planar surfaces, one converter',
  'the second source has the planes of the first, too', KIT + '''
c = conv()
same([len(c(char([plane()], i)).surface.surfaces) for i in '12'], [1, 1], 'planes')
''', lib=True)

B('C25-spacing-of-last', 'C25', SRC, [
    ("        self.rupture_mesh_spacing = rupture_mesh_spacing\n",
     "        self.rupture_mesh_spacing = rupture_mesh_spacing\n"
     "        NrmlHazardlibConverter.spacing = rupture_mesh_spacing\n"),
    ("            geom.dip, self.rupture_mesh_spacing)\n", "            geom.dip, self.spacing)\n")],
  'a converter made after the one that is used',
  'ruptures get the mesh spacing of the last converter', KIT + '''
c = conv(spacing=1.)
conv(spacing=4.)
same(c(rup()).surface.args[-1], 1., 'spacing')
''', lib=True)

B('C25-width-sticks', 'C25', SRC, [
    ("            return mfd.TruncatedGRMFD(\n"
     "                a_val=src_mfd.a_val, b_val=src_mfd.b_val,\n"
     "                min_mag=src_mfd.min_mag,\n"
     "                max_mag=src_mfd.max_mag,\n"
     "                bin_width=bin_width\n"
     "            )\n",
     "            if getattr(src_mfd, 'bin_width', None) is None:\n"
     "                src_mfd.bin_width = bin_width\n"
     "            return mfd.TruncatedGRMFD(\n"
     "                a_val=src_mfd.a_val, b_val=src_mfd.b_val,\n"
     "                min_mag=src_mfd.min_mag,\n"
     "                max_mag=src_mfd.max_mag,\n"
     "                bin_width=src_mfd.bin_width\n"
     "            )\n")],
  'a source converted by two converters with different bin widths',
  'the second time it has the bin width of the first converter', KIT + '''
x = pt()
same([conv(width=w)(x).mfd.bin_width for w in (0.5, 0.25)], [0.5, 0.25], 'widths')
''', lib=True)

B('C25-refused-forever', 'C25', SRC, [
    ("        self.investigation_time = investigation_time\n",
     "        self.investigation_time = investigation_time\n        self._errors = {}\n"),
    ("        # The ordering of the switch here matters because:\n",
     "        if src.id in self._errors:\n"
     "            raise self._errors[src.id]\n"
     "        # The ordering of the switch here matters because:\n"),
    ("            raise etype, msg, tb\n",
     "            self._errors[src.id] = etype(msg)\n            raise etype, msg, tb\n")],
  'a source that could not be converted, repaired and tried again',
  'it is refused for ever', KIT + '''
c, x = conv(), pt()
x.mag_scale_rel = 'unknown'
refused(c, x)
x.mag_scale_rel = 'WC1994'
same(refused(c, x), 'converted', 'repaired')
''', lib=True)

B('C25-value-errors', 'C25', SRC, (
    "            raise etype, msg, tb\n", "            raise ValueError, msg, tb\n"),
  'a conversion that fails with another error than a ValueError',
  'the type of the error is lost', KIT + '''
x = pt()
x.mag_scale_rel = 'unknown'
same(refused(conv(), x)[0], 'KeyError', 'type')
''', lib=True)

B('C25-no-time', 'C25', SRC, (
    TOM, "        self.default_tom = PoissonTOM(investigation_time or 1.)\n"),
  'a converter without investigation time', 'its sources occur once in a year', KIT + '''
same(conv(None)(pt()).temporal_occurrence_model, None, 'model')
''', lib=True)

B('C25-surface-hypocentre', 'C25', SRC, (
    "            mag=src.magnitude, rake=src.rake,\n"
    "            tectonic_region_type=None, hypocenter=geo.Point(*src.hypocenter),\n"
    "            surface=surface, source_typology=source.SimpleFaultSource)\n",
    "            mag=src.magnitude, rake=src.rake,\n"
    "            tectonic_region_type=None,\n"
    "            hypocenter=geo.Point(*src.hypocenter[:2]),\n"
    "            surface=surface, source_typology=source.SimpleFaultSource)\n"),
  'a simple fault rupture with a hypocentre at depth', 'the hypocentre is at the surface',
  KIT + '''
same(conv()(rup()).hypocenter.depth, 8., 'depth')
''', lib=True)

B('C25-repeated-vertex', 'C25', SRC, (
    "            [geo.Point(*x) for x in list(shapely_polygon.exterior.coords)[:-1]]\n",
    "            [geo.Point(*x) for x in sorted(set(shapely_polygon.exterior.coords))]\n"),
  'an area whose vertices are not in lexicographic order', 'the polygon has another shape', KIT + '''
p = conv()(area(poly='POLYGON((0 0, 2 0, 2 2, 0 2, 0 0))')).polygon
same([(x.x, x.y) for x in p.points], [(0., 0.), (2., 0.), (2., 2.), (0., 2.)], 'polygon')
''', lib=True)

B('C25-depths-sorted', 'C25', SRC, (
    "        # hypocentral depth distribution:\n"
    "        hd = pmf.PMF([(x.probability, x.depth) for x in src.hypo_depth_dist])\n"
    "\n"
    "        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()\n"
    "        area",
    "        # hypocentral depth distribution:\n"
    "        src.hypo_depth_dist.sort(key=lambda x: x.depth)\n"
    "        hd = pmf.PMF([(x.probability, x.depth) for x in src.hypo_depth_dist])\n"
    "\n"
    "        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()\n"
    "        area"),
  'an area with several hypocentral depths, not in order', 'the NRML source is reordered', KIT + '''
x = area()
x.hypo_depth_dist = [m.HypocentralDepth(probability=0.5, depth=d) for d in (8., 4.)]
conv()(x)
same([h.depth for h in x.hypo_depth_dist], [8., 4.], 'depths of the NRML source')
''', lib=True)
