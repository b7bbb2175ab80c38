# Workload over source.NrmlHazardlibConverter: several converters with their own parameters turn
# shared NRML objects, edited in between, into hazardlib objects - one after the other, lazily and
# in threads, with conversions that fail.
import core
import env
import srcgen

TRTS = srcgen.TRTS
SOURCES = ('point', 'area', 'simple', 'complex', 'char-simple', 'char-complex', 'char-planar')
RUPTURES = ('simple-rupture', 'complex-rupture')
MODELS = {'point': 'PointSource', 'area': 'AreaSource', 'simple': 'SimpleFaultSource',
          'complex': 'ComplexFaultSource', 'char-simple': 'CharacteristicSource',
          'char-complex': 'CharacteristicSource', 'char-planar': 'CharacteristicSource',
          'simple-rupture': 'SimpleFaultRuptureModel',
          'complex-rupture': 'ComplexFaultRuptureModel'}
CORNERS = ('top_left', 'top_right', 'bottom_left', 'bottom_right')


class Exhausted(Exception):
    """An injected failure in the middle of a conversion"""


# ---- values

def number(sim, *usual):
    return sim.pick(*usual) if sim.draw(2) else sim.draw(64) / 8.


def coord(sim):
    return round(sim.draw(1440) / 8. - 90, 3)


def fmt(sim, x):
    if x == int(x) and sim.draw(2):
        return '%d' % x
    return repr(x)


def wkt(sim, kind, points):
    pts = ', '.join(' '.join(fmt(sim, x) for x in p) for p in points)
    return sim.pick('%s(%s)', '%s (%s)') % (kind, pts)


class Spec(object):
    """An NRML source or rupture: the object and what it has to be converted to"""

    def __init__(self, sim, ident):
        self.sim = sim
        self.kind = (SOURCES + RUPTURES)[sim.draw(len(SOURCES + RUPTURES))]
        self.rupture = self.kind in RUPTURES
        self.p = {}                 # the parameters
        self.trouble = {}           # what is wrong -> name of the exception
        self.id, self.name = ident, sim.pick('name', 'source %s' % ident, 'a b')
        self.obj = self.model()(**self.fields())
        self.shape = shape(self.obj)

    def model(self):
        from openquake.nrmllib import models
        return getattr(models, MODELS[self.kind])

    # ---- the parts; each returns the NRML side and keeps what it has to become
    def fields(self):
        sim, p, k = self.sim, self.p, self.kind
        kw = dict(id=self.id)
        if self.rupture:
            p['mag'] = kw['magnitude'] = number(sim, 6.5, 7.0)
            p['rake'] = kw['rake'] = number(sim, 90.0, -45.0)
            p['hypocenter'] = (coord(sim), coord(sim), number(sim, 10.0, 5.5))
            kw['hypocenter'] = (list if sim.draw(2) else tuple)(p['hypocenter'])
            p['tectonic_region_type'] = None
            p['source_typology'] = ('SimpleFaultSource' if k == 'simple-rupture'
                                    else 'ComplexFaultSource')
            if k == 'simple-rupture':
                kw['geometry'], p['surface'] = self.simple()
            else:
                kw['geometry'], p['surface'] = self.complex()
            return kw
        kw['name'] = p['name'] = self.name
        p['source_id'] = self.id
        p['tectonic_region_type'] = kw['trt'] = TRTS[sim.draw(len(TRTS))]
        kw['mfd'], p['mfd'] = self.mfd()
        if not k.startswith('char'):
            kw['mag_scale_rel'] = sim.pick('WC1994', 'PeerMSR')
            p['magnitude_scaling_relationship'] = kw['mag_scale_rel']
            p['rupture_aspect_ratio'] = kw['rupt_aspect_ratio'] = number(sim, 1.0, 1.5)
        if k in ('point', 'area'):
            kw['nodal_plane_dist'], p['nodal_plane_distribution'] = self.planes()
            kw['hypo_depth_dist'], p['hypocenter_distribution'] = self.depths()
            kw['geometry'], where = self.place()
            p.update(where)
        else:
            p['rake'] = kw['rake'] = number(sim, 90.0, 0.0, -45.0)
            if k == 'simple':
                kw['geometry'], (p['fault_trace'], p['upper_seismogenic_depth'],
                                 p['lower_seismogenic_depth'], p['dip']) = self.simple()
            elif k == 'complex':
                kw['geometry'], p['edges'] = self.complex()
            elif k == 'char-simple':
                kw['surface'], p['surface'] = self.simple()
            elif k == 'char-complex':
                kw['surface'], p['surface'] = self.complex()
            else:
                kw['surface'], p['surface'] = self.planar()
        return kw

    def line(self, third):
        sim = self.sim
        n = 2 + sim.draw(3)
        pts = [(coord(sim), coord(sim)) + ((number(sim, 0.0, 10.0),) if third else ())
               for _ in range(n)]
        return wkt(sim, 'LINESTRING', pts), tuple(
            p if third else p + (0.0,) for p in pts)

    def simple(self):
        from openquake.nrmllib import models
        sim = self.sim
        text, pts = self.line(sim.draw(4) == 1)
        up, dip = number(sim, 0.0, 1.0), number(sim, 45.0, 60.0)
        low = up + number(sim, 10.0, 12.5)
        return (models.SimpleFaultGeometry(wkt=text, dip=dip, upper_seismo_depth=up,
                                           lower_seismo_depth=low), (pts, up, low, dip))

    def complex(self):
        from openquake.nrmllib import models
        lines = [self.line(True) for _ in range(2 + self.sim.pick(0, 1, 2))]
        texts = [t for t, _p in lines]
        return (models.ComplexFaultGeometry(top_edge_wkt=texts[0], bottom_edge_wkt=texts[-1],
                                            int_edges=texts[1:-1]), tuple(p for _t, p in lines))

    def planar(self):
        from openquake.nrmllib import models
        sim = self.sim
        objs, out = [], []
        for _ in range(1 + sim.draw(3)):
            kw = dict(strike=number(sim, 0.0, 30.0), dip=number(sim, 45.0, 90.0))
            e = dict(kw)
            for c in CORNERS:
                e[c] = (coord(sim), coord(sim), number(sim, 0.0, 10.0))
                kw[c] = models.Point(*e[c])
            objs.append(models.PlanarSurface(**kw))
            out.append(e)
        return objs, out

    def place(self):
        from openquake.nrmllib import models
        sim = self.sim
        up = number(sim, 0.0, 1.0)
        low = up + number(sim, 10.0, 12.5)
        p = dict(upper_seismogenic_depth=up, lower_seismogenic_depth=low)
        if self.kind == 'point':
            x, y = coord(sim), coord(sim)
            p['location'] = (x, y, 0.0)
            return models.PointGeometry(wkt=wkt(sim, 'POINT', [(x, y)]), upper_seismo_depth=up,
                                        lower_seismo_depth=low), p
        pts = [(coord(sim), coord(sim)) for _ in range(3 + sim.draw(3))]
        p['polygon'] = tuple(x + (0.0,) for x in pts)
        text = wkt(sim, 'POLYGON', pts + pts[:1]).replace('(', '((').replace(')', '))')
        return models.AreaGeometry(wkt=text, upper_seismo_depth=up, lower_seismo_depth=low), p

    def shares(self):
        n = self.sim.pick(1, 2, 3)
        return {1: [1.0], 2: [0.25, 0.75], 3: [0.5, 0.125, 0.375]}[n]

    def planes(self):
        from openquake.nrmllib import models
        sim = self.sim
        out = [(w, (number(sim, 0.0, 30.0), number(sim, 90.0, 45.0), number(sim, 0.0, -90.0)))
               for w in self.shares()]
        return [models.NodalPlane(probability=w, strike=s, dip=d, rake=r)
                for w, (s, d, r) in out], tuple(out)

    def depths(self):
        from openquake.nrmllib import models
        out = [(w, number(self.sim, 4.0, 8.0)) for w in self.shares()]
        return [models.HypocentralDepth(probability=w, depth=d) for w, d in out], tuple(out)

    def mfd(self):
        from openquake.nrmllib import models
        sim = self.sim
        self.trouble.pop('mfd', None)
        if sim.draw(2):
            kw = dict(a_val=number(sim, 2.0, 3.25), b_val=sim.pick(1.0, 0.75, 1.5),
                      min_mag=sim.pick(5.0, 4.0, 6.5))
            kw['max_mag'] = kw['min_mag'] + sim.pick(2.0, 1.5, 3.0)
            return models.TGRMFD(**kw), dict(kw, gr=True)
        kw = dict(min_mag=sim.pick(5.0, 4.5, 6.5), bin_width=sim.pick(0.5, 0.25, 1.0))
        rates = [sim.pick(0.25, 0.5, 0.0, 1.0, 3) for _ in range(1 + sim.draw(4))]
        return (models.IncrementalMFD(occur_rates=list(rates), **kw),
                dict(kw, occurrence_rates=tuple(rates), gr=False))

    # ---- edits
    def edit(self):
        sim, o, p, k = self.sim, self.obj, self.p, self.kind
        what = sim.draw(6)
        if self.rupture:
            if what < 2:
                p['rake'] = o.rake = number(sim, 90.0, 0.0)
            elif what < 4:
                p['mag'] = o.magnitude = number(sim, 6.0, 7.5)
            elif 'geometry' not in self.trouble:
                o.geometry, p['surface'] = (self.simple() if k == 'simple-rupture'
                                            else self.complex())
        elif what == 0:
            o.mfd, p['mfd'] = self.mfd()
        elif what == 1:
            self.name = p['name'] = o.name = sim.pick('name', 'other', 'a b')
        elif what == 2:
            p['tectonic_region_type'] = o.trt = TRTS[sim.draw(len(TRTS))]
        elif what == 3 and p['mfd']['gr'] and 'mfd' not in self.trouble:
            p['mfd']['a_val'] = o.mfd.a_val = number(sim, 2.0, 1.0)
        elif what == 4 and not p['mfd']['gr'] and 'mfd' not in self.trouble:
            rates = [sim.pick(0.125, 2.0, 0.0) for _ in range(1 + sim.draw(3))]
            o.mfd.occur_rates = list(rates)
            p['mfd']['occurrence_rates'] = tuple(rates)
        elif k == 'char-planar':
            i = sim.draw(len(o.surface))
            if sim.draw(2):
                p['surface'][i]['strike'] = o.surface[i].strike = number(sim, 10.0, 20.0)
            else:
                o.surface, p['surface'] = self.planar()
        elif k in ('point', 'area'):
            if what == 5:
                if 'planes' not in self.trouble:
                    o.nodal_plane_dist, p['nodal_plane_distribution'] = self.planes()
            elif 'geometry' not in self.trouble:
                o.geometry, where = self.place()
                p.update(where)
        else:
            p['rake'] = o.rake = number(sim, 45.0, -90.0)

    def spoil(self):
        """Make the object impossible to convert; or repair it"""
        sim, o, p, k = self.sim, self.obj, self.p, self.kind
        if self.trouble:
            if 'mfd' in self.trouble:
                o.mfd, p['mfd'] = self.mfd()
            if 'msr' in self.trouble:
                o.mag_scale_rel = p['magnitude_scaling_relationship']
            if 'planes' in self.trouble:
                o.nodal_plane_dist, p['nodal_plane_distribution'] = self.planes()
            if 'geometry' in self.trouble:
                self.holder(self.kept)
            self.trouble = {}
            return
        what = sim.draw(4)
        if self.rupture or what == 0 and k != 'char-planar':
            self.trouble['geometry'] = 'ValueError'
            self.kept = self.holder()
            bad = type(self.kept)(**vars(self.kept))
            text = sim.pick('LINESTRING(1 2, x 4)', 'POLYGON((1 2, 3))', '')
            if k in ('complex', 'char-complex', 'complex-rupture'):
                bad.bottom_edge_wkt = text
            else:
                bad.wkt = text
            self.holder(bad)
        elif what == 1 and not k.startswith('char'):
            self.trouble['msr'] = 'KeyError'
            o.mag_scale_rel = 'unknown'
        elif what == 2 and k in ('point', 'area'):
            self.trouble['planes'] = 'ValueError'
            o.nodal_plane_dist = o.nodal_plane_dist + o.nodal_plane_dist[:1]
        else:
            self.trouble['mfd'] = 'ValueError'
            if p['mfd']['gr']:
                o.mfd = type(o.mfd)(**dict(vars(o.mfd), max_mag=o.mfd.min_mag - 1))
            else:
                o.mfd = type(o.mfd)(**dict(vars(o.mfd), occur_rates=[]))

    def holder(self, new=None):
        """The geometry of the object; set, if given"""
        name = 'surface' if self.kind.startswith('char') else 'geometry'
        if new is not None:
            setattr(self.obj, name, new)
        return getattr(self.obj, name)

    # ---- what a converter has to make of it
    def expected(self, c):
        p = self.p
        out = dict(p)
        k = self.kind
        if self.rupture or k.startswith('char-'):
            s = p['surface']
            if k in ('simple-rupture', 'char-simple'):
                out['surface'] = ('SimpleFaultSurface', s[0], s[1], s[2], s[3], c.spacing)
            elif k in ('complex-rupture', 'char-complex'):
                out['surface'] = ('ComplexFaultSurface', s, c.spacing)
            else:
                out['surface'] = ('MultiSurface', tuple(
                    ('PlanarSurface', c.spacing, e['strike'], e['dip'], e['top_left'],
                     e['top_right'], e['bottom_right'], e['bottom_left']) for e in s))
        if self.rupture:
            out['class'] = 'Rupture'
            return out
        out['class'] = srcgen.CLASSES[k.split('-')[0]]
        out['temporal_occurrence_model'] = ('PoissonTOM', c.time) if c.time else None
        m = p['mfd']
        if m['gr']:
            out['mfd'] = ('TruncatedGRMFD', m['min_mag'], m['max_mag'], c.width, m['a_val'],
                          m['b_val'])
        else:
            out['mfd'] = ('EvenlyDiscretizedMFD', m['min_mag'], m['bin_width'],
                          m['occurrence_rates'])
        if not k.startswith('char-'):
            out['rupture_mesh_spacing'] = c.spacing
        if k == 'area':
            out['area_discretization'] = c.discr
        return out

    def reasons(self, c):
        out = set(self.trouble.values())
        if not self.rupture and self.p['mfd']['gr'] and c.width is None:
            out.add('AssertionError')
        return out


def shape(x):
    """A rendering of an NRML object"""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(shape(y) for y in x))
    if hasattr(x, '__dict__'):
        return (type(x).__name__, tuple(sorted(
            (k, shape(v)) for k, v in vars(x).items() if k != '_sim_hash')))
    return x


def change(a, b, where='it'):
    """Where two renderings differ"""
    if (isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) == 2 and
            a[0] == b[0] and isinstance(a[1], tuple) and isinstance(b[1], tuple)):
        if all(isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str)
               for x in a[1] + b[1]):
            da, db = dict(a[1]), dict(b[1])
            for k in sorted(set(da) | set(db)):
                if da.get(k, 'missing') != db.get(k, 'missing'):
                    return change(da.get(k, 'missing'), db.get(k, 'missing'),
                                  '%s.%s' % (where, k))
        elif len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                if x != y:
                    return change(x, y, '%s[%d]' % (where, i))
    return '%s is %s instead of %s' % (where, core.text(a, 80), core.text(b, 80))


def norm(x):
    """A comparable rendering of a part of a hazardlib object"""
    name = type(x).__name__
    if hasattr(x, 'longitude'):
        return (x.longitude, x.latitude, x.depth)
    if name in ('Line', 'Polygon'):
        return tuple(norm(p) for p in x.points)
    if name == 'PMF':
        return tuple((w, norm(v)) for w, v in x.data)
    if name == 'NodalPlane':
        return tuple(x.args)
    if name in ('SimpleFaultSurface', 'ComplexFaultSurface', 'PlanarSurface', 'MultiSurface'):
        return (name,) + tuple(norm(y) for y in x.args)
    if name == 'TruncatedGRMFD':
        return (name, x.min_mag, x.max_mag, x.bin_width, x.a_val, x.b_val)
    if name == 'EvenlyDiscretizedMFD':
        return (name, x.min_mag, x.bin_width, tuple(x.occurrence_rates))
    if name == 'PoissonTOM':
        return (name, x.time_span)
    if name in ('WC1994', 'PeerMSR'):
        return name
    if isinstance(x, type):
        return x.__name__
    if isinstance(x, (list, tuple)):
        return tuple(norm(y) for y in x)
    return x


def view(obj):
    out = dict((k, norm(v)) for k, v in vars(obj).items() if k not in srcgen.SKIP)
    out['class'] = type(obj).__name__
    return out


def differ(got, want):
    for k in sorted(set(got) | set(want)):
        if got.get(k, 'missing') != want.get(k, 'missing'):
            return '%s is %s instead of %s' % (
                k, core.text(got.get(k, 'missing'), 120), core.text(want.get(k, 'missing'), 120))


class Conv(object):
    """A converter and its parameters"""

    def __init__(self, sim, source, serial):
        self.serial = serial
        self.time = sim.pick(50.0, 1.0, None, 10, 0)
        self.spacing = sim.pick(1.0, 2.5, 10)
        self.width = sim.pick(0.5, 0.25, None, 0.1)
        self.discr = sim.pick(10.0, 5.0, 20)
        if sim.draw(2):
            self.it = source.NrmlHazardlibConverter(self.time, self.spacing, self.width,
                                                    self.discr)
        else:
            self.it = source.NrmlHazardlibConverter(
                investigation_time=self.time, rupture_mesh_spacing=self.spacing,
                width_of_mfd_bin=self.width, area_source_discretization=self.discr)


class World(object):
    def __init__(self, sim):
        self.sim = sim
        self.source = env.boot('source')
        self.convs = [Conv(sim, self.source, i) for i in range(1 + sim.draw(3))]
        self.specs = [Spec(sim, 's%d' % sim.draw(4)) for _ in range(1 + sim.draw(5))]
        self.results = []           # [object, its view, label]
        self.streams = []           # [generator, conv, specs to come]
        self.left = None            # constructions until the injected failure

    def hook(self, _obj):
        if self.left is not None:
            self.left -= 1
            if self.left < 0:
                raise Exhausted('no memory left')

    def some(self, seq):
        return seq[self.sim.draw(len(seq))]

    # ---- judging a conversion
    def judge(self, c, sp, ok, res, want, reasons, failed=False):
        sim = self.sim
        label = '%s %s by converter %d' % (sp.kind, sp.id, c.serial)
        if failed and not ok and isinstance(res, Exhausted):
            reasons = set(['Exhausted'])
        if reasons:
            sim.check(not ok, 'bad-source-converted', '%s: %s', label, sorted(reasons))
            sim.check(type(res).__name__ in reasons, 'wrong-error', '%s: %s instead of %s', label,
                      core.exc_text(res), sorted(reasons))
            if not sp.rupture:
                text = str(res)
                sim.check(sp.id in text and sp.name in text, 'wrong-error',
                          '%s: %s names neither id nor name %r', label, core.exc_text(res),
                          sp.name)
            sim.probe('refused')
            return
        sim.check(ok, 'not-converted', '%s: %s', label, ok or core.exc_text(res))
        bad = differ(view(res), want)
        sim.check(not bad, 'wrong-conversion', '%s: %s', label, bad)
        for obj, _view, other in self.results:
            sim.check(res is not obj, 'shared-result', '%s is %s', label, other)
            if not sp.rupture and hasattr(obj, 'mfd'):
                sim.check(res.mfd is not obj.mfd, 'shared-result',
                          '%s has the distribution of %s', label, other)
        self.results.append([res, view(res), label])

    def unchanged(self):
        for sp in self.specs:
            now = shape(sp.obj)
            if now != sp.shape:
                self.sim.fail('nrml-changed', '%s %s: %s', sp.kind, sp.id,
                              change(now, sp.shape))
        for obj, was, label in self.results:
            bad = differ(view(obj), was)
            self.sim.check(not bad, 'result-changed', '%s: %s', label, bad)

    # ---- steps
    def convert(self):
        sim = self.sim
        c, sp = self.some(self.convs), self.some(self.specs)
        fail = sim.draw(4) == 1
        if fail:
            self.left = sim.draw(6)
        ok, res = sim.attempt(c.it, sp.obj)
        if fail:
            fail = self.left < 0
            self.left = None
            if fail:
                sim.fault('construction')
        self.judge(c, sp, ok, res, sp.expected(c), sp.reasons(c), fail)

    def threads(self):
        """Several threads convert the same objects"""
        sim = self.sim
        crew = core.Threads(sim, 4 + sim.draw(12))
        jobs = []

        def work(plan):
            return [sim.attempt(c.it, sp.obj) for c, sp in plan]
        hot = self.some(self.specs)
        for i in range(2 + sim.draw(2)):
            plan = [(self.some(self.convs), hot if sim.draw(3) else self.some(self.specs))
                    for _ in range(1 + sim.draw(3))]
            jobs.append((plan, crew.spawn('t%d' % i, work, plan)))
        crew.run()
        for plan, t in jobs:
            sim.check(t.done and t.ok, 'not-converted', 'thread: %s', core.text(t.value))
            for (c, sp), (ok, res) in zip(plan, t.value):
                self.judge(c, sp, ok, res, sp.expected(c), sp.reasons(c))
        sim.probe('threads')

    def stream(self):
        """Start or advance a lazy conversion of some sources"""
        sim = self.sim
        if not self.streams or sim.draw(3) == 1:
            c = self.some(self.convs)
            specs = [self.some(self.specs) for _ in range(1 + sim.draw(4))]
            self.streams.append([(sim.attempt(c.it, sp.obj) for sp in list(specs)), c, specs])
            sim.nontrivial = True
            return
        s = self.some(self.streams)
        gen, c, specs = s
        if not specs or sim.draw(8) == 1:
            self.streams.remove(s)
            return
        sp = specs.pop(0)
        ok, res = gen.next()
        self.judge(c, sp, ok, res, sp.expected(c), sp.reasons(c))

    def spoil_result(self):
        """What the caller does with a result concerns nobody else"""
        sim = self.sim
        if not self.results:
            return
        r = self.results.pop(sim.draw(len(self.results)))
        obj = r[0]
        if hasattr(obj, 'mfd') and sim.draw(2):
            m = obj.mfd
            m.min_mag, m.bin_width = -1.0, 77.0
            if hasattr(m, 'a_val'):
                m.a_val = -1.0
            else:
                m.occurrence_rates = [9.0]
        else:
            for k in sorted(vars(obj)):
                if k not in srcgen.SKIP:
                    setattr(obj, k, None)
            obj.mine = 1

    def edit(self, func):
        func()
        for sp in self.specs:       # they may share the edited part
            sp.shape = shape(sp.obj)

    def step(self):
        sim = self.sim
        k = sim.draw(12)
        if k < 4:
            self.convert()
        elif k == 4:
            self.threads()
        elif k in (5, 6):
            self.stream()
        elif k in (7, 8):
            self.edit(self.some(self.specs).edit)
        elif k == 9:
            self.edit(self.some(self.specs).spoil)
        elif k == 10:
            self.spoil_result()
        elif sim.draw(2):
            self.specs[sim.draw(len(self.specs))] = Spec(sim, 's%d' % sim.draw(4))
        else:
            # the objects of another one, or copies of them, in one of its own
            a = Spec(sim, 's%d' % sim.draw(4))
            for b in self.specs:
                if a.kind == b.kind and not b.trouble:
                    where = 'surface' if a.kind.startswith('char') else 'geometry'
                    a.holder(b.holder())
                    for key in ('surface', 'location', 'polygon', 'fault_trace', 'edges', 'dip',
                                'upper_seismogenic_depth', 'lower_seismogenic_depth'):
                        if key in b.p:
                            a.p[key] = b.p[key]
                    a.shape = shape(a.obj)
                    break
            self.specs.append(a)
        self.unchanged()


def c25(sim):
    w = World(sim)
    sim.state['geo_hook'] = w.hook
    sim.nontrivial = len(w.convs) > 1
    for _ in range(4 + sim.draw(14)):
        w.step()
    for c in w.convs:
        for sp in w.specs:
            ok, res = sim.attempt(c.it, sp.obj)
            w.judge(c, sp, ok, res, sp.expected(c), sp.reasons(c))
    w.unchanged()
    sim.seen(len(w.convs), tuple(sorted(set(sp.kind for sp in w.specs))),
             min(9, len(w.results) // 4), len(w.streams))


WORKLOADS = dict(C25=c25)
