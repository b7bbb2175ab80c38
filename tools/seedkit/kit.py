# Helper of a demonstration: loads openquake.commonlib from the current
# directory with small stand-ins for the libraries it imports.  Everything is
# written below a scratch directory that is removed at the end.
import atexit
import collections
import cPickle
import imp
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()


def module(name, **attrs):
    mod = imp.new_module(name)
    mod.__dict__.update(attrs)
    sys.modules[name] = mod
    if '.' in name:
        parent, _, last = name.rpartition('.')
        setattr(sys.modules[parent], last, mod)
    return mod


class Pool(object):
    """An in-process pool with one worker per task; tasks run when submitted
    (in a worker: worker.inside is True), results come in the given order"""
    order = staticmethod(lambda futures: futures)
    inside = False
    submitted = 0
    yielded = []
    broken = None

    def __init__(self, *args, **kw):
        pass

    def submit(self, fn, *args, **kw):
        Pool.submitted += 1
        f = Future()
        args = cPickle.loads(cPickle.dumps((args, kw), 2))
        Pool.inside = True
        try:
            f.value = cPickle.loads(cPickle.dumps(fn(*args[0], **args[1]), 2))
        finally:
            Pool.inside = False
        return f


class Future(object):
    error = None

    def result(self, timeout=None):
        Pool.waited.append(self)
        if self.error is not None:
            raise self.error
        return self.value

    def done(self):
        return True

    def exception(self, timeout=None):
        return self.error


Pool.waited = []


def as_completed(futures, timeout=None):
    seen = []
    for f in Pool.order(list(futures)):
        if f not in seen:  # like the real one, each future once
            seen.append(f)
            Pool.yielded.append(f)
            yield f


class BrokenProcessPool(RuntimeError):
    pass


module('concurrent')
module('concurrent.futures', ProcessPoolExecutor=Pool, ThreadPoolExecutor=Pool,
       as_completed=as_completed, Future=Future)
module('concurrent.futures.process', BrokenProcessPool=BrokenProcessPool)


class AccessDenied(Exception):
    pass


class NoSuchProcess(Exception):
    pass


Usage = collections.namedtuple('Usage', 'total used free percent')
Mem = collections.namedtuple('Mem', 'rss vms')


class Process(object):
    """rss[pid] is a list of measurements, numbers or exceptions"""
    rss = {}

    def __init__(self, pid):
        self.pid = pid

    def get_memory_info(self):
        hist = Process.rss.setdefault(self.pid, [1000])
        value = hist.pop(0) if len(hist) > 1 else hist[0]
        if isinstance(value, Exception):
            raise value
        return Mem(value, value)


def phymem_usage():
    seq = psutil.samples
    psutil.calls += 1
    return Usage(100, 10, 90, seq.pop(0) if len(seq) > 1 else seq[0])


psutil = module('psutil', AccessDenied=AccessDenied, NoSuchProcess=NoSuchProcess,
                Process=Process, phymem_usage=phymem_usage, samples=[10.0], calls=0)


class _Core(object):
    state = {}


module('core', current=lambda: _Core)

LIB = os.path.join(HERE, 'lib')
sys.path[:0] = [LIB, HERE]
oq = imp.new_module('openquake')
oq.__path__ = [os.path.join(REPO, 'openquake'), os.path.join(LIB, 'openquake')]
sys.modules['openquake'] = oq
if not os.path.isdir(LIB):
    class testing(object):
        pass
    module('numpy', testing=testing)

os.environ.pop('OQ_NO_DISTRIBUTE', None)
_scratch = []


def scratch():
    path = tempfile.mkdtemp(prefix='demo')
    _scratch.append(path)
    return os.path.realpath(path)


def _clean():
    for path in _scratch:
        shutil.rmtree(path, True)


atexit.register(_clean)


def put(path, text):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    with open(path, 'wb') as f:
        f.write(text)
    return path


def get(path):
    with open(path, 'rb') as f:
        return f.read()


def ok(cond, *msg):
    if not cond:
        print 'BROKEN:', ' '.join(map(str, msg))
        sys.stdout.flush()
        _clean()
        os._exit(1)


def same(got, expected, what=''):
    ok(got == expected, what, 'got', repr(got), 'expected', repr(expected))


def raises(exc, fn, *args, **kw):
    try:
        res = fn(*args, **kw)
    except exc as e:
        return e
    except BaseException as e:
        ok(False, fn, args, 'raised', repr(e), 'instead of', exc)
    ok(False, fn, args, 'returned', repr(res), 'instead of raising', exc)


class Logs(object):
    """Collects the log records of the root logger"""

    def __init__(self):
        import logging

        class H(logging.Handler):
            def emit(h, record):
                self.records.append((record.levelname, record.getMessage()))
        self.records = []
        self.handler = H()
        logging.getLogger().addHandler(self.handler)
        logging.getLogger().setLevel(logging.DEBUG)

    def warnings(self):
        return [m for l, m in self.records if l == 'WARNING']


NRML = ("<?xml version='1.0' encoding='utf-8'?>\n<nrml xmlns='http://openquake.org/xmlns/nrml/0.4'"
        " xmlns:gml='http://www.opengis.net/gml'>\n%s\n</nrml>\n")


def point(ident, trt='Active Shallow Crust', a=2.0, b=1.0, lo=5.0, hi=7.0, x=1.0, mfd=None,
          tag='pointSource'):
    geom = "<pointGeometry wkt='POINT(%r 0.0)' upper='0.0' lower='10.0'/>" % x
    if tag == 'areaSource':
        geom = ("<areaGeometry wkt='POLYGON((0.0 0.0, 2.0 0.0, 2.0 2.0, 0.0 2.0, 0.0 0.0))'"
                " upper='0.0' lower='10.0'/>")
    return ("<%s id='%s' name='n' tectonicRegion='%s' magScaleRel='WC1994' aspect='1.0'>"
            "%s%s</%s>\n" % (tag, ident, trt, mfd or gr(a, b, lo, hi), geom, tag))


def gr(a=2.0, b=1.0, lo=5.0, hi=7.0):
    return ("<truncGutenbergRichterMFD aValue='%r' bValue='%r' minMag='%r' maxMag='%r'/>"
            % (a, b, lo, hi))


def incremental(rates, lo=5.0, width=0.5):
    return ("<incrementalMFD minMag='%r' binWidth='%r'><occurRates>%s</occurRates>"
            "</incrementalMFD>" % (lo, width, ' '.join(map(repr, rates))))


def source_model(*sources):
    return NRML % ("<sourceModel name='m'>\n%s</sourceModel>" % ''.join(sources))


def branch(ident, value, weight):
    return ("<logicTreeBranch branchID='%s'><uncertaintyModel>%s</uncertaintyModel>"
            "<uncertaintyWeight>%s</uncertaintyWeight></logicTreeBranch>\n" % (
                ident, value, weight))


def branchset(ident, kind, branches, **attrs):
    return ("<logicTreeBranchSet branchSetID='%s' uncertaintyType='%s'%s>\n%s"
            "</logicTreeBranchSet>\n" % (
                ident, kind, ''.join(" %s='%s'" % kv for kv in sorted(attrs.items())),
                ''.join(branch(*b) for b in branches)))


def logic_tree(*levels):
    return NRML % ("<logicTree logicTreeID='lt'>\n%s</logicTree>" % ''.join(
        "<logicTreeBranchingLevel branchingLevelID='l%d'>\n%s</logicTreeBranchingLevel>\n" % (
            i, ''.join(sets)) for i, sets in enumerate(levels)))


def converter(step=10.):
    from openquake.commonlib.source import NrmlHazardlibConverter
    return NrmlHazardlibConverter(50., 5., 0.5, step)


def sources(fname, apply_uncertainties=None):
    from openquake.commonlib.source import parse_source_model
    args = () if apply_uncertainties is None else (apply_uncertainties,)
    return parse_source_model(fname, converter(), *args)


def hazard(kind, ident, mfd, trt='Volcanic', **kw):
    from openquake.hazardlib import source
    return getattr(source, kind)(
        source_id=ident, name='n', tectonic_region_type=trt, mfd=mfd, rupture_mesh_spacing=5.,
        magnitude_scaling_relationship=None, rupture_aspect_ratio=1., upper_seismogenic_depth=0.,
        lower_seismogenic_depth=10., nodal_plane_distribution=None, hypocenter_distribution=None,
        temporal_occurrence_model=None, **kw)


VULN = NRML % """<vulnerabilityModel>
%s</vulnerabilityModel>"""


def vset(ident, imt, imls, *functions):
    return ("<discreteVulnerabilitySet vulnerabilitySetID='%s' assetCategory='buildings' "
            "lossCategory='economic'>\n<IML IMT='%s'>%s</IML>\n%s</discreteVulnerabilitySet>\n" % (
                ident, imt, imls, ''.join(
                    "<discreteVulnerability vulnerabilityFunctionID='%s' "
                    "probabilisticDistribution='LN'><lossRatio>%s</lossRatio>"
                    "<coefficientsVariation>%s</coefficientsVariation></discreteVulnerability>\n"
                    % f for f in functions)))
