# Streaming source model parser: yields each source as soon as its element is
# complete; stream and syntax errors come after the sources before them.
import xmlsim
from openquake.nrmllib import NAMESPACE, models

KINDS = dict(pointSource='point', areaSource='area', simpleFaultSource='simple',
             complexFaultSource='complex', characteristicFaultSource='char')


def _floats(s):
    return [float(x) for x in s.split()]


class SourceModelParser(object):
    def __init__(self, source, schema_validation=True):
        self.source = source

    def parse(self):
        for el, _root in xmlsim.stream(self.source):
            tag = el.tag[len(NAMESPACE) + 2:]
            if tag in KINDS:
                yield self._source(tag, el)

    def _mfd(self, el):
        for c in el.children:
            tag = c.tag[len(NAMESPACE) + 2:]
            if tag == 'truncGutenbergRichterMFD':
                return models.TGRMFD(*[float(c.attrib[k]) for k in (
                    'aValue', 'bValue', 'minMag', 'maxMag')])
            elif tag == 'incrementalMFD':
                return models.IncrementalMFD(
                    float(c.attrib['minMag']), float(c.attrib['binWidth']),
                    _floats(c.children[0].text))
        raise ValueError('no MFD in source %s' % el.attrib['id'])

    def _source(self, tag, el):
        a = el.attrib
        head = (a['id'], a['name'], a['tectonicRegion'])
        mfd = self._mfd(el)
        geo = [c for c in el.children if c.tag.endswith('eometry')]
        g = geo[0].attrib if geo else {}
        if tag in ('pointSource', 'areaSource'):
            cls = models.PointSource if tag == 'pointSource' else models.AreaSource
            return cls(
                *(head + (models.PointGeometry(g['wkt'], float(g['upper']), float(g['lower'])),
                          a['magScaleRel'], float(a['aspect']), mfd,
                          [models.NodalPlane(1.0, 0.0, 90.0, 0.0)],
                          [models.HypocentralDepth(1.0, 4.0)])))
        elif tag == 'simpleFaultSource':
            return models.SimpleFaultSource(
                *(head + (models.SimpleFaultGeometry(
                    g['wkt'], float(g['dip']), float(g['upper']), float(g['lower'])),
                    a['magScaleRel'], float(a['aspect']), mfd, float(a['rake']))))
        elif tag == 'complexFaultSource':
            return models.ComplexFaultSource(
                *(head + (models.ComplexFaultGeometry(g['top'], g['bottom'], []),
                          a['magScaleRel'], float(a['aspect']), mfd, float(a['rake']))))
        return models.CharacteristicSource(
            *(head + (mfd, float(a['rake']), models.SimpleFaultGeometry(
                g['wkt'], float(g['dip']), float(g['upper']), float(g['lower'])))))
