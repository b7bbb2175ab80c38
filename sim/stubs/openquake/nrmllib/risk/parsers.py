# Streaming risk model parsers with the interfaces of nrmllib.risk.parsers
import xmlsim
from openquake.nrmllib import NAMESPACE


def _tag(el):
    return el.tag[len(NAMESPACE) + 2:]


def _floats(s):
    return [float(x) for x in s.split()]


def _child(el, name):
    for c in el.children:
        if _tag(c) == name:
            return c
    raise ValueError('missing element %s' % name)


class VulnerabilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        for el, _root in xmlsim.stream(self.source):
            if _tag(el) == 'discreteVulnerability':
                vset = el.parent
                iml = _child(vset, 'IML')
                yield dict(
                    ID=el.attrib['vulnerabilityFunctionID'], IMT=iml.attrib['IMT'],
                    IML=_floats(iml.text),
                    lossRatio=_floats(_child(el, 'lossRatio').text),
                    coefficientsVariation=_floats(_child(el, 'coefficientsVariation').text),
                    probabilisticDistribution=el.attrib['probabilisticDistribution'])


class FragilityModelParser(object):
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        fmt = None
        for el, root in xmlsim.stream(self.source):
            tag = _tag(el)
            if tag == 'limitStates':
                fmt = el.parent.attrib['format']
                yield fmt, el.text.split()
            elif tag == 'ffs':
                iml = _child(el, 'IML')
                ndl = el.attrib.get('noDamageLimit')
                ndl = None if ndl is None else float(ndl)
                taxonomy = _child(el, 'taxonomy').text.strip()
                if fmt == 'discrete':
                    params = [_floats(_child(c, 'poEs').text) for c in el.children if _tag(c) == 'ffd']
                    d = dict(IMT=iml.attrib['IMT'], imls=_floats(iml.text))
                else:
                    params = []
                    for c in el.children:
                        if _tag(c) == 'ffc':
                            p = _child(c, 'params').attrib
                            params.append((float(p['mean']), float(p['stddev'])))
                    d = dict(IMT=iml.attrib['IMT'], imls=None)
                yield taxonomy, d, params, ndl
