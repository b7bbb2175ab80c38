from openquake.hazardlib.gsim.base import GroundShakingIntensityModel


def _make(name):
    return type(name, (GroundShakingIntensityModel,), {})


_names = ['BooreAtkinson2008', 'ChiouYoungs2008', 'AkkarBommer2010', 'SadighEtAl1997',
          'Campbell2003', 'ToroEtAl2002', 'CauzziFaccioli2008', 'ZhaoEtAl2006Asc']
_gsims = dict((n, _make(n)) for n in _names)


def get_available_gsims():
    return dict(_gsims)
