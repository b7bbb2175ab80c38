import core


class BaseSeismicSource(object):
    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)
        self._keys = sorted(kw)

    def __hash__(self):
        return hash(self.source_id)

    def __repr__(self):
        return '<%s %s>' % (self.__class__.__name__, self.source_id)

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def count_ruptures(self):
        """One rupture per magnitude bin with a rate, times a factor"""
        hook = core.current().state.get('count_hook')
        if hook is not None:
            hook(self)
        n = len([r for _m, r in self.mfd.get_annual_occurrence_rates() if r])
        return n * getattr(self, 'rupture_factor', 1)


class SeismicSource(BaseSeismicSource):
    pass


class PointSource(SeismicSource):
    pass


class AreaSource(PointSource):
    def count_ruptures(self):
        n = len(self.polygon.discretize(self.area_discretization))
        return n * PointSource.count_ruptures(self)


class SimpleFaultSource(SeismicSource):
    pass


class ComplexFaultSource(SeismicSource):
    pass


class CharacteristicFaultSource(SeismicSource):
    pass
