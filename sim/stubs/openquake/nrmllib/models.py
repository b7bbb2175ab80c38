# Plain data classes with the names and the inheritance of nrmllib.models


class _Model(object):
    fields = ()

    def __init__(self, *args, **kw):
        for name, value in zip(self.fields, args):
            kw[name] = value
        for name in self.fields:
            setattr(self, name, kw.pop(name, None))
        for name, value in kw.items():
            setattr(self, name, value)

    def __hash__(self):
        return 1


class SourceModel(_Model):
    fields = ('name', 'sources')


class SeismicSource(_Model):
    fields = ('id', 'name', 'trt')


class PointSource(SeismicSource):
    fields = ('id', 'name', 'trt', 'geometry', 'mag_scale_rel', 'rupt_aspect_ratio',
              'mfd', 'nodal_plane_dist', 'hypo_depth_dist')


class AreaSource(PointSource):
    pass


class SimpleFaultSource(SeismicSource):
    fields = ('id', 'name', 'trt', 'geometry', 'mag_scale_rel', 'rupt_aspect_ratio',
              'mfd', 'rake')


class ComplexFaultSource(SimpleFaultSource):
    pass


class CharacteristicSource(SeismicSource):
    fields = ('id', 'name', 'trt', 'mfd', 'rake', 'surface')


class PointGeometry(_Model):
    fields = ('wkt', 'upper_seismo_depth', 'lower_seismo_depth')


class AreaGeometry(PointGeometry):
    pass


class SimpleFaultGeometry(_Model):
    fields = ('wkt', 'dip', 'upper_seismo_depth', 'lower_seismo_depth')


class ComplexFaultGeometry(_Model):
    fields = ('top_edge_wkt', 'bottom_edge_wkt', 'int_edges')


class PlanarSurface(_Model):
    fields = ('strike', 'dip', 'top_left', 'top_right', 'bottom_left', 'bottom_right')


class Point(_Model):
    fields = ('longitude', 'latitude', 'depth')


class IncrementalMFD(_Model):
    fields = ('min_mag', 'bin_width', 'occur_rates')


class TGRMFD(_Model):
    fields = ('a_val', 'b_val', 'min_mag', 'max_mag')


class NodalPlane(_Model):
    fields = ('probability', 'strike', 'dip', 'rake')


class HypocentralDepth(_Model):
    fields = ('probability', 'depth')


class SimpleFaultRuptureModel(_Model):
    fields = ('id', 'magnitude', 'rake', 'hypocenter', 'geometry')


class ComplexFaultRuptureModel(_Model):
    fields = ('id', 'magnitude', 'rake', 'hypocenter', 'geometry')
