import math
import core


class _Geo(object):
    def __init__(self, *args):
        hook = core.current().state.get('geo_hook')
        if hook is not None:
            hook(self)
        self.args = args

    def __eq__(self, other):
        return self.__class__ is other.__class__ and self.args == other.args

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.__class__.__name__)


class Point(_Geo):
    def __init__(self, longitude, latitude, depth=0.0):
        _Geo.__init__(self, longitude, latitude, depth)
        self.longitude, self.latitude, self.depth = longitude, latitude, depth

    @property
    def x(self):
        return self.longitude

    @property
    def y(self):
        return self.latitude


class Line(_Geo):
    def __init__(self, points):
        _Geo.__init__(self, tuple(points))
        self.points = points


class NodalPlane(_Geo):
    def __init__(self, strike, dip, rake):
        _Geo.__init__(self, strike, dip, rake)


class Mesh(object):
    def __init__(self, lons, lats):
        self.lons, self.lats = lons, lats

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        return (Point(x, y) for x, y in zip(self.lons, self.lats))


class Polygon(_Geo):
    def __init__(self, points):
        _Geo.__init__(self, tuple(points))
        self.points = points

    def discretize(self, step):
        """A regular grid over the bounding box: step in tenths of a degree"""
        hook = core.current().state.get('mesh_hook')
        if hook is not None:
            hook(self)
        xs = [p.longitude for p in self.points]
        ys = [p.latitude for p in self.points]
        d = step / 10.
        nx = max(1, int(round((max(xs) - min(xs)) / d)))
        ny = max(1, int(round((max(ys) - min(ys)) / d)))
        lons, lats = [], []
        for j in range(ny):
            for i in range(nx):
                lons.append(min(xs) + i * d)
                lats.append(min(ys) + j * d)
        return Mesh(lons, lats)


class SimpleFaultSurface(_Geo):
    @classmethod
    def from_fault_data(cls, fault_trace, upper_seismogenic_depth, lower_seismogenic_depth, dip,
                        mesh_spacing):
        return cls(fault_trace, upper_seismogenic_depth, lower_seismogenic_depth, dip,
                   mesh_spacing)


class ComplexFaultSurface(_Geo):
    @classmethod
    def from_fault_data(cls, edges, mesh_spacing):
        return cls(tuple(edges), mesh_spacing)


class PlanarSurface(_Geo):
    def __init__(self, mesh_spacing, strike, dip, top_left, top_right, bottom_right, bottom_left):
        _Geo.__init__(self, mesh_spacing, strike, dip, top_left, top_right, bottom_right,
                      bottom_left)


class MultiSurface(_Geo):
    def __init__(self, surfaces):
        _Geo.__init__(self, tuple(surfaces))
        self.surfaces = surfaces
