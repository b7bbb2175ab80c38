# enough of shapely.wkt for points, lines and polygons


class _Coords(object):
    def __init__(self, coords):
        self.coords = coords


class Point(_Coords):
    @property
    def x(self):
        return self.coords[0][0]

    @property
    def y(self):
        return self.coords[0][1]


class LineString(_Coords):
    pass


class Polygon(object):
    def __init__(self, coords):
        self.exterior = _Coords(coords)


def loads(text):
    kind, _, rest = text.strip().partition('(')
    kind = kind.strip().upper()
    rest = rest.replace('(', ' ').replace(')', ' ')
    coords = [tuple(map(float, pair.split())) for pair in rest.split(',')]
    if not all(len(c) >= 2 for c in coords):
        raise ValueError('Could not parse WKT %r' % text)
    return dict(POINT=Point, LINESTRING=LineString, POLYGON=Polygon)[kind](coords)
