NAMESPACE = 'http://openquake.org/xmlns/nrml/0.4'
GML_NAMESPACE = 'http://www.opengis.net/gml'
NRML = '{%s}' % NAMESPACE
PARSE_NS_MAP = {'nrml': NAMESPACE, 'gml': GML_NAMESPACE}
SERIALIZE_NS_MAP = {None: NAMESPACE, 'gml': GML_NAMESPACE}


class InvalidFile(Exception):
    pass


def nrml_schema_file():
    return '/sim/nrml.xsd'
