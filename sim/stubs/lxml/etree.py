# The part of lxml.etree the repository can reasonably use (no schema
# validation: XMLSchema objects accept every well-formed document)
import xmlsim
from xmlsim import Element, XMLSyntaxError

ParseError = XMLSyntaxError
LxmlError = XMLSyntaxError


class DocumentInvalid(Exception):
    pass


_Element = Element


class XMLSchema(object):
    def __init__(self, etree=None, file=None):
        self.file = file

    def validate(self, tree):
        return True

    def assertValid(self, tree):
        pass

    def __call__(self, tree):
        return True


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema


class ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def iter(self, tag=None):
        return self._root.iter(tag)

    def find(self, path, namespaces=None):
        return self._root.find(path, namespaces)

    def findall(self, path, namespaces=None):
        return self._root.findall(path, namespaces)

    def xpath(self, path, namespaces=None):
        return self._root.xpath(path, namespaces)


def parse(source, parser=None):
    return ElementTree(xmlsim.parse_source(source))


def fromstring(text, parser=None):
    if isinstance(text, unicode):
        text = text.encode('utf8')
    root, _ended, err = xmlsim.parse_bytes(text)
    if err is not None:
        raise err
    return root


XML = fromstring


def iterparse(source, events=('end',), tag=None, schema=None, **kw):
    for el, _root in xmlsim.stream(source):
        if tag is None or xmlsim.match(el.tag, tag):
            yield 'end', el
