# A small namespace-aware XML tree over the Java SAX parser, shared by the
# lxml and nrmllib stand-ins.  It reads its input in chunks through the file
# object it is given, so that read faults surface where they really would.
import sys
import collections
from java.io import ByteArrayInputStream
from java.lang import String
from javax.xml.parsers import SAXParserFactory
from org.xml.sax import SAXException, InputSource
from org.xml.sax.helpers import DefaultHandler
from jarray import array as jarray

CHUNK = 256


class XMLSyntaxError(SyntaxError):
    pass


def lname(uri, local):
    return '{%s}%s' % (uri, local) if uri else str(local)


def clean(s):
    """ASCII text as str, the rest as unicode, like lxml does"""
    try:
        return str(s)
    except UnicodeError:
        return unicode(s)


class Element(object):
    def __init__(self, tag, attrib=None, sourceline=0):
        self.tag = tag
        self.attrib = collections.OrderedDict(attrib or {})
        self.text = None
        self.tail = None
        self.children = []
        self.parent = None
        self.sourceline = sourceline
        self._ended = False

    def __hash__(self):
        return self.sourceline

    def __repr__(self):
        return '<Element %s>' % self.tag

    def __iter__(self):
        return iter(self.children)

    def __len__(self):
        return len(self.children)

    def __getitem__(self, i):
        return self.children[i]

    def __nonzero__(self):
        return True

    def get(self, name, default=None):
        return self.attrib.get(name, default)

    def set(self, name, value):
        self.attrib[name] = value

    def keys(self):
        return list(self.attrib)

    def items(self):
        return list(self.attrib.items())

    def append(self, child):
        child.parent = self
        self.children.append(child)

    def remove(self, child):
        for i, c in enumerate(self.children):
            if c is child:
                del self.children[i]
                child.parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def clear(self):
        self.attrib = collections.OrderedDict()
        self.text = None
        self.children = []

    def getparent(self):
        return self.parent

    def getchildren(self):
        return list(self.children)

    def _sibling(self, k):
        if self.parent is None:
            return None
        for i, c in enumerate(self.parent.children):
            if c is self:
                j = i + k
                return self.parent.children[j] if 0 <= j < len(self.parent.children) else None
        return None

    def getprevious(self):
        return self._sibling(-1)

    def getnext(self):
        return self._sibling(1)

    def getroot(self):
        return self

    def iter(self, tag=None):
        if tag is None or match(self.tag, tag):
            yield self
        for c in self.children:
            for x in c.iter(tag):
                yield x

    getiterator = iter

    def iterchildren(self, tag=None):
        return iter([c for c in self.children if tag is None or match(c.tag, tag)])

    def itertext(self):
        for x in self.iter():
            if x.text:
                yield x.text

    def _find(self, path, namespaces=None):
        return evaluate(self, path, namespaces or {})

    def findall(self, path, namespaces=None):
        return self._find(path, namespaces)

    def iterfind(self, path, namespaces=None):
        return iter(self._find(path, namespaces))

    def find(self, path, namespaces=None):
        res = self._find(path, namespaces)
        return res[0] if res else None

    def findtext(self, path, default=None, namespaces=None):
        x = self.find(path, namespaces)
        return default if x is None else (x.text or '')

    def xpath(self, path, namespaces=None):
        return evaluate(self, path, namespaces or {})


def match(tag, pattern):
    if pattern == '*':
        return True
    if pattern.endswith('}*'):
        return tag.startswith(pattern[:-1])
    return tag == pattern


def steps(path, namespaces):
    out = []
    i = 0
    deep = False
    token = ''
    brace = 0
    path = path.strip()
    n = len(path)
    while i <= n:
        ch = path[i] if i < n else '/'
        if ch == '{':
            brace += 1
        elif ch == '}':
            brace -= 1
        if ch == '/' and not brace:
            if token:
                out.append((deep, token))
                deep = False
                token = ''
            if i < n and path[i:i + 2] == '//':
                deep = True
                i += 1
        else:
            token += ch
        i += 1
    return out


def evaluate(elem, path, namespaces):
    nodes = [elem]
    if path.startswith('/') and not path.startswith('//'):
        while nodes[0].parent is not None:
            nodes = [nodes[0].parent]
        # absolute: the first step names the root
        holder = Element('')
        holder.children = [nodes[0]]
        nodes = [holder]
    elif path.startswith('//'):
        root = elem
        while root.parent is not None:
            root = root.parent
        holder = Element('')
        holder.children = [root]
        nodes = [holder]
    for deep, tok in steps(path, namespaces):
        cond = None
        if '[' in tok:
            tok, _, cond = tok.partition('[')
            cond = cond.rstrip(']')
        if tok == '.':
            if deep:
                nodes = [x for nd in nodes for x in nd.iter()]
            continue
        if tok == '..':
            nodes = [nd.parent for nd in nodes if nd.parent is not None]
            continue
        if tok.startswith('@'):
            return [nd.attrib[tok[1:]] for nd in nodes if tok[1:] in nd.attrib]
        if tok == 'text()':
            return [nd.text for nd in nodes if nd.text]
        if ':' in tok and not tok.startswith('{'):
            pre, _, loc = tok.partition(':')
            tok = '{%s}%s' % (namespaces[pre], loc)
        new = []
        for nd in nodes:
            cands = [x for c in nd.children for x in c.iter()] if deep else nd.children
            for c in cands:
                if match(c.tag, tok) and not any(c is y for y in new):
                    new.append(c)
        if cond is not None:
            k, _, v = cond.lstrip('@').partition('=')
            v = v.strip('"\'')
            new = [c for c in new if c.attrib.get(k) == v] if _ else \
                [c for c in new if k in c.attrib]
        nodes = new
    return nodes


class Handler(DefaultHandler):
    def __init__(self):
        self.root = None
        self.stack = []
        self.ended = []
        self.buf = []
        self.locator = None

    def setDocumentLocator(self, loc):
        self.locator = loc

    def _flush(self):
        if self.buf:
            s = clean(''.join(self.buf))
            self.buf = []
            if self.stack:
                top = self.stack[-1]
                if top.children:
                    last = top.children[-1]
                    last.tail = (last.tail or '') + s
                else:
                    top.text = (top.text or '') + s

    def startElement(self, uri, local, qname, attrs):
        self._flush()
        el = Element(lname(uri, local), None, self.locator.getLineNumber() if self.locator else 0)
        for i in range(attrs.getLength()):
            el.attrib[clean(lname(attrs.getURI(i), attrs.getLocalName(i)))] = clean(attrs.getValue(i))
        el.tag = clean(el.tag)
        if self.stack:
            self.stack[-1].append(el)
        else:
            self.root = el
        self.stack.append(el)

    def endElement(self, uri, local, qname):
        self._flush()
        el = self.stack.pop()
        el._ended = True
        self.ended.append(el)

    def characters(self, ch, start, length):
        self.buf.append(String(ch, start, length).toString())

    def ignorableWhitespace(self, ch, start, length):
        pass

    def error(self, e):
        raise e

    def fatalError(self, e):
        raise e

    def warning(self, e):
        pass

    def resolveEntity(self, a, b):
        return None


_factory = [None]


def parse_bytes(data):
    """Returns (root or None, elements in order of their ends, error or None)"""
    if _factory[0] is None:
        f = SAXParserFactory.newInstance()
        f.setNamespaceAware(True)
        f.setValidating(False)
        _factory[0] = f
    parser = _factory[0].newSAXParser()
    handler = Handler()
    err = None
    if isinstance(data, unicode):
        data = data.encode('utf8')
    try:
        parser.parse(ByteArrayInputStream(String(data.decode('latin1')).getBytes('ISO-8859-1')), handler)
    except SAXException as e:
        line = getattr(e, 'lineNumber', 0)
        err = XMLSyntaxError('%s, line %s' % (clean(e.getMessage() or 'syntax error'), line))
    except Exception as e:
        raise
    except BaseException as e:
        # java.io.* from malformed UTF-8
        err = XMLSyntaxError('malformed document: %s' % e.__class__.__name__)
    return handler.root, handler.ended, err


def read_all(source):
    """(data, exception or None, name): what could be read of a file or file name"""
    opened = None
    if isinstance(source, basestring):
        f = opened = open(source, 'rb')
    else:
        f = source
    parts = []
    exc = None
    try:
        while True:
            try:
                part = f.read(CHUNK)
            except (IOError, OSError, ValueError) as e:
                exc = e
                break
            if not part:
                break
            parts.append(part)
    finally:
        if opened is not None:
            opened.close()
    if parts and isinstance(parts[0], unicode):
        return u''.join(parts).encode('utf8'), exc
    return ''.join(parts), exc


def parse_source(source):
    data, exc = read_all(source)
    if exc is not None:
        raise exc
    root, _ended, err = parse_bytes(data)
    if err is not None:
        raise err
    return root


def stream(source):
    """Yield elements as they end; errors come where they are met"""
    data, exc = read_all(source)
    root, ended, err = parse_bytes(data)
    for el in ended:
        yield el, root
    if exc is not None:
        raise exc
    if err is not None:
        raise err


def escape(s):
    if not isinstance(s, basestring):
        s = str(s)
    if isinstance(s, unicode):
        s = s.encode('utf8')
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')
