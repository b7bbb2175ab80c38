# nrmllib.node: nodes with attributes, text and subnodes; tags lose their
# namespace; reading and writing of NRML files
import xmlsim
from xmlsim import escape
import openquake.nrmllib as nrmllib


def strip_fqtag(tag):
    return tag.split('}')[1] if tag.startswith('{') else tag


class Node(object):
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno', '__dict__')

    def __init__(self, fulltag, attrib=None, text=None, nodes=None, lineno=None):
        self.tag = fulltag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for node in self.nodes:
            if node.tag == name:
                return node
        raise NameError('No subnode named %r found in %r' % (name, self.tag))

    def getnodes(self, name):
        for node in self.nodes:
            if node.tag == name:
                yield node

    def append(self, node):
        self.nodes.append(node)

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def get(self, attr, value=None):
        return self.attrib.get(attr, value)

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __delitem__(self, i):
        if isinstance(i, basestring):
            del self.attrib[i]
        else:
            del self.nodes[i]

    def __iter__(self):
        return iter(self.nodes)

    def __len__(self):
        return len(self.nodes)

    def __nonzero__(self):
        return True

    def __invert__(self):
        return self.text

    def __hash__(self):
        return hash(self.tag)

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __repr__(self):
        return '<%s %s %s>' % (self.tag, sorted(self.attrib.items()), self.text)

    def to_str(self, expandattrs=True, expandvals=True):
        return repr(self)


class LiteralNode(Node):
    pass


def node_from_elem(elem, nodefactory=Node):
    children = [node_from_elem(c, nodefactory) for c in elem.children]
    return nodefactory(strip_fqtag(elem.tag), dict(elem.attrib), elem.text,
                       children, elem.sourceline)


def node_from_xml(xmlfile, nodefactory=Node):
    return node_from_elem(xmlsim.parse_source(xmlfile), nodefactory)


def node_from_nrml(xmlfile, nodefactory=Node):
    root = xmlsim.parse_source(xmlfile)
    if not root.tag.endswith('nrml'):
        raise ValueError('%s: The root tag must be <nrml>, got %r' % (xmlfile, root.tag))
    return node_from_elem(root, nodefactory)


def _write(node, out, indent):
    pad = '  ' * indent
    attrs = ''.join(' %s="%s"' % (k, escape(v)) for k, v in sorted(node.attrib.items()))
    subnodes = list(node.nodes) if node.nodes is not None else []
    text = node.text
    if text is not None:
        text = text.strip() if isinstance(text, basestring) else str(text)
    if not subnodes and not text:
        out.write('%s<%s%s/>\n' % (pad, node.tag, attrs))
    elif not subnodes:
        out.write('%s<%s%s>%s</%s>\n' % (pad, node.tag, attrs, escape(text), node.tag))
    else:
        out.write('%s<%s%s>%s\n' % (pad, node.tag, attrs, escape(text) if text else ''))
        for n in subnodes:
            _write(n, out, indent + 1)
        out.write('%s</%s>\n' % (pad, node.tag))


def node_to_xml(node, output=None, nsmap=None):
    import sys
    out = output or sys.stdout
    out.write("<?xml version='1.0' encoding='utf-8'?>\n")
    _write(node, out, 0)


def node_to_nrml(node, output=None, nsmap=None):
    import sys
    out = output or sys.stdout
    out.write("<?xml version='1.0' encoding='utf-8'?>\n")
    out.write('<nrml xmlns="%s" xmlns:gml="%s">\n' % (
        nrmllib.NAMESPACE, nrmllib.GML_NAMESPACE))
    _write(node, out, 1)
    out.write('</nrml>\n')


def node_copy(node, nodefactory=Node):
    return nodefactory(node.tag, dict(node.attrib), node.text,
                       [node_copy(n, nodefactory) for n in node.nodes])
