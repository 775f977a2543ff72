"""Abstract XML documents: elements with known names and structure whose attribute
values and texts are constants or symbols.  Models of the xml::Element adaptor let
the input handlers be interpreted on a document."""
from interp import T, C, TRUE, FALSE, NULL, VOID, is_c, cval

XML = 'scram::xml::'


class Node:
    def __init__(self, name, attrs=None, children=(), text=None, line=None):
        self.name, self.attrs = name, dict(attrs or {})
        self.children, self.text = list(children), text
        self.term = None


def E(name, /, *children, **attrs):
    """Element; attribute names may use _ for -."""
    text = attrs.pop('text', None)
    return Node(name, {k.replace('_', '-'): v for k, v in attrs.items()}, children, text)


class Doc:
    """Registers nodes and provides the models."""

    def __init__(self):
        self.nodes = []

    def add(self, n):
        if n.term is None:
            n.term = T('xml', len(self.nodes))
            self.nodes.append(n)
            for c in n.children:
                self.add(c)
        return n.term

    def node(self, it, st, o):
        t = it.deref(st, o)
        while t.op in ('ptr',):
            t = it.read(st, t.a[0])
        return self.nodes[t.a[0]] if t.op == 'xml' else None

    def range(self, nodes):
        return T('list', *[self.add(c) for c in nodes])

    def models(self):
        V = lambda st, v: [(st, 'v', v)]
        wrap = lambda v: C(v) if isinstance(v, (str, int, float, bool)) else v

        def with_node(fn):
            def g(it, st, e, o, args, fr):
                n = self.node(it, st, o) if o is not None else None
                return None if n is None else fn(it, st, e, n, [it.deref(st, a) for a in args])
            return g

        def attribute(it, st, e, n, args):
            if not is_c(args[0]):
                return None
            v = n.attrs.get(cval(args[0]))
            ty = e['qn'].split('<')[-1].rstrip('>') if e['qn'].endswith('>') else None
            if v is None:
                return V(st, NULL if ty else C(''))
            if ty in ('int', 'double', 'bool') and isinstance(v, str):
                v = {'int': int, 'double': float, 'bool': lambda x: x in ('true', '1')}[ty](v)
            elif ty is None and isinstance(v, bool):
                v = 'true' if v else 'false'
            elif ty is None and isinstance(v, (int, float)):
                v = repr(v)
            return V(st, wrap(v))

        def text(it, st, e, n, args):
            v = n.text
            ty = e['qn'].split('<')[-1].rstrip('>') if e['qn'].endswith('>') else None
            if v is None:
                return None
            if ty in ('int', 'double', 'bool') and isinstance(v, str):
                v = {'int': int, 'double': float, 'bool': lambda x: x in ('true', '1')}[ty](v)
            return V(st, wrap(v))

        def children(it, st, e, n, args):
            if args and is_c(args[0]) and args[0].a[0] == 'str':
                return V(st, self.range([c for c in n.children if c.name == cval(args[0])]))
            if args:
                return None
            return V(st, self.range(n.children))

        def child(it, st, e, n, args):
            want = cval(args[0]) if args and is_c(args[0]) else ''
            for c in n.children:
                if not want or c.name == want:
                    return V(st, self.add(c))
            return V(st, NULL)
        P = XML + 'Element::'
        return {
            P + 'name': with_node(lambda it, st, e, n, a: V(st, C(n.name))),
            P + 'line': with_node(lambda it, st, e, n, a: V(st, T('line', n.term))),
            P + 'filename': with_node(lambda it, st, e, n, a: V(st, T('file', n.term))),
            P + 'has_attribute': with_node(lambda it, st, e, n, a: V(
                st, C(cval(a[0]) in n.attrs))),
            P + 'attribute': with_node(attribute),
            P + 'text': with_node(text),
            P + 'children': with_node(children),
            P + 'child': with_node(child),
        }
