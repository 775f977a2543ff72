"""Abstract decision diagram vertices: the public observers and mutators of
vertices are fields, casts between vertex views are identities."""
from interp import T, C, TRUE, FALSE, VOID, NULL, is_c, cval

CORE = 'scram::core::'
ITE, SET = CORE + 'Ite', CORE + 'SetNode'


def ptr(o):
    return T('ptr', T('lvo', o))


def fld(o, name):
    return T('lvf', o, '#' + name)


V = lambda st, v: [(st, 'v', v)]


def attribute(name, byref=False):
    def f(it, st, e, o, args, fr):
        ob = it.deref(st, o)
        lv = fld(ob, name)
        if args:
            it.write(st, lv, it.deref(st, args[0]), e)
            return V(st, VOID)
        if byref:
            return V(st, T('ref', lv))
        return V(st, it.read(st, lv))
    return f


def ident(it, st, e, o, args, fr):
    return V(st, it.deref(st, args[0]))


def target(it, st, e, o, args, fr):
    p = it.deref(st, args[0])
    if p.op == 'ptr':
        return V(st, T('ref', p.a[0]))
    return None


def models():
    m = {}
    for c, names in (('Vertex', ('id', 'terminal', 'use_count', 'unique')),
                     ('Terminal', ('value',)),
                     ('NonTerminal', ('index', 'order', 'module', 'coherent', 'mark')),
                     ('Ite', ('complement_edge', 'p', 'factor')),
                     ('SetNode', ('minimal', 'max_set_order', 'count'))):
        for n in names:
            m[CORE + c + '::' + n] = attribute(n)
    for n in ('high', 'low'):
        m[CORE + 'NonTerminal::' + n] = attribute(n, True)
    m[CORE + 'IntrusivePtrCast::Ref'] = target
    m[CORE + 'IntrusivePtrCast::Ptr'] = ident
    return m


class Graph:
    """Builder of vertices in an abstract state; functions for evaluation."""

    def __init__(self, st, cls=ITE):
        self.st, self.cls, self.n = st, cls, 1
        self.one = self.terminal(True)
        self.fns = {}

    def terminal(self, value):
        t = T('obj', CORE + 'Terminal<%s>' % self.cls, int(value))
        for k, v in (('id', C(int(value))), ('terminal', TRUE), ('value', C(value))):
            self.st.mem[fld(t, k)] = v
        return t

    def ite(self, index, high, low, ce=False, module=False, order=None):
        """high, low: vertices."""
        self.n += 1
        v = T('obj', self.cls, 'v%d' % self.n)
        for k, x in (('id', C(self.n)), ('terminal', FALSE), ('index', C(index)),
                     ('order', C(order if order is not None else 10 * index)),
                     ('module', C(bool(module))), ('coherent', FALSE), ('mark', FALSE),
                     ('high', ptr(high)), ('low', ptr(low)),
                     ('complement_edge', C(bool(ce))), ('p', C(0.0)), ('factor', C(0.0)),
                     ('unique', FALSE)):
            self.st.mem[fld(v, k)] = x
        self.fns[v] = (index, high, low, bool(ce))
        return v

    def value(self, v, env, modules):
        """Boolean value of a vertex; env: variable index -> bool."""
        if v not in self.fns:
            return True
        i, h, l, ce = self.fns[v]
        if i in modules:
            c, r = modules[i]
            x = self.value(r, env, modules) != c
        else:
            x = env[i]
        return self.value(h, env, modules) if x else self.value(l, env, modules) != ce
