"""Fault trees loaded from abstract XML by the input handler and the Boolean graphs
constructed for them.  Events are opaque; the functions of formulas and graphs are
compared over all assignments of the basic events."""
import itertools

from docmodel import Doc, E
from facts import Broken
from interp import Interp, State, T, C, VOID, NULL, TRUE, is_c, cval, targs
from prog import base_type

MEF, CORE = 'scram::mef::', 'scram::core::'
INIT = MEF + 'Initializer'
TUS = ('initializer.cc', 'event.cc', 'element.cc', 'pdag.cc', 'substitution.cc', 'parameter.cc')
V = lambda st, v: [(st, 'v', v)]


def ptr(o):
    return T('ptr', T('lvo', o))


class Trees:
    """Loads definitions of gates; `table` maps names to registered objects."""

    def __init__(self, prog):
        self.p = prog
        self.doc = Doc()
        self.it = it = Interp(prog, models=self.doc.models())
        it.tracked_optional = True
        it.max_depth, it.recursion, it.budget = 60, 12, 60000
        it.static_ok = lambda v: True
        self.table = {}
        self.cache = {}
        it.models[MEF + 'Container::Add'] = lambda it, st, e, o, a, fr: V(st, VOID)
        it.models[MEF + 'Model::Add'] = lambda it, st, e, o, a, fr: V(st, VOID)
        for n in ('GetGate', 'GetBasicEvent', 'GetHouseEvent', 'GetEvent'):
            it.models[INIT + '::' + n] = self.lookup
        self.init = T('obj', INIT, 0)

    def lookup(self, it, st, e, o, a, fr):
        n = it.deref(st, a[0])
        if is_c(n) and cval(n) in self.table:
            o, kind = self.table[cval(n)], e['qn'].split('::Get')[-1]
            if kind != 'Event' and not o.a[0].endswith('::' + kind):
                return [(st, 'throw', T('exc', MEF + 'UndefinedElement', it.bump()))]
            return V(st, ptr(o))
        return None

    def fn(self, name, ret=None, param=None):
        for f in self.p.find(INIT + '::' + name):
            if f.get('body') is not None and (
                    ret is not None and base_type(f['ret']) == MEF + ret or
                    param is not None and len(f['params']) == 2 and
                    base_type(f['params'][1]['t']) == MEF + param):
                return f
        raise Broken('anchor vanished: %s of %s' % (name, ret or param))

    def fresh(self):
        """A new budget for the next scenario."""
        self.it.budget = 60000

    def object(self, st, v):
        v = self.it.deref(st, v)
        while v.op in ('ptr', 'ref'):
            v = self.it.read(st, v.a[0])
        return v if v.op == 'obj' else None

    def xml(self, st, node):
        lv = T('lvt', self.it.bump(), 'xml')
        st.mem[lv] = self.doc.add(node)
        return T('ref', lv)

    def register(self, st, node, cls):
        """A registered event object; the state is single-path."""
        outs = self.it.invoke(st, self.fn('Register', ret=cls), self.init,
                              [self.xml(st, node), C(''), C(0)])
        vs = [(s, self.object(s, v)) for s, k, v in outs if k == 'v']
        if len(vs) != 1 or len(outs) != 1 or vs[0][1] is None:
            raise Broken('registration of %s is not resolved: %s' % (node.name, outs[:2]))
        self.table[node.attrs['name']] = vs[0][1]
        return vs[0]

    def method(self, cls, name, nparams=0, param=None):
        key = (cls, name, nparams, param)
        if key not in self.cache:
            self.cache[key] = self.method_of(*key)
        return self.cache[key]

    def method_of(self, cls, name, nparams, param):
        for b in self.p.bases(cls):
            for f in self.p.fns.values():
                if f.get('cls') == b and f['name'] == name and len(f['params']) == nparams and \
                        f.get('body') is not None and (
                            param is None or param in f['params'][0]['t']):
                    return f
        raise Broken('anchor vanished: %s::%s' % (cls, name))

    def get(self, st, o, name):
        """Value a public accessor returns."""
        outs = self.it.invoke(st, self.method(o.a[0], name), o, [])
        if len(outs) != 1 or outs[0][1] != 'v':
            raise Unknown('%s of %s: %s' % (name, o.a[0], outs[:2]))
        return outs[0][2]

    def define(self, st, node, cls, o):
        return self.it.invoke(st, self.fn('Define', param=cls), self.init,
                              [self.xml(st, node), ptr(o)])


# ---- formulas: ('and', args...), ('atleast', k, args...), ('card', lo, hi, args...), names,
#      ('not', name) as an argument or a formula, True/False
def element(f):
    """XML of a formula."""
    if isinstance(f, bool):
        return E('constant', value=f)
    if isinstance(f, str):
        return event(f)
    op, args, at = f[0], f[1:], {}
    if op == 'atleast':
        at, args = {'min': f[1]}, f[2:]
    elif op == 'cardinality':
        at, args = {'min': f[1], 'max': f[2]}, f[3:]
    return E(op, *[element(a) for a in args], **{k: v for k, v in at.items() if v is not None})


KINDS = {'g': 'gate', 'h': 'house-event'}


def event(n):
    """Reference: 'x' by kind, '?x' untyped, '=x' with the type as an attribute."""
    if n[0] == '?':
        return E('event', name=n[1:])
    if n[0] == '=':
        return E('event', name=n[1:], type=KINDS.get(n[1], 'basic-event'))
    return E('gate' if n[0] == 'g' else 'house-event' if n[0] == 'h' else 'basic-event', name=n)


def value(f, env, gates):
    """Value of a formula; env: event -> bool."""
    if isinstance(f, bool):
        return f
    if isinstance(f, str):
        return value(gates[f], env, gates) if f in gates else env[f]
    op = f[0]
    k = {'atleast': 2, 'cardinality': 3}.get(op, 1)
    v = [value(a, env, gates) for a in f[k:]]
    return {'and': lambda: all(v), 'or': lambda: any(v), 'not': lambda: not v[0],
            'nand': lambda: not all(v), 'nor': lambda: not any(v),
            'xor': lambda: v[0] != v[1], 'iff': lambda: v[0] == v[1],
            'imply': lambda: not v[0] or v[1],
            'atleast': lambda: sum(v) >= f[1],
            'cardinality': lambda: f[1] <= sum(v) <= f[2]}[op]()


def events(f, gates, out=None):
    out = set() if out is None else out
    if isinstance(f, str):
        if f in gates:
            events(gates[f], gates, out)
        else:
            out.add(f)
    elif not isinstance(f, bool):
        for a in f[1:]:
            if not isinstance(a, int) or isinstance(a, bool):
                events(a, gates, out)
    return out


class Unknown(Exception):
    pass


class Pdags(Trees):
    """Construction of graphs and their functions."""

    def __init__(self, prog):
        super().__init__(prog)
        it = self.it
        self.ops = {v: n[1:].lower() for en in prog.enums.values() if en['qn'] == CORE + 'Connective'
                    for n, v in ((x['name'], x['v']) for x in en['enumerators'])} \
            if prog.enums else {}

    def field(self, st, o, name):
        o = self.object(st, o)
        if o is None:
            raise Unknown('not an object')
        key = ('field', o.a[0], name)
        if key not in self.cache:
            self.cache[key] = None
            for b in self.p.bases(o.a[0]):
                for f in (self.p.cls.get(b) or {}).get('fields', ()):
                    if f['name'].strip('_') == name:
                        self.cache[key] = self.cache[key] or f['name']
        if self.cache[key]:
            return self.it.read(st, T('lvf', o, self.cache[key]))
        raise Unknown('no field %s of %s' % (name, o.a[0]))

    def items(self, st, v):
        v = self.it.deref(st, v)
        if v.op != 'list':
            raise Unknown('container: %s' % str(v)[:80])
        return [self.it.deref(st, x) for x in v.a]

    def gate(self, st, g):
        """(connective, minimum, [(sign, node)])"""
        ty, mn = self.field(st, g, 'type'), self.field(st, g, 'min_number')
        if not is_c(ty) or not is_c(mn):
            raise Unknown('type or number of a gate')
        idx = self.items(st, self.field(st, g, 'args'))
        if not all(is_c(x) for x in idx):
            raise Unknown('arguments %s' % idx)
        idx = [cval(x) for x in idx]
        nodes = {}
        for n in ('gate_args', 'variable_args'):
            for p in self.items(st, self.field(st, g, n)):
                i = self.it.read(st, T('lvf', p, 'first'))
                if not is_c(i):
                    raise Unknown('index of an argument %s' % i)
                nodes[cval(i)] = self.object(st, self.it.read(st, T('lvf', p, 'second')))
        c = self.field(st, g, 'constant')
        if c is not NULL and self.object(st, c) is None:
            raise Unknown('constant of a gate')
        if self.object(st, c) is not None:
            k = cval(self.field(st, c, 'index'))
            for i in idx:
                if abs(i) == k:
                    nodes[i] = 'const'
        if set(nodes) != set(idx):
            raise Unknown('arguments %s, nodes %s' % (sorted(idx), sorted(nodes)))
        return self.ops[cval(ty)], cval(mn), [(i > 0, nodes[i]) for i in sorted(idx)]

    def node_value(self, st, n, env, memo):
        if n == 'const':
            return True
        if n not in memo:
            if not n.a[0].endswith('::Gate'):
                memo[n] = env(cval(self.field(st, n, 'index')))
            else:
                op, k, args = self.gate(st, n)
                v = [self.node_value(st, a, env, memo) == s for s, a in args]
                f = {'null': 1, 'not': 1, 'xor': 2}
                if not v or op in f and len(v) != f[op]:
                    raise ArityError('%s gate with %d arguments' % (op, len(v)))
                memo[n] = {'and': lambda: all(v), 'or': lambda: any(v), 'not': lambda: not v[0],
                           'null': lambda: v[0], 'nand': lambda: not all(v),
                           'nor': lambda: not any(v), 'xor': lambda: v[0] != v[1],
                           'atleast': lambda: sum(v) >= k}[op]()
        return memo[n]

    def gates(self, st, n, out=None):
        out = {} if out is None else out
        if n != 'const' and n not in out and n.a[0].endswith('::Gate'):
            out[n] = self.gate(st, n)
            for _, a in out[n][2]:
                self.gates(st, a, out)
        return out


class ArityError(Exception):
    pass
