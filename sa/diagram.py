"""Construction of decision diagrams from normalised Boolean graphs.  The constructors of core::Bdd
and core::Zbdd are interpreted abstractly on graphs built through the input; unique and computation
tables are maps of their keys, and vertices live for the whole construction."""
import itertools

import interp

from graphmodel import *
from c16 import load, pdag_of, root_of, first_index, basic_events, text, flag

TABLES = ('preprocessor.cc', 'bdd.cc', 'zbdd.cc', 'mocus.cc', 'settings.cc')


class Diagrams(Pdags):

    def __init__(self, prog):
        super().__init__(prog)
        m = self.it.models
        U, W = CORE + 'UniqueTable::', CORE + 'WeakIntrusivePtr::'
        m[U + 'FindOrAdd'] = self.slot
        for n in ('clear', 'Release'):
            m[U + n] = self.forget
        m[U + 'size'] = lambda it, st, e, o, a, fr: V(st, T('call', 'size', it.bump()))
        m[W + 'expired'] = lambda it, st, e, o, a, fr: V(st, it.neg(C(self.object(
            st, it.deref(st, o)) is not None)))
        m[W + 'lock'] = m[W + 'get'] = lambda it, st, e, o, a, fr: V(st, it.deref(st, o))
        m[W + 'operator='] = self.assign
        m[CORE + 'Vertex::unique'] = self.unique
        m['boost::adaptors::transform'] = self.transform
        m['boost::hash_value'] = self.hash
        m['std::operator=='] = lambda *a: self.same(*a, False)
        m['std::operator!='] = lambda *a: self.same(*a, True)
        self.it.fresh_zero = self.fresh_value
        m[CORE + 'GetPrimeNumber'] = lambda it, st, e, o, a, fr: V(st, C(7))
        m[CORE + 'IntrusivePtrCast::Ref'] = lambda it, st, e, o, a, fr: V(
            st, T('ref', it.deref(st, a[0]).a[0])) if it.deref(st, a[0]).op == 'ptr' else None
        m[CORE + 'IntrusivePtrCast::Ptr'] = lambda it, st, e, o, a, fr: V(st, it.deref(st, a[0]))

    def owner(self, st, o):
        return o.a[0] if o.op == 'ref' else T('lvo', o)

    def slot(self, it, st, e, o, a, fr):
        key = [it.deref(st, x) for x in a]
        if not all(is_c(k) for k in key):
            return None
        lv = T('lvt', 'slot', self.owner(st, o), *key)
        if lv not in st.mem:
            st.mem[lv] = NULL
        return V(st, T('ref', lv))

    def forget(self, it, st, e, o, a, fr):
        t = self.owner(st, o)
        for lv in [lv for lv in st.mem if lv.op == 'lvt' and lv.a[0] == 'slot' and lv.a[1] is t]:
            st.mem[lv] = NULL
        return V(st, VOID)

    def assign(self, it, st, e, o, a, fr):
        if o.op != 'ref':
            return None
        it.write(st, o.a[0], it.deref(st, a[0]), e)
        return V(st, o)

    def unique(self, it, st, e, o, a, fr):
        """The first query of a vertex follows its creation."""
        v = self.object(st, o)
        lv = T('lvt', 'used', v)
        first = lv not in st.mem
        st.mem[lv] = TRUE
        return V(st, C(first))

    def transform(self, it, st, e, o, a, fr):
        """A transformed range of a known sequence, evaluated at once."""
        r = it.deref(st, a[0])
        if r.op != 'list':
            return None
        live = [(st, ())]
        for i in range(len(r.a)):
            x = T('ref', T('lve', a[0].a[0], C(i))) if a[0].op == 'ref' else r.a[i]
            live = [(s2, acc + (it.deref(s2, v),)) for s, acc in live
                    for s2, k, v in it.call_value(s, e, it.deref(st, a[1]), [x], 0) if k == 'v']
        return [(s, 'v', T('list', *acc)) for s, acc in live]

    def hash(self, it, st, e, o, a, fr):
        """Any function of the key; collisions are common."""
        p = self.object(st, a[0])
        if p is None:
            return None
        v = [it.deref(st, it.read(st, T('lvf', p, n))) for n in ('first', 'second')]
        return V(st, C(abs(cval(v[0])) + abs(cval(v[1])))) if all(map(is_c, v)) else None

    def fresh_value(self, st, t):
        """A value-initialised element of a container."""
        b = base_type(t)
        c = self.p.cls.get(b)
        if c and c.get('fields') and not t.strip().endswith('*') and not interp.SMART.match(b):
            o = T('obj', b, self.it.bump())
            for f in c['fields']:
                st.mem[T('lvf', o, f['name'])] = self.fresh_value(st, f['t'])
            return o
        return interp.Interp.fresh_zero(self.it, st, t)

    def parts(self, st, v):
        """Components of a pair or an array, or None."""
        v = self.it.deref(st, v)
        if v.op == 'obj' and v.a[0].startswith('std::pair<'):
            v = [self.parts(st, self.it.read(st, T('lvf', v, n))) for n in ('first', 'second')]
            return None if None in v else tuple(v)
        if v.op == 'list':
            v = [self.parts(st, x) for x in v.a]
            return None if None in v else tuple(v)
        return cval(v) if is_c(v) else None

    def same(self, it, st, e, o, a, fr, neg):
        p = [self.parts(st, x) for x in a]
        return V(st, C((p[0] == p[1]) != neg)) if len(p) == 2 and None not in p else None

    # ---- normalised graphs
    def normal(self, defs, order=None, modules=True, complement=False, expand=False):
        """(state, graph, names of variables, nodes) or None if the graph is not of and/or gates."""
        st = load(self, defs, {})
        pd, c, outs = pdag_of(self, st, self.table['g'], False)
        if len(outs) != 1 or outs[0][1] != 'v':
            raise Unknown('graph: %s' % str(outs[:2])[:200])
        s = outs[0][0]
        root = root_of(self, s, pd)
        gates = self.gates(s, root)
        if flag(self, s, pd, 'complement') or any(
                op not in ('and', 'or') or any(n == 'const' for _, n in a)
                for op, _, a in gates.values()):
            return None
        vs = sorted({n for g in gates.values() for _, n in g[2] if n not in gates},
                    key=lambda n: cval(self.field(s, n, 'index')))
        inner = [g for g in gates if g is not root]
        mods = [g for g in inner if modules and self.is_module(gates, g)] + [root]
        first = [g for g in inner if g not in mods] if expand else []
        first.sort(key=lambda g: -len(self.below(gates, g) & set(gates)))  # parents first
        nodes = vs + [g for g in inner if g not in first]
        rank = list(range(len(nodes)))
        if order is not None:
            order.shuffle(rank)
        rank = list(range(len(first))) + [r + len(first) for r in rank + [len(nodes)]]
        for n, r in zip(first + nodes + [root], rank):
            s = self.set(s, n, 'order', C(r + 1))
        for g in gates:
            if g in mods:
                s = self.set(s, g, 'module', TRUE)
            if self.positive(gates, g):
                s = self.set(s, g, 'coherent', TRUE)
        s = self.set(s, pd, 'coherent', C(self.positive(gates, root) and not complement))
        if complement:
            lv = self.flag_lv(pd, 'complement')
            s.mem[lv] = TRUE
        return s, pd, basic_events(self, s, pd), vs, mods, gates

    def flag_lv(self, o, name):
        self.field(State(), o, name)
        return T('lvf', o, self.cache[('field', o.a[0], name)])

    def set(self, st, o, name, v):
        key = ('set', o.a[0], name)
        if key not in self.cache:
            self.cache[key] = self.method_of(o.a[0], name, 1, None)
        outs = self.it.invoke(st, self.cache[key], o, [v])
        if len(outs) != 1 or outs[0][1] != 'v':
            raise Unknown('%s of %s: %s' % (name, o.a[0], str(outs[:2])[:200]))
        return outs[0][0]

    def below(self, gates, g, out=None):
        out = set() if out is None else out
        for _, n in gates[g][2]:
            if n not in out:
                out.add(n)
                if n in gates:
                    self.below(gates, n, out)
        return out

    def is_module(self, gates, g):
        sub = self.below(gates, g)
        return all(p is g or p in sub for p, (_, _, args) in gates.items()
                   for _, n in args if n in sub)

    def positive(self, gates, g):
        return all(s and (n not in gates or self.positive(gates, n)) for s, n in gates[g][2])

    # ---- diagrams
    def settings(self, st, **values):
        o = T('obj', CORE + 'Settings', self.it.bump())
        st.mem.update(self.defaults(o))
        for k, v in values.items():
            st.mem[self.flag_lv(o, k)] = C(v)
        return o

    def defaults(self, o):
        out = {}
        for f in self.p.cls[o.a[0]]['fields']:
            if f.get('init'):
                r = self.it.eval(State(), f['init'], -1)
                if len(r) == 1 and r[0][1] == 'v':
                    out[T('lvf', o, f['name'])] = r[0][2]
        return out

    def build(self, st, cls, param, args):
        """Outcomes of the constructor with a first parameter of the type."""
        c = [f for f in self.p.fns.values() if f.get('cls') == CORE + cls and
             f['name'] == cls and len(f['params']) == len(args) and f.get('body') is not None and
             param in f['params'][0]['t']]
        if len(c) != 1:
            raise Broken('anchor vanished: constructor of %s from %s' % (cls, param))
        o = T('obj', CORE + cls, self.it.bump())
        it = self.it
        it.budget, it.recursion, it.max_depth, it.max_unroll, it.max_items = 3000, 60, 400, 300, 300
        return o, c[0], it.invoke(st, c[0], o, args)

    def obs(self, st, v, name):
        """Constant value of an observer of a vertex."""
        r = self.it.deref(st, self.get(st, v, name))
        if not is_c(r):
            raise Unknown('%s of a vertex: %s' % (name, str(r)[:80]))
        return cval(r)

    def vertex(self, st, p):
        v = self.object(st, p)
        if v is None:
            raise Unknown('vertex %s' % str(self.it.deref(st, p))[:80])
        return v

    def function(self, st, f):
        """(complement, vertex)"""
        o = self.object(st, f)
        if o is None:
            raise Unknown('function %s' % str(f)[:80])
        return bool(cval(self.field(st, o, 'complement'))), \
            self.vertex(st, self.field(st, o, 'vertex'))

    def ites(self, st, v, out):
        """Reachable vertices: {vertex: None or (index, order, high, low, complement, module)}"""
        if v not in out:
            if 'Terminal<' in v.a[0]:
                out[v] = None
                if self.obs(st, v, 'id') != 1:
                    raise Unknown('a false terminal')
            else:
                h, l = (self.vertex(st, self.get(st, v, n)) for n in ('high', 'low'))
                out[v] = (self.obs(st, v, 'index'), self.obs(st, v, 'order'), h, l,
                          bool(self.obs(st, v, 'complement_edge')), bool(self.obs(st, v, 'module')),
                          bool(self.obs(st, v, 'coherent')))
                self.ites(st, h, out)
                self.ites(st, l, out)
        return out
