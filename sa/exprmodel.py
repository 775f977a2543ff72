"""Expressions built from abstract XML by the input handler itself.

Arguments are opaque expressions (<#arg i=..>) whose value, sample and interval
are symbols."""
import math

from docmodel import Doc, E
from interp import Interp, State, T, C, VOID, is_c, cval
from norm import Norm, PathSigns, Rat, Signs, num, sym
from prog import strip_targs

MEF = 'scram::mef::'
ARG = MEF + 'Expression'
INIT = MEF + 'Initializer'
TUS = ('initializer.cc', 'expression.cc', 'numerical.cc', 'exponential.cc', 'random_deviate.cc',
       'conditional.cc', 'constant.cc', 'test_event.cc', 'extern.cc', 'parameter.cc')
DISTS = {'uniform_real_distribution': 'uniform', 'normal_distribution': 'normal',
         'lognormal_distribution': 'lognormal', 'gamma_distribution': 'gamma',
         'beta_distribution': 'beta', 'piecewise_constant_distribution': 'histogram'}
BOUNDS = {'closed': (False, False), 'open': (True, True), 'left_open': (True, False),
          'right_open': (False, True)}


def arg(i):
    return E('#arg', i=i)


class Exprs:
    """Interpreter set up for expressions; `fixed` maps argument -> constant."""

    def __init__(self, prog, fixed=None, learn=None):
        self.p = prog
        self.fixed = fixed or {}
        self.doc = Doc()
        self.it = it = Interp(prog, models=self.doc.models())
        it.tracked_optional = True
        it.max_depth, it.recursion, it.budget = 40, 8, 4000
        it.static_ok = lambda v: 'Expression' in v.get('t', '')
        self.ps = PathSigns(Norm(self.leaf)).attach(it)
        self.unknown_init = None
        V = lambda st, v: [(st, 'v', v)]

        def which(it, st, o):
            x = it.deref(st, o)
            while x.op in ('ptr', 'ref'):
                x = it.read(st, x.a[0])
            return x.a[1] if x.op == 'obj' and x.a[0] == ARG else None

        def getx(it, st, e, o, a, fr):
            n = self.doc.node(it, st, a[0])
            if n is not None and n.name == '#arg':
                return V(st, T('ptr', T('lvo', T('obj', ARG, n.attrs['i']))))
            return None

        def observer(op):
            def f(it, st, e, o, a, fr):
                i = which(it, st, o)
                if i is None:
                    return None
                st.emit('arg', op, i)
                if op == 'interval':
                    if i in self.fixed:
                        return V(st, T('intv', C(self.fixed[i]), C(self.fixed[i]), False, False))
                    return V(st, T('intv', T('ilo', C(i)), T('ihi', C(i)), False, False))
                if op in ('val', 'sam'):
                    if i in self.fixed:
                        return V(st, C(self.fixed[i]))
                    return V(st, T(op, C(i)))
                if op == 'deviate':
                    return V(st, C(i in self.deviates))
                return V(st, VOID)
            return f
        self.deviates = set()
        it.models[INIT + '::GetExpression'] = getx
        it.models[ARG + '::value'] = observer('val')
        it.models[ARG + '::interval'] = observer('interval')
        it.models[ARG + '::Sample'] = observer('sam')
        it.models[ARG + '::Reset'] = observer('reset')
        it.models[ARG + '::IsDeviate'] = observer('deviate')
        it.models[MEF + 'Model::Add'] = lambda it, st, e, o, a, fr: V(st, VOID)
        it.models['boost::math::constants::pi'] = lambda it, st, e, o, a, fr: V(st, C(math.pi))
        it.models['boost::make_transform_iterator'] = self.transform
        it.models['boost::iterators::make_transform_iterator'] = self.transform
        self.interval_models(it)
        for d in DISTS:
            if d == 'piecewise_constant_distribution':
                it.models['std::%s::%s' % (d, d)] = self.piecewise

    def interval_models(self, it):
        for cls in ('boost::icl::continuous_interval::', 'boost::icl::interval::',
                    'boost::icl::static_interval::', 'boost::icl::'):
            for name, bounds in BOUNDS.items():
                it.models[cls + name] = self.interval(bounds)
            for name, k in (('lower', 0), ('upper', 1)):
                it.models[cls + name] = self.end(k)
        it.models['boost::icl::contains'] = self.within(1, 0)
        it.models['boost::icl::within'] = self.within(0, 1)

    def interval(self, bounds):
        def f(it, st, e, o, a, fr):
            v = [it.deref(st, x) for x in a]
            return [(st, 'v', T('intv', v[0], v[1], *bounds))] if len(v) == 2 else None
        return f

    def end(self, k):
        def f(it, st, e, o, a, fr):
            v = it.deref(st, o if o is not None else a[0])
            return [(st, 'v', v.a[k])] if v.op == 'intv' else None
        return f

    def within(self, sub, sup):
        """Inclusion of intervals; the interval included is not empty."""
        def f(it, st, e, o, a, fr):
            x, y = it.deref(st, a[sub]), it.deref(st, a[sup])
            if x.op != 'intv' or y.op != 'intv':
                return None
            lo = '<=' if x.a[2] or not y.a[2] else '<'
            hi = '<=' if x.a[3] or not y.a[3] else '<'
            out = []
            for s, b in it.truth(st, it.cmp(lo, y.a[0], x.a[0], True)):
                if not b:
                    out.append((s, 'v', C(False)))
                    continue
                out += [(s2, 'v', C(b2)) for s2, b2 in
                        it.truth(s, it.cmp(hi, x.a[1], y.a[1], True))]
            return out
        return f

    def transform(self, it, st, e, o, a, fr):
        i, fn = it.deref(st, a[0]), it.deref(st, a[1]) if len(a) > 1 else None
        return [(st, 'v', T('xit', i, fn))] if i.op == 'it' and fn is not None else None

    def items(self, st, x):
        """(elements, position) behind an iterator, transformed."""
        fn = None
        if x.op == 'xit':
            x, fn = x.a
        if x.op != 'it' or not is_c(x.a[1]):
            return None
        l = self.it.deref(st, x.a[0])
        if l.op != 'list':
            return None
        out = []
        for y in l.a:
            if fn is not None:
                if 'value' not in repr(fn) and 'Sample' not in repr(fn):
                    return None
                ob = self.object(st, y)
                if ob is None or ob.a[0] != ARG:
                    return None
                i = ob.a[1]
                y = T('sam' if 'Sample' in repr(fn) else 'val', C(i)) \
                    if i not in self.fixed else C(self.fixed[i])
            out.append(y)
        return out, int(cval(x.a[1]))

    def piecewise(self, it, st, e, o, a, fr):
        v = [self.items(st, it.deref(st, x)) for x in a]
        if len(v) != 3 or None in v:
            return None
        n = v[1][1] - v[0][1]
        b = v[0][0][v[0][1]:v[1][1]]
        w = v[2][0][v[2][1]:v[2][1] + n - 1]
        if len(b) != n or len(w) != n - 1:
            return None
        return [(st, 'v', T('mk', 'std::piecewise_constant_distribution', *b, *w))]

    def leaf(self, t):
        if t.op in ('val', 'sam', 'ilo', 'ihi'):
            return sym((t.op, cval(t.a[0])))
        if t.op == '%' and len(t.a) == 2:
            return sym(('mod', self.ps.n(t.a[0]).key(), self.ps.n(t.a[1]).key()))
        if t.op in ('operator()', 'call'):
            return self.draw(t)
        return None

    def draw(self, t):
        """A random number of a distribution."""
        a = [x for x in t.a if isinstance(x, T)]
        if not a or a[0].op not in ('mk', 'obj', 'call'):
            return None
        m = a[0]
        if m.op == 'mk':
            name = strip_targs(str(m.a[0])).split('::')[-1]
            pars = [x for x in m.a[1:]]
        else:
            return None
        if name not in DISTS or any(not isinstance(x, T) for x in pars):
            return None
        kind = DISTS[name]
        p = [self.ps.n(x) for x in pars]
        d = lambda *k: sym(('draw', kind) + tuple(x.key() for x in k))
        if kind == 'uniform' and len(p) == 2:
            return p[0] + (p[1] - p[0]) * d()
        if kind == 'normal' and len(p) == 2:
            return p[0] + p[1] * d()
        if kind == 'gamma' and len(p) in (1, 2):
            return d(p[0]) * (p[1] if len(p) == 2 else num(1))
        return d(*p)

    def make(self, node, st=None):
        """[(state, pointer)] of completed constructions, [other outcomes]."""
        it = self.it
        st = st or State()
        x = self.doc.add(node)
        init = T('obj', INIT, 0)
        lv = T('lvt', it.bump(), 'top')
        st.mem[lv] = x
        f = self.p.one(INIT + '::GetExpression')
        outs = it.invoke(st, f, init, [T('ref', lv), C('')])
        return [(s, v) for s, k, v in outs if k == 'v'], [x for x in outs if x[1] != 'v']

    def object(self, st, v):
        v = self.it.deref(st, v)
        while v.op in ('ptr', 'ref'):
            v = self.it.read(st, v.a[0])
        return v if v.op == 'obj' else None

    def method(self, cls, name):
        for b in self.p.bases(cls):
            for f in self.p.fns.values():
                if f.get('cls') == b and f['name'] == name and not f['params'] and \
                        f.get('body') is not None:
                    return f
        return None

    def call(self, st, o, name):
        f = self.method(o.a[0], name)
        if f is None:
            from facts import Broken
            raise Broken('anchor vanished: %s::%s' % (o.a[0], name))
        return [x for x in self.it.invoke(st, f, o, [])]
