"""Domains of expressions.  Every expression element is constructed by the input
handler on an abstract element whose arguments are opaque expressions with symbolic
value and sample interval.  The validation of the input handler is interpreted on the
result: every accepting path has to imply the documented domain of the arguments and
every rejecting path has to contradict it.  On the accepting paths the interval that
the expression reports is interpreted as well and has to enclose the defined function
at the critical points of the arguments' intervals (their ends and the interior
extrema), as decided by the sign facts of the path."""
import copy
import math
from itertools import islice, product

import b10
from b10 import Spec, Split
from docmodel import E
from exprmodel import Exprs, TUS, MEF, INIT, arg
from facts import Broken
from interp import T, C, Budget, State, is_c, cval
from norm import num, sym, pretty
from prog import base_type

ASSUMPTIONS = ['Exact real arithmetic; the arguments report intervals that contain their samples',
               'Normal, log-normal and gamma deviates document their intervals as estimates; '
               'the intervals of mod and tan are not bounded symbolically',
               'Expressions with any number of arguments are represented by 2 or 3 arguments']
V = lambda i: sym(('val', i))
LO = lambda i: sym(('ilo', i))
HI = lambda i: sym(('ilo', i)) + sym(('dif', i))


class Domains(Exprs):
    """Intervals [lo, lo + dif] with dif >= 0."""

    def __init__(self, prog, fixed=None):
        super().__init__(prog, fixed)
        self.hulls = {}
        old = self.it.models[MEF + 'Expression::interval']

        def interval(it, st, e, o, a, fr):
            out = old(it, st, e, o, a, fr)
            if not out:
                return out
            s, k, v = out[0]
            if v.op == 'intv' and v.a[1].op == 'ihi':
                i = cval(v.a[1].a[0])
                v = T('intv', v.a[0], T('+', v.a[0], T('dif', C(i))), False, False)
                self.ps.assume(sym(('dif', i)), '+0')
            return [(s, k, v)]
        self.it.models[MEF + 'Expression::interval'] = interval
        empty = lambda it, st, e, o, a, fr: [(st, 'v', T('list'))]
        for n in ('table', 'basic_events', 'ccf_groups'):
            self.it.models[MEF + 'Model::' + n] = empty
        for f in prog.fns.values():
            if f['name'].split('<')[0] == 'table' and f.get('cls'):
                self.it.models[f['sqn']] = empty
        base = self.ps.n.leaf
        self.ps.n.leaf = lambda t: sym(('dif', cval(t.a[0]))) if t.op == 'dif' else base(t)

        it = self.it
        for f in ('min', 'max', 'fmin', 'fmax'):
            it.models['std::' + f] = it.models[f] = self.extreme(f.lstrip('f'))
        it.models['std::minmax'] = self.minmax
        it.models['std::tie'] = lambda it, st, e, o, a, fr: [(st, 'v', T('tie', *a))]
        it.models['std::tuple::operator='] = self.untie
        for f in ('abs', 'fabs'):
            it.models['std::' + f] = it.models[f] = self.absolute
        leaf = self.ps.n.leaf
        self.ps.n.leaf = lambda t: sym((t.op, t.a[0])) if t.op == 'hull' else leaf(t)

    def pick(self, st, vs, which):
        """The least or greatest value; a new symbol if no value is known to be it."""
        if any(is_c(v) and cval(v) != cval(v) for v in vs):
            return C(float('nan'))
        rs = [self.ps.n(v) for v in vs]
        ok = {'0', '+'} if which == 'min' else {'0', '-'}
        for v, r in zip(vs, rs):
            if all(self.ps.sign(st, q - r) <= ok for q in rs):
                return v
        h = T('hull', self.it.bump())
        self.hulls[('hull', h.a[0])] = rs
        for r in rs:
            self.ps.learn(st, sym(('hull', h.a[0])) - r, '-0' if which == 'min' else '0+')
        sg = [self.ps.sign(st, r) for r in rs]
        for s in ('+', '0+', '-', '-0'):
            if all(x <= set(s) for x in sg):
                self.ps.learn(st, sym(('hull', h.a[0])), s)
                break
        return h

    def order(self, st, b, w, want):
        """Signs of b - w; a hull bounds what its elements bound."""
        s = self.ps.sign(st, b - w)
        if not s <= set(want):
            s = self.ps.linear(st, b - w)
        if not s <= set(want):
            for h, rs in self.hulls.items():
                if b.close(sym(h)) and any(self.order(st, r, w, want) <= set(want) for r in rs):
                    return set(want)
        return s

    def witness(self, st, r, g):
        """A point of the path where r has the sign; extremes are one of their elements."""
        hs = [h for h in self.hulls if any(
            h == y for k in list(self.ps.facts(st)) + [r.n.key()] for m, _ in k for y, _ in m)]
        for ch in islice(product(*[self.hulls[h] for h in hs]), 64):
            ex = [((sym(h) - q).n.key(), '0') for h, q in zip(hs, ch)
                  if (sym(h) - q).d.const() is not None]
            if len(ex) == len(hs) and self.ps.witness(st, r, g, plain, ex):
                return True
        return False

    def flat(self, st, a):
        vs = [self.it.deref(st, x) for x in a]
        if len(vs) == 1 and vs[0].op == 'list':
            vs = [self.it.deref(st, x) for x in vs[0].a]
        return vs if len(vs) > 1 and all(
            v.op not in ('list', 'obj', 'unk', 'closure', 'it') for v in vs) else None

    def extreme(self, which):
        def f(it, st, e, o, a, fr):
            vs = self.flat(st, a)
            return [(st, 'v', self.pick(st, vs, which))] if vs else None
        return f

    def minmax(self, it, st, e, o, a, fr):
        vs = self.flat(st, a)
        if not vs:
            return None
        p = T('obj', 'std::pair', it.bump())
        st.mem[T('lvf', p, 'first')] = self.pick(st, vs, 'min')
        st.mem[T('lvf', p, 'second')] = self.pick(st, vs, 'max')
        return [(st, 'v', p)]

    @staticmethod
    def untie(it, st, e, o, a, fr):
        t, p = it.deref(st, o), it.deref(st, a[0])
        if t.op != 'tie' or p.op != 'obj' or len(t.a) != 2:
            return None
        for r, n in zip(t.a, ('first', 'second')):
            it.write(st, r.a[0], st.mem[T('lvf', p, n)], e)
        return [(st, 'v', o)]

    @staticmethod
    def absolute(it, st, e, o, a, fr):
        x = it.deref(st, a[0])
        if is_c(x):
            return None
        return [(s, 'v', it.arith('-', C(0.0), x) if b else x)
                for s, b in it.truth(st, it.cmp('<', x, C(0.0), True))]

    def make(self, node, st=None):
        st = st or State()
        init = T('obj', INIT, 0)
        for f in self.p.cls[INIT]['fields']:
            if f['t'].startswith('std::vector<'):
                st.mem[T('lvf', init, f['name'])] = T('list')
        return super().make(node, st)

    def validate(self, s, o):
        """Outcomes of the validation stage of the input handler."""
        st = [f for f in self.p.find(INIT + '::ValidateExpressions') if f.get('body')]
        if len(st) == 1 and not st[0]['params']:
            return self.it.invoke(s, st[0], T('obj', INIT, 0), [])
        return self.call(s, o, 'Validate')


# ---- documented domains: disjunctions of conjunctions of sign facts
pos = lambda i: [(V(i), '+'), (LO(i), '+')]
neg0 = lambda i: [(V(i), '0+'), (LO(i), '0+')]
prob = lambda i: neg0(i) + [(V(i) - num(1), '-0'), (HI(i) - num(1), '-0')]
vpos = lambda i: [(V(i), '+')]


def conj(*ls):
    return [[f for l in ls for f in l]]


def both(a, b):
    return [x + y for x in a for y in b]


def nonzero(i):
    return [[(V(i), '+-'), (LO(i), '+')], [(V(i), '+-'), (HI(i), '-')]]


def toint(r):
    return sym(('toint', r.key()))


def unit(i):
    return [(V(i) + num(1), '0+'), (LO(i) + num(1), '0+'), (V(i) - num(1), '-0'),
            (HI(i) - num(1), '-0')]


def domains():
    """{element: number of arguments -> domain}"""
    any_ = lambda n: [[]]
    d = {
        'exponential': lambda n: conj(neg0(0), neg0(1)),
        'GLM': lambda n: conj(prob(0), pos(1), neg0(2), neg0(3)),
        'Weibull': lambda n: conj(pos(0), pos(1), neg0(2), neg0(3)),
        'uniform-deviate': lambda n: conj([(V(1) - V(0), '+')]),
        'normal-deviate': lambda n: conj(vpos(1)),
        'lognormal-deviate': lambda n: conj(vpos(1)) if n == 2 else conj(
            vpos(0), [(V(1) - num(1), '+'), (V(2), '+'), (V(2) - num(1), '-')]),
        'gamma-deviate': lambda n: conj(vpos(0), vpos(1)),
        'beta-deviate': lambda n: conj(vpos(0), vpos(1)),
        'acos': lambda n: conj(unit(0)), 'asin': lambda n: conj(unit(0)),
        'log': lambda n: conj(pos(0)), 'log10': lambda n: conj(pos(0)),
        'sqrt': lambda n: conj(neg0(0)),
    }

    def periodic(n):
        if n == 4:                      # lambda tau theta time
            return conj(pos(0), pos(1), neg0(2), neg0(3))
        if n == 5:                      # lambda mu tau theta time
            return conj(pos(0), neg0(1), pos(2), neg0(3), neg0(4))
        # lambda, lambda*, mu, tau, theta, gamma, pi, x, sigma, omega, time
        return conj(pos(0), neg0(1), neg0(2), pos(3), neg0(4), prob(5), pos(6), prob(8),
                    prob(9), neg0(10), [(V(3) - V(6), '0+'), (LO(3) - HI(6), '0+')])
    d['periodic-test'] = periodic

    def histogram(n):
        b = [0] + list(range(1, n, 2))
        return conj([(V(j) - V(i), '+') for i, j in zip(b, b[1:])],
                    [(V(i), '0+') for i in range(2, n, 2)])
    d['histogram'] = histogram

    def div(n):
        out = [[]]
        for i in range(1, n):
            out = both(out, nonzero(i))
        return out
    d['div'] = div
    d['mod'] = lambda n: [[(toint(V(1)), '+-'), (toint(LO(1)), '+')],
                          [(toint(V(1)), '+-'), (toint(HI(1)), '-')]]
    d['pow'] = lambda n: both([[(V(0), '+-')], [(V(1), '+')]],
                              [[(LO(0), '+')], [(HI(0), '-')], [(LO(1), '+')]])
    return d, any_


ESTIMATES = ('normal-deviate', 'lognormal-deviate', 'gamma-deviate', 'mod', 'tan')
UNIT = ('exponential', 'GLM', 'Weibull', 'periodic-test', 'beta-deviate')
EXACT = ('uniform-deviate', 'histogram', 'sin', 'cos', 'acos', 'asin', 'atan')
NAN = ('exponential', 'GLM', 'Weibull', 'periodic-test', 'uniform-deviate', 'normal-deviate',
       'lognormal-deviate', 'gamma-deviate', 'beta-deviate', 'histogram')


def rows():
    seen = {}
    for name, el, n, f, fixed in b10.table():
        base = el.name
        if base in ('int', 'float', 'bool', 'pi'):
            continue
        if base == 'histogram' and n > 5 or base in ('mul', 'div') and n > 2 or base != 'histogram' and '/4' in name and n == 4 and \
                base != 'periodic-test':
            continue
        seen.setdefault((base, n), (el, f))
    for (base, n), (el, f) in sorted(seen.items()):
        yield base, n, el, f


def run(ctx):
    p = ctx.prog(*(TUS + ('event.cc', 'element.cc')))
    ctx.rule('domain', 'an expression is accepted if and only if its arguments\' values and '
             'sample intervals lie in the documented domain')
    ctx.rule('nan', 'undefined (NaN) arguments of reliability laws and distributions are rejected')
    ctx.rule('event', 'a basic event is accepted if and only if its expression is a probability')
    ctx.rule('encloses', 'the reported interval encloses the function over the arguments\' '
             'intervals')
    where = p.loc(p.one(INIT + '::GetExpression'))
    dom, any_ = domains()
    for base, n, el, f in rows():
        key = '%s/%d' % (base, n)
        try:
            one(ctx, p, where, key, base, n, el, f, dom.get(base, any_)(n))
        except Budget:
            ctx.undecided('domain', key, where, 'path budget')
    event(ctx, p)
    ctx.floor('domain', 40)
    ctx.floor('encloses', 30)
    ctx.floor('event', 3)


def error(v):
    while v.op == 'tagged':
        v = v.a[0]
    return v.a[0] if v.op == 'exc' else str(v)


def implied(x, s, c):
    return next((g for g in c if not x.ps.sign(s, g[0]) <= set(g[1]) and
                 not x.ps.linear(s, g[0]) <= set(g[1])), None)


def contradicts(x, s, c):
    return next((g for g in c if not x.ps.sign(s, g[0]) & set(g[1]) or
                 not x.ps.linear(s, g[0]) & set(g[1])), None)


def judge(ctx, x, rule, key, where, outs, dnf, accepted=None):
    n = 0
    for s, k, v in outs:
        if k == 'exit':
            ctx.bad(rule, key, where, 'the validation aborts')
        elif k == 'v':
            open_ = [implied(x, s, c) for c in dnf]
            n += 1
            if all(open_) and not x.ps.feasible(s):
                continue
            if all(open_):
                # not an alarm if the path only exists with a contradiction
                ctx.bad(rule, key, where, 'accepted although it is not known that the sign of %s '
                        'is one of %s' % (pretty(open_[0][0]), '/'.join(open_[0][1])))
            else:
                ctx.ok(rule, key, where)
                if accepted is not None:
                    accepted.append(s)
        elif k == 'throw':
            n += 1
            if x.ps.feasible(s) and not all(contradicts(x, s, c) for c in dnf):
                ctx.bad(rule, key, where, 'valid arguments are rejected: %s' % str(error(v))[:80])
            elif not x.p.is_a(error(v), 'scram::Error'):
                ctx.bad(rule, key, where, 'rejected with %s' % error(v))
            elif x.p.is_a(error(v), 'scram::LogicError'):
                ctx.bad(rule, key, where, 'reported as an internal error')
            else:
                ctx.ok(rule, key, where)
    if not n:
        ctx.undecided(rule, key, where, 'no completed path')


def one(ctx, p, where, key, base, n, el, f, dnf):
    x = Domains(p)
    done, other = x.make(copy.deepcopy(el))
    for s, v in done:
        o = x.object(s, v)
        if o is None:
            ctx.undecided('domain', key, where, 'object not known')
            continue
        m = x.method(o.a[0], 'Validate')
        at = p.loc(m) if m else where
        acc = []
        if base == 'mod':
            x.ps.learn(s, toint(HI(1)) - toint(LO(1)), '0+')
        judge(ctx, x, 'domain', key, at, x.validate(s, o), dnf, acc)
        encloses(ctx, x, key, base, n, f, o, acc, where)
    for u in x.it.inlined:
        if p.fns[u]['rel'].startswith('src/'):
            ctx.fn(p.fns[u])
    if base in NAN:
        for i in range(n):
            if base == 'periodic-test' and n == 11 and i == 7:
                continue                # a flag
            if base in ('normal-deviate', 'lognormal-deviate') and n == 2 and i == 0:
                continue                # the value of the event itself
            y = Domains(p, {i: float('nan')})
            for s, v in y.make(copy.deepcopy(el))[0]:
                o = y.object(s, v)
                if o is None:
                    continue
                outs = y.validate(s, o)
                ctx.check(not any(k == 'v' for _, k, _ in outs), 'nan', '%s, argument %d' % (
                    key, i + 1), where, 'NaN is accepted')


class Point(Spec):
    """The definition at a point of the arguments' intervals."""

    def __init__(self, x, st, at):
        self.at = at
        super().__init__(x, st, 'point', len(at))

    def get(self, kind, i):
        return V(i) if kind == 'val' else self.at[i]


def points(base, n):
    """[(conditions, point)]"""
    cand = []
    for i in range(n):
        c = [([], LO(i)), ([], HI(i))]
        if base in ('abs', 'cosh', 'not', 'and', 'or') or base == 'pow' and i == 0 or \
                base in ('ite', 'switch') and i % 2 == 0 and i < n - 1:
            c.append(([(LO(i), '-'), (HI(i), '+')], num(0)))
        if base in ('eq', 'df'):
            j = 1 - i
            c.append(([(LO(j) - LO(i), '+'), (HI(i) - LO(j), '+')], LO(j)))
        cand.append(c)
    for sel in product(*cand):
        yield [f for c, _ in sel for f in c], [v for _, v in sel]


def encloses(ctx, x, key, base, n, f, o, states, where):
    m = x.method(o.a[0], 'interval')
    at = x.p.loc(m) if m else where
    x.rats = []
    old = x.ps.n.leaf
    if not getattr(x, 'wrapped', False):
        x.wrapped = True
        x.ps.n.leaf = lambda t: x.rats[t.a[0]] if t.op == '#rat' else old(t)
    good, bad, open_ = 0, None, None
    if base in ESTIMATES:
        return
    f = {'min': lambda q: pick(q, '-'), 'max': lambda q: pick(q, '+'), 'abs': magnitude,
         'cosh': at_zero('cosh', f), 'pow': at_zero('pow', f)}.get(base, f)
    groups = {}
    for cond, pt in points(base, n):
        groups.setdefault(tuple((r.key(), g) for r, g in cond), (cond, []))[1].append(pt)
    for s in states[:12]:
        for cond, pts in groups.values():
            if any(not set(x.ps.sign(s, r)) & set(g) for r, g in cond):
                continue
            s1 = s.copy()
            for r, g in cond:
                x.ps.learn(s1, r, g)
            for s2, k, v in x.call(s1, o, 'interval'):
                v = x.it.deref(s2, v) if k == 'v' else None
                if k == 'exit':         # an assertion
                    continue
                if v is None or v.op != 'intv':
                    open_ = open_ or 'interval not known: %s' % str(v)[:80]
                    continue
                a, b = x.ps.n(v.a[0]), x.ps.n(v.a[1])
                if base in UNIT or base in EXACT:
                    why = special(x, s2, base, n, a, b)
                    good += why is None
                    bad = bad or why
                    continue
                if not x.ps.feasible(s2):
                    continue
                for pt in pts:
                    for s3, w in values(x, s2.copy(), f, pt):
                        if base == 'cosh':
                            for y in (LO(0), HI(0)):
                                x.ps.learn(s3, Point(x, s3, pt).call('cosh', y) - num(1), '0+')
                        if not x.ps.feasible(s3):
                            continue
                        lo, hi = x.order(s3, a, w, '-0'), x.order(s3, b, w, '0+')
                        if lo <= {'0', '-'} and hi <= {'0', '+'}:
                            good += 1
                        elif lo == {'+'} or hi == {'-'} or x.witness(
                                s3, a - w, '+') or x.witness(s3, b - w, '-'):
                            bad = bad or 'the interval [%s, %s] does not contain %s' % (
                                pretty(a)[:80], pretty(b)[:80], pretty(w)[:80])
                        else:
                            open_ = open_ or '[%s, %s] vs %s' % (
                                pretty(a)[:60], pretty(b)[:60], pretty(w)[:60])
    if bad:
        ctx.bad('encloses', key, at, bad)
    elif open_ or not good:
        ctx.undecided('encloses', key, at, open_ or 'no path')
    else:
        ctx.ok('encloses', key, at)


def pick(q, s):
    r = q.a[0]
    for y in q.a[1:]:
        r = y if q.sign(y - r) == s else r
    return r


def plain(q):
    return isinstance(q, tuple) and q[0] in ('val', 'ilo', 'dif', 'hull')


def magnitude(q):
    return q.a[0] if q.sign(q.a[0]) != '-' else num(0) - q.a[0]


def at_zero(name, f):
    """The value at a zero (first) argument is known."""
    def g(q):
        if not q.a[0].close(num(0)):
            return f(q)
        if name == 'cosh':
            return num(1)
        s = q.sign(q.a[1])
        return num(0) if s == '+' else num(1) if s == '0' else f(q)
    return g


def special(x, s, base, n, lo, hi):
    """What is wrong with an interval that is defined outright."""
    a, b = (num(0), num(1)) if base in UNIT else (V(0), V(1 if n == 2 else n - 2)) \
        if base in ('uniform-deviate', 'histogram') else \
        (num(-1), num(1)) if base in ('sin', 'cos') else \
        (num(0), num(math.pi)) if base == 'acos' else (num(-math.pi / 2), num(math.pi / 2))
    if lo.close(a) and (hi.close(b) or base == 'acos' and hi.close(sym('pi'))):
        return None
    return 'the interval is [%s, %s]' % (pretty(lo)[:60], pretty(hi)[:60])


def values(x, st, f, pt, depth=0):
    try:
        return [(st, f(Point(x, st, pt)))]
    except Split as e:
        if depth > 5:
            return []
        out = []
        for g in sorted(x.ps.sign(st, e.r)):
            s2 = st.copy()
            x.ps.learn(s2, e.r, g)
            out += values(x, s2, f, pt, depth + 1)
        return out


def event(ctx, p):
    """Probability of a basic event, as loaded and validated."""
    be = MEF + 'BasicEvent'
    regs = [f for f in p.find(INIT + '::Register') if f.get('body') is not None and
            base_type(f['ret']) == be]
    defs = [f for f in p.find(INIT + '::Define') if f.get('body') is not None and
            len(f['params']) == 2 and base_type(f['params'][1]['t']) == be]
    if not regs or not defs:
        raise Broken('anchor vanished: registration of basic events')
    for fixed in ({}, {0: float('nan')}):
        x = Domains(p, fixed)
        x.it.models[MEF + 'Container::Add'] = lambda it, st, e, o, a, fr: [(st, 'v', T('void'))]
        st, init = State(), T('obj', INIT, 0)
        lv = T('lvt', x.it.bump(), 'event')
        st.mem[lv] = x.doc.add(E('define-basic-event', arg(0), name='e'))
        for s, k, v in x.it.invoke(st, regs[0], init, [T('ref', lv), C(''), C(0)]):
            o = x.object(s, v) if k == 'v' else None
            if o is None:
                continue
            x.it.models[MEF + 'Model::basic_events'] = \
                lambda it, st, e, o2, a, fr, o=o: [(st, 'v', T('list', T('ref', T('lvo', o))))]
            for s2, k2, v2 in x.it.invoke(s, defs[0], init, [T('ref', lv), v]):
                if k2 != 'v':
                    continue
                outs = x.validate(s2, o)
                at = p.loc(x.method(o.a[0], 'Validate') or defs[0])
                if fixed:
                    ctx.check(not any(k3 == 'v' for _, k3, _ in outs), 'event', 'NaN', at,
                              'NaN is accepted')
                else:
                    judge(ctx, x, 'event', 'basic event', at, outs, conj(prob(0)))
