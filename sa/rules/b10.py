"""Meaning of expressions.  For every expression element of the input language the
input handler's GetExpression is interpreted on an abstract element whose arguments
are opaque expressions; value() and Sample() of the constructed expression are then
interpreted and compared, on every path, with the Open-PSA definition over the
arguments' symbolic values or samples (normal forms of real arithmetic; comparisons
split the paths by the signs of normalised differences).  Sample caching, Reset and
IsDeviate are observed as events on the arguments."""
import math
from fractions import Fraction as Fr

from exprmodel import Exprs, E, arg, ARG, TUS, MEF, INIT
from interp import T, C, Budget, is_c, cval
from norm import Norm, Rat, num, sym, pretty

ASSUMPTIONS = ['The standard library and boost compute the elementary functions and '
               'distributions they document',
               'Exact real arithmetic: rounding, overflow and NaN are not considered',
               'Expressions with any number of arguments are represented by 2 to 4 arguments']


class Split(Exception):
    """The definition needs the sign of a quantity the path leaves open."""

    def __init__(self, r):
        self.r = r


class Spec:
    """Arithmetic of the definitions."""

    def __init__(self, x, st, kind, n):
        self.x, self.st, self.kind = x, st, kind
        self.norm = x.ps.n
        self.a = [self.get(kind, i) for i in range(n)]
        self.v = [self.get('val', i) for i in range(n)]

    def get(self, kind, i):
        return num(self.x.fixed[i]) if i in self.x.fixed else sym((kind, i))

    def fn(self, name, *a):
        return sym(('fn', name) + tuple(r.key() for r in a))

    def exp(self, r):
        return self.call('exp', r)

    def call(self, name, *a):
        """A function through the normaliser."""
        ts = []
        for r in a:
            t = T('#rat', len(self.x.rats))
            self.x.rats.append(r)
            ts.append(t)
        return self.norm(T('call', 'std::' + name, *ts))

    def sign(self, r):
        s = self.x.ps.sign(self.st, r)
        if len(s) > 1:
            raise Split(r)
        return next(iter(s))

    def lt(self, a, b):
        return self.sign(a - b) == '-'

    def le(self, a, b):
        return self.sign(a - b) != '+'

    def nz(self, r):
        return self.sign(r) != '0'

    def p_exp(self, rate, t):
        return num(1) - self.exp(-(rate * t))

    def conv(self, l, m, t):
        """A repair at rate m followed by a failure at rate l within t."""
        pl, pm = self.p_exp(l, t), self.p_exp(m, t)
        if self.sign(l - m) == '0':
            return pl - (num(1) - pl) * l * t
        return (l * pm - m * pl) / (l - m)


def unary(name):
    return lambda s: s.call(name, s.a[0])


def fold(f):
    def g(s):
        r = s.a[0]
        for x in s.a[1:]:
            r = f(s, r, x)
        return r
    return g


def boolean(f):
    return lambda s: num(1 if f(s) else 0)


def glm(s):
    g, l, m, t = s.a
    r = l + m
    return (l - (l - g * r) * s.exp(-(r * t))) / r


def weibull(s):
    a, b, t0, t = s.a
    if s.le(t, t0):
        return num(0)
    return num(1) - s.exp(-s.call('pow', (t - t0) / a, b))


def location(s):
    sc = scale(s)
    return s.call('log', s.v[0]) - sc * sc / num(2)


def scale(s):
    z = -(num(math.sqrt(2)) * s.fn('erfc_inv', num(2) * s.v[2]))
    return s.call('log', s.v[1]) / z


def draw(kind, *a):
    return sym(('draw', kind) + tuple(r.key() for r in a))


def uniform(s):
    a, b = s.v
    return (a + b) / num(2) if s.kind == 'val' else a + (b - a) * draw('uniform')


def normal(s):
    m, d = s.v
    return m if s.kind == 'val' else m + d * draw('normal')


def lognormal3(s):
    return s.v[0] if s.kind == 'val' else draw('lognormal', location(s), scale(s))


def lognormal2(s):
    m, d = s.v
    return s.exp(m + d * d / num(2)) if s.kind == 'val' else draw('lognormal', m, d)


def gamma(s):
    return s.v[0] * s.v[1] if s.kind == 'val' else s.v[1] * draw('gamma', s.v[0])


def beta(s):
    return s.v[0] / (s.v[0] + s.v[1]) if s.kind == 'val' else draw('beta', *s.v)


def histogram(s):
    b = [s.v[0]] + s.v[1::2]
    w = s.v[2::2]
    if s.kind != 'val':
        return draw('histogram', *(b + w))
    tot, wt = num(0), num(0)
    for i, x in enumerate(w):
        tot = tot + x * (b[i] + b[i + 1]) / num(2)
        wt = wt + x
    return tot / wt


def ite(s):
    return s.a[1] if s.nz(s.a[0]) else s.a[2]


def switch(s):
    for i in range(0, len(s.a) - 1, 2):
        if s.nz(s.a[i]):
            return s.a[i + 1]
    return s.a[-1]


def instant_repair(s):
    l, tau, theta, t = s.a
    if s.le(t, theta):
        return s.p_exp(l, t)
    d = (t - theta).const() - (((t - theta).const() / tau.const()) // 1) * tau.const()
    return s.p_exp(l, num(d) if d else tau)


def instant_test(s):
    l, m, tau, theta, t = s.a
    if s.le(t, theta):
        return s.p_exp(l, t)

    def step(q, w):
        pl, pm = s.p_exp(l, w), s.p_exp(m, w)
        return q * (num(1) - pm + s.conv(l, m, w)) + (num(1) - q) * pl
    q, left = s.p_exp(l, theta), (t - theta).const()
    while left >= tau.const():
        q, left = step(q, tau), left - tau.const()
    return step(q, num(left))


def complete(s):
    l, lt, m, tau, theta, g, pi, avail, sig, om, t = s.a
    if s.le(t, theta):
        return s.p_exp(l, t)
    one = num(1)
    mix = lambda w: s.p_exp(m, w) * om + (one - om) * s.conv(l, m, w)
    F, R, A = s.p_exp(l, theta), num(0), one - s.p_exp(l, theta)

    def test(F, R, A, w, up=True):
        plt = s.p_exp(lt, w)
        q = F + A * (g + (one - g) * plt)
        F2 = R * mix(w) + (one - sig) * q
        R2 = (one - s.p_exp(m, w)) * R + sig * q
        down = num(0) if up else A * (one - g) * (one - plt)
        return F2, R2, one - F2 - R2 - down

    def period(F, R, A, w):
        F2 = A * s.p_exp(l, w) + F + R * mix(w)
        R2 = R * (one - s.p_exp(m, w))
        return F2, R2, one - F2 - R2
    left = (t - theta).const()
    while left >= tau.const():
        F, R, A = period(*test(F, R, A, pi), tau - pi)
        left -= tau.const()
    if left <= pi.const():
        F, R, A = test(F, R, A, num(left), s.nz(avail))
    else:
        F, R, A = period(*test(F, R, A, pi), num(left) - pi)
    return one - A


def toint(s, r):
    c = r.const()
    return num(int(c)) if c is not None else sym(('toint', r.key()))


def table():
    """[(name, element, number of arguments, definition, constants)]"""
    args = lambda n: [arg(i) for i in range(n)]
    out = []

    def add(name, n, f, fixed=None, el=None, tag=''):
        out.append((name + tag, el or E(name, *args(n)), n, f, fixed or {}))
    add('exponential', 2, lambda s: s.p_exp(s.a[0], s.a[1]))
    add('GLM', 4, glm)
    add('Weibull', 4, weibull)
    for tau, theta, t in ((10, 3, 2), (10, 3, 3), (10, 3, 8), (10, 3, 13), (10, 3, 27),
                          (10, 0, 30), (4, 1, 6)):
        add('periodic-test', 4, instant_repair, {1: tau, 2: theta, 3: t},
            tag='/4 tau=%s theta=%s t=%s' % (tau, theta, t))
        add('periodic-test', 5, instant_test, {2: tau, 3: theta, 4: t},
            tag='/5 tau=%s theta=%s t=%s' % (tau, theta, t))
    for tau, theta, pi, t, up in ((10, 3, 2, 2, 1), (10, 3, 2, 4, 1), (10, 3, 2, 4, 0),
                                  (10, 3, 2, 5, 0), (10, 3, 2, 9, 0), (10, 3, 2, 14, 0), (4, 1, 1, 7, 1),
                                  (4, 1, 1, 5, 0)):
        add('periodic-test', 11, complete, {3: tau, 4: theta, 6: pi, 7: up, 10: t},
            tag='/11 tau=%s theta=%s pi=%s up=%s t=%s' % (tau, theta, pi, up, t))
    add('uniform-deviate', 2, uniform)
    add('normal-deviate', 2, normal)
    add('lognormal-deviate', 3, lognormal3, tag='/3')
    add('lognormal-deviate', 2, lognormal2, tag='/2')
    add('gamma-deviate', 2, gamma)
    add('beta-deviate', 2, beta)
    for n in (1, 2, 3):
        add('histogram', 1 + 2 * n, histogram, tag='/%d bins' % n, el=E('histogram', arg(0), *[
            E('bin', arg(2 * i + 1), arg(2 * i + 2)) for i in range(n)]))
    add('neg', 1, lambda s: -s.a[0])
    for n in (2, 3, 4):
        t = '/%d' % n
        add('add', n, fold(lambda s, x, y: x + y), tag=t)
        add('sub', n, fold(lambda s, x, y: x - y), tag=t)
        add('mul', n, fold(lambda s, x, y: x * y), tag=t)
        add('div', n, fold(lambda s, x, y: x / y), tag=t)
        add('min', n, lambda s: extreme(s, 'min'), tag=t)
        add('max', n, lambda s: extreme(s, 'max'), tag=t)
        add('mean', n, lambda s: fold(lambda s, x, y: x + y)(s) / num(len(s.a)), tag=t)
    for n in (2, 3):
        t = '/%d' % n
        add('and', n, boolean(lambda s: all(s.nz(x) for x in s.a)), tag=t)
        add('or', n, boolean(lambda s: any(s.nz(x) for x in s.a)), tag=t)
    for f in ('abs acos asin atan cos sin tan cosh sinh tanh exp log log10 sqrt ceil '
              'floor').split():
        add(f, 1, unary(f))
    add('mod', 2, lambda s: sym(('mod', toint(s, s.a[0]).key(), toint(s, s.a[1]).key())))
    add('pow', 2, lambda s: s.call('pow', *s.a))
    add('not', 1, boolean(lambda s: not s.nz(s.a[0])))
    add('eq', 2, boolean(lambda s: s.sign(s.a[0] - s.a[1]) == '0'))
    add('df', 2, boolean(lambda s: s.sign(s.a[0] - s.a[1]) != '0'))
    add('lt', 2, boolean(lambda s: s.lt(s.a[0], s.a[1])))
    add('gt', 2, boolean(lambda s: s.lt(s.a[1], s.a[0])))
    add('leq', 2, boolean(lambda s: s.le(s.a[0], s.a[1])))
    add('geq', 2, boolean(lambda s: s.le(s.a[1], s.a[0])))
    add('ite', 3, ite)
    for n in (0, 1, 2):
        add('switch', 2 * n + 1, switch, tag='/%d cases' % n, el=E('switch', *[
            E('case', arg(2 * i), arg(2 * i + 1)) for i in range(n)] + [arg(2 * n)]))
    for v in (-7, 0, 3):
        add('int', 0, lambda s, v=v: num(v), el=E('int', value=v), tag=' %d' % v)
    for v in (-0.5, 0.0, 2.25):
        add('float', 0, lambda s, v=v: num(v), el=E('float', value=v), tag=' %s' % v)
    for v in (True, False):
        add('bool', 0, lambda s, v=v: num(int(v)), el=E('bool', value=v), tag=' %s' % v)
    add('pi', 0, lambda s: sym('pi'))
    return out


def extreme(s, which):
    r = s.a[0]
    for x in s.a[1:]:
        r = s.call('f' + which, r, x)
    return r


DEVIATES = ('uniform-deviate', 'normal-deviate', 'lognormal-deviate', 'gamma-deviate',
            'beta-deviate', 'histogram')


def unresolved(x, t):
    """Does the value contain calls that neither side defines?"""
    from interp import subterms
    for u in subterms(t):
        if u.op in ('call', 'fold', 'mut', 'each', 'havoc', 'unk', 'loop', 'fld', 'deref',
                    'operator()') and x.leaf(u) is None:
            name = str(u.a[0]).split('::')[-1] if u.a else ''
            if u.op == 'call' and name in KNOWN:
                continue
            return u
    return None


KNOWN = set('exp log log10 sqrt pow abs fabs sin cos tan asin acos atan sinh cosh tanh '
            'fmod fmin fmax log1p expm1 floor ceil min max erfc_inv'.split())


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('built', 'every expression element of the input language is constructed')
    ctx.rule('value', 'value() is the defined function of the arguments\' values')
    ctx.rule('sample', 'Sample() is the defined function of the arguments\' samples, or a random '
             'number of the defined distribution')
    ctx.rule('cached', 'between resets a sample is drawn once')
    ctx.rule('reset', 'Reset makes the expression and all arguments draw again')
    ctx.rule('deviate', 'an expression is a deviate if and only if it is a distribution or has '
             'a deviate argument')
    where0 = p.loc(p.one(INIT + '::GetExpression'))
    for row in table():
        try:
            one(ctx, p, where0, *row)
        except Budget:
            ctx.undecided('value', row[0], where0, 'path budget')
    ctx.floor('value', 60)
    ctx.floor('sample', 60)


def one(ctx, p, where, name, el, n, f, fixed):
    x = Exprs(p, fixed)
    x.rats = []
    base = x.leaf
    x.ps.n.leaf = lambda t: x.rats[t.a[0]] if t.op == '#rat' else base(t)
    done, other = x.make(el)
    ctx.check(bool(done) or any(k == 'exit' for _, k, _ in other), 'built', name, where,
              'no expression results: %s' % [str(o[2])[:80] for o in other][:2])
    if any(k == 'throw' for _, k, _ in other):
        ctx.bad('built', name, where, 'a well-formed element is rejected')
    for s, v in done:
        o = x.object(s, v)
        if o is None:
            ctx.undecided('value', name, where, 'object not known: %s' % v)
            continue
        f0 = x.method(o.a[0], 'value')
        at = p.loc(f0) if f0 else where
        for rule, m, kind in (('value', 'value', 'val'), ('sample', 'Sample', 'sam')):
            meaning(ctx, x, rule, name, at, s, o, m, kind, n, f)
        if n:
            sampling(ctx, x, name, at, s, o, n)
        deviate(ctx, x, name, at, s, o, n)
    for u in x.it.inlined:
        if p.fns[u]['rel'].startswith('src/'):
            ctx.fn(p.fns[u])


def meaning(ctx, x, rule, name, at, s, o, m, kind, n, f):
    good, bad, open_ = 0, [], None
    outs = x.call(s.copy(), o, m)
    for s2, k, v in outs:
        if k == 'exit':
            continue
        if k != 'v':
            bad.append('raises %s' % v)
            continue
        r = x.ps.n(v)
        for s3, want in cases(x, s2, kind, n, f):
            if r.close(want) or reduce_(x, s3, r).close(reduce_(x, s3, want)):
                good += 1
            else:
                u = unresolved(x, v)
                if u is not None:
                    open_ = str(u)[:120]
                else:
                    bad.append('%s instead of %s' % (pretty(r)[:200], pretty(want)[:200]))
    if bad and not open_:
        ctx.bad(rule, name, at, bad[0])
    elif open_ or not good:
        ctx.undecided(rule, name, at, open_ or 'no completed path')
    else:
        ctx.ok(rule, name, at)


def reduce_(x, st, r):
    """Substitutes equalities between single symbols learned on the path."""
    eq = {}
    for k, s in st.x.get('signs', {}).items():
        if s == '0' and len(k) == 2:
            (m1, c1), (m2, c2) = k
            if len(m1) == len(m2) == 1 and c1 == -c2 and m1[0][1] == m2[0][1] == 1:
                eq[m2[0][0]] = m1[0][0]
        elif s == '0' and len(k) == 1 and len(k[0][0]) == 1:
            eq[k[0][0][0][0]] = None
    return substitute(r, eq) if eq else r


def substitute(r, eq):
    from norm import Poly

    def sub(t):
        if isinstance(t, tuple):
            if t in eq and eq[t] is not None:
                return eq[t]
            return tuple(sub(y) for y in t)
        return t

    def poly(p):
        out = Poly({})
        for m, c in p.t.items():
            if any(y in eq and eq[y] is None and e > 0 for y, e in m):
                continue
            t = Poly({(): c})
            for y, e in m:
                t = t * Poly({((sub(y), e),): Fr(1)})
            out = out + t
        return out
    return Rat(poly(r.n), poly(r.d))


def cases(x, st, kind, n, f, depth=0):
    """[(state, defined value)] split by the signs the definition needs."""
    try:
        return [(st, f(Spec(x, st, kind, n)))]
    except Split as e:
        if depth > 6:
            return []
        out = []
        for s in sorted(x.ps.sign(st, e.r)):
            s2 = st.copy()
            x.ps.learn(s2, e.r, s)
            out += cases(x, s2, kind, n, f, depth + 1)
        return out


def draws(evs, kind):
    return sorted(e[2] for e in evs if e[0] == 'arg' and e[1] == kind)


def sampling(ctx, x, name, at, s, o, n):
    """Sample twice, reset, sample again."""
    for s1, k1, v1 in x.call(s.copy(), o, 'Sample'):
        if k1 != 'v':
            continue
        m1 = len(s1.events())
        for s2, k2, v2 in x.call(s1, o, 'Sample'):
            if k2 != 'v':
                continue
            new = s2.events()[m1:]
            ctx.check(v2 is v1 and not draws(new, 'sam') and
                      not any(e[0] == 'call' and 'operator()' in e[1] for e in new),
                      'cached', name, at, 'a second Sample() draws again')
            for s3, k3, _ in x.call(s2, o, 'Reset'):
                if k3 != 'v':
                    continue
                got = draws(s3.events()[m1:], 'reset')
                ctx.check(set(got) == set(range(n)), 'reset', name, at,
                          'Reset reaches the arguments %s of %d' % (got, n))
                m3 = len(s3.events())
                before = [e for e in s1.events()[:m1] if fresh(e)]
                for s4, k4, v4 in x.call(s3, o, 'Sample'):
                    again = [e for e in s4.events()[m3:] if fresh(e)]
                    if k4 == 'v' and before:
                        ctx.check(bool(again), 'reset', name + ' again', at,
                                  'Sample() after Reset returns the old number')
        break


def fresh(e):
    return e[0] == 'arg' and e[1] == 'sam' or e[0] == 'call' and 'distribution' in e[1]


def deviate(ctx, x, name, at, s, o, n):
    dist = name.split('/')[0] in DEVIATES
    for i in [None] + list(range(n)):
        x.deviates = set() if i is None else {i}
        for s2, k, v in x.call(s.copy(), o, 'IsDeviate'):
            if k != 'v' or not is_c(v):
                ctx.undecided('deviate', name, at, 'not known: %s' % v)
            else:
                ctx.check(bool(cval(v)) == (dist or i is not None), 'deviate',
                          '%s, %s' % (name, 'no deviate argument' if i is None else
                                      'argument %d a deviate' % (i + 1)), at, 'is %s' % cval(v))
    x.deviates = set()
