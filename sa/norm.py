"""Normal forms of arithmetic terms: multivariate Laurent polynomials with exact
rational coefficients over uninterpreted atoms (functions of normalised
arguments), as quotients.  Equality is decided by cross-multiplication, signs by
assumption tables.  Real-number algebra; rounding is not modelled."""
from fractions import Fraction as Fr
import math

from interp import T, C, is_c, cval

ONE = ()


class Poly:
    __slots__ = ('t', '_k')

    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.t.items(), key=repr))
        return self._k

    def __add__(self, o):
        t = dict(self.t)
        for m, c in o.t.items():
            t[m] = t.get(m, 0) + c
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = mmul(m, n)
                t[k] = t.get(k, 0) + c * d
        return Poly(t)

    def const(self):
        """Constant value or None."""
        if not self.t:
            return Fr(0)
        if len(self.t) == 1 and ONE in self.t:
            return self.t[ONE]
        return None

    def __bool__(self):
        return bool(self.t)

    def lead(self):
        return self.t[self.key()[0][0]] if self.t else Fr(0)


def mmul(a, b):
    d = dict(a)
    for x, p in b:
        d[x] = d.get(x, 0) + p
    return tuple(sorted(((x, p) for x, p in d.items() if p != 0), key=repr))


P1, P0 = Poly({ONE: Fr(1)}), Poly({})
_roots = {}


class Rat:
    """num/den; a one-term denominator is folded into the numerator."""
    __slots__ = ('n', 'd')

    def __init__(self, n, d=P1):
        n, d = fold_roots(n), fold_roots(d)
        if len(d.t) == 1:
            (m, c), = d.t.items()
            inv = Poly({tuple((x, -p) for x, p in m): 1 / c})
            n, d = n * inv, P1
        elif d.t:
            q = divide(n, d)
            if q is not None:
                n, d = q, P1
            else:
                l = d.lead()
                s = Poly({ONE: 1 / l})
                n, d = n * s, d * s
        self.n, self.d = n, d

    def __add__(self, o):
        if self.d.key() == o.d.key():
            return Rat(self.n + o.n, self.d)
        return Rat(self.n * o.d + o.n * self.d, self.d * o.d)

    def __neg__(self):
        return Rat(-self.n, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(self.n * o.n, self.d * o.d)

    def __truediv__(self, o):
        if not o.n:
            return Rat(atom(('undef', 'div0')))
        return Rat(self.n * o.d, self.d * o.n)

    def key(self):
        return (self.n.key(), self.d.key())

    def same(self, o):
        return not (self.n * o.d - o.n * self.d)

    def close(self, o):
        """Equal up to the decimal representation of constants."""
        a, b = plain(self.n * o.d).t, plain(o.n * self.d).t
        top = max([abs(c) for c in a.values()] + [abs(c) for c in b.values()] + [Fr(0)])
        for m in set(a) | set(b):
            x, y = a.get(m, 0), b.get(m, 0)
            if abs(x - y) > max(abs(x), abs(y)) / 10 ** 9 and abs(x - y) * 10 ** 14 > top:
                return False
        return True

    def const(self):
        a, b = self.n.const(), self.d.const()
        return a / b if a is not None and b else None


def plain(p):
    """The polynomial with roots of constants as decimal numbers."""
    r = P0
    for m, c in p.t.items():
        rest, f = [], 1.0
        for x, e in m:
            b = _roots[x].const() if x in _roots else None
            if b is not None and b > 0:
                f *= float(b) ** float(e)
            else:
                rest.append((x, e))
        r = r + Poly({tuple(rest): c * (Fr(f) if f != 1.0 else 1)})
    return r


def divide(n, d):
    """Exact quotient of polynomials or None (few terms only)."""
    if len(d.t) > 12 or len(n.t) > 40 or len(n.t) < len(d.t):
        return P0 if not n.t else None
    order = lambda p: max(p.t, key=mkey)
    q, r = P0, n
    ld = order(d)
    for _ in range(60):
        if not r.t:
            return q
        lr = order(r)
        m = mmul(lr, tuple((x, -p) for x, p in ld))
        if any(p < 0 for _, p in m) and len(q.t) > 30:
            return None
        t = Poly({m: r.t[lr] / d.t[ld]})
        q, r2 = q + t, r - t * d
        if len(r2.t) > 60:
            return None
        if r2.t and mkey(order(r2)) >= mkey(lr):
            return None
        r = r2
    return None


def mkey(m):
    return (sum(p for _, p in m), repr(m))


def fold_roots(p):
    """base^k with integral k of a fractional-power atom is the base itself."""
    for m in p.t:
        for x, e in m:
            if x in _roots and Fr(e).denominator == 1:
                rest = Poly({tuple(y for y in m if y[0] != x): p.t[m]})
                base = _roots[x]
                if base.d.const() is None:
                    continue
                others = Poly({k: v for k, v in p.t.items() if k != m})
                e = int(e)
                if e < 0:
                    if len(base.n.t) != 1:
                        continue
                    (bm, bc), = base.n.t.items()
                    f = Poly({tuple((y, -q) for y, q in bm): 1 / bc})
                    e = -e
                else:
                    f = base.n
                for _ in range(e):
                    rest = rest * f
                return fold_roots(others + rest)
    return p


def atom(x, p=1):
    return Poly({((x, Fr(p)),): Fr(1)})


def num(v):
    if isinstance(v, float):
        return Rat(Poly({ONE: Fr(repr(v))}))
    return Rat(Poly({ONE: Fr(v)}))


def sym(x):
    return Rat(atom(x))


def split_terms(r):
    """[(coefficient, key of monic term)] of a rational."""
    out = []
    for m, c in r.n.t.items():
        t = Rat(Poly({m: Fr(1)}), r.d)
        out.append((c, t))
    return out


class Norm:
    """Term -> Rat; `leaf(term)` may give the atom name of a leaf term."""

    def __init__(self, leaf=None):
        self.leaf = leaf
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        if self.leaf:
            x = self.leaf(t)
            if isinstance(x, Rat):
                return x
            if x is not None:
                return sym(x)
        if is_c(t):
            v = cval(t)
            if isinstance(v, bool):
                return num(int(v))
            if isinstance(v, int):
                return num(v)
            if isinstance(v, float) and math.isfinite(v):
                if v == math.pi:
                    return sym('pi')
                return num(v)
            return sym(('c', repr(v)))
        if t.op in '+-*/' and len(t.a) == 2:
            a, b = self(t.a[0]), self(t.a[1])
            return {'+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, '/': lambda: a / b}[t.op]()
        if t.op == 'neg':
            return -self(t.a[0])
        if t.op == 'call' and len(t.a) >= 2:
            return self.fn(t.a[0].split('::')[-1], [x for x in t.a[1:]])
        if t.op in ('lt', 'le', 'eq'):
            return sym(self.rel(t))
        if t.op == '!' and len(t.a) == 1:
            return num(1) - self(t.a[0])
        if t.op == 'toint':
            return sym(('toint', self(t.a[0]).key()))
        return sym(self.other(t))

    def other(self, t):
        if isinstance(t, T):
            if t.op == 'c':
                return t
            return (t.op,) + tuple(
                x if not isinstance(x, (T, tuple)) else
                (self.other(x) if isinstance(x, tuple) or x.op not in (
                    '+', '-', '*', '/', 'neg', 'call') else self(x).key())
                for x in t.a)
        if isinstance(t, tuple):
            return tuple(self.other(x) for x in t)
        return t

    def rel(self, t):
        d = self(t.a[0]) - self(t.a[1])
        l = d.n.lead()
        if l == 0:
            return ('rel', t.op, 'zero')
        s = abs(l) if t.op != 'eq' else l
        return ('rel', t.op, (d * num(1 / s)).key())

    def fn(self, name, args):
        a = [self(x) for x in args]
        if name == 'exp' and len(a) == 1:
            if a[0].d.const() is None or len(a[0].n.t) >= 1:
                r = num(1)
                for c, m in split_terms(a[0]):
                    r = r * Rat(atom(('exp', m.key()), c))
                return r
            return num(1)
        if name in ('sqrt', 'cbrt'):
            return self.power(a[0], Rat(Poly({ONE: Fr(1, 2 if name == 'sqrt' else 3)})))
        if name == 'pow' and len(a) == 2:
            return self.power(a[0], a[1])
        if name in ('min', 'max', 'fmin', 'fmax'):
            n = name[-3:]
            items = set()
            for x in a:
                k = self.single(x)
                if k and k[0] == n:
                    items |= set(k[1])
                else:
                    items.add(x.key())
            return sym((n, tuple(sorted(items, key=repr))))
        if name in ('abs', 'fabs') and len(a) == 1:
            x = a[0]
            if x.n.lead() < 0:
                x = -x
            c = x.const()
            return x if c is not None else sym(('abs', x.key()))
        if name == 'log' and len(a) == 1:
            k = self.single(a[0])
            if k and k[0] == 'exp':
                pass
        return sym(('fn', name) + tuple(x.key() for x in a))

    def single(self, r):
        """The atom if the rational is exactly one atom."""
        if r.d.const() == 1 and len(r.n.t) == 1:
            (m, c), = r.n.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and isinstance(m[0][0], tuple):
                return m[0][0]
        return None

    def power(self, x, y):
        c = y.const()
        if c is not None:
            if c.denominator == 1 and abs(c) <= 8:
                r = num(1)
                for _ in range(abs(int(c))):
                    r = r * x
                return num(1) / r if c < 0 else r
            xc = x.const()
            if xc is not None and xc > 0 and c.denominator == 2:
                f = math.isqrt(xc.numerator), math.isqrt(xc.denominator)
                if f[0] ** 2 == xc.numerator and f[1] ** 2 == xc.denominator:
                    return num(Fr(f[0], f[1]) ** c.numerator)
            l = x.n.lead() if xc is None else 1
            if l > 0 and l != 1:
                return self.power(num(l), y) * self.power(x / num(l), y)
            k = ('root', x.key())
            _roots[k] = x
            return Rat(atom(k, c))
        r = num(1)
        for c, m in split_terms(y):
            if m.const() is not None:
                r = r * self.power(x, num(c))
            else:
                r = r * Rat(atom(('pow', x.key(), m.key()), c))
        return r


class Signs:
    """Sign assumptions on rationals; answers comparison atoms."""

    def __init__(self, norm):
        self.n = norm
        self.facts = {}
        self.units = set()              # symbols in the open interval (0, 1)

    def assume(self, r, sign):
        """sign: '-', '0', '+', '+0', '-0', '+-'."""
        for p, s in ((r.n, sign),):
            k, flip = self.prim(p)
            self.facts[k] = self.flip(s) if flip else s
        return self

    @staticmethod
    def flip(s):
        return ''.join({'+': '-', '-': '+', '0': '0'}[c] for c in s)

    @staticmethod
    def prim(p):
        l = p.lead()
        if l == 0:
            return p.key(), False
        return (p * Poly({ONE: 1 / l})).key(), l < 0

    def sign(self, r):
        """Possible signs as a set of '-0+'."""
        a, b = self.psign(r.n), self.psign(r.d)
        return {self.mul(x, y) for x in a for y in b if y != '0'}

    @staticmethod
    def mul(x, y):
        if '0' in (x, y):
            return '0'
        return '+' if x == y else '-'

    def psign(self, p):
        c = p.const()
        if c is not None:
            return {'0' if c == 0 else '+' if c > 0 else '-'}
        k, flip = self.prim(p)
        f = self.facts.get(k)
        if f is not None:
            return set(self.flip(f)) if flip else set(f)
        # common monomial factor
        terms = list(p.t.items())
        if len(terms) > 1:
            common = None
            for m, _ in terms:
                d = dict(m)
                if common is None:
                    common = d
                else:
                    common = {x: min(e, d[x]) for x, e in common.items()
                              if x in d and (e > 0) == (d[x] > 0)}
            if common:
                inv = tuple((x, -e) for x, e in common.items())
                q = p * Poly({tuple(sorted(inv, key=repr)): Fr(1)})
                sm = self.msign(tuple(common.items()))
                sq = self.psign(q)
                return {self.mul(x, y) for x in sm for y in sq}
        if self.units and len(terms) > 1:
            s = self.unit_sign(terms)
            if s:
                return s
        tot = None
        for m, c in terms:
            s = self.msign(m)
            if c < 0:
                s = {self.mul('-', x) for x in s}
            tot = s if tot is None else self.add(tot, s)
        return tot

    def unit_sign(self, terms):
        """Sign of a polynomial with u = 1/(1+x), x > 0, for the unit symbols."""
        deg = {}
        for m, _ in terms:
            for x, e in m:
                if x in self.units and (Fr(e).denominator != 1 or e < 0):
                    return None
                if x in self.units:
                    deg[x] = max(deg.get(x, 0), int(e))
        if not deg or sum(deg.values()) > 10:
            return None
        q = Poly({})
        one = Poly({ONE: Fr(1)})
        for m, c in terms:
            t, have = Poly({ONE: c}), {}
            for x, e in m:
                if x in self.units:
                    have[x] = int(e)
                else:
                    t = t * Poly({((x, e),): Fr(1)})
            for x, d in deg.items():
                for _ in range(d - have.get(x, 0)):
                    t = t * (one + atom(('odds', x)))
            q = q + t
        tot = None
        for m, c in q.t.items():
            s = self.msign(tuple((x, e) for x, e in m if not (
                isinstance(x, tuple) and x and x[0] == 'odds')))
            if c < 0:
                s = {self.mul('-', x) for x in s}
            tot = s if tot is None else self.add(tot, s)
        return tot if tot is None or len(tot) < 3 else None

    @staticmethod
    def add(a, b):
        out = set()
        for x in a:
            for y in b:
                if x == '0':
                    out.add(y)
                elif y == '0' or x == y:
                    out.add(x)
                else:
                    out |= set('-0+')
        return out

    def msign(self, m):
        s = {'+'}
        for x, e in m:
            k = self.prim(atom(x))[0]
            f = self.facts.get(k)
            if f is None:
                if isinstance(x, tuple) and x and x[0] in ('exp',):
                    f = '+'
                elif x == 'pi':
                    f = '+'
                elif isinstance(x, tuple) and x and x[0] == 'abs':
                    f = '+0'
                else:
                    f = '-0+'
            fs = set(f)
            if Fr(e).denominator == 1 and e % 2 == 0:
                fs = {'0' if y == '0' else '+' for y in fs}
            elif Fr(e).denominator != 1:
                fs = {'+', '0'} & fs or {'+'}
            s = {self.mul(y, z) for y in s for z in fs}
        return s

    def decide(self, st, v):
        if v.op not in ('lt', 'le', 'eq') or len(v.a) != 2:
            return None
        try:
            s = self.sign(self.n(v.a[0]) - self.n(v.a[1]))
        except (ValueError, OverflowError, ZeroDivisionError):
            return None
        if v.op == 'lt':
            return True if s <= {'-'} else False if s <= {'0', '+'} else None
        if v.op == 'le':
            return True if s <= {'-', '0'} else False if s <= {'+'} else None
        return True if s <= {'0'} else False if '0' not in s else None


class PathSigns:
    """Comparison domain of a run: sign facts per path, canonical up to a
    constant factor; plugs into an interpreter's decide and on_branch hooks."""

    def __init__(self, norm=None):
        self.n = norm or Norm()
        self.base = Signs(self.n)

    def assume(self, r, sign):
        self.base.assume(r, sign)
        return self

    def signs(self, st):
        s = Signs(self.n)
        s.facts = dict(self.base.facts)
        s.facts.update(st.x.get('signs', {}))
        s.units = self.base.units
        return s

    def attach(self, it):
        it.decide_hook = self.decide
        it.on_branch = self.branch
        return self

    def decide(self, st, v):
        if v.op in ('lt', 'le', 'eq'):      # normalise first: registers symbols
            for x in v.a:
                try:
                    self.n(x)
                except (ValueError, OverflowError, ZeroDivisionError):
                    return None
        return self.signs(st).decide(st, v)

    def sign(self, st, r):
        return self.signs(st).sign(r)

    def facts(self, st):
        f = dict(self.base.facts)
        f.update(st.x.get('signs', {}))
        return f

    def feasible(self, st, *extra):
        return Linear(list(self.facts(st).items()) + list(extra)).feasible()

    def linear(self, st, r):
        """Signs of r that the linear facts of the path allow."""
        d = self.signs(st).psign(r.d) - {'0'}
        s = self.sign(st, r)
        if len(d) != 1:
            return s
        out = set()
        for g in s:
            h = g if d == {'+'} else Signs.flip(g)
            if self.feasible(st, (r.n.key(), h)):
                out.add(g)
        return out

    def witness(self, st, r, g, plain, extra=()):
        """Whether r has a value of the sign g at a point that the path surely allows: r
        and every fact of the path are linear in independent quantities."""
        rows = list(self.facts(st).items()) + list(extra)
        if r.d.const() is None:
            return False
        for k, s in rows + [(r.n.key(), g)]:
            for m, _ in k:
                if len(m) > 1 or m and (m[0][1] != 1 or not plain(m[0][0])):
                    return False
        if r.d.const() < 0:
            g = Signs.flip(g)
        return Linear(rows + [(r.n.key(), g)], 4000).feasible()

    def branch(self, st, v, truth):
        if v.op not in ('lt', 'le', 'eq') or len(v.a) != 2:
            return
        try:
            r = self.n(v.a[0]) - self.n(v.a[1])
        except (ValueError, OverflowError, ZeroDivisionError):
            return
        s = {'lt': '-', 'le': '-0', 'eq': '0'}[v.op]
        if not truth:
            s = ''.join(c for c in '-0+' if c not in s)
        self.learn(st, r, s)

    def learn(self, st, r, s):
        sg = self.signs(st)
        d = sg.psign(r.d) - {'0'}
        if len(d) != 1:
            return
        if d == {'-'}:
            s = sg.flip(s)
        have = sg.psign(r.n)
        s = ''.join(c for c in s if c in have) or s
        k, flip = sg.prim(r.n)
        f = dict(st.x.get('signs', {}))
        f[k] = sg.flip(s) if flip else s
        st.x['signs'] = f


class Linear:
    """Feasibility of sign facts, linear over their monomials (Fourier-Motzkin)."""

    def __init__(self, facts, limit=400):
        self.limit = limit
        self.rows = []                  # (coefficients, constant, strict): sum + c >= 0
        for k, s in facts:
            self.add(k, s)

    def add(self, k, s):
        co, c = {}, Fr(0)
        for m, x in k:
            if m == ONE:
                c += x
            else:
                co[m] = co.get(m, 0) + x
        neg = {m: -x for m, x in co.items()}
        s = set(s)
        if s == {'+'}:
            self.rows.append((co, c, True))
        elif s == {'-'}:
            self.rows.append((neg, -c, True))
        elif s == {'0'}:
            self.rows += [(co, c, False), (neg, -c, False)]
        elif s == {'0', '+'}:
            self.rows.append((co, c, False))
        elif s == {'0', '-'}:
            self.rows.append((neg, -c, False))

    def feasible(self):
        rows = self.rows
        while True:
            live = []
            for co, c, strict in rows:
                if not co:
                    if c < 0 or strict and c == 0:
                        return False
                else:
                    live.append((co, c, strict))
            if not live:
                return True
            count = {}
            for co, _, _ in live:
                for m, x in co.items():
                    a, b = count.get(m, (0, 0))
                    count[m] = (a + (x > 0), b + (x < 0))
            v = min(count, key=lambda m: (count[m][0] * count[m][1], repr(m)))
            pos = [r for r in live if r[0].get(v, 0) > 0]
            neg = [r for r in live if r[0].get(v, 0) < 0]
            rows = [r for r in live if v not in r[0]]
            seen = {(tuple(sorted(r[0].items(), key=repr)), r[1], r[2]) for r in rows}
            for p, pc, ps in pos:
                for n, nc, ns in neg:
                    a, b = -n[v], p[v]
                    co = {}
                    for m in set(p) | set(n):
                        x = a * p.get(m, 0) + b * n.get(m, 0)
                        if m != v and x:
                            co[m] = x
                    r = (co, a * pc + b * nc, ps or ns)
                    k = (tuple(sorted(co.items(), key=repr)), r[1], r[2])
                    if k not in seen:
                        seen.add(k)
                        rows.append(r)
            if len(rows) > self.limit:
                return True


def pretty(r):
    def mono(m):
        return '*'.join('%s%s' % (pat(x), '' if e == 1 else '^%s' % e) for x, e in m)

    def pat(x):
        if isinstance(x, tuple) and x and x[0] in ('exp', 'fn', 'abs', 'root', 'pow', 'toint'):
            return '%s(%s)' % (x[0] if x[0] != 'fn' else x[1], ', '.join(
                pk(k) for k in x[1 if x[0] != 'fn' else 2:]))
        return str(x)[:60]

    def pk(k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], tuple) \
                and isinstance(k[1], tuple):
            return side(k[0]) + ('' if k[1] == P1.key() else '/(%s)' % side(k[1]))
        return str(k)[:60]

    def side(k):
        s = []
        for m, c in k:
            b = mono(m)
            s.append(b if c == 1 and b else '%s%s' % (c, '*' + b if b else ''))
        return ' + '.join(s) or '0'
    return pk(r.key())
