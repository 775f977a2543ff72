"""Abstract interpretation of the generation of products by the three algorithms -- diagrams of
sets from normalised graphs, from binary decision diagrams, and by expansion of gates -- on small
graphs built through the input, with permuted orders, modules and limits on the order.  The sets
of the resulting diagram (with its modules expanded) must be exactly the minimal cut sets, or the
prime implicants, within the limit, each once, and the diagram must be ordered and reduced."""
import itertools
import random

from diagram import *
from interp import Budget
from c17 import formulas, key_of, done

ASSUMPTIONS = ['the unique table finds a live vertex by its key, and vertices live for the '
               'analysis', 'recursion on larger graphs treats every vertex alike',
               'iteration over products drops those above the limit']


def pushed(defs):
    """The graph with positive gates only."""
    return {g: (f[0],) + tuple(dict.fromkeys(
        a[1] if isinstance(a, tuple) and a[1] in defs else a for a in f[1:]))
        for g, f in defs.items()}


def run(ctx):
    x = Diagrams(ctx.prog(*TUS, *TABLES))
    rules = (('zbdd', 'products of the diagram of sets are the minimal cut sets'),
             ('mocus', 'products by expansion of gates are the minimal cut sets'),
             ('bdd', 'products of the binary decision diagram are the minimal cut sets'),
             ('implicants', 'products of the binary decision diagram are the prime implicants'))
    for r in rules:
        ctx.rule(*r)
    jobs = []
    big = ctx.tier == 'thorough'
    for seed, comp in ((11, False), (12, True)):
        for i, defs in enumerate(formulas(1500 if big else 500, seed, comp)):
            if not big and i < 40 and i % 2:
                continue
            for rule in ('zbdd', 'mocus', 'bdd', 'implicants'):
                if rule == 'implicants' and not comp:
                    continue
                for o in range(2 if big else 1):
                    limit = (20, 2, 3, 1, 2)[(i + o) % 5]
                    mods = (i + o) % 3 != 2
                    neg = rule in ('bdd', 'implicants') and i % 4 == 3
                    jobs.append((rule, pushed(defs) if rule in ('zbdd', 'mocus') else defs, (i + o) % 2, mods, limit, neg))
    no = lambda v: ('not', v)
    for t, u in (('and', 'or'), ('or', 'and')):
        for shape in ({'g': (t, 'd', 'b', 'g1'), 'g1': (u, no('e'), no('c'), 'a')},
                      {'g': (t, 'd', 'g1'), 'g1': (u, no('e'), 'g2'), 'g2': (t, 'a', no('c'))},
                      {'g': (t, 'g1', 'g2'), 'g1': (u, 'a', no('b'), 'e'), 'g2': (u, 'c', no('d'))},
                      {'g': (t, 'g1', 'g2'), 'g1': (u, 'a', 'b'), 'g2': (u, no('c'), no('d'))},
                      {'g': (t, 'a', no('g1')), 'g1': (t, no('b'), 'c', no('e'))}):
            for rule in ('zbdd', 'mocus', 'bdd', 'implicants'):
                d = pushed(shape) if rule in ('zbdd', 'mocus') else shape
                for o in range(5):
                    jobs.append((rule, d, o, True, 1 + o % 3, False))
    step = 8
    ctx.parallel([lambda js=jobs[i::step]: [one(ctx, x, *j) for j in js] and done(ctx, x)
                  for i in range(step)])
    for r, _ in rules:
        ctx.floor(r, 40)


def one(ctx, x, rule, defs, o, mods, limit, neg):
    key = key_of(defs, '%s%s%s%s' % (' order%d' % o if o else '', '' if mods else ' no-modules',
                                   ' limit%d' % limit if limit < 20 else '',
                                     ' negated' if neg else ''))
    where = 'src/zbdd.cc'
    try:
        g = x.normal(defs, random.Random(o * 1000 + len(key)) if o else None, mods, neg,
                     expand=rule == 'mocus')
        if g is None:
            return
        s, pd, names, vs, modules, gates = g
        where, outs = analyse(x, s, pd, rule, limit)
        if len(outs) > 4:
            raise Unknown('%d paths' % len(outs))
        for st, k, z in outs:
            if k == 'exit':
                ctx.bad(rule, key, where, 'an assertion fails, the order of a sort is not '
                        'strict, or an iterator is past the end')
            elif k != 'v':
                ctx.undecided(rule, key, where, '%s: %s' % (k, str(z)[:200]))
            else:
                judge(ctx, x, st, z, pd, vs, rule, limit, neg, key, where)
    except (Unknown, Budget, Broken, RecursionError, KeyError) as err:
        ctx.undecided(rule, key, where, ('%s %s' % (type(err).__name__, err))[:300])


def then(outs, f):
    return [r for st, k, v in outs for r in ([(st, k, v)] if k != 'v' else f(st))]


def analyse(x, s, pd, rule, limit):
    """(place, outcomes with the diagram of sets)"""
    kw = {'limit_order': limit}
    if rule == 'implicants':
        kw['prime_implicants'] = True
    sets = x.settings(s, **kw)

    def call(st, o, cls, name, args):
        f = [m for m in x.p.fns.values() if m.get('cls') == CORE + cls and m['name'] == name and
             m.get('body') is not None and len(m['params']) == len(args)]
        if len(f) != 1:
            raise Broken('anchor vanished: %s::%s' % (cls, name))
        return f[0], x.it.invoke(st, f[0], o, args)
    if rule == 'mocus':
        o, c, outs = x.build(s, 'Mocus', 'Pdag', [ptr(pd), sets])
        f = None

        def go(st):
            nonlocal f
            f, r = call(st, o, 'Mocus', 'Analyze', [ptr(pd)])
            return [(s2, k, x.object(s2, x.get(s2, o, 'products')) if k == 'v' else v)
                    for s2, k, v in r]
        return x.p.loc(c), then(outs, go)
    if rule == 'zbdd':
        z, c, outs = x.build(s, 'Zbdd', 'Pdag', [ptr(pd), sets])
    else:
        b, c, outs = x.build(s, 'Bdd', 'Pdag', [ptr(pd), sets])

        def convert(st):
            z, c, r = x.build(st, 'Zbdd', 'Bdd', [ptr(b), sets])
            return [(s2, k, z if k == 'v' else v) for s2, k, v in r]
        outs = then(outs, convert)
        return x.p.loc(c), [r for st, k, z in outs for r in (
            [(st, k, z)] if k != 'v' else
            [(s2, k2, z if k2 == 'v' else v2) for s2, k2, v2 in call(
                st, z, 'Zbdd', 'Analyze', [ptr(pd)])[1]])]
    return x.p.loc(c), then(outs, lambda st: [
        (s2, k, z if k == 'v' else v) for s2, k, v in call(st, z, 'Zbdd', 'Analyze', [ptr(pd)])[1]])


class Sets:
    """Sets of a diagram; modules expanded."""

    def __init__(self, x, st, z):
        self.x, self.st, self.z = x, st, z
        self.memo = {}
        self.mods = None
        self.why = None

    def modules(self):
        if self.mods is None:
            self.mods = {}
            for p in self.x.items(self.st, self.x.get(self.st, self.z, 'modules')):
                i = cval(self.x.it.deref(self.st, self.x.it.read(self.st, T('lvf', p, 'first'))))
                z = self.x.object(self.st, self.x.it.read(self.st, T('lvf', p, 'second')))
                self.mods[i] = Sets(self.x, self.st, z)
        return self.mods

    def root(self):
        return self.of(self.x.vertex(self.st, self.x.get(self.st, self.z, 'root')))

    def of(self, v):
        if v in self.memo:
            return self.memo[v]
        x, st = self.x, self.st
        if 'Terminal<' in v.a[0]:
            r = [frozenset()] if x.obs(st, v, 'value') else []
        else:
            h, l = (x.vertex(st, x.get(st, v, n)) for n in ('high', 'low'))
            i, o = x.obs(st, v, 'index'), x.obs(st, v, 'order')
            hs, ls = self.of(h), self.of(l)
            if not hs:
                self.why = 'a redundant vertex'
            for t, strict in ((h, True), (l, False)):
                if 'Terminal<' not in t.a[0]:
                    o2 = x.obs(st, t, 'order')
                    if o2 < o or o2 == o and (strict or x.obs(st, t, 'index') >= i):
                        self.why = 'vertices out of order'
            if x.obs(st, v, 'module'):
                m = self.modules().get(i)
                if m is None:
                    raise Unknown('no sets for the module %d' % i)
                own = m.root()
                self.why = self.why or m.why
            else:
                own = [frozenset([i])]
            r = [a | b for a in own for b in hs] + ls
        self.memo[v] = r
        return r


def minimal(sets):
    return {s for s in sets if not any(t < s for t in sets)}


def implicants(f, n):
    """Prime implicants of the function of a tuple of truth values."""
    imps = set()
    for lits in itertools.product((0, 1, None), repeat=n):
        if all(f[v] for v in itertools.product(*[(0, 1) if t is None else (t,) for t in lits])):
            imps.add(frozenset((i, t) for i, t in enumerate(lits) if t is not None))
    return minimal(imps)


def judge(ctx, x, st, z, pd, vs, rule, limit, neg, key, where):
    if z is None:
        return ctx.undecided(rule, key, where, 'the diagram of sets is not known')
    index = [cval(x.field(st, n, 'index')) for n in vs]
    f = {}
    root = root_of(x, st, pd)
    for vals in itertools.product((0, 1), repeat=len(vs)):
        env = dict(zip(index, vals))
        f[vals] = bool(x.node_value(st, root, lambda i: bool(env[i]), {})) != neg
    if rule == 'implicants':
        want = {frozenset(index[i] if t else -index[i] for i, t in s)
                for s in implicants(f, len(vs))}
    else:
        want = minimal({frozenset(i for i, t in zip(index, v) if t) for v in f if f[v]})
    want = {s for s in want if len(s) <= limit}
    sets = Sets(x, st, z)
    got = [s for s in sets.root() if len(s) <= limit]
    name = {i: v for i, v in zip(index, 'abcdefgh')}

    def show(s):
        return '{%s}' % ','.join(('~' if i < 0 else '') + name.get(abs(i), str(i))
                                 for i in sorted(s, key=abs))
    why = sets.why
    if len(got) != len(set(got)):
        why = 'a product occurs twice'
    for s in want - set(got):
        why = 'the product %s is missing' % show(s)
    for s in set(got) - want:
        why = '%s is not a product' % show(s)
    ctx.check(why is None, rule, key, where, why)
