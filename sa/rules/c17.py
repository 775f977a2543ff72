"""Abstract interpretation of the construction of binary decision diagrams from normalised graphs
(and/or gates over literals, shared and complemented gates, modules) under permuted orders of the
variables; computation tables collide.  The diagram, read through its public observers, must have
the truth table of the graph, be ordered and reduced with every vertex unique, and mark modules."""
import itertools
import random

from diagram import *
from interp import Budget

ASSUMPTIONS = ['the unique table finds a live vertex by its key, and vertices live for the '
               'construction', 'recursion on larger graphs treats every vertex alike']


def formulas(n, seed, complements):
    """Systematic small and pseudo-random layered graphs."""
    lits = lambda names: [x for v in names for x in ((v, ('not', v)) if complements else (v,))]
    for op in ('and', 'or'):
        for k in (2, 3, 4):
            for signs in itertools.product((0, 1), repeat=k) if complements and k < 4 else ():
                yield {'g': (op,) + tuple(('not', v) if s else v for v, s in zip('abcd', signs))}
            if not complements or k == 4:
                yield {'g': (op,) + tuple('abcd'[:k])}
        other = 'or' if op == 'and' else 'and'
        for x in lits('a'):
            for y in lits('b'):
                for g1 in ('g1', ('not', 'g1')) if complements else ('g1',):
                    yield {'g': (op, x, g1), 'g1': (other, y, 'c')}
                    yield {'g': (op, x, g1), 'g1': (other, y, 'a')}
                    yield {'g': (op, x, g1), 'g1': (op, y, 'c')}
    if complements:
        no = lambda v: ('not', v)
        for t in ('or', 'and'):
            u = 'and' if t == 'or' else 'or'
            yield {'g': (t, 'c', 'g1'), 'g1': (u, 'a', 'd', no('g2')), 'g2': (t, 'a', no('d'))}
            yield {'g': (t, 'e', 'g1'), 'g1': (u, 'g2', 'g3'), 'g2': (t, 'a', 'b'),
                   'g3': (u, no('a'), no('b'))}
            yield {'g': (t, 'g1', 'g2', 'a', 'b', 'c'), 'g1': (u, 'a', 'g3'), 'g2': (u, 'b', 'g4'),
                   'g3': (u, no('a'), 'c'), 'g4': (u, no('b'), 'c')}
            yield {'g': (t, no('g1'), 'g2', 'a', 'b', 'd'), 'g1': (u, 'a', 'g3'),
                   'g2': (u, 'b', 'g4'), 'g3': (u, no('a'), 'c'), 'g4': (u, no('b'), 'c')}
    r = random.Random(seed)
    for i in range(n):
        k = r.choice((2, 3, 3, 4))
        names = 'abcde'[:r.choice((3, 4, 4, 5))]
        gs = ['g%d' % j for j in range(1, k)]
        defs = {}
        for j, g in enumerate(['g'] + gs):
            pool = gs[j:]
            args = r.sample(names, r.choice((1, 2, 2, 3)))
            args += r.sample(pool, min(len(pool), r.choice((1, 1, 2))))
            if len(args) < 2:
                args += [v for v in names if v not in args][:1]
            defs[g] = (r.choice(('and', 'or')),) + tuple(
                ('not', a) if complements and r.random() < .3 else a for a in args)
        if set(gs) <= {x for f in defs.values() for x in map(
                lambda a: a[1] if isinstance(a, tuple) else a, f[1:])}:
            yield defs


def key_of(defs, tag):
    return ('; '.join('%s=%s' % (g, text(f)) for g, f in defs.items()) + tag).replace(' ', '_')


def run(ctx):
    x = Diagrams(ctx.prog(*TUS, *TABLES))
    ctx.rule('function', 'the diagram has the truth table of the graph')
    ctx.rule('canonical', 'vertices are ordered, unique and not redundant')
    ctx.rule('modules', 'the diagram of a module replaces its gate; vertices of modules are marked')
    jobs = []
    big = ctx.tier == 'thorough'
    for seed, comp in ((1, False), (2, True)):
        for i, defs in enumerate(formulas(900 if big else 260, seed, comp)):
            for o in range(3 if big else 2):
                for mods in (True, False) if 'g1' in defs else (True,):
                    for neg in (False, True) if (i + o) % 4 == 0 else (False,):
                        jobs.append((defs, o, mods, neg))
    step = 8
    ctx.parallel([lambda js=jobs[i::step]: [one_graph(ctx, x, *j) for j in js] and done(ctx, x)
                  for i in range(step)])
    ctx.floor('function', 200)


def done(ctx, x):
    for u in x.it.inlined:
        if x.p.fns[u]['rel'].startswith('src/'):
            ctx.fn(x.p.fns[u])


def one_graph(ctx, x, defs, o, mods, neg):
    key = key_of(defs, '%s%s%s' % (' order%d' % o if o else '', '' if mods else ' no-modules',
                                   ' negated' if neg else ''))
    where = 'src/bdd.cc Bdd::Bdd'
    try:
        g = x.normal(defs, random.Random(o * 1000 + len(key)) if o else None, mods, neg)
        if g is None:
            return
        s, pd, names, vs, modules, gates = g
        b, c, outs = x.build(s, 'Bdd', 'Pdag', [ptr(pd), x.settings(s)])
        where = x.p.loc(c)
        if len(outs) > 4:
            raise Unknown('%d paths' % len(outs))
        for st, k, v in outs:
            if k == 'exit':
                ctx.bad('function', key, where, 'an assertion fails, the order of a '
                        'sort is not strict, or an iterator is past the end')
            elif k != 'v':
                ctx.undecided('function', key, where, '%s: %s' % (k, str(v)[:200]))
            else:
                judge(ctx, x, st, b, pd, vs, modules, gates, neg, key, where)
    except (Unknown, Budget, Broken, RecursionError, KeyError) as err:
        ctx.undecided('function', key, where, ('%s %s' % (type(err).__name__, err))[:300])


def judge(ctx, x, st, b, pd, vs, modules, gates, neg, key, where):
    comp, root = x.function(st, x.get(st, b, 'root'))
    subs = {}
    for p in x.items(st, x.get(st, b, 'modules')):
        i = cval(x.it.deref(st, x.it.read(st, T('lvf', p, 'first'))))
        subs[i] = x.function(st, x.it.read(st, T('lvf', p, 'second')))
    nodes = x.ites(st, root, {})
    for c, v in subs.values():
        x.ites(st, v, nodes)
    index = {n: cval(x.field(st, n, 'index')) for n in list(vs) + list(gates)}
    gate = {index[g]: g for g in gates}
    order = {index[n]: cval(x.field(st, n, 'order')) for n in index}

    def value(v, env):
        if nodes[v] is None:
            return True
        i, _, h, l, ce, m, _ = nodes[v]
        if m:
            c, r = subs[i]
            t = value(r, env) != c
        else:
            t = env[i]
        return value(h, env) if t else value(l, env) != ce

    why = None
    mset = {index[g] for g in modules}
    for i, (c, v) in subs.items():
        if i not in gate or gate[i] not in modules:
            why = 'a diagram for a module %d that is not one' % i
    for n in nodes.values():
        if n and not why:
            i, o, h, l, ce, m, coh = n
            if o != order.get(i):
                why = 'order of a vertex differs from that of its node'
            elif m != (i in mset):
                why = 'a vertex of %s is %smarked as a module' % (i, '' if m else 'not ')
            elif m and coh != x.positive(gates, gate[i]):
                why = 'a module vertex with a wrong coherence flag'
            elif m and i not in subs:
                why = 'no diagram for the module'
    ctx.check(why is None, 'modules', key, where, why)
    why2 = None
    seen = {}
    for v, n in nodes.items():
        if n:
            i, o, h, l, ce, m, _ = n
            if h is l and not ce:
                why2 = 'a redundant vertex'
            if (i, h, l, ce) in seen:
                why2 = 'two equal vertices'
            seen[i, h, l, ce] = v
            if any(nodes[t] and nodes[t][1] <= o for t in (h, l)):
                why2 = 'vertices out of order'
    ids = [x.obs(st, v, 'id') for v, n in nodes.items() if n]
    if len(ids) != len(set(ids)) or any(i < 2 for i in ids):
        why2 = why2 or 'identifiers of vertices are not unique'
    ctx.check(why2 is None, 'canonical', key, where, why2)
    if why:
        return
    env0 = [index[v] for v in vs]
    for vals in itertools.product((False, True), repeat=len(vs)):
        env = dict(zip(env0, vals))
        want = x.node_value(st, root_of(x, st, pd), lambda i: env[i], {}) != neg
        if (value(root, env) != comp) != want:
            ctx.bad('function', key, where, 'the diagram differs from the graph at %s' % (vals,))
            return
        for i, (c, v) in subs.items():
            if (value(v, env) != c) != x.node_value(st, gate[i], lambda i: env[i], {}):
                ctx.bad('function', key, where, 'the diagram of a module differs at %s' % (vals,))
                return
    ctx.ok('function', key, where)
