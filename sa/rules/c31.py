"""Quantification of products.  The probability analyzers are interpreted
abstractly on product collections with symbolic event probabilities; the published
total probability, the product probabilities and the warning are compared, as
exact rational normal forms on every path, with the documented definitions of the
rare-event approximation, the min-cut upper bound and the product probability."""
from interp import T, C, is_c, cval, State
from norm import num, pretty, Norm, sym
from quant import Scenario, Quant, CORE, MEF, M, ptr
from c30 import total

ASSUMPTIONS = ['Exact real arithmetic: rounding is not considered',
               'Product collections of the listed shapes stand for all collections',
               'assert() conditions hold']
TUS = ('probability_analysis.cc', 'fault_tree_analysis.cc', 'risk_analysis.cc',
       'settings.cc')
SHAPES = [
    ('single', [[2]], 1, {}),
    ('and', [[2, 3]], 2, {}),
    ('or', [[2], [3]], 2, {}),
    ('third order', [[2, 3, 4]], 3, {}),
    ('gap', [[3], [5]], 4, {}),
    ('shared', [[2, 3], [2, 4], [3, 4]], 3, {}),
    ('mixed', [[2, 3], [4], [2, 5]], 4, {}),
    ('impossible', [[2, 3], [4]], 3, {0: 0}),
    ('certain', [[2], [3]], 2, {1: 1}),
    ('certain and', [[2, 3], [3, 4]], 3, {1: 1}),
    ('no products', [], 1, {}),
    ('base', [[]], 1, {}),
]


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('total', 'the total probability is min(1, sum of product probabilities) for the '
             'rare-event approximation and 1 - prod(1 - product probability) for MCUB')
    ctx.rule('adjusted', 'a total probability of 1 under an approximation is published '
             'with a warning, any other one without')
    ctx.rule('product', 'the probability of a product is the product of the literals\' '
             'probabilities, 1 - p for a complement')
    for calc in ('RareEventCalculator', 'McubCalculator'):
        for alg in ('Zbdd', 'Mocus', 'Bdd'):
            for shape in SHAPES:
                totals(ctx, p, calc, alg, *shape)
    products(ctx, p)
    ctx.floor('total', 50)
    ctx.floor('product', 4)


def totals(ctx, prog, calc, alg, name, prods, n, fixed):
    appr = 'rare-event' if calc[0] == 'R' else 'mcub'
    enum = prog.enums[CORE + 'Approximation']
    want = 'kRareEvent' if calc[0] == 'R' else 'kMcub'
    val = [C(x['v']) for x in enum['enumerators'] if x['name'] == want]
    sc = Scenario(prog, prods, n, fixed, alg, calls=[('approximation', val[0])])
    where = prog.loc(sc.q.method(CORE + calc, 'Calculate', 2))
    key = '%s/%s/%s' % (calc, alg, name)
    o, paths = sc.analyzer(calc)
    done = 0
    for s0, _ in paths:
        base = s0.trace
        for s1, _ in sc.finished(sc.q.call(s0, o, 'Analyze')):
            done += 1
            v = sc.get(s1, o, 'p_total')
            if v is None:
                ctx.undecided('total', key, where, 'the total probability is not known')
                continue
            r = sc.norm(v)
            spec = total(sc, calc, prods, sc.p(), s1)
            if any(r.same(x) for x in spec):
                ctx.ok('total', key, where, pretty(r))
            elif unresolved(v):
                ctx.undecided('total', key, where, 'value not resolved: %s' % v)
            else:
                ctx.bad('total', key, where, 'the total probability is %s instead of %s' %
                        (pretty(r), ' or '.join(pretty(x) for x in spec)))
                continue
            warn = any(e[0] == 'warning' for e in s1.events())
            one = sc.ps.sign(s1, r - num(1))
            if one == {'0'}:
                ctx.check(warn, 'adjusted', key, where, 'no warning for a total of 1')
            elif '0' not in one:
                ctx.check(not warn, 'adjusted', key, where,
                          'warning for a total below 1')
    for u in sc.it.inlined:
        if prog.fns[u]['rel'].startswith('src/'):
            ctx.fn(prog.fns[u])
    if not done:
        sc.stuck(ctx, 'total', key, where)


def unresolved(v):
    t = repr(v)
    return any(x in t for x in ('uninit', 'fold(', 'other(', 'elem(', 'acc('))


def products(ctx, prog):
    """Product::p over literal sequences."""
    for name, lits in (('empty', []), ('one', [(0, 0)]), ('complement', [(1, 0)]),
                       ('two', [(0, 0), (0, 1)]), ('mixed', [(0, 0), (1, 1)]),
                       ('both complements', [(1, 0), (1, 1)]),
                       ('three', [(0, 0), (1, 1), (0, 2)])):
        sc = Scenario(prog, [], 3)
        st = sc.st
        st.mem[sc.q.time] = M
        objs = []
        for comp, i in lits:
            o = T('obj', CORE + 'Literal', sc.it.bump())
            st.mem[T('lvf', o, 'complement')] = C(bool(comp))
            ev = T('lvt', 'event', i)
            st.mem[ev] = sc.events[i]
            st.mem[T('lvf', o, 'event')] = T('ref', ev)
            objs.append(o)
        f = sc.q.method(CORE + 'Product', 'p')
        pr = T('obj', CORE + 'Product', sc.it.bump())
        seq = T('list', *objs)

        def lits_of(what):
            def m(it, st, e, o, args, fr):
                return [(st, 'v', {'begin': T('it', seq, C(0)),
                                   'end': T('it', seq, C(len(objs))),
                                   'size': C(len(objs)), 'empty': C(not objs),
                                   'order': C(max(1, len(objs)))}[what])]
            return m
        for w in ('begin', 'end', 'size', 'empty', 'order'):
            sc.it.models[CORE + 'Product::' + w] = lits_of(w)
        orig = sc.it.s_RangeFor

        def rangefor(st, s, fr, orig=orig):
            # a range-for over the product itself visits its literals
            outs = sc.it.eval_ref(st, s['range'], fr)
            if len(outs) == 1 and outs[0][1] == 'v' and \
                    sc.it.deref(st, outs[0][2]) is pr:
                return sc.it.unroll(outs[0][0], s, fr, list(seq.a))
            return orig(st, s, fr)
        sc.it.s_RangeFor = rangefor
        where = prog.loc(f)
        ctx.fn(f)
        want = num(1)
        for comp, i in lits:
            want = want * (num(1) - sc.prob(i) if comp else sc.prob(i))
        for s, v in sc.finished(sc.it.invoke(st, f, pr, [])):
            r = sc.norm(v)
            if r.same(want):
                ctx.ok('product', name, where, pretty(r))
            elif unresolved(v) or 'deref' in repr(v):
                ctx.undecided('product', name, where, 'value not resolved: %s' % v)
            else:
                ctx.bad('product', name, where, 'the probability is %s instead of %s' %
                        (pretty(r), pretty(want)))
