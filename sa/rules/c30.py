"""Importance factors.  The importance and probability analyzers are interpreted
abstractly on product collections whose event probabilities are symbols in (0, 1)
or the constants 0 and 1; comparisons that the sign domain cannot decide split
the path.  On every path the published factors are compared, as exact rational
normal forms, with the documented definitions: marginal importance as the
difference of the system probabilities with the event certain and impossible,
critical importance, diagnosis importance, risk achievement and risk reduction
worth, zero where the definition divides by zero, and occurrence counts."""
from interp import T, is_c, cval, Budget
from norm import num, pretty
from quant import Scenario, CORE, M

ASSUMPTIONS = ['Exact real arithmetic: rounding is not considered',
               'Product collections of the listed shapes stand for all collections',
               'assert() conditions hold']
TUS = ('probability_analysis.cc', 'importance_analysis.cc', 'fault_tree_analysis.cc',
       'risk_analysis.cc', 'settings.cc')

# products over variable indices (first variable is 2), number of events, fixed
SHAPES = [
    ('single', [[2]], 2, {}),
    ('and', [[2, 3]], 2, {}),
    ('or', [[2], [3]], 2, {}),
    ('absent event', [[2, 4]], 3, {}),
    ('repeated event', [[2, 3], [2, 4]], 3, {}),
    ('impossible', [[2, 3]], 2, {0: 0}),
    ('certain', [[2]], 2, {0: 1}),
    ('certain and', [[2, 3]], 2, {1: 1}),
    ('certain or', [[2], [3]], 2, {1: 1}),
    ('no products', [], 1, {}),
    ('base', [[]], 1, {}),
]


def total(sc, calc, products, p, st):
    """Documented system probability -> list of possible values on the path."""
    def prod(c):
        r = num(1)
        for i in c:
            r = r * p[abs(i) - 2]
        return r
    if calc == 'RareEventCalculator':
        s = num(0)
        for c in products:
            s = s + prod(c)
        sg = sc.ps.sign(st, s - num(1))
        if sg <= {'-', '0'}:
            return [s]
        if sg <= {'+', '0'}:
            return [num(1)]
        return [s, num(1)]
    m = num(1)
    for c in products:
        m = m * (num(1) - prod(c))
    return [num(1) - m]


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('factors', 'each published importance factor equals its documented formula')
    ctx.rule('selection', 'exactly the events occurring in products are listed, in order, once')
    for calc in ('RareEventCalculator', 'McubCalculator'):
        for alg in ('Zbdd', 'Mocus', 'Bdd'):
            shapes = SHAPES if alg == 'Zbdd' else SHAPES[:5]
            for shape in shapes:
                one(ctx, p, calc, alg, *shape)
    implicants(ctx)
    ctx.floor('factors', 60)


IMPLICANTS = [
    ('complements', [[2, 3], [2, -4]], 3), ('both signs', [[2, -3], [-2, 3]], 2),
    ('only complements', [[-2, -3], [-3]], 2), ('unused event', [[-3]], 3),
    ('mixed', [[-2, 4], [3, -4], [-2, -3]], 3),
]


def implicants(ctx):
    """Events and their numbers of occurrences, complements included."""
    import c32
    p = ctx.prog(*c32.TUS)
    where = p.loc(p.one(CORE + 'ImportanceAnalysis::Analyze'))
    graph = [f for n, _, f in c32.shapes() if n == 'event'][0]
    for name, prods, n in IMPLICANTS:
        key = 'implicants/' + name
        seen = []

        def verify(sc, st, io):
            seen.append(1)
            recs = sc.get(st, io, 'importance')
            if recs is None or recs.op != 'list':
                return ctx.undecided('selection', key, where, 'the published records are not known')
            want = [sum(abs(i) == e + 2 for c in prods for i in c) for e in range(n)]
            got = []
            for r in recs.a:
                ev, f = sc.field(st, r, 'event'), sc.field(st, r, 'factors')
                v = sc.field(st, f, 'occurrence') if f is not None else None
                if ev not in sc.events or v is None or not is_c(v):
                    return ctx.undecided('selection', key, where, 'a record is not known')
                got.append((sc.events.index(ev), cval(v)))
            want = [(i, k) for i, k in enumerate(want) if k]
            ctx.check(got == want, 'selection', key, where,
                      'events and occurrences are %s instead of %s' % (got, want))
        try:
            c32.one(ctx, p, name, n, graph, 0.0, prods, verify)
        except Budget:
            pass
        if not seen:
            ctx.undecided('selection', key, where, 'no completed path')


def one(ctx, prog, calc, alg, name, products, n, fixed):
    from facts import Broken
    sc = Scenario(prog, products, n, fixed, alg)
    key = '%s/%s/%s' % (calc, alg, name)
    icls = CORE + 'ImportanceAnalyzer<%s%s>' % (CORE, calc)
    where = prog.loc(sc.q.method(CORE + 'ImportanceAnalysis', 'Analyze'))
    o, paths = sc.analyzer(calc)
    done = 0
    for s0, _ in paths:
        for s1, _ in sc.finished(sc.q.call(s0, o, 'Analyze')):
            io, outs = sc.q.build(s1, icls, [T('ptr', T('lvo', o))],
                                  lambda f: not f.get('implicit'))
            for s2, _ in sc.finished(outs):
                for s3, _ in sc.finished(sc.q.call(s2, io, 'Analyze')):
                    done += 1
                    verify(ctx, sc, calc, key, where, s3, io)
    for u in sc.it.inlined:
        ctx.fn(prog.fns[u]) if prog.fns[u]['rel'].startswith('src/') else None
    if not done:
        sc.stuck(ctx, 'selection', key, where)


def verify(ctx, sc, calc, key, where, st, io):
    recs = sc.get(st, io, 'importance')
    if recs is None or recs.op != 'list':
        ctx.undecided('selection', key, where, 'the published records are not known: %s' % recs)
        return
    occ = {}
    for c in sc.products:
        for i in c:
            occ[abs(i) - 2] = occ.get(abs(i) - 2, 0) + 1
    want = sorted(occ)
    got = []
    for r in recs.a:
        ev = sc.field(st, r, 'event')
        got.append(sc.events.index(ev) if ev in sc.events else None)
    if None in got:
        ctx.undecided('selection', key, where, 'unknown event in a record')
        return
    if not ctx.check(got == want, 'selection', key, where,
                     'events %s are listed, %s occur in products' % (got, want)):
        return
    p = sc.p()
    for r, i in zip(recs.a, want):
        f = sc.field(st, r, 'factors')
        val = {n: sc.field(st, f, n) for n in ('occurrence', 'mif', 'cif', 'dif', 'raw', 'rrw')}
        if any(v is None for v in val.values()):
            ctx.undecided('factors', '%s:e%d' % (key, i), where, 'factor not known')
            continue
        specs = []
        for P in total(sc, calc, sc.products, p, st):
            for P1 in total(sc, calc, sc.products, p[:i] + [num(1)] + p[i + 1:], st):
                for P0 in total(sc, calc, sc.products, p[:i] + [num(0)] + p[i + 1:], st):
                    specs += formulas(sc, st, p[i], P, P1 - P0)
        for name, v in val.items():
            if name == 'occurrence':
                ctx.check(is_c(v) and cval(v) == occ[i], 'factors',
                          '%s:e%d.%s' % (key, i, name), where,
                          'occurrence is %s instead of %d' % (v, occ[i]))
                continue
            r2 = sc.norm(v)
            hit = any(r2.same(sp[name]) for sp in specs)
            k = '%s:e%d.%s' % (key, i, name)
            if hit:
                ctx.ok('factors', k, where)
            elif 'uninit' in repr(v) or 'fold' in repr(v) or 'other(' in repr(v):
                ctx.undecided('factors', k, where, 'value not resolved: %s' % v)
            else:
                ctx.bad('factors', k, where, '%s is %s instead of %s' % (
                    name, pretty(r2), pretty(specs[0][name])))


def formulas(sc, st, p, P, mif):
    zero = num(0)
    out = []
    sp = sc.ps.sign(st, P)
    if '0' in sp:
        out.append(dict(mif=mif, cif=zero, dif=zero, raw=zero, rrw=zero))
    if sp != {'0'}:
        try:
            raw = num(1) + (num(1) - p) * mif / P
            d = dict(mif=mif, cif=p * mif / P, raw=raw, dif=p * raw)
        except ZeroDivisionError:
            return out
        den = P - p * mif
        sd = sc.ps.sign(st, den)
        if '0' in sd:
            out.append(dict(d, rrw=zero))
        if sd != {'0'}:
            out.append(dict(d, rrw=P / den))
    return out
