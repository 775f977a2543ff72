"""Exact quantification with BDD.  The BDD probability and importance analyzers
are interpreted abstractly on if-then-else graphs with complement edges, shared
vertices and modules, with symbolic event probabilities.  The published total
probability, every point over time and every importance factor are compared, as
exact rational normal forms, with the definition: the sum over the truth table of
the Boolean function the graph denotes."""
import itertools

from interp import T, C, is_c, cval
from norm import num, pretty
from quant import Scenario, CORE, M, ptr
from ddmodel import Graph, models
from c30 import formulas
from c31 import unresolved

ASSUMPTIONS = ['Exact real arithmetic: rounding is not considered',
               'Graphs of the listed shapes stand for all reduced graphs: the recursion '
               'treats every vertex alike',
               'assert() conditions hold']
TUS = ('probability_analysis.cc', 'importance_analysis.cc', 'fault_tree_analysis.cc',
       'risk_analysis.cc', 'settings.cc', 'bdd.cc')
A, B, D, E = 2, 3, 4, 5             # event indices
M1, M2 = 20, 21                     # module indices


def shape(*a):
    return a


def shapes():
    yield shape('event', 1, lambda g: (g.ite(A, g.one, g.one, 1), False, {}))
    yield shape('negated event', 1, lambda g: (g.ite(A, g.one, g.one, 1), True, {}))
    yield shape('true', 1, lambda g: (g.one, False, {}))
    yield shape('false', 1, lambda g: (g.one, True, {}))

    def and2(g, lo=B, hi=A):
        b = g.ite(lo, g.one, g.one, 1)
        return g.ite(hi, b, g.one, 1)

    def or2(g, lo=B, hi=A):
        b = g.ite(lo, g.one, g.one, 1)
        return g.ite(hi, g.one, b)
    yield shape('and', 2, lambda g: (and2(g), False, {}))
    yield shape('nand', 2, lambda g: (and2(g), True, {}))
    yield shape('or', 2, lambda g: (or2(g), False, {}))
    yield shape('nor', 2, lambda g: (or2(g), True, {}))

    def xor(g):
        b = g.ite(B, g.one, g.one, 1)
        return g.ite(A, b, b, 1)
    yield shape('xnor', 2, lambda g: (xor(g), False, {}))
    yield shape('xor', 2, lambda g: (xor(g), True, {}))

    def chain(g):
        d = g.ite(D, g.one, g.one, 1)
        b1 = g.ite(B, g.one, d)
        b2 = g.ite(B, d, d, 1)
        return g.ite(A, b1, b2, 1)
    yield shape('shared', 3, lambda g: (chain(g), False, {}))
    yield shape('complemented', 3, lambda g: (chain(g), True, {}))

    def vote(g):
        d = g.ite(D, g.one, g.one, 1)
        b1 = g.ite(B, g.one, d)
        b2 = g.ite(B, d, g.one, 1)
        return g.ite(A, b1, b2)
    yield shape('vote', 3, lambda g: (vote(g), False, {}))

    def mod(kind, comp, ce, root):
        def f(g):
            m = and2(g, D, B) if kind == 'and' else or2(g, D, B)
            v = g.ite(M1, g.one, g.one, 1, True, order=45)
            top = g.ite(A, v, v if ce == 2 else g.one, ce, order=1)
            return top, root, {M1: (comp, m)}
        return f
    for kind in ('and', 'or'):
        for comp in (False, True):
            for ce in (0, 1, 2):
                if ce == 0:
                    continue
                for root in (False, True):
                    yield shape('module %s%s%s%s' % (kind, ' complement' * comp, ' both' * (ce == 2),
                                                 ' negated' * root), 3, mod(kind, comp, ce, root))

    def only(comp, root):
        return lambda g: (g.ite(M1, g.one, g.one, 1, True, order=35), root,
                          {M1: (comp, or2(g))})
    for comp in (False, True):
        for root in (False, True):
            yield shape('only module%s%s' % (' complement' * comp, ' negated' * root), 2,
                    only(comp, root))

    def nested(comp):
        def f(g):
            inner = or2(g, D, B)
            iv = g.ite(M2, g.one, g.one, 1, True, order=45)
            outer = g.ite(A, iv, iv, 1, order=2)
            ov = g.ite(M1, g.one, g.one, 1, True, order=50)
            e = g.ite(E, ov, ov, 1, order=1)
            return e, comp, {M1: (comp, outer), M2: (not comp, inner)}
        return f
    for comp in (False, True):
        yield shape('nested modules%s' % (' complement' * comp), 4, nested(comp))

    def after(g):
        m = or2(g, B, A)
        d = g.ite(D, g.one, g.one, 1)
        v = g.ite(M1, g.one, d, 0, True, order=35)
        return v, False, {M1: (False, m)}
    yield shape('event after module', 3, after)

    def two(g):
        m, k = and2(g, B, A), and2(g, E, D)
        kv = g.ite(M2, g.one, g.one, 1, True, order=55)
        mv = g.ite(M1, kv, kv, 1, True, order=35)
        return mv, True, {M1: (False, m), M2: (True, k)}
    yield shape('two modules', 4, two)


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('total', 'the total probability is the sum over the satisfying assignments of the '
             'product of the literal probabilities')
    ctx.rule('over time', 'every point of the probability over time is the exact probability then')
    ctx.rule('factors', 'importance factors are exact for the Boolean function')
    for name, n, build in shapes():
        for step in (0.0, 1.0):
            one(ctx, p, name, n, build, step)
    ctx.floor('total', 20)
    ctx.floor('factors', 100)


def one(ctx, prog, name, n, build, step, prods=None, verify=None):
    calls = [('mission_time', C(2.0)), ('time_step', C(step))]
    prods = prods or [[i + 2 for i in range(n)]]
    sc = Scenario(prog, prods, n, {}, 'Bdd', calls=calls, extra=models())
    sc.st.mem[sc.q.time] = C(2.0)
    it, st = sc.it, sc.st
    it.recursion = 8
    it.max_depth = 40
    g = Graph(st)
    root, comp, mods = build(g)
    bdd = it.deref(st, st.mem[T('lvf', sc.fta, '#algorithm')])
    if bdd.op == 'ptr':
        bdd = bdd.a[0].a[0]

    def function(c, v, tag):
        f = T('obj', CORE + 'Bdd::Function', tag)
        st.mem[T('lvf', f, 'complement')] = C(bool(c))
        st.mem[T('lvf', f, 'vertex')] = ptr(v)
        return f

    def pairs(items):
        out = []
        for k, v in items:
            o = T('obj', 'std::pair<>', it.bump())
            st.mem[T('lvf', o, 'first')] = C(k)
            st.mem[T('lvf', o, 'second')] = v
            out.append(o)
        return T('list', *out)
    orders = {}
    for v, (i, _, _, _) in g.fns.items():
        if i not in mods:
            orders[i] = cval(st.mem[T('lvf', v, '#order')])
    for i in range(A, A + n):       # variables without influence are in the graph as well
        orders.setdefault(i, 1000 + i)
    vals = {'root': function(comp, root, 'root'),
            'modules': pairs((k, function(c, v, 'm%d' % k)) for k, (c, v) in mods.items()),
            'index_to_order': pairs((k, C(x)) for k, x in sorted(orders.items()))}
    for k, v in vals.items():
        st.mem[T('lvf', bdd, sc.q.field_of(CORE + 'Bdd', k) or k)] = v

    def exact(p):
        tot = num(0)
        for bits in itertools.product((False, True), repeat=n):
            env = {i + 2: b for i, b in enumerate(bits)}
            if g.value(root, env, mods) != comp:
                t = num(1)
                for x, b in zip(p, bits):
                    t = t * (x if b else num(1) - x)
                tot = tot + t
        return tot
    where = prog.loc(sc.q.method(CORE + 'ProbabilityAnalysis', 'Analyze'))
    key = '%s%s' % (name, '/time' if step else '')
    pcls = CORE + 'ProbabilityAnalyzer<%sBdd>' % CORE
    o, outs = sc.q.build(st, pcls, [ptr(sc.fta), ptr(sc.mt)],
                         lambda f: not f['params'][0]['t'].startswith('const ') and
                         'FaultTreeAnalyzer<%sBdd>' % CORE in f['params'][0]['t'])
    icls = CORE + 'ImportanceAnalyzer<%sBdd>' % CORE
    done = 0
    for s0, _ in sc.finished(outs):
        for s1, _ in sc.finished(sc.q.call(s0, o, 'Analyze')):
            final = C(2.0) if step else s1.mem.get(sc.q.time)
            p = sc.p(C(2.0))
            verify or compare(ctx, sc, 'total', key, where, sc.get(s1, o, 'p_total'), exact(p))
            if step:
                curve(ctx, sc, key, where, s1, o, exact)
            io, outs2 = sc.q.build(s1, icls, [ptr(o)], lambda f: not f.get('implicit'))
            for s2, _ in sc.finished(outs2):
                for s3, _ in sc.finished(sc.q.call(s2, io, 'Analyze')):
                    done += 1
                    if verify:
                        verify(sc, s3, io)
                        continue
                    factors(ctx, sc, key, where, s3, io, exact, p, name)
    for u in it.inlined:
        if prog.fns[u]['rel'].startswith('src/'):
            ctx.fn(prog.fns[u])
    if not done and not verify:
        sc.stuck(ctx, 'total', key, where)


def compare(ctx, sc, rule, key, where, v, spec):
    if v is None or unresolved(v):
        ctx.undecided(rule, key, where, 'value not resolved: %s' % str(v)[:200])
        return
    r = sc.norm(v)
    ctx.check(r.same(spec), rule, key, where, '%s instead of %s' % (pretty(r), pretty(spec)))


def curve(ctx, sc, key, where, st, o, exact):
    from c33 import pairs
    lst = sc.get(st, o, 'p_time')
    if lst is None or lst.op != 'list' or len(lst.a) != 3:
        ctx.undecided('over time', key, where, 'the curve is not known')
        return
    for a, b in pairs(sc, st, lst):
        if a is None or b is None or not is_c(b):
            ctx.undecided('over time', key, where, 'the points are not known')
            continue
        compare(ctx, sc, 'over time', '%s@%s' % (key, cval(b)), where, a, exact(sc.p(b)))


def factors(ctx, sc, key, where, st, io, exact, p, name):
    recs = sc.get(st, io, 'importance')
    if recs is None or recs.op != 'list' or len(recs.a) != len(p):
        ctx.undecided('factors', key, where, 'the records are not known')
        return
    for r in recs.a:
        ev = sc.field(st, r, 'event')
        if ev not in sc.events:
            ctx.undecided('factors', key, where, 'unknown event')
            continue
        i = sc.events.index(ev)
        P1 = exact(p[:i] + [num(1)] + p[i + 1:])
        P0 = exact(p[:i] + [num(0)] + p[i + 1:])
        f = sc.field(st, r, 'factors')
        spec = formulas(sc, st, p[i], exact(p), P1 - P0)
        for n in ('mif', 'cif', 'dif', 'raw', 'rrw'):
            v = sc.field(st, f, n)
            k = '%s:e%d.%s' % (key, i, n)
            if v is None or unresolved(v):
                ctx.undecided('factors', k, where, 'value not resolved')
                continue
            x = sc.norm(v)
            if any(x.same(sp[n]) for sp in spec):
                ctx.ok('factors', k, where)
            else:
                ctx.bad('factors', k, where, '%s is %s instead of %s' % (
                    n, pretty(x)[:200], pretty(spec[0][n])[:200]))
