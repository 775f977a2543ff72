"""Probability over time and safety integrity metrics.  The probability analysis
is interpreted abstractly with constant step grids and symbolic probabilities of
the event at every point in time.  The published curve must hold the documented
points with the system probability at that time, and the mission time must be
back at its value.  The SIL metrics are compared for every pair of position
classes of two probabilities relative to the bucket bounds (points, open
intervals, and their order inside a class), a complete partition of the segments
a curve can consist of."""
import itertools
from interp import T, C, is_c, cval, State, Budget
from norm import num, pretty, sym, Norm
from fractions import Fraction as Fr
from quant import Scenario, CORE, M, ptr
from c30 import total
from c31 import unresolved

ASSUMPTIONS = ['Exact real arithmetic: rounding is not considered',
               'Curves of up to four points; metrics are sums over segments',
               'assert() conditions hold']
TUS = ('probability_analysis.cc', 'fault_tree_analysis.cc', 'risk_analysis.cc',
       'settings.cc')
GRIDS = [(2.5, 1.0), (2.0, 1.0), (1.0, 3.0), (0.0, 1.0), (3.0, 2.0), (5.0, 0.0)]
PFD = [Fr(1, 10 ** k) for k in (5, 4, 3, 2, 1)] + [Fr(1)]
PFH = [Fr(1, 10 ** k) for k in (9, 8, 7, 6, 5)] + [Fr(1)]


def points(tot, step):
    if not step:
        return []
    out, t = [], 0.0
    while t < tot:
        out.append(t)
        t += step
    return out + [tot]


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('curve', 'the probability over time holds the points 0, step, 2 step, ... below '
             'the mission time and the mission time, each with the system probability then')
    ctx.rule('restored', 'the mission time has its original value after the analysis')
    ctx.rule('average', 'PFD/PFH averages are the time averages of the piecewise linear curve')
    ctx.rule('fraction', 'each bucket holds the fraction of time the curve lies in it')
    for calc in ('RareEventCalculator', 'McubCalculator'):
        for alg in ('Zbdd', 'Mocus', 'Bdd'):
            for tot, step in GRIDS:
                for prods, n in (([[2]], 1), ([[2, 3]], 2), ([[4], [2, 3]], 3)):
                    if len(prods) == 2 and calc[0] == 'R':
                        continue
                    curve(ctx, p, calc, alg, tot, step, prods, n)
    segments(ctx, p)
    ctx.floor('curve', 40)
    ctx.floor('fraction', 300)


def scenario(prog, calc, alg, tot, step, prods, n, fixed=None, sil=False):
    calls = [('mission_time', C(float(tot))), ('time_step', C(float(step)))]
    if sil:
        calls.append(('safety_integrity_levels', C(True)))
    sc = Scenario(prog, prods, n, fixed, alg, calls=calls)
    sc.st.mem[sc.q.time] = C(float(tot))
    return sc


def pairs(sc, st, lst):
    out = []
    for x in lst.a:
        a, b = sc.field(st, x, 'first'), sc.field(st, x, 'second')
        if a is None and x.op == 'mk' and len(x.a) == 3:
            a, b = x.a[1], x.a[2]
        out.append((a, b))
    return out


def curve(ctx, prog, calc, alg, tot, step, prods, n):
    sc = scenario(prog, calc, alg, tot, step, prods, n)
    where = prog.loc(sc.q.method(CORE + 'ProbabilityAnalysis', 'Analyze'))
    key = '%s/%s/%s/%s by %s' % (calc, alg, prods, tot, step)
    o, paths = sc.analyzer(calc)
    done = 0
    for s0, _ in paths:
        for s1, _ in sc.finished(sc.q.call(s0, o, 'Analyze')):
            done += 1
            lst = sc.get(s1, o, 'p_time')
            if lst is None or lst.op != 'list':
                ctx.undecided('curve', key, where, 'the curve is not known: %s' % lst)
                continue
            pts = pairs(sc, s1, lst)
            if any(a is None or b is None or not is_c(b) for a, b in pts):
                ctx.undecided('curve', key, where, 'the points are not known')
                continue
            ts = [float(cval(b)) for a, b in pts]
            if not ctx.check(ts == points(tot, step), 'curve', key, where,
                             'points at %s instead of %s' % (ts, points(tot, step))):
                continue
            ctx.check(s1.mem.get(sc.q.time) is C(float(tot)), 'restored', key, where,
                      'the mission time is %s afterwards' % s1.mem.get(sc.q.time))
            for a, b in pts:
                r = sc.norm(a)
                spec = total(sc, calc, prods, sc.p(b), s1)
                k = '%s@%s' % (key, cval(b))
                if any(r.same(x) for x in spec):
                    ctx.ok('curve', k, where)
                elif unresolved(a):
                    ctx.undecided('curve', k, where, 'value not resolved: %s' % a)
                else:
                    ctx.bad('curve', k, where, 'the probability is %s instead of %s' %
                            (pretty(r), pretty(spec[0])))
    for u in sc.it.inlined:
        if prog.fns[u]['rel'].startswith('src/'):
            ctx.fn(prog.fns[u])
    if not done:
        sc.stuck(ctx, 'curve', key, where)


def classes(bounds):
    """Positions relative to the bounds: constants and open intervals."""
    out, lo = [('point', Fr(0))], Fr(0)
    for b in bounds:
        out += [('open', lo, b), ('point', b)]
        lo = b
    return out


def segments(ctx, prog):
    """Two-point curves over [0, 1]; pfh is y/t, zero at time zero."""
    cl = classes(PFD)
    combos = [(a, b) for a in cl for b in cl]
    if ctx.tier != 'thorough':
        combos = [(a, b) for i, a in enumerate(cl) for j, b in enumerate(cl)
                  if abs(i - j) <= 2 and (i + j) % 5 < 3 or (i - j) % 5 == 3]
    for a, b in combos:
        orders = '-0+' if a == b and a[0] == 'open' else 'x'
        for o in orders:
            segment(ctx, prog, [a, b], o, False)
    ch = classes(PFH)
    for b in ch:
        segment(ctx, prog, [('point', Fr(0)), b], 'x', True)
    for ys in (('1/200', '1/20', '1/500'), ('0', '1/1000', '1/100'), ('1/50', '1/50', '1/40'),
               ('1/3', '1/10', '1/10'), ('1/100000', '1/2', '1')):
        segment(ctx, prog, [('point', Fr(y)) for y in ys], 'x', False)
    for a in cl[1:6]:
        segment(ctx, prog, [a], 'x', False)


def segment(ctx, prog, cls, order, pfh):
    """One curve; symbols y_t for the open classes, constants for points."""
    n = len(cls)
    tot = float(n - 1)
    step = 1.0
    sc = scenario(prog, 'McubCalculator', 'Zbdd', tot, step, [[2]], 1, sil=True)
    ys = []
    for k, c in enumerate(cls):
        if c[0] == 'point':
            ys.append(num(c[1]))
        elif k and cls[k - 1] == c and order == '0' or n == 3 and k == 2:
            ys.append(ys[0])
        else:
            ys.append(sym(('y', k)))
    bounds = sorted(set(PFD + PFH + [Fr(0)]))
    for k, c in enumerate(cls):
        if c[0] != 'open':
            continue
        for b in bounds:
            s = '+' if b <= c[1] else '-' if b >= c[2] else None
            if s:
                sc.ps.assume(ys[k] - num(b), s)
    for i in range(n):
        for j in range(i):
            if ys[i].same(ys[j]) or ys[i].const() is not None and ys[j].const() is not None:
                continue
            lo = lambda c: (c[1], 0) if c[0] == 'point' else (c[1], 1)
            s = order if order in '-+' else '+' if lo(cls[i]) > lo(cls[j]) else '-'
            if cls[i] == cls[j] and order == 'x':
                s = '+'
            sc.ps.assume(ys[i] - ys[j], s)

    def prob(i, time=M):
        if is_c(time):
            return ys[int(round(cval(time) / step))]
        return sym(('p', repr(time)))
    sc.prob = prob
    key = '%s %s' % (' -> '.join('%s' % c[1] if c[0] == 'point' else '(%s,%s)' % c[1:]
                                 for c in cls), order)
    where = prog.loc(sc.q.method(CORE + 'ProbabilityAnalysis', 'Analyze'))
    o, paths = sc.analyzer('McubCalculator')
    done = 0
    for s0, _ in paths:
        try:
            outs = sc.finished(sc.q.call(s0, o, 'Analyze'))
        except Budget:
            outs = []
        for s1, _ in outs:
            done += 1
            sil = sc.get(s1, o, 'sil')
            if sil is None or sil.op != 'obj':
                ctx.undecided('fraction', key, where, 'the metrics are not known')
                continue
            h = [num(0)] + [y / num(Fr(k)) for k, y in enumerate(ys) if k]
            if not pfh:
                metric(ctx, sc, s1, sil, key, where, 'pfd', ys, PFD)
            if n == 1:
                metric(ctx, sc, s1, sil, key, where, 'pfh', None, PFH)
            elif n == 3:
                metric(ctx, sc, s1, sil, key, where, 'pfh', h, PFH)
            elif n == 2:
                if pfh or cls[1][0] == 'point' or cls[1][1] >= PFH[4]:
                    metric(ctx, sc, s1, sil, key, where, 'pfh', h, PFH)
    if not done:
        sc.stuck(ctx, 'fraction', key, where)


def metric(ctx, sc, st, sil, key, where, name, ys, bounds):
    avg = sc.field(st, sil, name + '_avg')
    fr = sc.field(st, sil, name + '_fractions')
    k = '%s %s' % (name, key)
    if avg is None or fr is None or fr.op != 'list':
        ctx.undecided('fraction', k, where, 'the metrics are not known')
        return
    got = pairs(sc, st, fr)
    if [sc.norm(a).const() if a is not None else None for a, _ in got] != bounds:
        have = [a for a, _ in got]
        ctx.bad('fraction', k, where, 'bucket bounds are %s' % have)
        return
    if ys is None:
        want_avg, want = num(0), [num(0)] * len(bounds)
    elif len(ys) == 1:
        want_avg = ys[0]
        want = [num(int(inside(sc, st, ys[0], lo, b)))
                for lo, b in zip([Fr(0)] + bounds, bounds)]
    else:
        n = len(ys) - 1
        want_avg = num(0)
        for a, b in zip(ys, ys[1:]):
            want_avg = want_avg + (a + b) / num(2)
        want_avg = want_avg / num(n)
        want = []
        for lo, hi in zip([Fr(0)] + bounds, bounds):
            s = num(0)
            for a, b in zip(ys, ys[1:]):
                f = overlap(sc, st, a, b, num(lo), num(hi))
                if f is None:
                    s = None
                    break
                s = s + f
            want.append(None if s is None else s / num(n))
    r = sc.norm(avg)
    if r.close(want_avg):
        ctx.ok('average', k, where, pretty(r))
    elif unresolved(avg):
        ctx.undecided('average', k, where, 'not resolved: %s' % avg)
    else:
        ctx.bad('average', k, where, 'the average is %s instead of %s' %
                (pretty(r), pretty(want_avg)))
    for (_, f), w, b in zip(got, want, bounds):
        kb = '%s <=%s' % (k, b)
        if f is None or w is None or unresolved(f):
            ctx.undecided('fraction', kb, where, 'not resolved: %s' % f)
            continue
        r = sc.norm(f)
        if r.close(w):
            ctx.ok('fraction', kb, where, pretty(r))
        else:
            ctx.bad('fraction', kb, where, 'the fraction is %s instead of %s' %
                    (pretty(r), pretty(w)))


def inside(sc, st, y, lo, hi):
    """lo < y <= hi; the lowest bucket includes 0."""
    above = sc.ps.sign(st, y - num(lo))
    below = sc.ps.sign(st, y - num(hi))
    return (above == {'+'} or lo == 0 and '-' not in above) and below <= {'-', '0'}


def least(sc, st, a, b, flip=1):
    s = sc.ps.sign(st, a - b)
    if s <= {'-', '0'}:
        return a if flip > 0 else b
    if s <= {'+', '0'}:
        return b if flip > 0 else a
    return None


def overlap(sc, st, a, b, lo, hi):
    """Share of a linear segment from a to b with lo < y <= hi."""
    if a.same(b):
        return num(int(inside(sc, st, a, lo.const(), hi.const())))
    bot, top = least(sc, st, a, b), least(sc, st, a, b, -1)
    if bot is None or top is None:
        return None
    x, y = least(sc, st, bot, lo, -1), least(sc, st, top, hi)
    if x is None or y is None:
        return None
    s = sc.ps.sign(st, y - x)
    if s <= {'-', '0'}:
        return num(0)
    if s == {'+'}:
        return (y - x) / (top - bot)
    return None
