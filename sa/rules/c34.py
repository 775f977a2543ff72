"""Uncertainty analysis.  The uncertainty analyzers are interpreted abstractly with
symbolic samples of every position class relative to [0, 1].  The event trace of a
trial (resets, samples), the probabilities used in every trial, and the published
statistics are compared with the definition; the statistics are expressions over
the accumulator's extracted mean, variance, density and quantiles."""
import math
from interp import T, C, VOID, is_c, cval
from norm import num, sym, pretty
from quant import Scenario, CORE, MEF, M, ptr
from c30 import total
from c31 import unresolved

ASSUMPTIONS = ['boost::accumulators computes the statistics it documents',
               'Exact real arithmetic: rounding is not considered',
               'A few trials stand for any number: the trial loop has no other state']
TUS = ('probability_analysis.cc', 'uncertainty_analysis.cc', 'fault_tree_analysis.cc',
       'risk_analysis.cc', 'settings.cc')
LOW, IN, HIGH, ZERO, ONE = 'below 0', 'inside', 'above 1', '0', '1'


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('trial', 'every trial resets all deviates before sampling each exactly once')
    ctx.rule('sampled', 'every trial quantifies the system with the sampled values clamped to '
             '[0, 1] and the unchanged probabilities of the other events')
    ctx.rule('count', 'the number of samples is the number of trials')
    ctx.rule('statistics', 'published statistics follow their definitions')
    ctx.rule('isolated', 'the analysis leaves the point probabilities unchanged')
    for calc in ('McubCalculator', 'RareEventCalculator'):
        for trials in (1, 2, 3):
            for dev, cls in (((0, 2), (IN, IN)), ((0, 2), (LOW, HIGH)), ((1,), (IN,)),
                             ((0, 1, 2), (HIGH, IN, LOW)), ((), ()), ((0, 1), (ZERO, ONE)),
                             ((0, 1, 2), (IN, IN, IN))):
                if calc[0] == 'R' and (IN in cls and len(cls) > 1 or not cls):
                    continue
                one(ctx, p, calc, trials, dev, cls)
    ctx.floor('sampled', 30)
    ctx.floor('statistics', 60)


def one(ctx, prog, calc, trials, dev, cls):
    q, bins = 1 + trials, 4 - trials
    prods = [[2, 3], [4]] if calc[0] == 'M' else [[2, 3, 4]]
    fixed = {} if calc[0] == 'M' else {}
    sc = Scenario(prog, prods, 3, fixed, 'Zbdd', calls=[
        ('num_trials', C(trials)), ('num_quantiles', C(q)), ('num_bins', C(bins))])
    it = sc.it
    kind = dict(zip(dev, cls))
    key = '%s/%d trials/%s' % (calc, trials, ', '.join('e%d %s' % x for x in kind.items()) or
                               'no deviates')
    where = prog.loc(sc.q.method(CORE + 'UncertaintyAnalysis', 'Analyze'))
    V = lambda st, v: [(st, 'v', v)]
    X = lambda i: T('obj', MEF + 'Expression', i)

    def idx(it, st, o):
        return it.deref(st, o).a[1]

    def reset(it, st, e, o, a, fr):
        st.emit('deviate', 'reset', idx(it, st, o))
        return V(st, VOID)

    def sample(it, st, e, o, a, fr):
        i = idx(it, st, o)
        n = sum(1 for ev in st.events() if ev[:3] == ('deviate', 'sample', i))
        st.emit('deviate', 'sample', i)
        return V(st, T('sample', C(i), C(n)))

    def accumulate(it, st, e, o, a, fr):
        if e.get('op') == '()' or e['name'] == 'operator()':
            st.emit('acc', it.deref(st, a[0]))
            return V(st, VOID)
        return None

    def extract(it, st, e, o, a, fr):
        g = it.deref(st, o)
        while g.op == 'mut':
            g = g.a[0]
        name = str(g.a[0]).split('::')[-1]
        if name == 'density':
            out = []
            for i in range(bins + 2):
                pr = T('obj', 'std::pair<double, double>', ('bin', i))
                st.mem[T('lvf', pr, 'first')] = T('edge', C(i))
                st.mem[T('lvf', pr, 'second')] = T('share', C(i))
                out.append(pr)
            return V(st, T('list', *out))
        return V(st, T('stat', name, *[it.deref(st, x) for x in a[1:]]))
    it.models[MEF + 'Expression::Reset'] = reset
    it.models[MEF + 'Expression::Sample'] = sample
    it.models[MEF + 'Expression::IsDeviate'] = lambda it, st, e, o, a, fr: V(
        st, C(idx(it, st, o) in kind))
    it.models[MEF + 'BasicEvent::expression'] = lambda it, st, e, o, a, fr: V(
        st, T('ref', T('lvo', X(int(idx(it, st, o)[1:])))))
    it.models['boost::accumulators::accumulator_set::operator()'] = accumulate
    it.models['boost::accumulators::extractor::operator()'] = extract
    base_leaf = sc.leaf

    def leaf(t):
        if t.op == 'sample':
            i, n = cval(t.a[0]), cval(t.a[1])
            k = kind.get(i, IN)
            if k in (ZERO, ONE):
                return num(int(k))
            x = ('s%d' % i, n)
            if x not in sc.atoms:
                sc.atoms[x] = True
                if k == IN:
                    sc.ps.base.units.add(x)
                sc.ps.assume(sym(x), '-' if k == LOW else '+')
                if k == HIGH:
                    sc.ps.assume(sym(x) - num(1), '+')
            return sym(x)
        return base_leaf(t)
    sc.ps.n.leaf = leaf

    o, paths = sc.analyzer(calc)
    ucls = CORE + 'UncertaintyAnalyzer<%s%s>' % (CORE, calc)
    done = 0
    for s0, _ in paths:
        for s1, _ in sc.finished(sc.q.call(s0, o, 'Analyze')):
            before = sc.get(s1.copy(), o, 'p_vars')
            mark = len(s1.events())
            u, outs = sc.q.build(s1, ucls, [ptr(o)], lambda f: not f.get('implicit'))
            for s2, _ in sc.finished(outs):
                for s3, _ in sc.finished(sc.q.call(s2, u, 'Analyze')):
                    done += 1
                    verify(ctx, sc, s3, u, key, where, calc, trials, kind, prods, leaf, q, bins,
                           mark)
                    ctx.check(sc.get(s3.copy(), o, 'p_vars') is before, 'isolated', key, where,
                              'the analyzer\'s probabilities change')
    for x in it.inlined:
        if prog.fns[x]['rel'].startswith('src/'):
            ctx.fn(prog.fns[x])
    if not done:
        sc.stuck(ctx, 'sampled', key, where)


def verify(ctx, sc, st, u, key, where, calc, trials, kind, prods, leaf, q, bins, mark):
    evs = st.events()[mark:]
    if any(e[0] == 'loop' for e in evs):
        ctx.undecided('trial', key, where, 'a loop was summarised')
        return
    tr = [(e[1], e[2]) for e in evs if e[0] == 'deviate']
    n = len(kind)
    good = len(tr) == 2 * n * trials
    for i in range(trials if good else 0):
        part = tr[2 * n * i:2 * n * (i + 1)]
        good = good and sorted(x for k, x in part[:n] if k == 'reset') == sorted(kind) and \
            sorted(x for k, x in part[n:] if k == 'sample') == sorted(kind)
    ctx.check(good, 'trial', key, where, 'the deviates are used as %s' % (tr,))
    acc = [e[1] for e in evs if e[0] == 'acc']
    ctx.check(len(acc) == trials, 'count', key, where,
              '%d samples for %d trials' % (len(acc), trials))
    for t, a in enumerate(acc):
        p = []
        for i in range(3):
            if i not in kind:
                p.append(sc.prob(i))
            elif kind[i] in ('below 0', 'above 1'):
                p.append(num(int(kind[i] == 'above 1')))
            else:
                p.append(leaf(T('sample', C(i), C(t))))
        spec = total(sc, calc, prods, p, st)
        k = '%s #%d' % (key, t)
        r = sc.norm(a)
        if any(r.same(x) for x in spec):
            ctx.ok('sampled', k, where)
        elif unresolved(a):
            ctx.undecided('sampled', k, where, 'not resolved: %s' % a)
        else:
            ctx.bad('sampled', k, where, '%s instead of %s' % (pretty(r), pretty(spec[0])))
    stat = lambda *x: sc.norm(T('stat', *x))
    mean, var = stat('mean'), stat('variance')
    N = sc.norm
    c = lambda op, *a: T('call', op, *a)
    unbiased = T('/', T('*', C(float(trials)), T('stat', 'variance')), C(float(trials - 1))) \
        if trials > 1 else C(0.0)
    sigma_t = c('std::sqrt', unbiased) if trials > 1 else C(0.0)
    half = T('*', T('*', C(1.96), sigma_t), T('/', C(1.0), C(math.sqrt(trials))))
    want = {'mean': T('stat', 'mean'), 'sigma': sigma_t,
            'error_factor': c('std::exp', T('*', C(1.96), sigma_t))}
    for name, w in want.items():
        equal(ctx, sc, '%s %s' % (name, key), where, sc.get(st, u, name), w)
    ci = sc.get(st, u, 'confidence_interval')
    if ci is None or ci.op != 'obj':
        ctx.undecided('statistics', 'interval ' + key, where, 'not known')
    else:
        equal(ctx, sc, 'interval lower ' + key, where, sc.field(st, ci, 'first'),
              T('-', T('stat', 'mean'), half))
        equal(ctx, sc, 'interval upper ' + key, where, sc.field(st, ci, 'second'),
              T('+', T('stat', 'mean'), half))
    dist = sc.get(st, u, 'distribution')
    if dist is None or dist.op != 'list':
        ctx.undecided('statistics', 'distribution ' + key, where, 'not known: %s' % dist)
    else:
        got = [(sc.field(st, d, 'first'), sc.field(st, d, 'second')) for d in dist.a]
        exp = [(T('edge', C(i)), T('share', C(i))) for i in range(1, bins + 2)]
        ctx.check(got == exp, 'statistics', 'distribution ' + key, where, 'holds %s' % (got,))
    qs = sc.get(st, u, 'quantiles')
    if qs is None or qs.op != 'list':
        ctx.undecided('statistics', 'quantiles ' + key, where, 'not known')
        return
    probs = []
    for x in qs.a:
        ok = x.op == 'stat' and x.a[0] == 'quantile' and len(x.a) == 2 and is_c(x.a[1])
        probs.append(float(cval(x.a[1])) if ok else None)
    if None in probs:
        ctx.undecided('statistics', 'quantiles ' + key, where, 'not known: %s' % qs)
        return
    ctx.check(len(probs) == q and all(abs(x - (i + 1) / q) < 1e-12 for i, x in enumerate(probs)),
              'statistics', 'quantiles ' + key, where, 'quantiles at %s' % probs)


def equal(ctx, sc, key, where, v, w):
    if v is None or unresolved(v):
        ctx.undecided('statistics', key, where, 'not resolved: %s' % v)
        return
    r, s = sc.norm(v), sc.norm(w)
    ctx.check(r.close(s), 'statistics', key, where, '%s instead of %s' % (pretty(r), pretty(s)))
