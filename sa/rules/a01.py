"""Abstract interpretation of every settings mutator over a finite partition of
its argument type (boundary points of the documented domain, the open intervals
between them, infinities and NaN) from every abstract settings state that
matters to it.  A class of values inside the domain must be stored unchanged and
leave every other observer unchanged; a class outside must end in the settings
error on every path and leave every observer unchanged.  The partition is exact
because the setters only compare their argument with those boundaries."""
from interp import C, IV, TRUE, FALSE, Budget
from settings_model import *

DOMAINS = {
    # setter: (classes, predicate on a class name)
    'limit_order': (int_classes([0, 1]), lambda n: not n.startswith('[-') and n != '-1'),
    'num_trials': (int_classes([0, 1, 2]), lambda n: not n.startswith('[-') and n != '0'),
    'num_quantiles': (int_classes([0, 1, 2]), lambda n: not n.startswith('[-') and n != '0'),
    'num_bins': (int_classes([0, 1, 2]), lambda n: not n.startswith('[-') and n != '0'),
    'seed': (int_classes([0, 1]), lambda n: not n.startswith('[-')),
    'cut_off': (dbl_classes([0, 1]), lambda n: n in ('0', '(0,1)', '1')),
    'mission_time': (dbl_classes([0, 1]), lambda n: n in ('0', '(0,1)', '1', '(1,inf)')),
    'time_step': (dbl_classes([0, 1]), lambda n: n in ('0', '(0,1)', '1', '(1,inf)')),
}
STRINGS = {'algorithm': ALG, 'approximation': APX}
BAD_STRINGS = ['', 'bd', 'bddd', 'BDD', 'None', 'rare_event', 'unknown', 'zbd', ' bdd', 'mocus ']
ASSUMPTIONS = ['clang 18 name resolution', 'IEEE-754 comparison semantics of the '
               'abstract domain']


def mismatch(m, outcome, expect, exp_view):
    s, k, v = outcome
    if k == 'exit':
        return 'the call terminates the program: %s' % v
    if expect == 'ok' and k != 'v':
        return 'rejected with %s although it is allowed' % exc_type(v)
    if expect == 'error':
        if k != 'throw':
            return 'accepted although it is not allowed'
        if not m.p.is_a(exc_type(v), ERR):
            return 'wrong error %s' % exc_type(v)
    got = m.view(s)
    diff = [n for n in OBS if not same(got[n], exp_view[n])]
    if diff:
        return 'after the call %s' % ', '.join(
            '%s is %s instead of %s' % (n, got[n], exp_view[n]) for n in diff)
    return None


def compare(ctx, m, rule, key, where, outs, expect, exp_view):
    """Outcomes of one abstract call against the documented outcome.

    A mismatch on a path the domain could not decide (an atom it does not
    know) is reported as undecided unless every path mismatches.
    """
    res = [(o, mismatch(m, o, expect, exp_view)) for o in outs]
    wrong = [r for r in res if r[1]]
    if not wrong:
        ctx.ok(rule, key, where, 'abstract outcome matches')
    elif len(wrong) == len(res) or any(not r[0][0].pc for r in wrong):
        ctx.bad(rule, key, where, wrong[0][1])
    else:
        ctx.undecided(rule, key, where, wrong[0][1])
    return not wrong


def states(m):
    """Abstract states that differ in what numeric setters may consult."""
    st0 = m.initial()
    out = [('default', st0)]
    s = st0
    for name, val in (('time_step', IV(0, True, INF, True)),
                      ('safety_integrity_levels', TRUE)):
        r = [x for x in m.apply(s, m.setter(name), val) if x[1] == 'v']
        if not r:
            return out
        s = r[0][0]
        out.append(('%s set' % name, s))
    r = [x for x in m.apply(st0, m.setter('prime_implicants'), TRUE) if x[1] == 'v']
    if r:
        out.append(('prime_implicants set', r[0][0]))
    r = [x for x in m.apply(st0, m.setter('algorithm'), C(1)) if x[1] == 'v']
    if r:
        out.append(('zbdd set', r[0][0]))
    return out


def run(ctx):
    p = ctx.prog('settings.cc')
    m = Model(p)
    ctx.rule('domain', 'a value is stored iff it lies in the documented domain; '
             'otherwise SettingsError and nothing changes')
    ctx.rule('names', 'exactly the documented names are recognised, each with its meaning')
    ctx.rule('defaults', 'a default-constructed configuration is inside every domain')
    sts = states(m)
    for name, (classes, allowed) in sorted(DOMAINS.items()):
        f = m.setter(name)
        ctx.fn(f)
        for label, st in sts:
            view = m.view(st)
            for cname, val in classes:
                if allowed(cname):
                    exp, ev = oracle(view, name, val)
                else:
                    exp, ev = 'error', view
                key = '%s(%s)@%s' % (name, cname, label.replace(' ', '_'))
                try:
                    outs = m.apply(st, f, val)
                except Budget:
                    ctx.undecided('domain', key, p.loc(f), 'state budget')
                    continue
                compare(ctx, m, 'domain', key, p.loc(f), outs, exp, ev)
    for name, table in STRINGS.items():
        f = m.setter(name, 'string')
        ctx.fn(f)
        for label, st in sts:
            view = m.view(st)
            for word in list(table) + BAD_STRINGS:
                if word in table:
                    exp, ev = oracle(view, name, C(table[word]))
                else:
                    exp, ev = 'error', view
                key = '%s("%s")@%s' % (name, word.replace(' ', '_'), label.replace(' ', '_'))
                try:
                    outs = m.apply(st, f, C(word))
                except Budget:
                    ctx.undecided('names', key, p.loc(f), 'state budget')
                    continue
                compare(ctx, m, 'names', key, p.loc(f), outs, exp, ev)
    v = m.view(m.initial())
    exp = {'algorithm': C(0), 'approximation': C(0), 'prime_implicants': FALSE,
           'limit_order': C(20), 'cut_off': C(1e-8), 'num_trials': C(1000),
           'num_quantiles': C(20), 'num_bins': C(20), 'seed': C(0),
           'mission_time': C(8760.0), 'time_step': C(0.0),
           'probability_analysis': FALSE, 'safety_integrity_levels': FALSE,
           'importance_analysis': FALSE, 'uncertainty_analysis': FALSE,
           'ccf_analysis': FALSE}
    for n in OBS:
        g = m.getter(n)
        ctx.fn(g)
        ctx.check(same(v[n], exp[n]), 'defaults', 'default_%s' % n, p.loc(g),
                  'default is %s, documented %s' % (v[n], exp[n]))
    ctx.floor('domain', 150)
    ctx.floor('names', 40)
