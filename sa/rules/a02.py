"""Fixpoint over the abstract settings states reachable from the default by any
sequence of mutators (flags and enumerations exactly, the time step as zero or
positive), interpreting every mutator from every reachable state.  Each
transition must be the documented one, every reachable state must satisfy the
interdependency invariants, a rejected call must change nothing, and no call may
end in program termination (an exception leaving a noexcept function)."""
from interp import C, IV, TRUE, FALSE, Budget
from settings_model import *
import a01

ASSUMPTIONS = a01.ASSUMPTIONS
POS = IV(0, True, INF, True)
CALLS = [('algorithm', C(i)) for i in range(3)] + \
    [('approximation', C(i)) for i in range(3)] + \
    [('time_step', C(0.0)), ('time_step', POS)] + \
    [(n, v) for n in ('prime_implicants', 'safety_integrity_levels',
                      'probability_analysis', 'importance_analysis',
                      'uncertainty_analysis', 'ccf_analysis')
     for v in (FALSE, TRUE)]
INVARIANTS = [
    ('prime implicants only with BDD', lambda v: not truthy(v['prime_implicants'])
     or same(v['algorithm'], C(ALG['bdd']))),
    ('prime implicants only without approximation',
     lambda v: not truthy(v['prime_implicants'])
     or same(v['approximation'], C(APX['none']))),
    ('SIL only with a positive time step',
     lambda v: not truthy(v['safety_integrity_levels']) or truthy(v['time_step'])),
    ('SIL implies probability analysis',
     lambda v: not truthy(v['safety_integrity_levels']) or truthy(v['probability_analysis'])),
    ('importance implies probability analysis',
     lambda v: not truthy(v['importance_analysis']) or truthy(v['probability_analysis'])),
    ('uncertainty implies probability analysis',
     lambda v: not truthy(v['uncertainty_analysis']) or truthy(v['probability_analysis'])),
]
REL = ['algorithm', 'approximation', 'prime_implicants', 'time_step',
       'probability_analysis', 'safety_integrity_levels', 'importance_analysis',
       'uncertainty_analysis', 'ccf_analysis']


def run(ctx):
    p = ctx.prog('settings.cc')
    m = Model(p)
    ctx.rule('transition', 'every mutator has exactly its documented effect')
    ctx.rule('invariant', 'every reachable configuration is coherent')
    setters = {n: m.setter(n) for n, _ in CALLS}
    for f in setters.values():
        ctx.fn(f)
    st0 = m.initial()
    seen, todo = {}, [(st0, ())]
    while todo:
        st, path = todo.pop(0)
        view = m.view(st)
        key = tuple(view[n] for n in REL)
        if key in seen:
            continue
        seen[key] = path
        if None in key:
            ctx.undecided('invariant', 'state%d' % len(seen), '', 'getter not decided')
            continue
        for name, inv in INVARIANTS:
            ctx.check(bool(inv(view)), 'invariant',
                      '%s@%s' % (name.replace(' ', '_'), '>'.join(path) or 'default'),
                      p.loc(setters['algorithm']),
                      'broken after %s' % ' -> '.join(path))
        if len(seen) > 3000:
            ctx.undecided('invariant', 'size', '', 'too many states')
            break
        for name, val in CALLS:
            f = setters[name]
            exp, ev = oracle(view, name, val)
            okey = '%s(%s)@%s' % (name, val, '>'.join(path) or 'default')
            try:
                outs = m.apply(st, f, val)
            except Budget:
                ctx.undecided('transition', okey, p.loc(f), 'state budget')
                continue
            a01.compare(ctx, m, 'transition', okey, p.loc(f), outs, exp, ev)
            for s, k, v in outs:
                if k == 'v':
                    s.trace, s.pc = None, {}
                    todo.append((s, path + ('%s(%s)' % (name, val),)))
    ctx.notes['states'] = len(seen)
    ctx.floor('transition', 2000)
