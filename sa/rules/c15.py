"""Abstract interpretation of the whole risk analysis over alignments with phases.
Every construction and run of an individual analysis is recorded with the model and
settings it would see: the mission time of the model and of the settings handed to
the analysis, and the states of the house events.  They are compared with the phase
the result is reported for; after the analysis and between phases everything must be
as defined in the model.  House-event states are enumerated over all assignments."""
import itertools

from interp import C, TRUE, FALSE, is_c, cval
from riskmodel import *
import c14

ASSUMPTIONS = c14.ASSUMPTIONS + ['analyses read mission time and house events only while they '
                                 'are made or run']
SHAPES = {
    'one phase': [[(1.0, [('h1', True)])]],
    'set and default': [[(0.25, [('h1', True), ('h2', False)]), (0.75, [])]],
    'default and set': [[(0.5, []), (0.5, [('h2', True)])]],
    'each its own': [[(0.25, [('h1', True)]), (0.25, [('h2', True)]), (0.5, [('h3', False)])]],
    'set and back': [[(0.5, [('h1', True)]), (0.5, [('h1', False)])]],
    'two alignments': [[(0.25, [('h1', True)]), (0.75, [('h3', True)])],
                       [(1.0, [])], [(0.5, [('h2', False)]), (0.5, [('h2', True)])]],
    'repeated': [[(0.5, [('h1', True), ('h1', False)]), (0.5, [])]],
    'repeated twice': [[(0.5, [('h1', False), ('h2', True), ('h1', True)]), (0.5, [])],
                       [(1.0, [('h2', False), ('h2', True), ('h2', False)])]],
}
SYSTEMS = {'trees': dict(fts=[['g1', 'g2']]),
           'sequences': dict(ies={'ie1': [('s1', False), ('s2', True)]}, fts=[['g1']])}


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('conditions', 'every analysis of a phase sees the fraction of the mission time and '
             'the house-event states of the phase')
    ctx.rule('restored', 'after the analysis the mission time and the house events are as '
             'defined in the model')
    for shape, al in SHAPES.items():
        for system in SYSTEMS:
            for hs in itertools.product((False, True), repeat=3):
                for alg, apx, fl in (('bdd', 'none', (1, 1, 1)), ('zbdd', 'mcub', (1, 0, 0))):
                    one(ctx, p, shape, al, system, dict(zip(('h1', 'h2', 'h3'), hs)), alg, apx,
                        fl)
    ctx.floor('conditions', 100)
    ctx.floor('restored', 100)


def one(ctx, prog, shape, al, system, houses, alg, apx, flags, time=128.0):
    r = Risk(prog, c14.calls(alg, apx, flags), alignments=al, houses=houses, time=time,
             **SYSTEMS[system])
    key = '%s/%s/%s/%s' % (shape.replace(' ', '_'), system, alg,
                           ''.join('01'[v] for v in houses.values()))
    x = c14.Run(ctx, 'conditions', key, r)
    if not x.ok:
        return
    st = x.st
    expect = {}
    for a, ph, frac, _ in r.phases:
        state = dict(houses)
        for ins in r.data[ph, 'instructions'].a:
            i = r.obj(st, ins)
            state[cval(r.data[i, 'name'])] = cval(r.data[i, 'state'])
        expect[a, ph] = (frac * time, frac * time, tuple(state.items()))

    def describe(s):
        return 'mission time %s of the model and %s of the settings, %s' % (
            s[0], s[1], ', '.join('%s %s' % y for y in s[2]))
    bad, n, odd = [], 0, None
    for res in list(x.results) + list(x.trees):
        if res in x.results:
            i = r.it.deref(st, r.field(st, res, 'id'))
            c = c14.context(r, st, r.field(st, i, 'context'))
            parts = ['fault_tree_analysis', 'probability_analysis', 'importance_analysis',
                     'uncertainty_analysis']
        else:
            c = c14.context(r, st, r.field(st, res, 'context'))
            parts = ['event_tree_analysis']
        if c not in expect:
            odd = c
            continue
        for q in parts:
            o = x.part(res, q)
            if o is None or o not in x.made:
                continue
            todo = [('made', x.made[o][1][3])] + [
                ('run', x.ev[i][2]) for i in x.ran.get(o, ())]
            for what, s in todo:
                s = tuple(cval(y) if is_c(y) else y for y in s[:2]) + (
                    tuple((m, cval(y) if is_c(y) else y) for m, y in s[2]),)
                if o.a[0].split('<')[0].split('::')[-1] not in (
                        'FaultTreeAnalyzer', 'EventTreeAnalysis'):
                    s = (s[0], expect[c][1], s[2])      # settings come from the analysis it uses
                elif what == 'run':
                    s = (s[0], expect[c][1], s[2])      # settings are copied
                n += 1
                if s != expect[c]:
                    bad.append('%s of phase %s is %s with %s instead of %s' % (
                        q, c[1].a[1], what, describe(s), describe(expect[c])))
    if odd is not None:
        ctx.undecided('conditions', key, x.where, 'phase of a result: %s' % str(odd)[:200])
    else:
        ctx.check(not bad, 'conditions', key, x.where, '; '.join(bad[:2]) or
                  '%d analyses under their conditions' % n)
    end = r.snapshot(st)
    end = tuple(cval(y) if y is not None and is_c(y) else y for y in end[:2]) + (
        tuple((m, cval(y) if is_c(y) else y) for m, y in end[2]),)
    init = (time, time, tuple(houses.items()))
    ctx.check(end == init, 'restored', key, x.where, 'after the analysis: %s; defined: %s' % (
        describe(end), describe(init)))
