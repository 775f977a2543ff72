"""Abstract interpretation of the whole risk analysis over abstract models: fault
trees, initiating events, alignments and phases of known structure with opaque
gates.  Construction and running of the individual analyses are effects with their
arguments; the results are read through the public observers and compared with
the requested ones for every combination of algorithm, approximation and
analysis kinds.  The function has no other inputs, so the combinations are
complete; a few elements of each container stand for any number."""
import itertools

from interp import C, TRUE, FALSE, NULL, Budget, is_c, cval, strip_targs
from riskmodel import *
from settings_model import ALG, APX

ASSUMPTIONS = ['a few elements of a container stand for any number: the loops carry no state '
               'other than the results',
               'the individual analyses are decided by C30-C34']
CALC = {'none': 'Bdd', 'rare-event': 'RareEventCalculator', 'mcub': 'McubCalculator'}
CLASS = {'bdd': 'Bdd', 'zbdd': 'Zbdd', 'mocus': 'Mocus'}
MODELS = {
    'two trees, two sequences': dict(
        ies={'ie1': [('s1', False), ('s2', True)], 'ie2': None}, fts=[['g1', 'g2'], ['g3']],
        houses={'h1': False, 'h2': True}),
    'no initiating events': dict(fts=[['g1']]),
    'only event trees': dict(ies={'i1': [('s1', False)], 'i2': [('s2', True), ('s1', False)]}),
    'tree without tops': dict(fts=[[], ['g2', 'g1']]),
    'empty': {},
    'phases': dict(
        ies={'ie1': [('s1', True), ('s2', False)]}, fts=[['g1'], ['g2']],
        houses={'h1': False},
        alignments=[[(0.25, [('h1', True)]), (0.75, [])], [(1.0, [])]]),
}


def run(ctx):
    p = ctx.prog(*TUS)
    ctx.rule('targets', 'every top event and every sequence is analysed once in every phase of '
             'every alignment')
    ctx.rule('analyses', 'the results hold the requested analyses, done with the chosen '
             'algorithm and quantification, in an order that does not disturb them')
    ctx.rule('sequences', 'event trees are reported with their sequences and probabilities')
    ctx.rule('seed', 'an explicit seed is applied before any analysis')
    flags = [(a, b, c) for a, b, c in itertools.product((0, 1), repeat=3) if a or not (b or c)]
    for alg, apx in (('bdd', 'none'), ('zbdd', 'none'), ('mocus', 'none'),
                     ('bdd', 'rare-event'), ('bdd', 'mcub'), ('zbdd', 'rare-event'),
                     ('zbdd', 'mcub'), ('mocus', 'rare-event'), ('mocus', 'mcub')):
        for f in flags:
            one(ctx, p, alg, apx, f, 'two trees, two sequences')
        for m in MODELS:
            if m != 'two trees, two sequences' and (apx != 'mcub' or ctx.tier == 'thorough'):
                one(ctx, p, alg, apx, (1, 1, 1), m)
    for m in MODELS:
        one(ctx, p, 'bdd', 'none', (0, 0, 0), m)
    for v in (0, 1, 7, 2147483647):
        one(ctx, p, 'bdd', 'none', (1, 0, 1), 'no initiating events', v)
    one(ctx, p, 'zbdd', 'rare-event', (1, 1, 1), 'phases', 3)
    ctx.floor('targets', 60)
    ctx.floor('analyses', 150)
    ctx.floor('sequences', 40)


def calls(alg, apx, flags, seed=None):
    out = [('algorithm', C(ALG[alg]))]
    out += [('approximation', C(APX[apx]))]
    for n, v in zip(('probability_analysis', 'importance_analysis', 'uncertainty_analysis'),
                    flags):
        out.append((n, TRUE if v else FALSE))
    return out + ([('seed', C(seed))] if seed is not None else [])


def context(r, st, v):
    """(alignment, phase) of a context or None."""
    v = r.it.deref(st, v)
    while v.op in ('ptr', 'ref'):
        v = r.it.read(st, v.a[0])
    if v is NULL or v.op == 'mk' and 'optional' in str(v.a[0]) or v.op == 'nullopt':
        return None
    if v.op == 'obj':
        return tuple(r.obj(st, r.field(st, v, n)) for n in ('alignment', 'phase'))
    return v


def target(r, st, v):
    v = r.it.deref(st, v)
    o = r.obj(st, v)
    if o is not None and o.a[0] == MEF + 'Gate':
        return o
    if o is not None:
        return tuple(r.obj(st, r.field(st, o, n)) for n in ('first', 'second'))
    return v


def unknown(x):
    """A value the interpretation did not resolve."""
    return x is None or isinstance(x, tuple) and any(y is None for y in x) or \
        not isinstance(x, tuple) and getattr(x, 'op', 'obj') != 'obj'


class Run:
    """The single completed path of an analysis, with the trace indexed."""

    def __init__(self, ctx, rule, key, r):
        self.r, self.ok = r, False
        where = ctx.prog(*TUS)
        try:
            outs = r.run()
        except Budget:
            ctx.undecided(rule, key, 'src/risk_analysis.cc', 'state budget')
            return
        self.where = r.p.loc(r.fn)
        ctx.fn(r.fn)
        if outs and all(k == 'exit' for _, k, _ in outs):
            ctx.bad(rule, key, self.where, 'every path ends in a failed assertion: %s' %
                    str(outs[0][2])[:200])
            return
        if len(outs) != 1 or outs[0][1] != 'v':
            ctx.undecided(rule, key, self.where, '%d paths: %s' % (
                len(outs), [str(c)[:120] for o in outs[:2] for c in o[0].pc][:4]))
            return
        st = self.st = outs[0][0]
        self.ev = list(st.events())
        self.results = r.values(st, 'results')
        self.trees = r.values(st, 'event_tree_results')
        if self.results is None or self.trees is None:
            ctx.undecided(rule, key, self.where, 'the results are not a known list')
            return
        self.made = {e[1]: (i, e) for i, e in enumerate(self.ev) if e[0] == 'make'}
        self.ran = {}
        for i, e in enumerate(self.ev):
            if e[0] == 'analyze':
                self.ran.setdefault(e[1], []).append(i)
        self.ok = True

    def part(self, res, name):
        v = self.r.it.deref(self.st, self.r.field(self.st, res, name))
        if v is NULL or v.op in ('fresh', 'undef', 'fld') or v.op == 'mk' and len(v.a) < 2:
            return None
        return self.r.obj(self.st, v) or v


def one(ctx, prog, alg, apx, flags, model, seed=None):
    if alg == 'bdd' and apx == 'none' or alg != 'bdd' or apx != 'none':
        pass
    try:
        r = Risk(prog, calls(alg, apx, flags, seed), **MODELS[model])
    except IndexError:
        return
    key = '%s/%s/%s/%s%s' % (alg, apx, ''.join(n for n, f in zip('piu', flags) if f) or '-',
                             model.replace(' ', '_'), '' if seed is None else '/%d' % seed)
    got = cval(r.observed(r.st, 'approximation'))
    apx = {v: k for k, v in APX.items()}[got]
    x = Run(ctx, 'targets', key, r)
    if not x.ok:
        return
    st = x.st
    # what has to be analysed
    phases = [(al, ph) for al, ph, _, _ in r.phases] or [None]
    want = {}
    for ph in phases:
        for g in [r.it.deref(st, y) for ft in r.fts for y in r.data[ft, 'top_events'].a]:
            want[r.obj(st, g), ph] = None
        for ie, seqs in r.seqs.items():
            for s, only in seqs:
                want[(ie, s), ph] = only
    have, odd = {}, False
    for res in x.results:
        i = r.it.deref(st, r.field(st, res, 'id'))
        k = (target(r, st, r.field(st, i, 'target')), context(r, st, r.field(st, i, 'context')))
        odd = odd or unknown(k[0]) or k[1] is not None and unknown(k[1])
        have.setdefault(k, []).append(res)
    name = lambda k: '%s in %s' % (
        '/'.join(str(y.a[1]) for y in (k[0] if isinstance(k[0], tuple) else (k[0],))),
        k[1][1].a[1] if k[1] else 'the model')
    if odd:
        ctx.undecided('targets', key, x.where, 'identification of results: %s' %
                      [str(k)[:200] for k in have][:2])
        return
    bad = ['%s is analysed %d times' % (name(k), len(have.get(k, ())))
           for k in want if len(have.get(k, ())) != 1] + \
          ['%s is not a target' % name(k) for k in have if k not in want]
    ctx.check(not bad, 'targets', key, x.where, '; '.join(bad[:3]) or
              '%d results for %d targets' % (len(x.results), len(want)))
    if bad:
        return
    # event trees
    etas = {}
    for t in x.trees:
        k = (r.obj(st, r.field(st, t, 'initiating_event')),
             context(r, st, r.field(st, t, 'context')))
        etas.setdefault(k, []).append(r.obj(st, r.field(st, t, 'event_tree_analysis')))
    wt = [(ie, ph) for ph in phases for ie, s in r.seqs.items()
          if r.data[ie, 'event_tree'] is not NULL]
    bad = []
    for k in set(wt) | set(etas):
        if len(etas.get(k, ())) != wt.count(k):
            bad.append('event tree of %s appears %d times' % (k[0], len(etas.get(k, ()))))
        for e in etas.get(k, ()):
            if e not in x.made or len(x.ran.get(e, ())) != 1 or x.made[e][1][2][0] is not k[0]:
                bad.append('event tree of %s is not its analysis' % k[0].a[1])
            elif any(y[0] == 'read' and y[1] is e and i < x.ran[e][0]
                     for i, y in enumerate(x.ev)):
                bad.append('sequences are read before the event tree is analysed')
    gates = {}
    for (ie, ph), es in etas.items():
        for e in es:
            for s in st.mem.get(T('lvf', e, '#sequences'), T('list')).a:
                s = r.it.deref(st, s)
                gates[(ie, r.obj(st, r.field(st, s, 'sequence'))), ph] = \
                    (r.obj(st, r.field(st, s, 'gate')), s)
    if wt and not bad:
        for k, only in want.items():
            if not isinstance(k[0], tuple):
                continue
            if k not in gates:
                continue
            g, s = gates[k]
            v = st.mem.get(T('lvf', s, 'p_sequence'))
            pa = x.part(have[k][0], 'probability_analysis')
            if flags[0] and (v is None or v is not T('p_total', pa)):
                bad.append('probability of sequence %s is %s' % (name(k), v))
    if wt:
        ctx.check(not bad, 'sequences', key, x.where, '; '.join(bad[:3]) or
                  '%d event trees with their sequences' % len(wt))
    # analyses of every result
    need = {'fault_tree_analysis': ('FaultTreeAnalyzer', True),
            'probability_analysis': ('ProbabilityAnalyzer', flags[0]),
            'importance_analysis': ('ImportanceAnalyzer', flags[1]),
            'uncertainty_analysis': ('UncertaintyAnalyzer', flags[2])}
    for k, only in want.items():
        bad, res = [], have[k][0]
        part = {n: x.part(res, n) for n in need}
        lost = [str(v) for v in part.values() if v is not None and v.op != 'obj']
        if lost:
            ctx.undecided('analyses', key + ':' + name(k), x.where, 'value of %s' % lost[0][:200])
            continue
        for n, (cls, wanted) in need.items():
            if only and n in ('fault_tree_analysis', 'importance_analysis'):
                wanted = False
            if bool(wanted) != (part[n] is not None):
                bad.append('%s is %s' % (n, 'missing' if wanted else 'present'))
                continue
            if part[n] is None:
                continue
            full = CORE + '%s<%s%s>' % (cls, CORE, CLASS[alg] if cls[0] == 'F' else CALC[apx])
            if part[n].a[0] != full:
                bad.append('%s is a %s' % (n, part[n].a[0]))
        if not bad:
            bad = linked(x, r, part, k, gates, alg, apx)
        ctx.check(not bad, 'analyses', key + ':' + name(k), x.where, '; '.join(bad[:3]) or
                  'all requested analyses')
    # seed
    given = cval(r.observed(r.st, 'seed')) if seed is None else seed
    if seed is not None:
        first = min([i for i, e in enumerate(x.ev) if e[0] == 'analyze'] or [len(x.ev)])
        seeds = [(i, e[1]) for i, e in enumerate(x.ev) if e[0] == 'seed']
        bad = None
        if not seeds or seeds[0][0] > first:
            bad = 'no seed is set before the analyses'
        elif len(seeds) != 1 or not is_c(seeds[0][1]) or int(cval(seeds[0][1])) != given:
            bad = 'the seeds set are %s instead of %s' % (seeds, given)
        ctx.check(not bad, 'seed', key, x.where, bad or 'seeded with %s' % given)


def linked(x, r, part, k, gates, alg, apx):
    """Analyses belong to the target and to each other and ran once, in order."""
    bad = []
    fta, pa = part['fault_tree_analysis'], part['probability_analysis']
    if fta is None and pa is not None:
        fta = x.made[pa][1][2][0] if pa in x.made else None
    if isinstance(k[0], tuple) and k not in gates:
        return ['the event tree of the sequence is not reported']
    gate = gates[k][0] if isinstance(k[0], tuple) else k[0]
    chain = [(fta, [gate])]
    if pa is not None:
        chain.append((pa, [fta, r.mt]))
    for n in ('importance_analysis', 'uncertainty_analysis'):
        if part[n] is not None:
            chain.append((part[n], [pa]))
    for o, args in chain:
        if o is None:
            continue
        if o not in x.made:
            bad.append('%s is not a new analysis' % o)
            continue
        at, (_, _, vals, _) = x.made[o]
        if list(vals[:len(args)]) != args:
            bad.append('%s is made of %s instead of %s' % (
                o.a[0].split('::')[-1], [str(v) for v in vals], [str(a) for a in args]))
        runs = x.ran.get(o, [])
        if len(runs) != 1:
            bad.append('%s runs %d times' % (o.a[0], len(runs)))
            continue
        for a in args:
            if a in x.made and a is not o and x.ran.get(a, [1 << 30])[0] > at and \
                    not a.a[0].endswith('Gate'):
                bad.append('%s is made before %s has run' % (o.a[0], a.a[0]))
    ia, ua = part['importance_analysis'], part['uncertainty_analysis']
    if not bad and ia is not None and ua is not None and apx == 'none' and \
            x.ran[ia][0] > x.ran[ua][0]:
        bad.append('importance is calculated from the probabilities left by the last sample of '
                   'the uncertainty analysis')
    if not bad and fta is not None and len(x.made[fta][1][2]) > 2 and \
            x.made[fta][1][2][2] is not r.model:
        bad.append('the fault tree analysis is made without the model')
    if not bad and fta is not None and len(x.made[fta][1][2]) < 3:
        bad.append('the fault tree analysis is made without the model (its substitutions)')
    for i, e in enumerate(x.ev):
        if e[0] == 'read' and e[1] is pa and x.ran[pa][0] > i:
            bad.append('the total probability is read before the analysis')
    return bad
