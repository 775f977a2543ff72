"""Abstract interpretation of loading models whose gates, parameters, rules, event-tree branches
or event-tree links form a given directed graph: all graphs of up to three nodes, with the
references written in every way the kind allows.  The model must be rejected with a cycle error if
and only if the graph has a cycle, and the cycle reported must be one of the graph."""
import itertools

from docs import *
from loadmodel import *

ASSUMPTIONS = ['graphs of three nodes exercise every transition of the depth-first search: a node '
               'is unvisited, on the path or done']
N = 3
NAMES = ['n0', 'n1', 'n2']


def graphs(thorough):
    """Adjacency lists; quick: each graph up to isomorphism in the given and the reverse order."""
    seen = set()
    for bits in range(1 << N * N):
        adj = tuple(tuple(j for j in range(N) if bits >> i * N + j & 1) for i in range(N))
        if not thorough:
            forms = [tuple(tuple(sorted(q.index(y) for y in adj[x])) for x in q)
                     for q in itertools.permutations(range(N))]
            if min(forms) not in (adj, tuple(tuple(sorted(N - 1 - y for y in adj[N - 1 - x]))
                                             for x in range(N))):
                continue
        if adj not in seen:
            seen.add(adj)
            yield adj


def reach(adj, roots=None):
    """Pairs of nodes joined by a path."""
    r = {(i, j) for i in range(N) for j in adj[i]}
    for k in range(N):
        r |= {(i, j) for i in range(N) for j in range(N) if (i, k) in r and (k, j) in r}
    return r


def order(adj):
    """Position of every node in a topological order."""
    r = reach(adj)
    pos = sorted(range(N), key=lambda i: sum((j, i) in r for j in range(N)))
    return {i: p for p, i in enumerate(pos)}


# ---- the ways to write a reference
def formula(refs, way, k):
    args = []
    for j in refs:
        r = {'gate': E('gate', name=NAMES[j]), 'event': E('event', name=NAMES[j]),
             'typed': E('event', name=NAMES[j], type='gate')}[
                 way if way in ('gate', 'event', 'typed') else 'gate']
        args.append(E('not', r) if way == 'not' else r)
    if not args:
        return E('basic-event', name='z0')
    if way == 'deep' and len(args) > 1:
        return E('atleast', E('basic-event', name='z0'), *args, min='2')
    return E('or', E('basic-event', name='z0'), *args)


def gates(adj, way):
    g = [gate(n, formula(adj[i], way, i)) for i, n in enumerate(NAMES)]
    if way == 'not':
        return [mef(ft('A', g[0]), ft('B', g[1], comp('C', g[2])), data(be('z0')))]
    return [mef(ft('A', *g), data(be('z0')))]


def parameters(adj, way):
    out = []
    for i, n in enumerate(NAMES):
        refs = [E('parameter', name=NAMES[j]) for j in adj[i]]
        f = E('float', value='0.1')
        if not refs:
            x = f
        elif way == 'deep':
            x = E('add', f, E('mul', E('float', value='1'), E('neg', refs[0])), *refs[1:])
        elif way == 'direct' and len(refs) == 1:
            x = refs[0]
        else:
            x = E('add', f, *refs)
        out.append(par(n, x))
    if way == 'deep':
        return [mef(ft('A', out[0]), data(*out[1:]))]
    return [mef(data(*out))]


def rules(adj, way):
    out = []
    c = lambda: E('collect-formula', E('basic-event', name='z0'))
    for i, n in enumerate(NAMES):
        refs = [E('rule', name=NAMES[j]) for j in adj[i]]
        if way == 'if':
            refs = [E('if', E('bool', value='true'), c() if k % 2 else r, r if k % 2 else c())
                    for k, r in enumerate(refs)]
        elif way == 'block':
            refs = [E('block', c(), E('if', E('bool', value='true'), E('block', c(), r)))
                    for r in refs]
        out.append(E('define-rule', *([c()] + refs), name=n))
    return [mef(*out, data(be('z0')))]


def branches(adj, way):
    pos = order(adj)
    kids = [E('define-functional-event', name='F%d' % i) for i in range(N)]
    kids.append(E('define-sequence', name='S'))
    for i, n in enumerate(NAMES):
        targets = [E('branch', name=NAMES[j]) for j in adj[i]]
        if not targets:
            t = E('sequence', name='S')
        elif len(targets) == 1 and way == 'direct':
            t = targets[0]
        else:
            t = E('fork', *[E('path', x, state='s%d' % k)
                            for k, x in enumerate([E('sequence', name='S')] + targets)],
                  functional_event='F%d' % pos[i])
        kids.append(E('define-branch', t, name=n))
    return [mef(E('define-event-tree', *kids, E('initial-state', E('sequence', name='S')),
                  name='T'))]


def links(adj, way):
    out = []
    for i, n in enumerate(NAMES):
        kids, paths = [E('define-functional-event', name='F')], []
        c = lambda: E('collect-formula', E('basic-event', name='z0'))
        for k, j in enumerate((None,) + adj[i]):
            ins = [] if j is None else [E('event-tree', name=NAMES[j])]
            if ins and way == 'if':
                ins = [E('if', E('bool', value='true'), c(), ins[0])]
            elif ins and way == 'block':
                ins = [c(), E('block', c(), ins[0])]
            elif ins and way == 'rule':
                out.append(E('define-rule', ins[0], name='r%d%d' % (i, k)))
                ins = [E('rule', name='r%d%d' % (i, k))]
            kids.append(E('define-sequence', *ins, name='s%d%d' % (i, k)))
            paths.append(E('path', E('sequence', name='s%d%d' % (i, k)), state='p%d' % k))
        start = E('fork', *paths, functional_event='F')
        if way == 'branch':
            kids.append(E('define-branch', start, name='b'))
            start = E('branch', name='b')
        out.append(E('define-event-tree', *kids, E('initial-state', start), name=n))
    return [mef(*out, data(be('z0')))]


ARITY = dict({n: (1,) for n in (
    'neg not abs acos asin atan cos sin tan cosh sinh tanh exp log log10 sqrt ceil floor').split()},
    **{n: (2,) for n in ('and or eq df lt gt leq geq add sub mul div pow mod min max mean exponential '
                         'uniform-deviate normal-deviate gamma-deviate beta-deviate').split()},
    **{'GLM': (4,), 'Weibull': (4,), 'periodic-test': (4, 5, 11), 'lognormal-deviate': (2, 3),
       'ite': (3,), 'histogram': (5,), 'switch': (5,)})


def expression(name, args):
    if name == 'histogram':
        bins = [E('bin', args[i], args[i + 1]) for i in range(1, len(args), 2)]
        return E('histogram', args[0], *bins)
    if name == 'switch':
        cases = [E('case', args[i], args[i + 1]) for i in range(0, len(args) - 1, 2)]
        return E('switch', *cases, args[-1])
    return E(name, *args)


def positions():
    """A parameter that refers to itself as each argument of each kind of expression."""
    for name, sizes in ARITY.items():
        for n in sizes:
            for i in range(n):
                ref = E('parameter', name='p')
                args = [E('float', value='0.1') for _ in range(n)]
                args[i] = ref if i % 2 else E('add', E('float', value='0.2'), ref)
                yield '%s%d.%d' % (name, n, i), [mef(data(par('p', expression(name, args))))]


KINDS = {'gates': (gates, ('gate', 'event', 'typed', 'not', 'deep')),
         'parameters': (parameters, ('add', 'direct', 'deep')),
         'rules': (rules, ('direct', 'if', 'block')),
         'branches': (branches, ('direct', 'fork')),
         'links': (links, ('direct', 'if', 'block', 'rule', 'branch'))}


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('cycles', 'a model is rejected with a cycle error iff its references form a cycle')
    ctx.rule('reported', 'the cycle in the error is a cycle of the model')
    ctx.rule('positions', 'a parameter that refers to itself as any argument of any expression is '
             'rejected with a cycle error')
    where = 'src/initializer.cc Initializer::ValidateInitialization'
    jobs = []
    for kind, (mk, ways) in KINDS.items():
        for w, way in enumerate(ways):
            for n, adj in enumerate(graphs(ctx.tier == 'thorough')):
                if ctx.tier != 'thorough' and w and n % 4 != w % 4:
                    continue        # every graph in the first way, a part of them in the others
                jobs.append(lambda a=(kind, mk, way, adj): one(ctx, L, where, *a))
    for key, docs in positions():
        jobs.append(lambda k=key, d=docs: judge(ctx, L, 'positions', k, where, d, {'CycleError'},
                                                'argument of an expression'))
    batches(ctx, L, jobs)
    ctx.floor('cycles', 300)


def reported(ctx, key, where, adj, tags):
    v = tags.get('cycle')
    while v is not None and v.op == 'mk' and len(v.a) > 1:
        v = v.a[1]
    if v is None or not is_c(v):
        ctx.undecided('reported', key, where, 'the cycle in the error: %s' % str(v)[:100])
        return
    ids = [x.split('.')[-1] for x in str(v.a[-1]).strip("'").split('->')]
    path = [NAMES.index(x) if x in NAMES else None for x in ids]
    ok = len(path) > 1 and path[0] == path[-1] and None not in path and len(
        set(path)) == len(path) - 1 and all(b in adj[a] for a, b in zip(path, path[1:]))
    ctx.check(ok, 'reported', key, where, 'the error reports %s, which is no cycle' %
              '->'.join(ids))


def one(ctx, L, where, kind, mk, way, adj):
    key = '%s:%s:%s' % (kind, way, '/'.join(''.join(map(str, a)) for a in adj))
    cyc = any(i == j for i, j in reach(adj))
    r = judge(ctx, L, 'cycles', key, where, mk(adj, way), {'CycleError'} if cyc else None, kind)
    if r and cyc:
        reported(ctx, key, where, adj, error(r[2])[1])
