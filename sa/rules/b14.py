"""Abstract interpretation of loading event trees: chains of forks over the functional events in
every order, nested directly or through named branches; links to event trees, and pairs of
collected expressions and formulas, at every place of a tree that holds instructions, direct or
wrapped in conditions, blocks and rules.  Statements of the rules of event trees tell which models
must be rejected and which accepted."""
import itertools

from docs import *
from loadmodel import *

ASSUMPTIONS = ['chains of three forks and trees with two links exercise every step of the '
               'validation']
WHERE = 'src/initializer.cc Initializer::ValidateInitialization'


# ---- order of functional events
def chain(defs, forks, ways, side, unused):
    """forks: functional events from the outermost; ways: how each nests in the one above."""
    kids = [E('define-functional-event', name='F%d' % i) for i in defs]
    kids.append(E('define-sequence', name='s'))
    t, later = E('sequence', name='s'), []
    for k in range(len(forks) - 1, -1, -1):
        paths = [E('path', E('sequence', name='s'), state='n'), E('path', t, state='y')]
        t = E('fork', *(paths[::-1] if side else paths), functional_event='F%d' % forks[k])
        for i in range(ways[k]):
            later.append(E('define-branch', t, name='b%d%d' % (k, i)))
            t = E('branch', name='b%d%d' % (k, i))
    if unused:
        later.append(E('define-branch', t, name='unused'))
        t = E('sequence', name='s')
    return [mef(E('define-event-tree', *kids, *later, E('initial-state', t), name='T'))]


def chains(thorough):
    n = 0
    for size in (1, 2, 3):
        for forks in itertools.product(range(3), repeat=size):
            for ways in itertools.product((0, 1, 2), repeat=size):
                n += 1
                if not thorough and ways.count(0) < size and n % 5:
                    continue
                defs = list(itertools.permutations(range(3)))[n % 6]
                pos = [defs.index(f) for f in forks]
                bad = any(a >= b for a, b in zip(pos, pos[1:]))
                key = '%s:%s:%s:%d%d' % (''.join(map(str, defs)), ''.join(map(str, forks)),
                                         ''.join(map(str, ways)), n % 2, n // 2 % 2)
                yield key, (defs, forks, ways, n % 2, n // 2 % 2), bad


# ---- instructions at every place
BRANCHES = ('init', 'outer', 'inner', 'other', 'branch', 'branchpath', 'unused', 'linked', 'last',
            'linkedunused')
SEQUENCES = ('s1', 's2', 's3', 'linkedseq', 'nowhere')
DOWN = {'last'}, {'linked', 'linkedseq', 'last'}
STARTS = (
    {'init', 'outer', 'inner', 'other', 'branch', 'branchpath', 's1', 's2', 's3'} | DOWN[1],
    {'branch', 'branchpath', 's3'} | DOWN[1], {'unused', 's2'}, DOWN[1], DOWN[0],
    {'linkedunused', 'linkedseq', 'last'})


def tree(put):
    """put: {place: [instructions]}; rules are added by the caller."""
    at = lambda p: list(put.get(p, ()))
    seq = lambda n, *ins: E('define-sequence', *ins, name=n)
    to = lambda n: E('sequence', name=n)
    fork = lambda f, *paths: E('fork', *[E('path', *p, state='p%d' % i)
                                         for i, p in enumerate(paths)], functional_event=f)
    fe = lambda *ns: [E('define-functional-event', name=n) for n in ns]
    link = lambda n: E('event-tree', name=n)
    T = E('define-event-tree', *fe('F0', 'F1', 'F2'), seq('s1', *at('s1')), seq('s2', *at('s2')),
          seq('s3', *at('s3'), link('L')), seq('nowhere', *at('nowhere')),
          E('define-branch', *at('branch'), fork('F2', at('branchpath') + [to('s3')], [to('s1')]),
            name='b'),
          E('define-branch', *at('unused'), to('s2'), name='u'),
          E('initial-state', *at('init'), fork(
              'F0', at('outer') + [fork('F1', at('inner') + [to('s1')],
                                        [E('branch', name='b')])],
              at('other') + [to('s2')])), name='T')
    L = E('define-event-tree', seq('t1', *at('linkedseq'), link('M')),
          E('define-branch', *at('linkedunused'), to('t1'), name='lu'),
          E('initial-state', *at('linked'), to('t1')), name='L')
    M = E('define-event-tree', seq('m1'), E('initial-state', *at('last'), to('m1')), name='M')
    return [T, L, M]


def collect(kind):
    if kind == 'e':
        return E('collect-expression', E('float', value='0.5'))
    return E('collect-formula', E('basic-event', name='z0'))


WRAPS = ('plain', 'then', 'else', 'block', 'rule', 'rules', 'deep')


def wrap(x, how, rules, neutral):
    """The instruction inside others; `neutral` makes instructions of no consequence."""
    yes = lambda: E('bool', value='true')
    if how == 'then':
        return E('if', yes(), x)
    if how == 'else':
        return E('if', yes(), neutral(), x)
    if how == 'block':
        return E('block', neutral(), x)
    if how in ('rule', 'rules'):
        n = 'r%d' % len(rules)
        rules.append(E('define-rule', neutral(), x, name=n))
        r = E('rule', name=n)
        return wrap(r, 'rule', rules, neutral) if how == 'rules' else r
    if how == 'deep':
        return E('block', neutral(), E('if', yes(), neutral(), E('block', neutral(), wrap(
            x, 'rule', rules, neutral))))
    return x


def model(put, rules):
    return [mef(*rules, *tree(put), data(be('z0'), house('h')))]


def nothing():
    return E('set-house-event', E('constant', value='true'), name='h')


def link_case(place, how):
    rules = []
    x = wrap(E('event-tree', name='M'), how, rules, nothing)
    return model({place: [x]}, rules), place in BRANCHES


def mix_case(a, b, wa, wb, swap):
    rules = []
    ks = ('f', 'e') if swap else ('e', 'f')
    put = {}
    for p, k, w in ((a, ks[0], wa), (b, ks[1], wb)):
        put.setdefault(p, []).append(wrap(collect(k), w, rules, nothing))
    return model(put, rules), any({a, b} <= s for s in STARTS)


def cases(thorough):
    for p in BRANCHES + SEQUENCES:
        for w in WRAPS:
            yield 'links', '%s:%s' % (p, w), lambda p=p, w=w: link_case(p, w)
    n = 0
    places = BRANCHES + SEQUENCES
    for i, a in enumerate(places):
        for b in places[i:]:
            n += 1
            for wa, wb in ([(x, y) for x in WRAPS for y in WRAPS] if thorough else
                           [('plain', WRAPS[n % 7]), (WRAPS[n // 3 % 7], 'plain')]):
                for swap in (0, 1):
                    yield 'homogeneous', '%s.%s:%s.%s:%d' % (a, wa, b, wb, swap), (
                        lambda v=(a, b, wa, wb, swap): mix_case(*v))


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('order', 'an event tree is rejected iff the functional events of nested forks are '
             'not in the order of their definitions')
    ctx.rule('links', 'an event tree is rejected iff a branch, not a sequence, links to a tree')
    ctx.rule('homogeneous', 'a model is rejected iff a state or a branch can reach both a '
             'collected expression and a collected formula')
    bad = {'ValidityError'}
    jobs = []
    for key, args, want in chains(ctx.tier == 'thorough'):
        jobs.append(lambda k=key, a=args, w=want: judge(
            ctx, L, 'order', k, WHERE, chain(*a), bad if w else None, 'order of forks'))
    for rule, key, mk in cases(ctx.tier == 'thorough'):
        jobs.append(lambda r=rule, k=key, m=mk: one(ctx, L, r, k, m, bad))
    batches(ctx, L, jobs)
    ctx.floor('homogeneous', 100)


def one(ctx, L, rule, key, mk, bad):
    docs, want = mk()
    judge(ctx, L, rule, key, WHERE, docs, bad if want else None, rule)
