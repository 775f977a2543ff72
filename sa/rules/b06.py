"""Abstract interpretation of loading models with up to two definitions of one name, over kinds,
places (model data, fault trees, nested and private components) and roles, and references to the
name, simple or with a path, from every place and in every context.  The element each reference is
bound to is read from the loaded model and compared with the scoping rules: first the path from
the container of the reference, then the public name (or, with dots, the full path).  A reference
that these do not resolve must be rejected as undefined, with its line and file."""
import itertools

from docs import *
from interp import T, C
from loadmodel import *

ASSUMPTIONS = ['resolution depends on the kind, role and containers of the definitions and the '
               'place of the reference only']
WHERE = 'src/initializer.cc Initializer'
PLACES = {'': 'public', 'A': 'public', 'A.C': 'public', 'A.P': 'private', 'A.P.U': 'public',
          'B': 'public'}
EVENTS = ('gate', 'basic', 'house', 'member')
CLS = {'gate': 'Gate', 'basic': 'BasicEvent', 'member': 'BasicEvent', 'house': 'HouseEvent',
       'param': 'Parameter'}
TAG = {'gate': 'gate', 'basic': 'basic-event', 'house': 'house-event'}
REFS = ('n', 'A.n', 'C.n', 'A.C.n', 'P.n', 'A.P.n', 'U.n', 'P.U.n', 'A.P.U.n', 'B.n', 'A.B.n')


def define(kind, role, k):
    a = {'role': role} if role else {}
    if kind == 'member':
        return ccf('grp%d' % k, ['n', 'm%d' % k])
    return {'gate': gate, 'basic': be, 'house': house, 'param': par}[kind]('n', **a)


def at_place(kind, place, role):
    """The schema lets the kind be defined there."""
    return (kind != 'gate' or place) and (kind != 'member' or place and not role)


def public(d):
    return (d[2] or PLACES[d[1]]) == 'public'


def worlds(thorough):
    """Sets of definitions that are no duplicates."""
    defs = [('', None)] + [(p, r) for p in PLACES if p for r in (None, 'private', 'public')
                           if r != PLACES[p] or thorough]
    n = 0
    yield ()
    for p, r in defs:
        for k in EVENTS + ('param',):
            if not at_place(k, p, r):
                continue
            yield ((k, p, r),)
    for (p, r), (q, s) in itertools.combinations(defs, 2):
        if p == q:
            continue
        for k, l in [(x, y) for x in EVENTS for y in EVENTS] + [('param', 'param')]:
            n += 1
            if not thorough and n % 23 and k != 'param':
                continue
            if not (at_place(k, p, r) and at_place(l, q, s)):
                continue
            a, b = (k, p, r), (l, q, s)
            if not (public(a) and public(b)):
                yield a, b


def resolve(world, ref, base, kinds):
    full = lambda d: (d[1] + '.' if d[1] else '') + 'n'
    known = [d for d in world if d[0] in kinds]
    for d in known:
        if base and d[1] and full(d) == base + '.' + ref:
            return d
    for d in known:
        if (d[1] and full(d) == ref) if '.' in ref else public(d):
            return d
    return None


FORMS = {'gate': ('gate',), 'basic-event': ('basic', 'member'), 'house-event': ('house',),
         'event': EVENTS, 'event:gate': ('gate',), 'event:basic-event': ('basic', 'member'),
         'event:house-event': ('house',)}


def reference(form, ref):
    f = form.split(':')
    return E(f[0], name=ref, **({'type': f[1]} if len(f) > 1 else {}))


def document(world, requests):
    """requests: [(id, place, node of a definition or instruction)]."""
    at = lambda p: [define(d[0], d[2], i) for i, d in enumerate(world) if d[1] == p] + [
        x for q, x in requests if q == p]
    a = at('A') + [comp('C', *at('A.C')), comp('P', *at('A.P'), comp('U', *at('A.P.U'), role='public'),
                                               role='private')]
    kids = [ft('A', *a)]
    if at('B'):
        kids.append(ft('B', *at('B')))
    top = [x for q, x in requests if q == 'top']
    return mef(*kids, *top, data(be('z0'), *at('')))


def request(form, ref, base, n):
    """(place, definition, reference, how to read the bound element) of a reference."""
    if form == 'param':
        r = E('parameter', name=ref)
        if n % 3 == 0 or not base:
            return base, par('q%d' % n, E('add', E('float', value='0.1'), r) if n % 2 else r), r
        if n % 3 == 1:
            return base, E('define-basic-event', r, name='q%d' % n), r
        return base, E('define-CCF-group', E('members', E('basic-event', name='x%d' % n),
                                             E('basic-event', name='y%d' % n)),
                       E('distribution', r if n % 2 else E('float', value='0.2')),
                       E('factor', E('float', value='0.2') if n % 2 else r),
                       name='q%d' % n, model='beta-factor'), r
    r = reference(form, ref)
    f = r if n % 2 else E('or', E('basic-event', name='z0'), E('not', r) if n % 4 else r)
    if not base:
        return 'top', E('define-event-tree', E('define-sequence', E('collect-formula', f),
                                               name='q%d' % n),
                        E('initial-state', E('sequence', name='q%d' % n)), name='T%d' % n), r
    return base, gate('q%d' % n, f), r


def find(L, st, model, form, base, n):
    """The element a reference is bound to: (class, path)."""
    name = 'q%d' % n
    if form == 'param':
        if n % 3 == 0 or not base:
            x = operand(L, st, owner(L, st, model, base, 'parameters', name), n % 2)
        elif n % 3 == 1:
            x = L.obj(st, L.get(st, owner(L, st, model, base, 'basic_events', name),
                                'expression'))
        else:                   # the group does not tell: the reference resolves
            raise Skip()
    else:
        if not base:
            s = L.table(st, model, 'sequences')[name]
            i = [x for x in L.items(st, L.get(st, s, 'instructions'))][0]
            fo = L.obj(st, L.get(st, i, 'formula'))
        else:
            fo = L.obj(st, L.get(st, owner(L, st, model, base, 'gates', name), 'formula'))
        xs = [L.event(st, L.it.read(st, T('lvf', a, 'event')))
              for a in L.items(st, L.get(st, fo, 'args'))]
        xs = [x for x in xs if x.op != 'obj' or L.const(st, x, 'name') != 'z0']
        if len(xs) != 1:
            raise Unknown('arguments of the gate')
        x = xs[0]
    if x is None or x.op != 'obj':
        raise Unknown('the element: %s' % x)
    return x.a[0].split('::')[-1], L.const(st, x, 'name'), L.const(st, x, 'base_path')


class Skip(Exception):
    pass


def operand(L, st, p, inner):
    args = L.items(st, L.get(st, p, 'args'))
    if not inner:
        return args[0]
    return [x for x in L.items(st, L.get(st, args[0], 'args')) if 'Parameter' in x.a[0]][0]


def owner(L, st, model, base, table, name):
    """A definition by its container."""
    for x in L.items(st, L.get(st, model, table)):
        if L.const(st, x, 'name') == name and L.const(st, x, 'base_path') == base:
            return x
    raise Unknown('no %s in %s' % (name, table))


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('bound', 'a reference is bound to the element of the scoping rules')
    ctx.rule('undefined', 'a reference that nothing resolves is rejected as undefined')
    ctx.rule('place', 'the rejection names the line and the file of the reference')
    jobs = []
    n = 0
    for world in worlds(ctx.tier == 'thorough'):
        good = []
        forms = [('param', ('param',))] if any(d[0] == 'param' for d in world) else \
            list(FORMS.items())
        for (form, kinds), ref, base in itertools.product(forms, REFS, PLACES):
            d = resolve(world, ref, base, kinds)
            n += 1
            if d is not None:
                good.append((form, ref, base, d))
            elif ctx.tier == 'thorough' or n % (23 if form == 'param' else 97) == 0:
                jobs.append(lambda a=(world, form, ref, base, n): undefined(ctx, L, *a))
        if good:
            jobs.append(lambda w=world, g=good: bound(ctx, L, w, g))
    jobs += [lambda a=a: named(ctx, L, *a) for a in others()]
    batches(ctx, L, jobs)
    ctx.floor('bound', 300)
    ctx.floor('undefined', 100)


def label(world):
    return '+'.join('%s@%s%s' % (k, p or 'data', ':' + r if r else '') for k, p, r in world) or \
        'none'


def bound(ctx, L, world, good):
    reqs = [request(f, r, b, i) for i, (f, r, b, d) in enumerate(good)]
    key = label(world)
    out = judge(ctx, L, 'bound', key, WHERE, [document(world, [x[:2] for x in reqs])], None,
                'references that resolve')
    if out is None:
        for i, (form, ref, base, d) in enumerate(good):      # tell which one it is
            place, node, _r = request(form, ref, base, i)
            judge(ctx, L, 'bound', '%s:%s:%s:%s' % (key, form, ref, base or 'data'), WHERE,
                  [document(world, [(place, node)])], None, 'a reference that resolves')
        return
    st = out[0]
    try:
        model = L.model(st)
    except Unknown as e:
        ctx.undecided('bound', key, WHERE, str(e)[:200])
        return
    for i, (form, ref, base, d) in enumerate(good):
        k = '%s:%s:%s:%s' % (key, form, ref, base or 'data')
        try:
            got = find(L, st, model, form, base, i)
        except Skip:
            continue
        except (Unknown, KeyError, IndexError) as e:
            ctx.undecided('bound', k, WHERE, str(e)[:200])
            continue
        want = CLS[d[0]], 'n', d[1]
        ctx.check(got == want, 'bound', k, WHERE, 'bound to %s %s of %s instead of %s of %s' % (
            got[0], got[1], got[2] or 'the model', want[0], want[2] or 'the model'))


def undefined(ctx, L, world, form, ref, base, n):
    place, node, r = request(form, ref, base, n)
    rejected(ctx, L, '%s:%s:%s:%s' % (label(world), form, ref, base or 'data'),
             [document(world, [(place, node)])], [r])


def rejected(ctx, L, key, docs, nodes):
    out = judge(ctx, L, 'undefined', key, WHERE, docs, {'UndefinedElement'}, 'undefined reference')
    if out is None:
        return
    line, name = blamed(error(out[2])[1])
    # The reference or what encloses it within the definition.
    around = {T('line', x.term) for d in docs for x in nodes_of(d) if x is not d and any(
        within(x, r) for r in nodes)}
    ctx.check(line in around, 'place', key + ':line', WHERE, 'the rejection names %s' % (
        'no line' if line is None else 'another line'))
    files = {T('file', x.term) for d in docs for r in nodes if within(d, r) for x in nodes_of(d)}
    ctx.check(name in files, 'place', key + ':file', WHERE,
              'the rejection names %s' % ('no file' if name is None else 'another file'))


def others():
    """References to the elements of event trees and substitutions: (key, docs, node or None)."""
    z = lambda: E('basic-event', name='z0')
    cf = lambda: E('collect-formula', z())
    fe = lambda n: E('define-functional-event', name=n)

    def tree(*ins, name='T', target=None, more=()):
        return E('define-event-tree', *more, E('define-sequence', *ins, name=name + '_s'),
                 E('initial-state', target or E('sequence', name=name + '_s')), name=name)

    def sub(h=None, s=None, t=None):
        return E('define-substitution', E('hypothesis', h or E('and', z(), E('basic-event', name='y'))),
                 *([E('source', s)] if s else []), E('target', t or E('constant', value='false')),
                 name='S')

    def rule(*ins):
        return E('define-rule', *ins, name='R')
    fork = lambda n: E('fork', E('path', E('sequence', name='T_s'), state='a'), functional_event=n)
    kinds = {        # kind of reference: reference by name -> element that holds it, good name
        'rule': (lambda r: tree(r), 'rule', 'R'),
        'rule-in-rule': (lambda r: E('define-rule', r, name='Q'), 'rule', 'R'),
        'rule-in-if': (lambda r: tree(E('if', E('bool', value='true'), cf(), r)), 'rule', 'R'),
        'rule-in-block': (lambda r: tree(E('block', cf(), r)), 'rule', 'R'),
        'event-tree': (lambda r: tree(r), 'event-tree', 'L'),
        'event-tree-in-rule': (lambda r: E('define-rule', r, name='Q'), 'event-tree', 'L'),
        'sequence': (lambda r: tree(target=r), 'sequence', 'L_s'),
        'branch': (lambda r: tree(target=r, more=(E('define-branch', E('sequence', name='T_s'),
                                                   name='b'),)), 'branch', 'b'),
        'branch-in-path': (lambda r: tree(target=E('fork', E('path', r, state='a'),
                                                   functional_event='F'),
                                          more=(fe('F'), E('define-branch', E(
                                              'sequence', name='T_s'), name='b'))), 'branch', 'b'),
        'collect-formula': (lambda r: tree(E('collect-formula', r)), 'basic-event', 'z0'),
        'collect-expression': (lambda r: tree(E('collect-expression', r)), 'parameter', 'k'),
        'condition': (lambda r: tree(E('if', E('gt', r, E('float', value='1')), cf())),
                      'parameter', 'k'),
        'path-instruction': (lambda r: tree(target=E('fork', E('path', E('collect-formula', r), E(
            'sequence', name='T_s'), state='a'), functional_event='F'), more=(fe('F'),)),
            'basic-event', 'z0'),
        'hypothesis': (lambda r: sub(h=E('and', r, E('basic-event', name='y'))), 'basic-event',
                       'z0'),
        'source': (lambda r: sub(s=r, t=E('basic-event', name='x')), 'basic-event', 'w'),
        'target': (lambda r: sub(t=r), 'basic-event', 'x'),
    }
    for key, (mk, tag, good) in kinds.items():
        for name in (good, 'missing'):
            r = E(tag, name=name)
            yield key, r, mk(r), name == good
    for name in ('F', 'missing', 'G'):
        f = fork(name)
        yield 'functional-event:' + name, f, tree(target=f, more=(fe('F'),)), name == 'F'
    for name in ('L', 'missing'):
        i = E('define-initiating-event', name='I', event_tree=name)
        yield 'initiating-event:' + name, i, i, name == 'L'
    for name in ('h', 'missing', 'z0'):
        i = E('set-house-event', E('constant', value='true'), name=name)
        yield 'set-house-event:' + name, i, tree(i), name == 'h'


def named(ctx, L, key, node, holder, good):
    first = [mef(holder), mef(
        E('define-rule', E('collect-formula', E('basic-event', name='z0')), name='R'),
        E('define-event-tree', E('define-functional-event', name='G'),
          E('define-sequence', name='L_s'), E('initial-state', E('sequence', name='L_s')), name='L'),
        data(be('z0'), be('y'), be('x'), be('w'), house('h'), par('k')))]
    key = 'other:%s:%s' % (key, 'good' if good else 'bad')
    if good:
        judge(ctx, L, 'bound', key, WHERE, first, None, 'references that resolve', [
            ('approximation', C(1))])
    else:
        rejected(ctx, L, key, first, [node])



