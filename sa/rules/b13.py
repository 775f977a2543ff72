"""Abstract interpretation of loading models with one invalid construct, for every reason a
definition is rejected and every place the format lets the construct be, in the first or the last of two files.
The error must carry the name of the file and a line within the offending definition; an error
found in the loaded model (probabilities, CCF factors, cycles, event trees, conflicts of
substitutions) must carry the element or its container."""
from docs import *
from interp import T, C
from loadmodel import *

ASSUMPTIONS = ['what an error carries depends on the reason and the place of the construct only']
WHERE = 'src/initializer.cc Initializer'
PROB = [('probability_analysis', C(True))]
RARE = [('approximation', C(1))]
INVALID = {'ValidityError', 'DomainError', 'DuplicateElementError', 'UndefinedElement'}
z = lambda n='z0', tag='basic-event': E(tag, name=n)
fl = lambda v: E('float', value=v)
c = lambda v: E('constant', value=v)


def base():
    return data(be('z0'), be('z1', '0.2'), be('z2'), be('z3'), house('h0'), par('k0', unit='hours'))


def formulas():
    """Invalid formulas."""
    return {
        'one-argument': lambda: E('and', z()), 'repeated': lambda: E('or', z(), z()),
        'repeated-complement': lambda: E('or', z(), E('not', z())),
        'repeated-constant': lambda: E('or', c('true'), z(), c('true')),
        'repeated-house': lambda: E('and', z('h0', 'house-event'), z('h0', 'event')),
        'vote-low': lambda: E('atleast', z(), z('z1'), z('z2'), min='1'),
        'vote-high': lambda: E('atleast', z(), z('z1'), min='2'),
        'cardinality-order': lambda: E('cardinality', z(), z('z1'), min='2', max='1'),
        'cardinality-high': lambda: E('cardinality', z(), z('z1'), min='1', max='3'),
    }


def expressions():
    """Invalid expressions."""
    bad = {
        'one-argument': lambda: E('add', fl('1')), 'division': lambda: E('div', fl('1'), fl('0')),
        'exponential-time': lambda: E('exponential', fl('0.1'), fl('-1')),
        'exponential-rate': lambda: E('exponential', fl('-0.1'), fl('1')),
        'uniform': lambda: E('uniform-deviate', fl('2'), fl('1')),
        'normal': lambda: E('normal-deviate', fl('2'), fl('0')),
        'lognormal-level': lambda: E('lognormal-deviate', fl('1'), fl('2'), fl('1.5')),
        'gamma': lambda: E('gamma-deviate', fl('0'), fl('2')),
        'beta': lambda: E('beta-deviate', fl('1'), fl('0')),
        'histogram': lambda: E('histogram', fl('0'), E('bin', fl('1'), fl('-1'))),
        'histogram-order': lambda: E('histogram', fl('0'), E('bin', fl('1'), fl('1')),
                                     E('bin', fl('0.5'), fl('1'))),
        'acos': lambda: E('acos', fl('2')), 'log': lambda: E('log', fl('0')),
        'sqrt': lambda: E('sqrt', fl('-1')), 'mod': lambda: E('mod', fl('1'), fl('0')),
        'pow': lambda: E('pow', fl('0'), fl('-1')),
        'unit': lambda: E('parameter', name='k0', unit='years'),
        'unit-mission': lambda: E('system-mission-time', unit='years'),
        'undefined': lambda: E('parameter', name='missing'),
    }
    for key, f in bad.items():
        yield key, f
        yield 'nested-' + key, lambda f=f: E('mul', fl('0.5'), E('abs', f()))


def cases():
    """(key, calls, definition of the first file or None, offending definition)."""
    for k, f in formulas().items():
        yield 'formula:gate:' + k, RARE, ft('A', gate('ok')), lambda f=f: ft('B', gate('g', f()))
        yield 'formula:private:' + k, RARE, None, lambda f=f: ft('B', comp(
            'C', gate('g', f()), role='private'))
        yield 'formula:collect:' + k, RARE, None, lambda f=f: et('T', E(
            'define-sequence', E('collect-formula', f()), name='s'), start=(
                E('sequence', name='s'),))
        yield 'formula:rule:' + k, RARE, None, lambda f=f: E(
            'define-rule', E('if', E('bool', value='true'), E('block', E(
                'collect-formula', f()))), name='R')
        yield 'formula:hypothesis:' + k, RARE, None, lambda f=f: E(
            'define-substitution', E('hypothesis', f()), E('target', c('false')), name='S')
    for k, f in expressions():
        yield 'expression:parameter:' + k, [], None, lambda f=f: data(par('p', f()))
        yield 'expression:event:' + k, [], None, lambda f=f: ft('B', E(
            'define-basic-event', f(), name='e'))
        yield 'expression:distribution:' + k, [], None, lambda f=f: E(
            'define-CCF-group', E('members', z('m1'), z('m2')), E('distribution', f()),
            E('factor', fl('0.2'), level='2'), name='G', model='beta-factor')
        yield 'expression:factor:' + k, [], None, lambda f=f: ft('B', E(
            'define-CCF-group', E('members', z('m1'), z('m2')), E('distribution', fl('0.1')),
            E('factors', E('factor', f(), level='2')), name='G', model='beta-factor'))
        yield 'expression:collect:' + k, [], None, lambda f=f: et('T', E(
            'define-sequence', E('block', E('collect-expression', f())), name='s'), start=(
                E('sequence', name='s'),))
        yield 'expression:if:' + k, [], None, lambda f=f: E('define-rule', E(
            'if', E('gt', f(), fl('0')), E('collect-expression', fl('0.1'))), name='R')

    def group(members=('m1', 'm2'), factors=(('0.2', '2'),), model='beta-factor'):
        return E('define-CCF-group', E('members', *[z(m) for m in members]),
                 E('distribution', fl('0.1')), E('factors', *[
                     E('factor', fl(v), **({'level': l} if l else {})) for v, l in factors]),
                 name='G', model=model)
    groups = {
        'single': lambda: group(('m1',)), 'member-twice': lambda: group(('m1', 'm2', 'm1')),
        'level-high': lambda: group(factors=(('0.2', '3'),)),
        'level-low': lambda: group(('m1', 'm2', 'm3'), (('0.2', '1'), ('0.1', '2')), 'MGL'),
        'level-twice': lambda: group(('m1', 'm2', 'm3'), (('0.2', '2'), ('0.1', '2')), 'MGL'),
        'member-defined': lambda: group(('z0', 'm2')),
    }
    for k, f in groups.items():
        for where in ('data', 'tree', 'component', 'private'):
            if (k == 'member-defined') and where != 'data':
                continue
            yield 'group:%s:%s' % (where, k), [], None, lambda f=f, w=where: {
                'data': lambda x: x, 'tree': lambda x: ft('B', x),
                'component': lambda x: ft('B', comp('C', x)),
                'private': lambda x: ft('B', comp('C', x, role='private'))}[w](f())
    no = lambda **k: E('define-basic-event', name='e', **k)
    for k, f in {'data': lambda: data(no()), 'tree': lambda: ft('B', no()),
                 'private': lambda: ft('B', comp('C', no(role='private')))}.items():
        yield 'no-expression:' + k, PROB, None, f
    for k, f in {'basic': lambda: be('e', role='private'),
                 'house': lambda: house('e', role='private'),
                 'parameter': lambda: par('e', role='private')}.items():
        yield 'private-data:' + k, [], None, lambda f=f: data(f())
    twice = lambda: E('attributes', E('attribute', name='a', value='1'),
                      E('attribute', name='b', value='1'), E('attribute', name='a', value='2'))

    def attr(n):
        n.children[:0] = [twice()]
        return n
    phase = lambda f='1', **k: E('define-phase', name=k.get('name', 'p'), time_fraction=f)
    at = {
        'gate': lambda: ft('B', attr(gate('g'))), 'basic': lambda: ft('B', attr(be('e'))),
        'house': lambda: ft('B', comp('C', attr(house('e')))), 'parameter': lambda: data(
            attr(par('p'))), 'fault-tree': lambda: attr(ft('B', gate('g'))),
        'component': lambda: ft('B', attr(comp('C', gate('g')))), 'group': lambda: attr(group()),
        'event-tree': lambda: attr(et('T')), 'functional-event': lambda: et(
            'T', attr(E('define-functional-event', name='F'))),
        'branch': lambda: et('T', E('define-sequence', name='s'), attr(E(
            'define-branch', E('sequence', name='s'), name='b')), start=(E('sequence', name='s'),)),
        'sequence': lambda: et('T', attr(E('define-sequence', name='s')), start=(
            E('sequence', name='s'),)),
        'initiating': lambda: attr(E('define-initiating-event', name='I')),
        'rule': lambda: attr(E('define-rule', E('collect-formula', z()), name='R')),
        'alignment': lambda: attr(E('define-alignment', phase(), name='L')),
        'phase': lambda: E('define-alignment', attr(phase()), name='L'),
        'substitution': lambda: attr(E('define-substitution', E('hypothesis', E(
            'and', z(), z('z1'))), E('target', c('false')), name='S')),
    }
    for k, f in at.items():
        yield 'attribute:' + k, [], None, f
    al = {
        'fraction-zero': lambda: [phase('0'), phase('1', name='q')],
        'fraction-high': lambda: [phase('1.5')], 'sum': lambda: [phase('0.25'), phase(
            '0.5', name='q')], 'fraction-negative': lambda: [phase('-0.5')],
        'phase-twice': lambda: [phase('0.5'), phase('0.5')],
        'house': lambda: [E('define-phase', E('set-house-event', c('true'), name='missing'),
                            name='p', time_fraction='1')],
    }
    for k, f in al.items():
        yield 'alignment:' + k, [], None, lambda f=f: E('define-alignment', *f(), name='L')
    path = lambda s: E('path', E('sequence', name='s'), state=s)
    yield 'fork:state', [], None, lambda: et(
        'T', E('define-functional-event', name='F'), E('define-sequence', name='s'),
        start=(E('fork', path('a'), path('b'), path('a'), functional_event='F'),))
    yield 'fork:state-branch', [], None, lambda: et(
        'T', E('define-functional-event', name='F'), E('define-sequence', name='s'), E(
            'define-branch', E('fork', path('a'), path('a'), functional_event='F'), name='b'),
        start=(E('branch', name='b'),))
    sub = lambda h, t, *s, **k: E('define-substitution', E('hypothesis', h), *([
        E('source', *s)] if s else []), E('target', t), name='S', **k)
    subs = {
        'house': lambda: sub(E('and', z(), z('h0', 'house-event')), c('false')),
        'complement': lambda: sub(E('and', z(), E('not', z('z1'))), c('false')),
        'connective': lambda: sub(E('xor', z(), z('z1')), c('false')),
        'effect': lambda: sub(E('and', z(), z('z1')), c('true')),
        'irrelevant': lambda: sub(E('and', z(), z('z1')), c('false'), z('z2')),
        'source-connective': lambda: sub(E('atleast', z(), z('z1'), z('z3'), min='2'), z('z2'),
                                         z('z1')),
        'source-twice': lambda: sub(E('and', z(), z('z1')), z('z2'), z('z3'), z('z3')),
        'type': lambda: sub(E('and', z(), z('z1')), c('false'), type='recovery-rule'),
    }
    for k, f in subs.items():
        yield 'substitution:' + k, RARE, None, f


def model_cases():
    """Errors of the loaded model: (key, calls, document, accepted names)."""
    seq = lambda n: E('sequence', name=n)
    tree = lambda *k, **s: et('T', *k, **s)
    fe = lambda n: E('define-functional-event', name=n)
    fork = lambda f, *k: E('fork', E('path', *k, state='x'), functional_event=f)
    grp = lambda d, f, m='beta-factor': E(
        'define-CCF-group', E('members', z('m1'), z('m2')), E('distribution', fl(d)),
        E('factors', *[E('factor', fl(x), level=str(i + 2 if m != 'phi-factor' else i + 1))
                       for i, x in enumerate(f)]), name='G', model=m)
    yield 'probability:data', [], data(be('e', '1.5')), {'e'}
    yield 'probability:tree', [], ft('B', be('e', '-0.5')), {'e'}
    yield 'group:distribution', [], grp('1.5', ['0.2']), {'G'}
    yield 'group:factor', [], grp('0.5', ['1.5']), {'G'}
    yield 'group:sum', [], grp('0.5', ['0.25', '0.5'], 'phi-factor'), {'G'}
    yield 'order', [], tree(fe('F1'), fe('F2'), E('define-sequence', name='s'),
                            start=(fork('F2', fork('F1', seq('s'))),)), {'T'}
    yield 'order-twice', [], tree(fe('F1'), E('define-sequence', name='s'),
                                  start=(fork('F1', fork('F1', seq('s'))),)), {'T'}
    yield 'link', [], tree(E('define-sequence', name='s'), start=(
        E('event-tree', name='U'), seq('s'))), {'T'}
    yield 'mixed', [], tree(E('define-sequence', E('collect-formula', z()), E(
        'collect-expression', fl('0.5')), name='s'), start=(seq('s'),)), {'T'}
    yield 'cycle-branch', [], tree(E('define-sequence', name='s'), E(
        'define-branch', E('branch', name='b'), name='b'), start=(seq('s'),)), {'T', 'b'}
    yield 'cycle-gate', [], ft('B', gate('g', z('g', 'gate'))), {'g', 'B.g'}
    sub = lambda n, h, t, s: E('define-substitution', E('hypothesis', h), E('source', s),
                               E('target', t), name=n)
    yield 'conflict', RARE, [sub('S', E('and', z(), z('z1')), z('z2'), z()),
                             sub('R', E('and', z(), z('z3')), z('z2'), z('z3'))], {'S', 'R'}


def check(ctx, L, key, calls, first, mk, second):
    d = mk()
    if second:
        docs = [mef(*([first] if first else []), base()), mef(d)]
    else:
        docs = [mef(*([first] if first else []), d, base()), mef(data(be('other')))]
    key += ':second' if second else ''
    out = judge(ctx, L, 'rejected', key, WHERE, docs, INVALID, 'an invalid construct', calls)
    if out is None:
        return
    line, name = blamed(error(out[2])[1])
    inside = [x for x in nodes_of(d)]
    if d.name == 'model-data':
        inside = inside[1:]
    ctx.check(line in {T('line', x.term) for x in inside}, 'line', key, WHERE,
              'the rejection names %s' % ('no line' if line is None else
                                          'a line of another construct'))
    ctx.check(name in {T('file', x.term) for x in nodes_of(docs[1 if second else 0])}, 'file', key, WHERE,
              'the rejection names %s' % ('no file' if name is None else 'another file'))


def flat(v):
    if isinstance(v, T):
        if is_c(v):
            yield cval(v)
        for x in v.a:
            yield from flat(x)


def check_model(ctx, L, key, calls, d, names):
    kids = d if isinstance(d, list) else [d]
    out = judge(ctx, L, 'rejected', 'model:' + key, WHERE, [mef(*kids, et('U'), base())],
                INVALID | {'CycleError'}, 'an invalid model', calls)
    if out is None:
        return
    tags = error(out[2])[1]
    got = {x for k, v in tags.items() for x in flat(v) if isinstance(x, str)}
    ctx.check(bool(got & names), 'element', 'model:' + key, WHERE,
              'the rejection names none of %s' % ', '.join(sorted(names)))


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('rejected', 'a model with an invalid construct is rejected')
    ctx.rule('line', 'the rejection names a line within the invalid definition')
    ctx.rule('file', 'the rejection names the file of the invalid definition')
    ctx.rule('element', 'an error found in the loaded model names the element or its container')
    jobs = []
    for i, (key, calls, first, mk) in enumerate(cases()):
        for second in (0, 1):
            if ctx.tier == 'thorough' or second == i % 2:
                jobs.append(lambda i=i, key=key, calls=calls, first=first, mk=mk, s=second: check(
                    ctx, L, key, calls, list(cases())[i][2], mk, s))
    for key, calls, d, names in model_cases():
        jobs.append(lambda a=(key, calls, d, names): check_model(ctx, L, *a))
    batches(ctx, L, jobs)
    ctx.floor('line', 100)
    ctx.floor('element', 3)
