"""Abstract interpretation of loading models with substitutions: every connective, argument, source,
target, declared type, membership in a CCF group and approximation for a single substitution, and
pairs of substitutions over shared events.  The documented rules of substitutions tell which
models must be rejected and which accepted."""
import itertools

from docs import *
from interp import C
from loadmodel import *
from settings_model import APX

ASSUMPTIONS = ['two substitutions over four events exercise every kind of conflict']
WHERE = 'src/initializer.cc Initializer'
EV = lambda n: E('basic-event', name=n)
BOOL = {True: 'true', False: 'false'}


def formula(op, args):
    """args: event names, '-x' for a complement, 'g', 'h' gate and house event, 0 and 1."""
    xs = []
    for a in args:
        if a in (0, 1):
            xs.append(E('constant', value=BOOL[bool(a)]))
        elif a == 'g':
            xs.append(E('gate', name='g'))
        elif a == 'h':
            xs.append(E('house-event', name='h'))
        else:
            xs.append(E('not', EV(a[1:])) if a[0] == '-' else EV(a))
    if op == 'null':
        return xs[0]
    if op == 'cardinality':
        return E(op, *xs, min='1', max='2')
    if op.startswith('atleast'):
        return E('atleast', *xs, min=op[7:])
    return E(op, *xs)


def substitution(name, op, args, source, target, typ=None):
    return E('define-substitution', E('hypothesis', formula(op, args)),
             *([E('source', *[EV(s) for s in source])] if source else []),
             E('target', E('constant', value=BOOL[target]) if isinstance(target, bool) else
               EV(target)), name=name, **({'type': typ} if typ else {}))


def document(*subs, group=()):
    names = [n for n in 'abcdtu' if n not in group]
    return [mef(*subs, ft('A', gate('g', EV('z0')), *([ccf('grp', list(group))] if group else [])),
                data(be('z0'), house('h'), *[be(n) for n in names]))]


HYPOTHESES = [('null', ('a',)), ('and', ('a', 'b')), ('or', ('a', 'b')), ('atleast2', ('a', 'b', 'c')),
              ('and', ('a', 'b', 'c')), ('xor', ('a', 'b')), ('iff', ('a', 'b')),
              ('imply', ('a', 'b')), ('nand', ('a', 'b')), ('nor', ('a', 'b')),
              ('not', ('a',)), ('cardinality', ('a', 'b', 'c')), ('and', ('a', '-b')),
              ('or', ('-a', 'b')), ('atleast2', ('a', '-b', 'c')), ('and', ('a', 'g')),
              ('or', ('h', 'a')), ('and', ('a', 'a')), ('or', ('a', 'b', 'c'))]
SOURCES = [(), ('a',), ('a', 'b'), ('d',), ('a', 'd'), ('a', 'a'), ('a', 'b', 'c')]
TARGETS = [True, False, 't', 'a']


def valid(op, args, source, target):
    """Is the substitution on its own well-formed?"""
    if len(set(args)) < len(args) or len(set(source)) < len(source):
        return False
    if any(a in ('g', 'h') or str(a).startswith('-') for a in args):
        return False
    if op not in (('null', 'and', 'or') if source else ('null', 'and', 'or', 'atleast2')):
        return False
    if isinstance(target, bool) and target != bool(source):
        return False
    return not (source and target in source)


def types(op, args, source, target):
    """The traditional types of a valid substitution; None if debatable."""
    if not source:
        if target is False:
            if op == 'and' and len(args) > 2:
                return None
            return {'delete-terms'} if op in ('and', 'atleast2') else set()
        if op == 'null':
            return None
        return {'recovery-rule'} if op == 'and' else set()
    if isinstance(target, bool) or op not in ('and', 'null'):
        return set()
    if len(args) == 1:
        return None
    if set(source) == set(args):
        return {'recovery-rule'}
    return {'exchange-event'} if len(source) == 1 and source[0] in args else set()


def conflict(subs):
    """subs: [(args, source, target)], the non-declarative ones of them."""
    subs = [s for s in subs if s[1]]
    for i, (args, source, target) in enumerate(subs):
        if any(target in s[1] for s in subs):
            return True
        others = [a for j, s in enumerate(subs) if j != i for a in s[0]]
        if target in others or any(x in others for x in source):
            return True
    return False


def cases(thorough):
    for (op, args), source, target in itertools.product(HYPOTHESES, SOURCES, TARGETS):
        key = '%s(%s):%s:%s' % (op, ','.join(map(str, args)), ','.join(source), target)
        ok = valid(op, args, source, target)
        yield 'form', key, document(substitution('S', op, args, source, target)), ok, True
        if not ok:
            continue
        want = types(op, args, source, target)
        for typ in ('delete-terms', 'recovery-rule', 'exchange-event'):
            if want is not None:
                yield 'type', key + ':' + typ, document(substitution(
                    'S', op, args, source, target, typ)), typ in want, True
        yield 'exact', key, document(substitution('S', op, args, source, target)), \
            not source, False
        used = sorted(set(args) | set(source) | ({target} if isinstance(target, str) else set()))
        for x in used + ['u']:
            other = 'z1'
            yield 'ccf', key + ':' + x, document(substitution(
                'S', op, args, source, target), group=(x, other)), not source or x == 'u', True
    shapes = [(h, s, t) for h in map(tuple, ('a', 'b', 'ab', 'cd'))
              for s in map(tuple, ('', 'a', 'c', 'ab'))
              for t in (True, 'a', 't', 'c', 'd') if valid('and', h, s, t)]
    n = 0
    for one, two in itertools.product(shapes, shapes):
        n += 1
        if not (one[1] or two[1]) or not thorough and n % 5 and one != two:
            continue
        key = '+'.join('%s>%s>%s' % (''.join(s[0]), ''.join(s[1]), s[2]) for s in (one, two))
        subs = [substitution('S%d' % i, 'null' if len(h) == 1 else 'and', tuple(h), tuple(s), t)
                for i, (h, s, t) in enumerate((one, two))]
        yield 'pairs', key, document(*subs), not conflict((one, two)), True


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('form', 'a substitution is rejected iff its hypothesis, source and target break the '
             'documented rules')
    ctx.rule('type', 'a declared type is rejected iff the substitution is not of that type')
    ctx.rule('exact', 'a substitution with sources is rejected without an approximation')
    ctx.rule('ccf', 'a substitution with sources is rejected iff an event of it is in a CCF group')
    ctx.rule('pairs', 'substitutions with sources are rejected iff a target is a source, or a '
             'target or source is in the hypothesis of another one')
    jobs = [lambda c=c: judge(ctx, L, c[0], c[0] + ':' + c[1], WHERE, c[2], None if c[3] else {
        'ValidityError', 'DuplicateElementError'}, 'substitution',
        [('approximation', C(APX['rare-event']))] if c[4] else [])
        for c in cases(ctx.tier == 'thorough')]
    batches(ctx, L, jobs)
    ctx.floor('form', 200)
    ctx.floor('pairs', 50)
