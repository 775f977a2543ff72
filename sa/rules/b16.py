"""Abstract interpretation of loading alignments over phases whose fractions cover the allowed
interval, its bounds and its outside, in every combination of up to three phases (and long ones);
the outcome is compared with: every fraction in (0, 1], the sum one (to rounding of the input),
phase names distinct, and every house event to be set defined."""
import itertools
from docs import *
from interp import C
from loadmodel import *

ASSUMPTIONS = ['fractions are compared as decimal input; sums off by 1e-4 or so are not judged']
WHERE = 'src/alignment.cc Alignment::Validate'
INVALID = {'ValidityError', 'DomainError', 'DuplicateElementError', 'UndefinedElement'}
VALUES = ['-1', '-0.5', '0', '0.001', '0.25', '0.5', '0.75', '0.999', '1', '1.001', '1.5', '2']
SUMS = [['0.33333', '0.33333', '0.33333'], ['0.3333', '0.3334', '0.3333'], ['0.333'] * 3,
        ['0.334'] * 3, ['0.1'] * 10, ['0.1'] * 9, ['0.1'] * 11, ['0.2'] * 5, ['0.125'] * 8,
        ['0.99999'], ['1e-9', '1'], ['0.5', '0.499', '0.001'], ['0.00001', '0.99999'],
        ['0.9', '0.2', '-0.1'], ['1.2', '-0.2'], ['0.998'], ['0.5', '0.498'], ['1', '0'],
        ['0.5', '0.5', '0.5'], ['1', '1'], ['0.6', '0.6'], ['0.75', '0.5', '-0.25']]


def valid(fs):
    v = [float(f) for f in fs]
    return all(0 < x <= 1 for x in v) and abs(sum(v) - 1) < 2e-4


def align(name, fs, names=None, sets=None, order=None):
    phases = [E('define-phase', *[E('set-house-event', E('constant', value=x), name=h)
                                  for h, x in (sets or {}).get(i, ())],
                name=(names or {}).get(i, 'p%d' % i), time_fraction=f) for i, f in enumerate(fs)]
    return E('define-alignment', *phases, name=name)


def cases():
    for n in (1, 2):
        for fs in itertools.product(VALUES, repeat=n):
            yield 'sum:' + '+'.join(fs), [lambda fs=fs: align('L', fs)], valid(fs)
    for fs in SUMS:
        yield 'sum:' + '+'.join(fs), [lambda fs=fs: align('L', fs)], valid(fs)
    for fs in itertools.product(['0.25', '0.5', '0', '1', '-0.25'], repeat=3):
        yield 'sum:' + '+'.join(fs), [lambda fs=fs: align('L', fs)], valid(fs)
    for a, b in itertools.product((('1',), ('0.5', '0.5'), ('0.5',), ('0.5', '0.25')), repeat=2):
        yield 'two:%s,%s' % ('+'.join(a), '+'.join(b)), [
            lambda a=a: align('L', a), lambda b=b: align('M', b)], valid(a) and valid(b)
    third = ['0.25', '0.25', '0.5']
    for i, j in ((0, 1), (0, 2), (1, 2)):
        yield 'name:%d=%d' % (i, j), [lambda i=i, j=j: align('L', third, {i: 'x', j: 'x'})], False
    yield 'name:other-alignment', [lambda: align('L', ['0.5', '0.5']),
                                   lambda: align('M', ['0.5', '0.5'])], True
    yield 'name:own', [lambda: align('L', ['1'], {0: 'L'})], True
    for i in range(3):
        for h, ok in (('h0', True), ('h1', True), ('h9', False), ('e', False), ('h2', True)):
            yield 'set:%d:%s' % (i, h), [lambda i=i, h=h: align('L', third, sets={
                i: [(h, 'true')]})], ok
        yield 'set:%d:second' % i, [lambda i=i: align('L', third, sets={
            i: [('h0', 'true'), ('h9', 'false')]})], False
        yield 'set:%d:both' % i, [lambda i=i: align('L', third, sets={
            i: [('h0', 'true'), ('h1', 'false')], (i + 1) % 3: [('h0', 'false')]})], True


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('fractions', 'accepted iff all fractions are in (0, 1] and sum to one')
    ctx.rule('phases', 'accepted iff phase names are distinct in the alignment and the house '
             'events to be set are defined')
    jobs = []
    for key, mks, ok in cases():
        rule = 'fractions' if key[:3] in ('sum', 'two') else 'phases'
        base = lambda: [data(house('h0'), house('h1'), be('e')), ft('B', gate(
            'g', E('basic-event', name='e')), house('h2'))]
        want = None if ok else INVALID
        what = 'a valid alignment' if ok else 'an invalid alignment'
        jobs.append(lambda r=rule, k=key, m=mks, w=want, t=what: judge(
            ctx, L, r, k, WHERE, [mef(*[f() for f in m], *base())], w, t, []))
        if rule == 'phases' or len(mks) > 1:
            jobs.append(lambda r=rule, k=key, m=mks, w=want, t=what: judge(
                ctx, L, r, k + ':split', WHERE, [mef(*base()), *[mef(f()) for f in m]], w, t, []))
    batches(ctx, L, jobs)
    ctx.floor('fractions', 60)
