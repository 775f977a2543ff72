"""Formulas of the input are decided by abstract interpretation of the input handler
(Initializer::Define of gates, GetFormula, Formula and its argument set) over XML of every
connective of the format: zero to five arguments of every kind the format allows (references by
kind, untyped references, complements, constants, nested gates) and every combination of
min/max around the borders of the documented domain, with the events as opaque objects.  The
formula must be accepted exactly in the documented domain; a rejection must be a validity error
and no path may reach an assertion; an accepted formula must hold the written connective,
numbers, arguments, order and complements."""
import itertools

import facts
from graphmodel import *
from interp import Budget

ASSUMPTIONS = [
    'the definitions conform to share/input.rng (validated before the handler runs)',
    'references to events resolve to the declared objects (decided by the rules on names)',
]

FEW = {'and': (2, 99), 'or': (2, 99), 'nand': (2, 99), 'nor': (2, 99), 'xor': (2, 2),
       'iff': (2, 2), 'imply': (2, 2), 'not': (1, 1)}


def accepted(f):
    if isinstance(f, (str, bool)):
        return True
    op, args = f[0], f[{'atleast': 2, 'cardinality': 3}.get(f[0], 1):]
    names = [a[1] if isinstance(a, tuple) else a for a in args]
    names = [n.strip('?=') if isinstance(n, str) else n for n in names]
    if len({repr(n) for n in names}) != len(names):
        return False
    n = len(args)
    if op == 'atleast':
        return f[1] is not None and 2 <= f[1] < n
    if op == 'cardinality':
        return None not in f[1:3] and f[1] <= f[2] <= n and n >= 1
    return FEW[op][0] <= n <= FEW[op][1]


def cases():
    out = ['a', 'h', 'g1', True, False]
    pool = ['a', ('not', 'b'), 'g1', 'h', True]
    for op in ('and', 'or', 'nand', 'nor'):
        out += [(op,) + tuple(pool[:n]) for n in (1, 2, 3, 5)]
        out += [(op, ('not', 'a'), ('not', 'g1')), (op, False, 'b'), (op, ('not', 'h'), 'c')]
    for op in ('xor', 'iff', 'imply'):
        out += [(op, 'a', 'b'), (op, 'b', 'a'), (op, 'a', ('not', 'b')), (op, ('not', 'a'), 'b'),
                (op, 'g1', 'h'), (op, True, 'c'), (op, 'c', False),
                (op, ('not', 'a'), ('not', 'g1'))]
    out += [('not', x) for x in ('a', 'h', 'g1')]
    for n in range(1, 6):
        for k in range(0, n + 2):
            out.append(('atleast', k) + tuple(pool[:n]))
    for n in range(1, 5):
        for lo in range(0, n + 2):
            for hi in range(0, n + 2):
                out.append(('cardinality', lo, hi) + tuple(pool[:n]))
    out += [('atleast', 65536, 'a', 'b', 'c'), ('atleast', 65538, 'a', 'b', 'c'),
            ('cardinality', 65537, 65538, 'a', 'b', 'c'), ('cardinality', 0, 65537, 'a', 'b', 'c')]
    for d in ('a', 'g1', 'h', True):
        out += [('or', d, 'b', d), ('atleast', 2, d, 'b', 'c', d), ('cardinality', 1, 2, d, d)]
        out += [('iff', d, d)]
        if d is not True:
            out += [('and', d, ('not', d)), ('imply', ('not', d), d), ('xor', d, ('not', d)),
                    ('nor', ('not', d), 'c', ('not', d))]
    for r in '?=':
        out += [r + d for d in ('a', 'h', 'g1')]
        out += [('or', r + 'a', r + 'h', r + 'g1'), ('nand', ('not', r + 'a'), 'b'),
                ('imply', ('not', r + 'h'), ('not', r + 'g1')), ('and', 'a', r + 'a'),
                ('not', r + 'g1'), ('xor', ('not', r + 'b'), 'b')]
    return list(dict.fromkeys(out))


def text(f):
    if isinstance(f, bool):
        return str(f).lower()
    return f if isinstance(f, str) else '%s(%s)' % (f[0], ', '.join(text(a) if not isinstance(
        a, int) or isinstance(a, bool) else str(a) for a in f[1:] if a is not None))


def setup(prog):
    x = Pdags(prog)
    st = State()
    for n in 'abc':
        st, _ = x.register(st, E('define-basic-event', name=n), 'BasicEvent')
    st, _ = x.register(st, E('define-house-event', name='h'), 'HouseEvent')
    for n in ('g', 'g1'):
        st, _ = x.register(st, E('define-gate', name=n), 'Gate')
    return x, st


def written(x, st, f):
    """Arguments as written: (complement, object or constant)."""
    args = [f] if isinstance(f, (str, bool)) else f[{'atleast': 2, 'cardinality': 3}.get(f[0], 1):]
    out = []
    for a in args:
        c = isinstance(a, tuple)
        a = a[1] if c else a
        out.append((c, a if isinstance(a, bool) else x.table[a.strip('?=')]))
    return out


def loaded(x, st, g):
    fo = x.object(st, x.get(st, g, 'formula'))
    conn = x.it.deref(st, x.get(st, fo, 'connective'))
    if not is_c(conn):
        raise Unknown('connective %s' % conn)
    args = []
    for a in x.items(st, x.get(st, fo, 'args')):
        c = x.it.read(st, T('lvf', a, 'complement'))
        e = x.it.deref(st, x.it.read(st, T('lvf', a, 'event')))
        while e.op == 'variant':
            e = e.a[-1]
        o = x.object(st, e)
        if not is_c(c):
            raise Unknown('complement: %s' % c)
        args.append((bool(cval(c)), constant(x, st, e, o)))
    nums = []
    for n in ('min_number', 'max_number'):
        v = x.it.deref(st, x.get(st, fo, n))
        nums.append(cval(v) if is_c(v) and not isinstance(cval(v), str) else None
                    if v == NULL or v.op == 'none' or is_c(v) else v)
    return cval(conn), nums, args


def constant(x, st, e, o):
    if e.op == 'ptr' and e.a[0].op == 'lvg':
        t = str(e.a[0])
        return True if 'kTrue' in t else False if 'kFalse' in t else o
    if o is None:
        raise Unknown('event %s' % e)
    return o


def run(ctx):
    prog = ctx.prog(*TUS)
    ctx.rule('domain', 'a formula is accepted iff its arity and numbers are in the documented '
             'domain and no argument repeats; otherwise the model is invalid, no other error')
    ctx.rule('content', 'connective, numbers and arguments of the formula are as written')
    x, st = setup(prog)
    names = {e['v']: e['name'][1:].lower() for en in prog.enums.values()
             if en['qn'] == MEF + 'Connective' for e in en['enumerators']}
    where = prog.loc(x.fn('Define', param='Gate'))
    for f in cases():
        check(ctx, x, st.copy(), f, names, where)
    for u in x.it.inlined:
        if prog.fns[u]['rel'].startswith('src/'):
            ctx.fn(prog.fns[u])


def valid(x, exc):
    c = x.it.exc_class(exc) if hasattr(x.it, 'exc_class') else exc.a[0]
    return MEF + 'ValidityError' in x.p.bases(c)


def check(ctx, x, st, f, names, where):
    key = text(f)
    g = x.table['g']
    x.fresh()
    try:
        outs = x.define(st, E('define-gate', element(f), name='g'), 'Gate', g)
    except Budget as err:
        ctx.undecided('domain', key, where, 'budget: %s' % err)
        return
    if not outs or any(k == 'stuck' for _, k, _ in outs):
        ctx.undecided('domain', key, where, 'no outcome')
        return
    ok = accepted(f)
    for s, k, v in outs:
        if k == 'exit':
            ctx.bad('domain', key, where, 'an assertion fails (abort) on this formula: %s' % v)
        elif k == 'throw':
            while v.op == 'tagged':
                v = v.a[0]
            if ok:
                ctx.bad('domain', key, where, 'the valid formula is rejected: %s' % v)
            elif v.op != 'exc':
                ctx.undecided('domain', key, where, 'error not resolved: %s' % v)
            else:
                ctx.check(valid(x, v), 'domain', key, where,
                          'the rejection is %s instead of a validity error' % v.a[0])
        elif not ok:
            ctx.bad('domain', key, where, 'the invalid formula is accepted')
        else:
            ctx.ok('domain', key, where)
            content(ctx, x, s, f, g, names, where, key)


def content(ctx, x, s, f, g, names, where, key):
    try:
        conn, nums, args = loaded(x, s, g)
    except (Unknown, IndexError, AttributeError, facts.Broken) as err:
        ctx.undecided('content', key, where, 'formula not resolved: %s' % err)
        return
    op = 'null' if isinstance(f, (str, bool)) else f[0]
    want = written(x, s, f)
    if names.get(conn) != op:
        ctx.bad('content', key, where, 'the connective is %s' % names.get(conn))
    elif args != want:
        ctx.bad('content', key, where, 'the arguments are %s instead of %s' % (args, want))
    else:
        spec = [f[1], None] if op == 'atleast' else list(f[1:3]) if op == 'cardinality' \
            else [None, None]
        if any(isinstance(n, T) for n in nums):
            ctx.undecided('content', key, where, 'numbers not resolved: %s' % nums)
        else:
            ctx.check(nums == spec, 'content', key, where,
                      'min and max of the formula are %s instead of %s' % (nums, spec))
