"""The translation of fault trees into Boolean graphs is decided by abstract interpretation of the
source, connective by connective, and the Boolean functions are compared over all assignments.
(construct) Initializer + core::Pdag: every connective of the input over every kind of argument
(basic events, complements, house events of either state, constants, nested, shared and
complemented gates, members of CCF groups with and without CCF, declarative and non-declarative
substitutions): the graph must represent the function of the definition, number its variables
consistently with its basic events, report coherence and normality only when they hold, and still
represent the function after the removal of pass-through gates.  (rewrite) each public operation
on gates (adding, sharing and transferring arguments, duplicates and complements, constants,
joining pass-through gates, coalescing, setting an argument, negating, cloning) over every type of
gate, sign and kind of argument with opaque literals must yield the function that the operation
stands for and keep the links between arguments and parents.  By induction over the formula the
graph of any fault tree represents the fault tree."""
import itertools

import facts
from facts import Broken
from graphmodel import *
from interp import Budget

ASSUMPTIONS = [
    'formulas are in the documented domain (decided by B11) and acyclic (decided by B08)',
    'passes of the preprocessor over whole graphs are not covered',
]

LIMIT = 12


def run(ctx):
    prog = ctx.prog(*TUS)
    ctx.rule('function', 'the graph represents the function of the definition')
    ctx.rule('variables', 'indices of variables are the positions of their basic events')
    ctx.rule('flags', 'a graph declared coherent has no negation; a normal one only and/or gates')
    ctx.rule('clean', 'the graph without pass-through gates represents the same function')
    ctx.rule('substitution', 'non-declarative substitutions keep hypothesis, source and target')
    ctx.rule('operation', 'the operation on the gate yields the function it stands for')
    ctx.rule('links', 'every argument knows its parents, and only them')
    x = Pdags(prog)
    for f in ('construct', 'substitutions', 'rewrite'):
        globals()[f](ctx, x)
    for u in x.it.inlined:
        if prog.fns[u]['rel'].startswith('src/'):
            ctx.fn(prog.fns[u])


# ------------------------------------------------------------------ construction
def text(f):
    if isinstance(f, bool):
        return str(f).lower()
    return f if isinstance(f, str) else '%s(%s)' % (f[0], ','.join(
        text(a) if not isinstance(a, int) or isinstance(a, bool) else str(a) for a in f[1:]))


def trees():
    """(gates, house events, CCF gates)"""
    kinds = [('b', {}), (('not', 'b'), {}), ('g1', {'g1': ('and', 'b', 'c')}),
             (('not', 'g1'), {'g1': ('or', 'b', 'c')}), ('g1', {'g1': 'b'}),
             ('g1', {'g1': ('not', 'b')}), (('not', 'g1'), {'g1': ('not', 'c')}), ('h', {}),
             (('not', 'h'), {}), ('hf', {}), (('not', 'hf'), {}), (True, {}), (False, {}),
             ('g1', {'g1': True}), ('g1', {'g1': ('or', 'hf', 'c')}),
             ('g1', {'g1': ('xor', 'b', 'c')}), ('g1', {'g1': ('nand', 'b', 'c')}),
             ('g1', {'g1': ('iff', 'b', ('not', 'c'))})]
    out = []
    for op in ('and', 'or', 'nand', 'nor', 'xor', 'iff', 'imply'):
        for k, g in kinds:
            out.append((dict(g, g=(op, 'a', k)), {}))
        out.append(({'g': (op, ('not', 'a'), 'd')}, {}))
        out.append(({'g': (op, 'g1', 'a'), 'g1': ('or', 'b', 'c')}, {}))
    for k, g in kinds:
        out.append((dict(g, g=('atleast', 2, 'a', k, 'd')), {}))
        out.append((dict(g, g=('cardinality', 1, 2, 'a', k, 'd')), {}))
        out.append((dict(g, g=k if not isinstance(k, tuple) else k), {}))
    for op in ('and', 'or', 'nand', 'nor'):
        out.append(({'g': (op, 'a', ('not', 'b'), 'c', 'd')}, {}))
    out.append(({'g': ('atleast', 3, 'a', ('not', 'b'), 'c', 'd')}, {}))
    for n in (1, 2, 3):
        for lo in range(n + 1):
            for hi in range(lo, n + 1):
                out.append(({'g': ('cardinality', lo, hi) + ('a', ('not', 'b'), 'c')[:n]}, {}))
    five = ('a', ('not', 'b'), 'c', 'd', ('not', 'e'), 'f')
    out += [({'g': f}, {}) for f in (
        ('cardinality', 2, 3) + five[:5], ('cardinality', 4, 6) + five, ('cardinality', 1, 5) + five,
        ('atleast', 4) + five[:5], ('atleast', 2) + five, ('and',) + five, ('nor',) + five)]
    # shared gates, several parents and signs
    for op in ('and', 'xor', 'atleast'):
        g1 = (op, 2, 'a', 'b', 'c') if op == 'atleast' else (op, 'a', 'b')
        out.append(({'g': ('or', 'g2', 'g3'), 'g1': g1, 'g2': ('and', 'g1', 'c'),
                     'g3': ('and', ('not', 'g1'), 'd')}, {}))
    out.append(({'g': ('and', 'g1', 'g2'), 'g1': ('or', 'a', 'b'), 'g2': ('or', 'a', 'c')}, {}))
    out.append(({'g': ('and', 'g1', 'g2'), 'g1': 'a', 'g2': 'a'}, {}))
    out.append(({'g': ('or', 'g1', 'g2'), 'g1': 'a', 'g2': ('not', 'a')}, {}))
    out.append(({'g': ('xor', 'g1', 'g2'), 'g1': 'g3', 'g2': ('not', 'g3'),
                 'g3': ('and', 'a', 'b')}, {}))
    # common cause failures
    ccf = {'a': ('or', 'd', 'e'), 'b': ('or', 'e', 'f')}
    for f in (('and', 'a', 'b'), ('or', 'a', ('not', 'b')), ('xor', 'a', 'b'), 'a', ('not', 'a'),
              ('imply', 'a', 'b'), ('iff', ('not', 'a'), 'b'), ('atleast', 2, 'a', 'b', 'c'),
              ('cardinality', 1, 1, 'a', 'b', 'c')):
        out.append(({'g': f}, ccf))
        out.append(({'g': ('or', 'g1', 'c'), 'g1': f}, ccf))
    out.append(({'g': ('and', 'g1', 'g2'), 'g1': ('or', 'a', 'c'), 'g2': ('or', 'a', 'b')}, ccf))
    return out


def load(x, defs, ccf):
    """State with the gates of a fault tree."""
    st = State()
    x.fresh()
    x.table.clear()
    for n in 'abcdef':
        st, _ = x.register(st, E('define-basic-event', name=n), 'BasicEvent')
    for n, v in (('h', True), ('hf', False)):
        st, _ = x.register(st, E('define-house-event', E('constant', value=v), name=n),
                           'HouseEvent')
    names = list(defs) + ['gx' + n for n in ccf]
    for n in names:
        st, _ = x.register(st, E('define-gate', name=n), 'Gate')
    for n, f in list(defs.items()) + [('gx' + n, f) for n, f in ccf.items()]:
        st = one(x.define(st, E('define-gate', element(f), name=n), 'Gate', x.table[n]))
    for n in ccf:
        st = one(x.it.invoke(st, x.method(MEF + 'BasicEvent', 'ccf_gate', 1), x.table[n],
                             [ptr(x.table['gx' + n])]))
    return st


def one(outs):
    if len(outs) != 1 or outs[0][1] != 'v':
        raise Unknown('loading: %s' % str(outs[:2])[:200])
    return outs[0][0]


def pdag_of(x, st, root, ccf, model=NULL):
    c = [f for f in x.p.fns.values() if f['qn'] == CORE + 'Pdag::Pdag' and
         len(f['params']) == 3 and f.get('body') is not None]
    if not c:
        raise Broken('anchor vanished: constructor of the graph from a gate')
    pd = T('obj', CORE + 'Pdag', x.it.bump())
    return pd, c[0], x.it.invoke(st, c[0], pd, [T('ref', T('lvo', root)), C(ccf), model])


def construct(ctx, x):
    for defs, ccf in trees():
        base = '; '.join('%s=%s' % (g, text(f)) for g, f in defs.items())
        for on in (False, True) if ccf else (False,):
            key = (base + (' [ccf]' if on else ' [no ccf]' if ccf else '')).replace(' ', '_')
            try:
                st = load(x, defs, ccf)
                pd, c, outs = pdag_of(x, st, x.table['g'], on)
            except (Unknown, Budget) as err:
                ctx.undecided('function', key, '', str(err))
                continue
            where = x.p.loc(c)
            gates = dict(defs)
            if on:
                gates.update(ccf)
            for s, k, v in outs:
                if k == 'v':
                    graph(ctx, x, s, pd, gates, defs['g'], key, where)
                elif k == 'exit':
                    ctx.bad('function', key, where, 'an assertion fails: %s' % v)
                else:
                    ctx.undecided('function', key, where, '%s: %s' % (k, v))


def root_of(x, st, pd):
    r = x.object(st, x.get(st, pd, 'root'))
    if r is None:
        raise Unknown('root')
    return r


def flag(x, st, o, name):
    v = x.it.deref(st, x.get(st, o, name))
    if not is_c(v):
        raise Unknown('%s is %s' % (name, v))
    return bool(cval(v))


def basic_events(x, st, pd):
    out = []
    for p in x.items(st, x.get(st, pd, 'basic_events')):
        o = x.object(st, p)
        n = [n for n, t in x.table.items() if t is o]
        if not n:
            raise Unknown('basic event %s' % p)
        out.append(n[0])
    return out


def compare(x, st, pd, names, f, gates, limit=None):
    """First assignment at which the graph differs, or None."""
    root, comp = root_of(x, st, pd), flag(x, st, pd, 'complement')
    start = first_index(x, st)
    allnames = sorted(events(f, gates) | set(names))
    used = [n for n in allnames if n[0] != 'h']
    for vals in itertools.product((False, True), repeat=len(used)):
        env = dict(zip(used, vals), h=True, hf=False)

        def ev(i):
            if not 0 <= i - start < len(names):
                raise Misnumbered('no basic event of the variable %d' % i)
            return env[names[i - start]]
        got = x.node_value(st, root, ev, {}) != comp
        if got != value(f, env, gates):
            return ', '.join('%s=%d' % (n, env[n]) for n in used)
    return None


class Misnumbered(Exception):
    pass


def first_index(x, st):
    for g in x.p.tab('globals') if hasattr(x.p, 'tab') else ():
        if g['qn'] == CORE + 'Pdag::kVariableStartIndex':
            pass
    v = x.it.read(st, T('lvg', CORE + 'Pdag::kVariableStartIndex'))
    return cval(v) if is_c(v) else 2


def graph(ctx, x, s, pd, gates, f, key, where):
    try:
        names = basic_events(x, s, pd)
        missing = sorted(n for n in events(f, gates) - set(names) if n[0] != 'h')
        extra = sorted(set(names) - events(f, gates))
        ctx.check(not missing and not extra and len(names) == len(set(names)), 'variables', key,
                  where, 'basic events of the graph are %s' % names)
        diff = compare(x, s, pd, names, f, gates)
        ctx.check(diff is None, 'function', key, where,
                  'the graph differs from the fault tree at %s' % diff)
        flags(ctx, x, s, pd, key, where)
        clean(ctx, x, s, pd, names, f, gates, key, where)
    except ArityError as err:
        ctx.bad('function', key, where, 'malformed gate: %s' % err)
    except Misnumbered as err:
        ctx.bad('variables', key, where, str(err))
    except (Unknown, Broken, Budget) as err:
        ctx.undecided('function', key, where, 'graph not resolved: %s' % err)


def flags(ctx, x, s, pd, key, where):
    gs = x.gates(s, root_of(x, s, pd))
    neg = flag(x, s, pd, 'complement') or any(
        op in ('not', 'nand', 'nor', 'xor') or
        any(not sg for sg, n in args if n != 'const') for op, _, args in gs.values())
    if flag(x, s, pd, 'coherent'):
        ctx.check(not neg, 'flags', key, where, 'a graph with negation is declared coherent')
    odd = any(op not in ('and', 'or', 'null') for op, _, args in gs.values())
    if flag(x, s, pd, 'normal'):
        ctx.check(not odd, 'flags', key, where,
                  'a graph with other gates than and/or is declared normal')


def clean(ctx, x, s, pd, names, f, gates, key, where):
    m = x.method(CORE + 'Pdag', 'RemoveNullGates')

    def constants(it, st, e, o, args, fr):
        # destruction of unreferenced gates is not modelled: constants of the graph itself count
        try:
            gs = x.gates(st, root_of(x, st, pd))
            return V(st, C(any(n == 'const' for g in gs.values() for _, n in g[2])))
        except Unknown:
            return None
    x.it.models[CORE + 'Pdag::HasConstants'] = constants
    for s2, k, v in limited(x.it.invoke(s.copy(), m, pd, [])):
        if k != 'v':
            ctx.undecided('clean', key, x.p.loc(m), '%s: %s' % (k, v))
            continue
        try:
            diff = compare(x, s2, pd, names, f, gates)
            why = None if diff is None else 'the graph differs from the fault tree at %s' % diff
            gs = x.gates(s2, root_of(x, s2, pd))
            root = root_of(x, s2, pd)
            if why is None:
                left = [g for g, (op, _, args) in gs.items() if g is not root and (
                    op == 'null' or any(n == 'const' for _, n in args))]
                why = left and 'pass-through gates or constants remain' or None
            ctx.check(why is None, 'clean', finding(key, diff), x.p.loc(m), why)
        except ArityError as err:
            ctx.bad('clean', key, x.p.loc(m), 'malformed gate: %s' % err)
        except (Unknown, Budget) as err:
            ctx.undecided('clean', key, x.p.loc(m), 'graph not resolved: %s' % err)


def finding(key, diff):
    return key if diff is None else key + ':' + diff.replace(', ', ',')


def limited(outs):
    return outs if len(outs) <= LIMIT else [(None, 'forks', '%d outcomes' % len(outs))]


# ------------------------------------------------------------------ substitutions
def substitutions(ctx, x):
    defs = {'g': ('or', 'g1', 'c'), 'g1': ('and', 'a', 'b')}
    rows = []
    for ccf in ({}, {'a': ('or', 'd', 'e')}):
        # declarative: (hypothesis, target): hypothesis -> target is imposed
        rows += [(ccf, [(('and', 'a', 'b'), (), False)]), (ccf, [(('and', 'a', 'b'), (), 'c')]),
                 (ccf, [('a', (), 'd')] if not ccf else [('c', (), 'a')]),
                 (ccf, [(('atleast', 2, 'a', 'b', 'c'), (), False)]),
                 (ccf, [(('or', 'a', 'f'), (), 'b'), (('and', 'c', 'f'), (), False)])]
    rows += [({}, [(('and', 'a', 'b'), ('a',), 'd')]), ({}, [(('and', 'a', 'b'), ('b', 'a'), True)]),
             ({}, [(('or', 'd', 'e'), ('a',), 'f')]), ({}, [('c', ('a',), 'e')]),
             ({}, [(('and', 'a', 'b'), ('a',), 'd'), (('and', 'a', 'c'), (), False)])]
    for ccf, subs in rows:
        for on in (False, True) if ccf else (False,):
            key = '; '.join('%s<-%s:%s' % (text(t), ','.join(src), text(h)) for h, src, t in subs)
            key = (key + (' [ccf]' if on else '')).replace(' ', '_')
            try:
                substitution(ctx, x, defs, ccf, subs, on, key)
            except (Unknown, Budget) as err:
                ctx.undecided('substitution', key, '', str(err))


def substitution(ctx, x, defs, ccf, subs, on, key):
    st = load(x, defs, ccf)
    objs = []
    for h, src, t in subs:
        node = E('define-substitution', E('hypothesis', element(h)),
                 *([E('source', *[event(n) for n in src])] if src else []),
                 E('target', element(t)), name='s%d' % len(objs))
        o = T('obj', MEF + 'Substitution', x.it.bump())
        for fld in x.p.cls[MEF + 'Substitution'].get('fields', ()):
            if 'vector' in fld['t']:
                st.mem[T('lvf', o, fld['name'])] = T('list')
        outs = x.it.invoke(st, x.fn('Define', param='Substitution'), x.init,
                           [x.xml(st, node), ptr(o)])
        if len(outs) != 1:
            raise Unknown('substitution: %s' % str(outs[:2])[:200])
        if outs[0][1] == 'throw':
            ctx.bad('substitution', key, '', 'the valid substitution is rejected: %s' % outs[0][2])
            return
        st = one(outs)
        objs.append(o)
    model = T('obj', MEF + 'Model', x.it.bump())
    x.it.models[MEF + 'Model::substitutions'] = lambda it, st, e, o, a, fr: V(
        st, T('list', *[T('ref', T('lvo', o)) for o in objs]))
    try:
        pd, c, outs = pdag_of(x, st, x.table['g'], on, ptr(model))
    finally:
        del x.it.models[MEF + 'Model::substitutions']
    where = x.p.loc(c)
    gates = dict(defs, **(ccf if on else {}))
    extra = [('imply', h, t) for h, src, t in subs if not src]
    f = ('and', defs['g'], *extra) if extra else defs['g']
    for s, k, v in outs:
        if k != 'v':
            (ctx.bad if k == 'exit' else ctx.undecided)('substitution', key, where, '%s %s' % (k, v))
            continue
        try:
            names = basic_events(x, s, pd)
            diff = compare(x, s, pd, names, f, gates)
            ctx.check(diff is None, 'function', key, where,
                      'the graph differs from the fault tree at %s' % diff)
            flags(ctx, x, s, pd, key, where)
            clean(ctx, x, s, pd, names, f, gates, key, where)
            collected(ctx, x, s, pd, names, [q for q in subs if q[1]], key, where)
        except (ArityError, Misnumbered) as err:
            ctx.bad('function', key, where, str(err))


def collected(ctx, x, s, pd, names, subs, key, where):
    start = first_index(x, s)
    got = []
    for o in x.items(s, x.get(s, pd, 'substitutions')):
        nums = []
        for n in ('hypothesis', 'source', 'target'):
            v = x.field(s, o, n)
            vs = [v] if is_c(v) else x.items(s, v)
            if not all(is_c(i) for i in vs):
                raise Unknown('substitution %s' % vs)
            vs = [cval(i) for i in vs]
            if any(i and not 0 <= i - start < len(names) for i in vs):
                raise Misnumbered('no basic event of a substitution: %s' % vs)
            nums.append(tuple(sorted(names[i - start] if i else 'true' for i in vs)))
        got.append(tuple(nums))
    want = []
    for h, src, t in subs:
        tt = ('true',) if t is True else (t,)
        alts = [(h,)] if isinstance(h, str) else [h[1:]] if h[0] == 'and' else [(n,) for n in h[1:]]
        want += [(tuple(sorted(alt)), tuple(sorted(src)), tt) for alt in alts]
    ctx.check(sorted(got) == sorted(want), 'substitution', key, where,
              'the substitutions are %s instead of %s' % (got, want))


# ------------------------------------------------------------------ operations on gates
class Bench:
    """A graph with opaque literals and gates over them."""

    def __init__(self, x):
        self.x = x
        st = load(x, {'g': ('or', 'a', 'b', 'c', 'd', 'g1', 'g2'), 'g1': ('and', 'e', 'f'),
                      'g2': ('and', 'e', 'f')}, {})
        self.pd, _, outs = pdag_of(x, st, x.table['g'], False)
        self.st = one(outs)
        root = root_of(x, self.st, self.pd)
        args = x.gate(self.st, root)[2]
        vs = [n for _, n in args if n.a[0].endswith('::Variable')]
        gs = [n for _, n in args if n.a[0].endswith('::Gate')]
        self.root = root
        self.lits = dict(zip('abcd', vs), p=gs[0], q=gs[1])
        self.name = {o: n for n, o in self.lits.items()}
        self.code = {n: v for v, n in x.ops.items()}
        c = [f for f in x.p.fns.values() if f['qn'] == CORE + 'Gate::Gate' and
             len(f['params']) == 2 and f.get('body') is not None]
        if not c:
            raise Broken('anchor vanished: constructor of gates')
        self.ctor = c[0]

    def call(self, st, o, name, args, param=None):
        f = self.x.method(CORE + 'Gate', name, len(args), param)
        return self.x.it.invoke(st, f, o, args)

    def new(self, st, f):
        """A gate (op, [k], literals...) -> state, object; literals are 'a', '-a', 'T', 'F' or
        gate objects with a sign ('+', obj)."""
        op, k, args = f[0], 0, f[1:]
        if op == 'atleast':
            k, args = f[1], f[2:]
        self.x.fresh()
        g = T('obj', CORE + 'Gate', self.x.it.bump())
        st = one(self.x.it.invoke(st, self.ctor, g, [C(self.code[op]), ptr(self.pd)]))
        if k:
            st = one(self.call(st, g, 'min_number', [C(k)]))
        for a in args:
            st = one(self.add(st, g, a))
        return st, g

    def node(self, a):
        if isinstance(a, tuple):
            return a[0] == '-', a[1]
        if a in 'TF':
            return a == 'F', 'const'
        return a[0] == '-', self.lits[a[-1]]

    def add(self, st, g, a):
        comp, o = self.node(a)
        if o == 'const':
            cst = self.x.field(st, self.pd, 'constant')
            return self.call(st, g, 'AddArg', [cst, C(comp)], 'Constant')
        return self.call(st, g, 'AddArg', [ptr(o), C(comp)],
                         'Gate>' if o.a[0].endswith('Gate') else 'Variable>')

    def index(self, st, a):
        comp, o = self.node(a)
        i = cval(self.x.field(st, o, 'index'))
        return -i if comp else i

    def table(self, st, g, fixed={}):
        """Values of the gate over all assignments of the literals."""
        out = []
        for vals in itertools.product((False, True), repeat=len(self.lits)):
            env = dict(zip(self.lits, vals), **fixed)
            memo = {o: env[n] for n, o in self.lits.items()}
            out.append(self.x.node_value(st, g, None, memo))
        return out

    def want(self, f, fixed={}):
        """Values of (op, [k], literals...), nested formulas allowed; literals may repeat."""
        def val(f, env):
            if isinstance(f, tuple):
                neg, f = f[0] == '-', f[1:] if f[0] == '-' else f
                op, k, args = f[0], 0, f[1:]
                if op == 'atleast':
                    k, args = f[1], f[2:]
                v = [val(a, env) for a in args]
                r = {'and': lambda: all(v), 'or': lambda: any(v), 'nand': lambda: not all(v),
                     'nor': lambda: not any(v), 'xor': lambda: sum(v) % 2 == 1,
                     'not': lambda: not v[0], 'null': lambda: v[0],
                     'atleast': lambda: sum(v) >= k}[op]()
                return r != neg
            if f in 'TF':
                return f == 'T'
            return env[f[-1]] != (f[0] == '-')
        out = []
        for vals in itertools.product((False, True), repeat=len(self.lits)):
            out.append(val(f, dict(zip(self.lits, vals), **fixed)))
        return out

    def parents(self, st, o):
        out = set()
        for p in self.x.items(st, self.x.get(st, o, 'parents')):
            i = self.x.it.read(st, T('lvf', p, 'first'))
            if not is_c(i):
                raise Unknown('parent %s' % i)
            out.add(cval(i))
        return out


def show(f):
    if isinstance(f, str):
        return f
    if f[0] == '-':
        return '-' + show(f[1:])
    return '%s(%s)' % (f[0] + (str(f[1]) if f[0] == 'atleast' else ''),
                       ','.join(show(a) for a in f[2 if f[0] == 'atleast' else 1:]))


SHAPES = [('and', 1), ('and', 2), ('and', 3), ('or', 1), ('or', 2), ('or', 3), ('nand', 1),
          ('nand', 2), ('nand', 3), ('nor', 1), ('nor', 2), ('nor', 3), ('xor', 1),
          ('not', 0), ('null', 0)] + [('atleast', k, n) for k in (2, 3, 4) for n in (2, 3, 4)
                                      if k <= n]


def shapes(minimum=0):
    """Gates before one more argument: (op, [k]) and literals."""
    for s in SHAPES:
        n = s[-1]
        if n < minimum:
            continue
        head = s[:-1]
        for lits in (('a', 'b', 'c', 'd'), ('-a', 'p', '-q', 'b'), ('p', '-a', '-b', 'q')):
            yield head, lits[:n]
            if not n:
                break


def neg(a):
    return {'T': 'F', 'F': 'T'}.get(a) or (a[1:] if a[0] == '-' else '-' + a)


def rewrite(ctx, x):
    b = Bench(x)
    for f in (adding, joining, coalescing, setting, negating, cloning, moving):
        try:
            f(ctx, b)
        except (Unknown, Budget) as err:
            ctx.undecided('operation', f.__name__, '', str(err))


def verdict(ctx, b, outs, g, want, key, where, fixed={}, dup=None):
    for s, k, v in limited(outs):
        if k == 'exit':
            ctx.bad('operation', key, where, 'an assertion fails: %s' % v)
            continue
        if k != 'v':
            ctx.undecided('operation', key, where, '%s: %s' % (k, v))
            continue
        try:
            got = b.table(s, g, fixed)
            ok = got == want
            if not ok:
                got = describe(b, got)
            ctx.check(ok, 'operation', key if ok else duplicate(dup, got) or
                      '%s=%s' % (key, got), where,
                      'the gate becomes %s' % got)
            links(ctx, b, s, g, key, where)
        except ArityError as err:
            ctx.bad('operation', key, where, 'malformed gate: %s' % err)
        except (Unknown, Budget) as err:
            ctx.undecided('operation', key, where, 'gate not resolved: %s' % err)


def duplicate(dup, got):
    """Name of the defect of a gate with a repeated argument, whatever the literals."""
    if dup and dup[2] in dup[1] and got in dup[1]:
        names = {l: n for l, n in zip([dup[2]] + [l for l in dup[1] if l != dup[2]], 'xyzw')}
        return 'repeated:%s(%s),x=%s' % (''.join(map(str, dup[0])), ','.join(
            sorted(names[l] for l in dup[1])), names[got])
    return None


def describe(b, got):
    for n in b.lits:
        for l in (n, '-' + n):
            if b.want(l) == got:
                return l
    return 'always' if all(got) else 'never' if not any(got) else \
        'bits' + '%x' % sum(1 << i for i, v in enumerate(got) if v)


def links(ctx, b, s, g, key, where):
    x = b.x
    gs = dict(x.gates(s, g))
    for o in list(b.lits.values()):
        gs.pop(o, None)
    bad = None
    idx = {cval(x.field(s, h, 'index')): h for h in gs}
    nodes = set(b.lits.values()) | {n for _, _, args in gs.values() for _, n in args
                                    if n != 'const'}
    for n in nodes:
        par = b.parents(s, n)
        for i, h in idx.items():
            has = any(m is n for _, m in gs[h][2])
            if has != (i in par):
                bad = '%s of %s is %s as a parent' % (
                    'an argument' if has else 'no argument', gs[h][0],
                    'missing' if has else 'kept')
    ctx.check(bad is None, 'links', key, where, bad or '')


def adding(ctx, b):
    x = b.x
    where = x.p.loc(x.method(CORE + 'Gate', 'AddArg', 2, 'Variable>'))
    for head, lits in shapes():
        news = ['T', 'F'] + (['d', '-q'] if len(lits) < 4 else []) + list(lits) + \
            [neg(l) for l in lits]
        for a in news:
            op = head[0]
            if op in ('xor', 'not', 'null') and a in 'TF' and len(lits) != (op == 'xor'):
                continue
            if a[-1] in [l[-1] for l in lits] and a in ('d', '-q') and a not in lits:
                continue
            st, g = b.new(b.st.copy(), head + lits)
            key = 'add:%s+%s' % (show(head + lits), a)
            verdict(ctx, b, b.add(st, g, a), g, b.want(head + lits + (a,)), key, where,
                    dup=(head, lits, a))


def joining(ctx, b):
    x = b.x
    m = x.method(CORE + 'Gate', 'JoinNullGate', 1)
    for head, lits in shapes():
        inner = ['T', 'F', 'd' if 'd' not in lits else '-q', '-q' if len(lits) < 2 else 'p']
        inner += [l for l in lits[:2]] + [neg(l) for l in lits[:2]]
        for a in dict.fromkeys(inner):
            if a[-1] in [l[-1] for l in lits] and a not in lits and neg(a) not in lits:
                continue
            for sign in '+-':
                st, n = b.new(b.st.copy(), ('null', a))
                st, g = b.new(st, head + lits + ((sign, n),))
                i = b.index(st, (sign, n))
                key = 'join:%s+%snull(%s)' % (show(head + lits), sign, a)
                outs = x.it.invoke(st, m, g, [C(i)])
                l = a if sign == '+' else neg(a)
                verdict(ctx, b, outs, g, b.want(head + lits + (l,)), key, x.p.loc(m),
                        dup=(head, lits, l))


def coalescing(ctx, b):
    x = b.x
    m = x.method(CORE + 'Gate', 'CoalesceGate', 1)
    for outer, inner in (('and', 'and'), ('or', 'or'), ('nand', 'and'), ('nor', 'or')):
        for rest in (('a',), ('-a', 'p'), ('a', 'b', '-q')):
            for sub in (('c', 'd'), ('a', 'c'), ('-a', 'c'), ('p', '-b'), ('-p', 'q'),
                        ('c', '-d', 'q')):
                st, n = b.new(b.st.copy(), (inner,) + sub)
                st, g = b.new(st, (outer,) + rest + (('+', n),))
                key = 'coalesce:%s(%s)' % (show((outer,) + rest), show((inner,) + sub))
                verdict(ctx, b, x.it.invoke(st, m, g, [ptr(n)]), g,
                        b.want((outer,) + rest + ((inner,) + sub,)), key, x.p.loc(m))


def setting(ctx, b):
    x = b.x
    m = x.method(CORE + 'Gate', 'ProcessConstantArg', 2)
    for head, lits in shapes():
        for a in ('d', '-q') if len(lits) < 4 else ():
            if a[-1] in [l[-1] for l in lits]:
                continue
            for v in (True, False):
                st, g = b.new(b.st.copy(), head + lits + (a,))
                key = 'set:%s:%s=%d' % (show(head + lits + (a,)), a[-1], v)
                verdict(ctx, b, x.it.invoke(st, m, g, [ptr(b.node(a)[1]), C(v)]), g,
                        b.want(head + lits + ('T' if v != (a[0] == '-') else 'F',)),
                        key, x.p.loc(m))


def full():
    for head, lits in shapes():
        if head[0] in ('not', 'null'):
            lits = ('-p',)
        elif head[0] in ('atleast', 'xor') or len(lits) == 1:
            lits = lits + tuple(a for a in ('-d', '-q', 'c') if a[-1] not in
                                [l[-1] for l in lits])[:1]
        if len(lits) <= 4:
            yield head, lits


def negating(ctx, b):
    x = b.x
    m = x.method(CORE + 'Gate', 'NegateArgs')
    one_ = x.method(CORE + 'Gate', 'NegateArg', 1)
    for head, lits in full():
        st, g = b.new(b.st.copy(), head + lits)
        key = show(head + lits)
        verdict(ctx, b, x.it.invoke(st.copy(), m, g, []), g,
                b.want(head + tuple(neg(l) for l in lits)), 'negate:' + key, x.p.loc(m))
        for j in (0, len(lits) - 1):
            new = lits[:j] + (neg(lits[j]),) + lits[j + 1:]
            verdict(ctx, b, x.it.invoke(st.copy(), one_, g, [C(b.index(st, lits[j]))]), g,
                    b.want(head + new), 'negate:%s:%s' % (key, lits[j]), x.p.loc(one_))


def cloning(ctx, b):
    x = b.x
    m = x.method(CORE + 'Gate', 'Clone')
    for head, lits in full():
        if head[0] == 'null':
            continue
        st, g = b.new(b.st.copy(), head + lits)
        key = 'clone:' + show(head + lits)
        want = b.want(head + lits)
        for s, k, v in x.it.invoke(st, m, g, []):
            o = x.object(s, v) if k == 'v' else None
            if o is None or o is g:
                (ctx.bad if k == 'exit' or o is g else ctx.undecided)(
                    'operation', key, x.p.loc(m), 'the clone is %s' % v)
                continue
            verdict(ctx, b, [(s, 'v', VOID)], o, want, key, x.p.loc(m))
            verdict(ctx, b, [(s, 'v', VOID)], g, want, key + ':original', x.p.loc(m))


def moving(ctx, b):
    x = b.x
    for name in ('TransferArg', 'ShareArg'):
        m = x.method(CORE + 'Gate', name, 2)
        for head, lits in full():
            if len(lits) < 3 or head[0] == 'atleast':
                continue
            for l in lits[:2]:
                for to in (('and',), ('or', 'd') if 'd' not in str(lits) else ('or', 'q')):
                    if to[-1] in [q[-1] for q in lits]:
                        continue
                    st, r = b.new(b.st.copy(), to)
                    st, g = b.new(st, head + lits)
                    key = '%s:%s->%s' % (name, show(head + lits) + ':' + l, show(to))
                    left = tuple(q for q in lits if q != l) if name == 'TransferArg' else lits
                    for s, k, v in x.it.invoke(st, m, g, [C(b.index(st, l)), ptr(r)]):
                        if k != 'v':
                            (ctx.bad if k == 'exit' else ctx.undecided)(
                                'operation', key, x.p.loc(m), '%s' % v)
                            continue
                        verdict(ctx, b, [(s, 'v', VOID)], r, b.want(to + (l,)), key, x.p.loc(m))
                        verdict(ctx, b, [(s, 'v', VOID)], g, b.want(head + left),
                                key + ':rest', x.p.loc(m))
