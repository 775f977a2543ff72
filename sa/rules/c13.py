"""Abstract interpretation of the whole chain from event trees in XML to the sequence gates:
the Initializer loads event trees that combine every construct (forks, named branches, rules,
blocks, conditions on initiating and functional events, house events set on a path, links,
sequences met on several paths), EventTreeAnalysis walks them, and the formula or expression of
every sequence gate is compared over all assignments of the basic events with an independent
walk of the written trees."""
import itertools

import facts
from docmodel import E
from interp import C, Budget, is_c, cval, T
from loadmodel import *

ASSUMPTIONS = ['event trees with a few paths stand for larger ones: the walk keeps no state other '
               'than the collected path and the context',
               'the expressions collected are constants; their arithmetic is decided by B10']
ETA = CORE + 'EventTreeAnalysis'


# ---- the written trees.  instruction: ('f', formula) ('e', number) ('set', house, state)
#  ('if', test, then, else or None) ('block', instrs) ('rule', name) ('link', tree)
# test: ('ie', name) ('fe', name, state) ('not', test) True/False
# target: ('seq', name) ('branch', name) ('fork', fe, [(state, instrs, target)])
def xml_formula(f):
    if isinstance(f, bool):
        return E('constant', value=f)
    if isinstance(f, str):
        return E({'g': 'gate', 'h': 'house-event'}.get(f[0], 'basic-event'), name=f)
    return E(f[0], *[xml_formula(a) for a in f[1:]])


def xml_test(t):
    if isinstance(t, bool):
        return E('bool', value=t)
    if t[0] == 'ie':
        return E('test-initiating-event', name=t[1])
    if t[0] == 'fe':
        return E('test-functional-event', name=t[1], state=t[2])
    return E('not', xml_test(t[1]))


def xml_instr(i):
    k = i[0]
    if k == 'f':
        return E('collect-formula', xml_formula(i[1]))
    if k == 'e':
        return E('collect-expression', E('float', value=i[1]))
    if k == 'set':
        return E('set-house-event', E('constant', value=i[2]), name=i[1])
    if k == 'if':
        return E('if', xml_test(i[1]), xml_instr(i[2]), *([xml_instr(i[3])] if i[3] else []))
    if k == 'block':
        return E('block', *[xml_instr(x) for x in i[1]])
    if k == 'rule':
        return E('rule', name=i[1])
    return E('event-tree', name=i[1])


def xml_target(t):
    if t[0] == 'seq':
        return E('sequence', name=t[1])
    if t[0] == 'branch':
        return E('branch', name=t[1])
    return E('fork', *[E('path', *[xml_instr(i) for i in ins], xml_target(x), state=s)
                       for s, ins, x in t[2]], functional_event=t[1])


def xml_doc(d):
    nodes = [E('define-initiating-event', name=n, event_tree=t) for n, t in d['ie'].items()]
    for n, ins in d.get('rules', {}).items():
        nodes.append(E('define-rule', *[xml_instr(i) for i in ins], name=n))
    for n, t in d['trees'].items():
        kids = [E('define-functional-event', name=x) for x in t.get('fe', ())]
        kids += [E('define-sequence', *[xml_instr(i) for i in ins], name=x)
                 for x, ins in t['seq'].items()]
        kids += [E('define-branch', *[xml_instr(i) for i in ins], xml_target(x), name=b)
                 for b, (ins, x) in t.get('branches', {}).items()]
        ins, x = t['start']
        kids.append(E('initial-state', *[xml_instr(i) for i in ins], xml_target(x)))
        nodes.append(E('define-event-tree', *kids, name=n))
    nodes.append(E('define-fault-tree', *[E('define-gate', xml_formula(f), name=g)
                                          for g, f in GATES.items()], name='FT'))
    nodes.append(E('model-data', *[E('define-basic-event', E('float', value='0.1'), name=b)
                                   for b in 'abc'],
                   *[E('define-house-event', E('constant', value=v), name=h)
                     for h, v in HOUSES.items()]))
    return E('opsa-mef', *nodes)


GATES = {'g': ('or', 'a', 'h1'), 'g2': ('and', 'g', ('not', 'h2'), 'b'),
         'g3': ('and', 'g', 'b'), 'g4': ('or', ('not', 'g3'), 'c')}
HOUSES = {'h1': False, 'h2': True}


# ---- the independent walk
def walk(d, ie):
    """sequence -> [(formulas with the house events as set, expressions)]"""
    out = {}

    def test(t, fes):
        if isinstance(t, bool):
            return t
        if t[0] == 'ie':
            return t[1] == ie
        if t[0] == 'fe':
            return fes.get(t[1]) == t[2]
        return not test(t[1], fes)

    def instr(i, path, fes, links):
        fs, es, hs = path
        k = i[0]
        if k == 'f':
            fs.append((i[1], dict(hs)))
        elif k == 'e':
            es.append(float(i[1]))
        elif k == 'set':
            hs[i[1]] = i[2] == 'true'
        elif k == 'if':
            b = i[2] if test(i[1], fes) else i[3]
            if b:
                instr(b, path, fes, links)
        elif k in ('block', 'rule'):
            for x in i[1] if k == 'block' else d['rules'][i[1]]:
                instr(x, path, fes, links)
        else:
            links.append(1)
            copy = (list(fs), list(es), dict(hs))
            ins, x = d['trees'][i[1]]['start']
            branch(i[1], ins, x, copy, {})

    def branch(tree, ins, target, path, fes):
        for i in ins:
            instr(i, path, fes, [])
        t = d['trees'][tree]
        if target[0] == 'branch':
            branch(tree, *t['branches'][target[1]], path, fes)
        elif target[0] == 'fork':
            for s, ins2, x in target[2]:
                branch(tree, ins2, x, (list(path[0]), list(path[1]), dict(path[2])),
                       {**fes, target[1]: s})
        else:
            links = []
            for i in t['seq'][target[1]]:
                instr(i, path, fes, links)
            if not links:
                out.setdefault(target[1], []).append((path[0], path[1]))
    t = d['ie'][ie]
    branch(t, *d['trees'][t]['start'], ([], [], {}), {})
    return out


def formula(f, env, hs):
    if isinstance(f, bool):
        return f
    if isinstance(f, str):
        if f in GATES:
            return formula(GATES[f], env, hs)
        return hs.get(f, HOUSES[f]) if f in HOUSES else env[f]
    v = [formula(x, env, hs) for x in f[1:]]
    return {'and': all, 'or': any, 'not': lambda x: not x[0]}[f[0]](v)


# ---- scenarios
S = lambda n: ('seq', n)
F = lambda f: ('f', f)
X = lambda v: ('e', v)
SET = lambda h, v=True: ('set', h, str(v).lower())


def fork(fe, *paths):
    return ('fork', fe, [(s, ins, t) for s, ins, t in paths])


def one(start, seq=None, branches=None, fe=('F1', 'F2'), rules=None, more=None, ies=('I',)):
    t = {'E': {'fe': fe, 'seq': seq or {'S': [], 'T': []}, 'branches': branches or {},
               'start': start}}
    t.update(more or {})
    return {'ie': {i: 'E' for i in ies}, 'trees': t, 'rules': rules or {}}


def scenarios():
    out = {}
    fs = ['a', 'g', ('and', 'a', 'b'), ('not', 'a'), 'h1', 'h2', 'g2', True, False,
          ('or', 'g2', ('not', 'h1')), 'g3', 'g4', ('and', 'g4', ('not', 'h1'))]
    for i, f in enumerate(fs):
        out['formula%d' % i] = one(([F(f)], S('S')))
        for h in ('h1', 'h2'):
            for v in (True, False):
                out['set-%s-%s-formula%d' % (h, v, i)] = one(([SET(h, v), F(f)], S('S')))
    out['set after'] = one(([F('g'), SET('h1')], S('S')))
    out['set between'] = one(([F('g'), SET('h1'), F('g2')], S('S')))
    out['set twice'] = one(([SET('h1'), F('g'), SET('h1', False), F('g2')], S('S')))
    out['set both'] = one(([SET('h1'), SET('h2', False), F('g2')], S('S')))
    out['nothing'] = one(([], S('S')))
    out['two formulas'] = one(([F('a'), F('b')], S('S')))
    out['three formulas'] = one(([F('a'), F('b'), F('c')], S('S')))
    out['same formula twice'] = one(([F('a'), F('a')], S('S')))
    two = lambda a, b, ta='S', tb='T', pre=(): one(
        (list(pre), fork('F1', ('yes', a, S(ta)), ('no', b, S(tb)))))
    out['fork'] = two([F('a')], [F(('not', 'a'))])
    out['fork common'] = two([F('a')], [F('b')], pre=[F('c')])
    out['fork join'] = two([F('a')], [F('b')], 'S', 'S')
    out['fork join two'] = two([F('a'), F('c')], [F('b')], 'S', 'S')
    out['fork join both two'] = two([F('a'), F('c')], [F('b'), F(('not', 'c'))], 'S', 'S')
    out['fork join empty first'] = two([], [F('b')], 'S', 'S')
    out['fork join empty second'] = two([F('a')], [], 'S', 'S')
    out['fork join both empty'] = two([], [], 'S', 'S')
    out['fork set one'] = two([SET('h1'), F('g')], [F('g')])
    out['fork set other'] = two([F('g')], [SET('h1'), F('g')])
    out['fork set one join'] = two([SET('h1'), F('g2')], [F('g2')], 'S', 'S')
    out['fork set before'] = two([F('g')], [SET('h1', False), F('g')], pre=[SET('h1')])
    out['expression'] = one(([X('0.5')], S('S')))
    out['expressions'] = one(([X('0.5'), X('0.25')], S('S')))
    out['expressions three'] = one(([X('0.5'), X('0.25'), X('0.125')], S('S')))
    out['fork expressions'] = two([X('0.5')], [X('0.25')], pre=[X('0.75')])
    out['fork expressions join'] = two([X('0.5')], [X('0.25')], 'S', 'S')
    out['fork expressions join products'] = two([X('0.5'), X('0.75')], [X('0.25')], 'S', 'S',
                                                pre=[X('0.125')])
    out['fork expressions empty'] = two([X('0.5')], [], 'S', 'S')
    deep = fork('F1', ('yes', [F('a')], fork('F2', ('yes', [F('b')], S('S')),
                                             ('no', [F(('not', 'b'))], S('T')))),
                ('no', [F(('not', 'a'))], S('T')))
    out['nested forks'] = one(([], deep))
    out['named branch'] = one(
        ([], fork('F1', ('yes', [F('a')], ('branch', 'B')), ('no', [F('b')], ('branch', 'B')))),
        branches={'B': ([F('c')], fork('F2', ('x', [F('g')], S('S')), ('y', [], S('T'))))})
    out['chained branches'] = one(([F('a')], ('branch', 'B')), branches={
        'B': ([F('b')], ('branch', 'C')), 'C': ([F('c')], S('S'))})
    out['sequence instructions'] = one(
        ([], fork('F1', ('yes', [F('a')], S('S')), ('no', [F('b')], S('T')))),
        seq={'S': [F('c')], 'T': [SET('h1'), F('g')]})
    out['sequence set joined'] = one(
        ([], fork('F1', ('yes', [F('a')], S('S')), ('no', [F('b')], S('S')))),
        seq={'S': [SET('h1'), F('g')], 'T': []})
    for n, t in (('fe yes', ('fe', 'F1', 'yes')), ('fe no', ('fe', 'F1', 'no')),
                 ('not fe', ('not', ('fe', 'F1', 'yes'))), ('other fe', ('fe', 'F2', 'yes')),
                 ('ie', ('ie', 'I')), ('other ie', ('ie', 'J')), ('true', True),
                 ('false', False)):
        for e in (None, F('c')):
            ins = [('if', t, F('b'), e)]
            out['if %s %s' % (n, bool(e))] = one(
                (ins, fork('F1', ('yes', [F('a')] + ins, S('S')), ('no', ins, S('T')))),
                ies=('I', 'J'))
        out['sequence if %s' % n] = one(
            ([], fork('F1', ('yes', [F('a')], S('S')), ('no', [F('a')], S('S')))),
            seq={'S': [('if', t, F('b'), F('c'))], 'T': []}, ies=('J', 'I'))
    out['if nested fork'] = one(
        ([], fork('F1', ('yes', [], fork('F2', ('yes', [], S('S')), ('no', [], S('T')))),
                  ('no', [], S('T')))),
        seq={'S': [('if', ('fe', 'F1', 'yes'), ('if', ('fe', 'F2', 'yes'), F('a'), F('b')), F('c'))],
             'T': [('if', ('fe', 'F2', 'no'), F('a'), F('b'))]})
    out['block'] = one(([('block', [F('a'), SET('h1'), F('g')])], S('S')))
    out['if block'] = one(([('if', ('ie', 'I'), ('block', [F('a'), F('b')]), ('block', [F('c')]))],
                           S('S')), ies=('I', 'J'))
    out['rule'] = one(([('rule', 'R')], fork('F1', ('yes', [('rule', 'R')], S('S')),
                                             ('no', [F('b')], S('T')))),
                      rules={'R': [('if', ('fe', 'F1', 'yes'), F('a'), F('c')), ('rule', 'Q')],
                             'Q': [SET('h2', False), F('g2')]})
    other = lambda **k: {'L': dict({'fe': ('F1',), 'seq': {'U': [], 'V': []},
                                    'start': ([], fork('F1', ('yes', [F('b')], S('U')),
                                                       ('no', [F('c')], S('V'))))}, **k)}
    link = lambda seq, more, **k: one(
        ([SET('h1')] if k.get('set') else [],
         fork('F1', ('yes', [F('a')], S('S')), ('no', [F(('not', 'a'))], S('T')))),
        seq=seq, more=more)
    out['link'] = link({'S': [('link', 'L')], 'T': []}, other())
    out['link both'] = link({'S': [('link', 'L')], 'T': [('link', 'L')]}, other())
    out['link collects'] = link({'S': [F('g'), ('link', 'L')], 'T': [F('c')]}, other())
    out['link keeps houses'] = link({'S': [SET('h1'), ('link', 'L')], 'T': []}, other(
        start=([F('g')], S('U'))), set=1)
    out['link own events'] = link({'S': [('link', 'L')], 'T': []}, other(
        seq={'U': [('if', ('fe', 'F1', 'yes'), F('g'), F('c'))],
             'V': [('if', ('fe', 'F2', 'yes'), F('g'), F('c'))]}))
    out['link back to state'] = link(
        {'S': [('link', 'L'), ('if', ('fe', 'F1', 'yes'), ('link', 'M'), None)], 'T': []},
        {**other(), 'M': {'seq': {'W': []}, 'start': ([F('c')], S('W'))}})
    out['link rule'] = dict(link({'S': [('rule', 'R')], 'T': []}, other()),
                            rules={'R': [('link', 'L')]})
    out['link conditional'] = dict(link(
        {'S': [('if', ('fe', 'F1', 'yes'), ('link', 'L'), None)], 'T': [
            ('if', ('fe', 'F1', 'yes'), ('link', 'L'), None)]}, other()))
    out['link restores events'] = one(
        ([], fork('F1', ('yes', [], fork('F2', ('x', [F('a')], S('S')), ('y', [], S('T')))),
                  ('no', [F('b')], S('T')))),
        seq={'S': [('link', 'L')], 'T': [('if', ('fe', 'F1', 'yes'), F('g'), F('c'))]},
        more=other())
    out['link keeps initiating event'] = dict(link(
        {'S': [('link', 'L')], 'T': []}, other(start=(
            [('if', ('ie', 'I'), F('g'), F('c'))], S('U')))), ie={'I': 'E', 'J': 'E', 'K': 'L'})
    out['link expressions'] = one(
        ([X('0.5')], fork('F1', ('yes', [X('0.25')], S('S')), ('no', [X('0.75')], S('T')))),
        seq={'S': [('link', 'L')], 'T': []}, more={'L': {
            'fe': ('F1',), 'seq': {'U': [], 'V': []}, 'start': (
                [], fork('F1', ('yes', [X('0.125')], S('U')), ('no', [X('0.375')], S('V'))))}})
    out['link chain'] = link({'S': [('link', 'L')], 'T': []}, {
        **other(seq={'U': [('link', 'M')], 'V': []}),
        'M': {'seq': {'W': []}, 'start': ([F('g')], S('W'))}})
    return out


def run(ctx):
    p = ctx.prog(*[t for t in TUS])
    ctx.rule('sequences', 'exactly the sequences reached by paths without links are reported, '
             'each once')
    ctx.rule('formula', 'a sequence is the disjunction over its paths of the conjunction of what '
             'they collect, with house events as set before on the path')
    ctx.rule('expression', 'an expression-only sequence is the sum over its paths of the products '
             'of the collected expressions')
    L = Loader(p)
    for n, d in scenarios().items():
        try:
            scenario(ctx, L, n, d)
        except (Unknown, Budget) as e:
            ctx.undecided('sequences', n.replace(' ', '-'), ETA, str(e) or 'too many paths')
    ctx.floor('sequences', 60)
    ctx.floor('formula', 60)


def scenario(ctx, L, name, d):
    key = name.replace(' ', '-')
    outs = L.load(xml_doc(d))
    if len(outs) != 1 or outs[0][1] != 'v':
        raise Unknown('the model is not loaded: %s' % [(o[1], str(o[2])[:150]) for o in outs[:2]])
    base = outs[0][0]
    m = L.model(base)
    ies = L.table(base, m, 'initiating_events')
    cts = [f for f in L.p.fns.values() if f['kind'] == 'ctor' and f.get('cls') == ETA and
           len(f['params']) == 3 and f.get('body') is not None]
    fn = [f for f in L.p.find(ETA + '::Analyze') if f.get('body')]
    if not cts or not fn:
        raise facts.Broken('anchor vanished: EventTreeAnalysis')
    ctx.fn(fn[0], cts[0])
    where = '%s:%s %s' % (fn[0]['rel'], fn[0]['line'], fn[0]['qn'].split('(')[0])
    st = base
    for ie in d['ie']:
        # one after another on the same model: the walks leave nothing behind
        o = T('obj', ETA, L.it.bump())
        s = st
        for f, args in ((cts[0], [T('ref', T('lvo', ies[ie])), T('ref', T('lvo', settings(L))),
                                  L.get(s, m, 'context')]), (fn[0], [])):
            outs = L.it.invoke(s, f, o, args)
            if len(outs) != 1:
                raise Unknown('%d outcomes of the walk' % len(outs))
            if outs[0][1] != 'v':
                ctx.bad('sequences', '%s:%s' % (key, ie), where, 'the walk ends with %s %s' % (
                    outs[0][1], str(outs[0][2])[:200]))
                return
            s = outs[0][0]
        st = s
        judge(ctx, L, st, o, d, ie, '%s:%s' % (key, ie), where)


def settings(L):
    return L.settings


def judge(ctx, L, st, o, d, ie, key, where):
    want = walk(d, ie)
    got = {}
    twice = []
    for r in L.items(st, L.get(st, o, 'sequences')):
        q = L.obj(st, L.it.read(st, T('lvf', r, 'sequence')))
        n = L.const(st, q, 'name')
        if n in got:
            twice.append(n)
        x = L.it.read(st, T('lvf', r, 'is_expression_only'))
        got[n] = (L.obj(st, L.it.read(st, T('lvf', r, 'gate'))), x)
    ctx.check(not twice and set(got) == set(want), 'sequences', key, where,
              'sequences reported %s%s, reached %s' % (
                  sorted(got), ' (twice: %s)' % twice if twice else '', sorted(want)))
    for n in sorted(set(want) & set(got)):
        paths, (g, x) = want[n], got[n]
        exprs = any(e for f, e in paths) and all(f or e for f, e in paths)
        if not is_c(x):
            raise Unknown('kind of the sequence')
        if exprs:
            v = sum(product(e) for f, e in paths)
            p = expression(L, st, g)
            ctx.check(bool(cval(x)) and abs(p - v) < 1e-12, 'expression', '%s:%s' % (key, n),
                      where, 'the probability of sequence %s is %s%s, expected %s' % (
                          n, p, '' if cval(x) else ' but not known as expression-only', v))
            continue
        if cval(x):
            ctx.bad('formula', '%s:%s' % (key, n), where,
                    'sequence %s counts as expression-only' % n)
            continue
        diff = None
        for bits in itertools.product((0, 1), repeat=3):
            env = dict(zip('abc', map(bool, bits)))
            w = any(all(formula(f, env, hs) for f, hs in fs) for fs, es in paths)
            if gate(L, st, g, env, 0) != w:
                diff = 'sequence %s is %s for %s, expected %s' % (n, not w, env, w)
                break
        ctx.check(diff is None, 'formula', '%s:%s' % (key, n), where, diff or '')


def product(xs):
    r = 1.0
    for x in xs:
        r *= x
    return r


def arguments(L, st, fo):
    out = []
    for a in L.items(st, L.get(st, fo, 'args')):
        c = L.it.read(st, T('lvf', a, 'complement'))
        if not is_c(c):
            raise Unknown('complement: %s' % c)
        out.append((bool(cval(c)), L.event(st, L.it.read(st, T('lvf', a, 'event')))))
    return out


def house(L, st, o):
    if o.op == 'lvg':
        n = str(o.a[0])
        return True if 'kTrue' in n else False if 'kFalse' in n else None
    if o.op == 'obj' and o.a[0].endswith('::HouseEvent'):
        return bool(L.const(st, o, 'state'))
    return None


def connective(L, st, fo):
    v = L.get(st, fo, 'connective')
    if not is_c(v):
        raise Unknown('connective')
    for en in L.p.enums.values():
        if en['qn'] == MEF + 'Connective':
            for x in en['enumerators']:
                if x['v'] == cval(v):
                    return x['name'][1:].lower()
    raise Unknown('connective %s' % v)


def gate(L, st, g, env, depth):
    if depth > 20:
        raise Unknown('cyclic gates')
    fo = L.obj(st, L.get(st, g, 'formula'))
    vals = []
    for c, o in arguments(L, st, fo):
        v = house(L, st, o)
        if v is None:
            if o.op != 'obj':
                raise Unknown('argument %s' % str(o)[:80])
            v = gate(L, st, o, env, depth + 1) if o.a[0].endswith('::Gate') else \
                env[L.const(st, o, 'name')]
        vals.append(v != c)
    op = connective(L, st, fo)
    return {'and': all, 'or': any, 'null': lambda v: v[0], 'not': lambda v: not v[0],
            'nor': lambda v: not any(v), 'nand': lambda v: not all(v)}[op](vals)


def expression(L, st, g):
    fo = L.obj(st, L.get(st, g, 'formula'))
    args = arguments(L, st, fo)
    if connective(L, st, fo) != 'null' or len(args) != 1 or args[0][0] or \
            args[0][1].op != 'obj' or not args[0][1].a[0].endswith('::BasicEvent'):
        raise Unknown('gate of an expression-only sequence')
    return float(L.const(st, args[0][1], 'p'))
