"""Abstract interpretation of loading models with two definitions of one name: every kind of
element, in every pair of places (model data, fault trees, nested and private components) and
roles.  An independent statement of the identifiers (name for public elements, full path for
private ones; names unique in a container) tells which models must be rejected as duplicates
and which must be accepted, and where the rejection must point."""
import itertools

from docs import *
from interp import T
from loadmodel import *

ASSUMPTIONS = ['the identifiers depend on the kind, role and containers of a definition only']
EVENTS = ('gate', 'basic', 'house', 'member')
SPACE = dict({k: 'event' for k in EVENTS}, param='parameter', group='group')


def build(kind, name, role, tag):
    """Definition of a name; `tag` keeps the rest of it unique."""
    k = {'role': role} if role else {}
    if kind == 'gate':
        return gate(name, **k)
    if kind == 'basic':
        return be(name, **k)
    if kind == 'house':
        return house(name, **k)
    if kind == 'param':
        return par(name, **k)
    if kind == 'group':
        return ccf(name, ['m1' + tag, 'm2' + tag], **k)
    return ccf('grp' + tag, [name, 'm' + tag], **k)


PLACES = {          # place: (base path, role of the container)
    'data': ('', 'public'), 'top': ('', 'public'), 'A': ('A', 'public'), 'B': ('B', 'public'),
    'A.C': ('A.C', 'public'), 'A.P': ('A.P', 'private'), 'A.P.D': ('A.P.D', 'private'),
    'A.P.U': ('A.P.U', 'public')}


def document(defs):
    """defs: [(place, node)] in order."""
    at = lambda p: [n for q, n in defs if q == p]
    kids = []
    for root in ('A', 'B'):
        inner = at(root)
        if root == 'A':
            p = at('A.P')
            if at('A.P.D'):
                p = p + [comp('D', *at('A.P.D'))]
            if at('A.P.U'):
                p = p + [comp('U', *at('A.P.U'), role='public')]
            if at('A.C'):
                inner = inner + [comp('C', *at('A.C'))]
            if p:
                inner = inner + [comp('P', *p, role='private')]
        if inner:
            kids.append(ft(root, *inner))
    return mef(*kids, *at('top'), data(be('z0'), *at('data')))


def ident(place, role, name):
    base, parent = PLACES[place]
    return name if (role or parent) == 'public' or not base else base + '.' + name


def collide(a, b):
    """a, b: (kind, place, role) of the same name."""
    if SPACE[a[0]] != SPACE[b[0]]:
        return False
    return a[1] == b[1] or ident(a[1], a[2], 'n') == ident(b[1], b[2], 'n')


def allowed(kind, place):
    if place == 'data':
        return kind in ('basic', 'house', 'param')
    if place == 'top':
        return kind in ('member', 'group')
    return True


def pairs(thorough):
    places = [('A', 'A'), ('A', 'B'), ('A', 'data'), ('A', 'A.C'), ('A.C', 'A.P'), ('A.P', 'A.P'),
              ('A.P', 'A.P.D'), ('A.P.U', 'B'), ('A.P.U', 'A.P'), ('data', 'data'), ('A', 'top'),
              ('top', 'data'), ('top', 'top')]
    roles = [(None, None), ('private', None), (None, 'private'), ('private', 'private'),
             ('public', None)]
    kinds = list(itertools.product(EVENTS, EVENTS)) + [
        ('param', 'param'), ('group', 'group'), ('param', 'basic'), ('gate', 'param'),
        ('group', 'member'), ('group', 'gate'), ('param', 'group')]
    for (p, q), (k, l), (r, s) in itertools.product(places, kinds, roles):
        if 'data' in (p, q) and not ((p != 'data' or allowed(k, p)) and allowed(l, q)):
            continue
        if not (allowed(k, p) and allowed(l, q)):
            continue
        if (p in ('data', 'top') and r == 'private') or (q in ('data', 'top') and s == 'private'):
            continue    # no containers for private elements
        if not thorough and (r, s) == ('public', None) and (p, q) not in (
                ('A.P', 'A.P'), ('A.C', 'A.P'), ('A.P', 'A.P.D')):
            continue
        yield (k, p, r), (l, q, s)


E2 = lambda *kids: mef(*kids, data(be('z0'), be('z1')))


def others():
    """key: (documents, duplicate or not, blamed element)"""
    o = {}
    seq = lambda n: E('define-sequence', name=n)
    fe = lambda n: E('define-functional-event', name=n)
    br = lambda n, t: E('define-branch', E('sequence', name=t), name=n)
    rule = lambda n: E('define-rule', E('collect-formula', E('basic-event', name='z0')), name=n)
    ali = lambda n: E('define-alignment', E('define-phase', name='ph', time_fraction='1'), name=n)
    sub = lambda n: E('define-substitution', E('hypothesis', E('or', E('basic-event', name='z0'), E('basic-event', name='z1'))),
                      E('target', E('constant', value='false')), name=n)
    ie = lambda n: E('define-initiating-event', name=n)
    for n, mk in (('fault tree', lambda x: ft(x, gate('g' + x + str(next(uid))))),
                  ('event tree', lambda x: et(x, seq('s' + str(next(uid))), start=(
                      E('sequence', name='common'),))),
                  ('initiating event', ie), ('rule', rule), ('alignment', ali),
                  ('substitution', sub)):
        for same in (True, False):
            a, b = mk('X'), mk('X' if same else 'Y')
            common = et('W', seq('common'), start=(E('sequence', name='common'),))
            o['%s %s' % (n, 'twice' if same else 'other')] = ([E2(common, a, b)], same, b)
            a, b = mk('X'), mk('X' if same else 'Y')
            common = et('W', seq('common'), start=(E('sequence', name='common'),))
            o['%s %s in files' % (n, 'twice' if same else 'other')] = (
                [E2(common, a), mef(b)], same, b)
    for same in (True, False):
        t = 'twice' if same else 'other'
        n2 = 'n' if same else 'm'
        a, b = seq('n'), seq(n2)
        o['sequence in a tree ' + t] = ([E2(et('T', a, b))], same, b)
        a, b = seq('n'), seq(n2)
        o['sequence in two trees ' + t] = ([E2(et('T', a), et('U', b))], same, b)
        b = fe(n2)
        o['functional event ' + t] = ([E2(et('T', fe('n'), b))], same, b)
        o['functional event in two trees ' + t] = ([E2(et('T', fe('n')), et('U', fe(n2)))], False,
                                                   None)
        b = br(n2, 'T_end')
        o['branch ' + t] = ([E2(et('T', br('n', 'T_end'), b))], same, b)
        o['branch in two trees ' + t] = ([E2(et('T', br('n', 'T_end')), et('U', br(n2, 'U_end')))],
                                         False, None)
        o['branch as functional event ' + t] = ([E2(et('T', fe(n2), br('n', 'T_end')))], False,
                                                None)
        b = comp(n2, gate('g2'))
        o['component ' + t] = ([E2(ft('A', comp('n', gate('g1')), b))], same, b)
        b = comp(n2, gate('g2'))
        o['nested component ' + t] = ([E2(ft('A', comp('n', comp('n', gate('g1')), b)))], same, b) \
            if same else ([E2(ft('A', comp('n', comp('n', gate('g1')), b)))], False, None)
        o['component in two trees ' + t] = ([E2(ft('A', comp('n', gate('g1'))),
                                                ft('B', comp(n2, gate('g2'))))], False, None)
        o['component as event ' + t] = ([E2(ft('A', comp('n', gate('g1')), gate(n2)))], False, None)
        o['fault tree as gate ' + t] = ([E2(ft('n', gate(n2)))], False, None)
        b = E('basic-event', name=n2)
        g = ccf('grp', [])
        g.children[0].children = [E('basic-event', name='n'), b]
        o['group member ' + t] = ([E2(ft('A', g))], same, b)
        b = E('attribute', name=n2, value='2', type='')
        o['attribute ' + t] = ([E2(ft('A', E('attributes', E(
            'attribute', name='n', value='1', type=''), b), gate('g')))], same, b)
        b = E('path', E('sequence', name='T_end'), state=n2)
        f = E('fork', E('path', E('sequence', name='T_end'), state='n'), b,
              functional_event='F')
        o['fork state ' + t] = ([E2(et('T', E('define-sequence', name='T_end'), fe('F'),
                                       start=(f,)))], same, f)
        b = E('basic-event', name=n2)
        f = E('or', E('basic-event', name='n'), b)
        o['argument ' + t] = ([mef(ft('A', gate('g', f)), data(be('n'), be('m')))], same, b)
        b = E('not', E('basic-event', name=n2))
        f = E('or', E('basic-event', name='n'), b)
        o['complement argument ' + t] = ([mef(ft('A', gate('g', f)), data(be('n'), be('m')))],
                                         same, b.children[0])
        ph = lambda n: E('define-phase', name=n, time_fraction='0.5')
        b = ph(n2)
        o['phase ' + t] = ([mef(E('define-alignment', ph('n'), b, name='al'))], same, b)
    return o


uid = itertools.count()


def run(ctx):
    p = ctx.prog(*TUS)
    L = Loader(p)
    ctx.rule('names', 'two definitions of one name are rejected if and only if they mean the same '
             'identifier or lie in the same container')
    ctx.rule('place', 'the rejection names the line and the file of one of the definitions')
    where = 'src/initializer.cc Initializer'
    jobs = [lambda a=a, b=b: pair(ctx, L, where, a, b) for a, b in pairs(ctx.tier == 'thorough')]
    jobs += [lambda n=n, v=v: one(ctx, L, n.replace(' ', '-'), where, v[0], v[1],
                                  (v[2],) if v[2] else ()) for n, v in others().items()]
    batches(ctx, L, jobs)
    for key, canon, want in (('other-files', {}, None), ('same-file', {'f1.xml': 'f0.xml'}, {'IOError'}),
                             ('file-by-two-names', {'f0.xml': '/x/m.xml', 'f1.xml': '/x/m.xml'},
                              {'IOError'})):
        L.canonical = canon
        r = judge(ctx, L, 'names', key, where, [E2(ft('A', gate('g'))), mef(ft('B', gate('h')))],
                  want, 'input files')
        if r and want:
            ctx.check(blamed(error(r[2])[1])[1] is not None, 'place', key, where,
                      'the rejection names no file')
    L.canonical = {}
    ctx.floor('names', 300)


def one(ctx, L, key, where, docs, dup, blame):
    want = {'DuplicateElementError', 'ValidityError'} if dup else None
    r = judge(ctx, L, 'names', key, where, docs, want, 'duplicate' if dup else 'no duplicate')
    if r is None or not dup:
        return
    cls, tags = error(r[2])
    line, name = blamed(tags)
    nodes = [n for b in blame for n in nodes_of(b) if n.term is not None]
    lines = {T('line', n.term) for n in nodes}
    files = {T('file', n.term) for d in docs for b in blame if within(d, b) for n in nodes_of(d)}
    ctx.check(line in lines, 'place', key + ':line', where,
              'the rejection names %s' % ('no line' if line is None else 'the line of another '
                                          'element'))
    ctx.check(name in files, 'place', key + ':file', where,
              'the rejection names %s' % ('no file' if name is None else 'another file %s' % name))


def pair(ctx, L, where, a, b):
    x, y = build(a[0], 'n', a[2], 'p'), build(b[0], 'n', b[2], 'q')
    key = '%s.%s.%s:%s.%s.%s' % (a + b)
    one(ctx, L, key, where, [document([(a[1], x), (b[1], y)])], collide(a, b), (x, y))
    if ctx.tier == 'thorough' and a[1] in ('A', 'data', 'top') and b[1] in ('B', 'data', 'top'):
        x, y = build(a[0], 'n', a[2], 'p'), build(b[0], 'n', b[2], 'q')
        one(ctx, L, key + ':files', where, [document([(a[1], x)]), mef(
            *document([(b[1], y)]).children[:-1], data(*([y] if b[1] == 'data' else [])))],
            collide(a, b), (y,))
