"""Abstract interpretation of loading models that use every kind of definition, with the loaded
model read back through its public observers.  A specification evaluated on the document gives
the expected content: name, label, attributes, role, path and identifier of each definition; the
container of each; the states, units, expressions, instructions, branches, phases and members;
the gates of a fault tree that no gate of the tree refers to.  Both must agree, whatever the
order, nesting and split into files."""
import itertools

from docs import *
from interp import T, C
from loadmodel import *

ASSUMPTIONS = ['how a definition is kept depends on its kind, place, role and content only']
WHERE = 'src/initializer.cc Initializer'
TRUE, FALSE = 'true', 'false'
EVENT = {'Gate': 'gate', 'BasicEvent': 'basic', 'HouseEvent': 'house', 'Parameter': 'parameter'}
TABLES = {'define-gate': 'gates', 'define-basic-event': 'basic_events',
          'define-house-event': 'house_events', 'define-parameter': 'parameters',
          'define-CCF-group': 'ccf_groups'}
RARE = [('approximation', C(1))]
UNITS = ('unitless', 'bool', 'int', 'float', 'hours', 'hours-1', 'years', 'years-1', 'fit',
         'demands')
FLAT = {'define-event-tree': 'event_trees', 'define-rule': 'rules',
        'define-initiating-event': 'initiating_events', 'define-fault-tree': 'fault_trees',
        'define-alignment': 'alignments', 'define-substitution': 'substitutions'}


# ---- expected content of a document
def kid(n, name):
    return next((c for c in n.children if c.name == name), None)


def body(n):
    return [c for c in n.children if c.name not in ('label', 'attributes')]


def extra(n):
    a = kid(n, 'attributes')
    l = kid(n, 'label')
    return {'name': n.attrs.get('name', ''), 'label': l.text if l is not None else '',
            'attributes': [(x.attrs['name'], x.attrs['value'], x.attrs.get('type', ''))
                           for x in a.children] if a is not None else []}


class Spec:
    """Content of the documents by the format."""

    def __init__(self, docs):
        self.model = dict(extra(docs[0]))
        self.t = {k: {} for k in (*TABLES.values(), *FLAT.values(), 'sequences')}
        self.comp = {}
        for d in docs:
            for n in body(d):
                self.top(n)
        self.model['tops'] = {}

    def top(self, n):
        if n.name == 'define-fault-tree':
            self.component(n, n.attrs['name'], 'public', 'fault_trees')
        elif n.name == 'define-event-tree':
            self.t['event_trees'][n.attrs['name']] = self.tree(n)
            for c in n.children:
                if c.name == 'define-sequence':
                    self.t['sequences'][c.attrs['name']] = dict(
                        extra(c), instructions=[self.instr(i) for i in body(c)])
        elif n.name == 'model-data':
            for c in n.children:
                self.define(c, '', 'public')
        elif n.name == 'define-CCF-group':
            self.define(n, '', 'public')
        elif n.name == 'define-rule':
            self.t['rules'][n.attrs['name']] = dict(
                extra(n), instructions=[self.instr(i) for i in body(n)])
        elif n.name == 'define-initiating-event':
            self.t['initiating_events'][n.attrs['name']] = dict(
                extra(n), tree=n.attrs.get('event-tree'))
        elif n.name == 'define-alignment':
            self.t['alignments'][n.attrs['name']] = dict(extra(n), phases={
                p.attrs['name']: dict(extra(p), fraction=float(p.attrs['time-fraction']),
                                      instructions=[self.instr(i) for i in p.children
                                                    if i.name == 'set-house-event'])
                for p in body(n)})
        elif n.name == 'define-substitution':
            s, t = kid(n, 'source'), kid(n, 'target').children[0]
            self.t['substitutions'][n.attrs['name']] = dict(
                extra(n), hypothesis=self.formula(kid(n, 'hypothesis').children[0]),
                source=[c.attrs['name'] for c in s.children] if s is not None else [],
                target=t.attrs['value'] if t.name == 'constant' else t.attrs['name'])

    def component(self, n, path, role, table):
        c = dict(extra(n), role=role)
        for k in (*TABLES.values(), 'components'):
            c[k] = []
        for x in body(n):
            if x.name == 'define-component':
                c['components'].append(x.attrs['name'])
                r = x.attrs.get('role', role)
                self.component(x, path + '.' + x.attrs['name'], r, None)
            else:
                c[TABLES[x.name]].append(path + '.' + x.attrs['name'])
                if x.name == 'define-CCF-group':
                    c['basic_events'] += [path + '.' + m.attrs['name']
                                          for m in kid(x, 'members').children]
                self.define(x, path, role)
        for k in (*TABLES.values(), 'components'):
            c[k].sort()
        self.comp[path] = c
        if table:
            self.t[table][n.attrs['name']] = c

    def define(self, n, path, role):
        name = n.attrs['name']
        role = n.attrs.get('role', role)
        full = path + '.' + name
        d = dict(extra(n), role=role, path=path, full=full if path else None,
                 id=name if role == 'public' else full)
        b = body(n)
        if n.name == 'define-house-event':
            d['state'] = b[0].attrs['value'] if b else FALSE
        elif n.name == 'define-basic-event':
            d['expression'] = self.expr(b[0]) if b else None
        elif n.name == 'define-parameter':
            d['expression'] = self.expr(b[0])
            d['unit'] = n.attrs.get('unit', 'unitless')
        elif n.name == 'define-gate':
            d['formula'] = self.formula(b[0])
        else:
            d['members'] = [m.attrs['name'] for m in kid(n, 'members').children]
            d['model'] = n.attrs['model']
            d['distribution'] = self.expr(kid(n, 'distribution').children[0])
            for m in kid(n, 'members').children:
                mn = m.attrs['name']
                self.t['basic_events'][path + '.' + mn] = dict(
                    extra(m), role=role, path=path, full=path + '.' + mn if path else None,
                    id=mn if role == 'public' else path + '.' + mn, expression=d['distribution'])
        self.t[TABLES[n.name]][full] = d

    @staticmethod
    def expr(n):
        if n.name == 'parameter':
            return 'parameter', n.attrs['name'].split('.')[-1]
        if n.name == 'system-mission-time':
            return ('mission-time',)
        if n.name == 'bool':
            return 'constant', float(n.attrs['value'] == TRUE)
        if n.name in ('float', 'int'):
            return 'constant', float(n.attrs['value'])
        return (n.name,) + tuple(Spec.expr(c) for c in n.children)

    @staticmethod
    def formula(n):
        arg = lambda x: (x.name == 'not', (lambda y: y.attrs['value'] if y.name == 'constant' else
                                           y.attrs['name'].split('.')[-1])(
            x.children[0] if x.name == 'not' else x))
        if n.name == 'constant' or 'name' in n.attrs:
            return 'null', None, None, [arg(n)]
        num = lambda k: int(n.attrs[k]) if k in n.attrs else None
        if n.name == 'not':
            return 'not', None, None, [(False, arg(n)[1])]
        return n.name, num('min'), num('max'), [arg(c) for c in n.children]

    def instr(self, n):
        if n.name == 'set-house-event':
            return 'set', n.attrs['name'], n.children[0].attrs['value']
        if n.name == 'collect-formula':
            return 'formula', self.formula(n.children[0])
        if n.name == 'collect-expression':
            return 'expression', self.expr(n.children[0])
        if n.name == 'if':
            c = n.children
            return ('if', self.expr(c[0]), self.instr(c[1]),
                    self.instr(c[2]) if len(c) > 2 else None)
        if n.name == 'block':
            return 'block', [self.instr(c) for c in n.children]
        return {'rule': 'rule', 'event-tree': 'link'}[n.name], n.attrs['name']

    def branch(self, kids):
        *ins, t = kids
        if t.name == 'fork':
            target = ('fork', t.attrs['functional-event'],
                      [(p.attrs['state'],) + self.branch(p.children) for p in t.children])
        else:
            target = t.name, t.attrs['name']
        return [self.instr(i) for i in ins], target

    def tree(self, n):
        of = lambda tag: [c for c in n.children if c.name == tag]
        return dict(
            extra(n),
            sequences=sorted(c.attrs['name'] for c in of('define-sequence')),
            events={c.attrs['name']: dict(extra(c), order=i + 1)
                    for i, c in enumerate(of('define-functional-event'))},
            branches={c.attrs['name']: dict(extra(c), branch=self.branch(body(c)))
                      for c in of('define-branch')},
            initial=self.branch(kid(n, 'initial-state').children))


# ---- content of the loaded model
class Reader:
    def __init__(self, L, st):
        self.L, self.st = L, st
        enum = lambda n: {e['v']: e['name'][1:] for en in L.p.enums.values()
                          if en['qn'] == MEF + n for e in en['enumerators']}
        self.connectives = {k: v.lower() for k, v in enum('Connective').items()}
        self.roles = {k: v.lower() for k, v in enum('RoleSpecifier').items()}
        self.units = {k: v for k, v in enum('Units').items()}

    def field(self, o, f):
        return self.L.it.deref(self.st, self.L.it.read(self.st, T('lvf', o, f)))

    def extra(self, o):
        L, st = self.L, self.st
        attrs = [tuple(L.const(st, a, k) for k in ('name', 'value', 'type'))
                 for a in self.set_items(L.get(st, o, 'attributes'))]
        return {'name': L.const(st, o, 'name'), 'label': L.const(st, o, 'label'),
                'attributes': attrs}

    def set_items(self, v):
        """Elements of a linear set, kept in its only list."""
        o = self.L.obj(self.st, v)
        if o is None:
            return self.L.items(self.st, v)
        ls = [x for lv, x in self.st.mem.items() if lv.op == 'lvf' and lv.a[0] is o and
              x.op == 'list']
        known = [lv for lv in self.st.mem if lv.op == 'lvf' and lv.a[0] is o]
        if len(ls) > 1 or known and not ls:
            raise Unknown('attributes')
        return self.L.items(self.st, ls[0]) if ls else []

    def role(self, o):
        r = self.L.const(self.st, o, 'role')
        return self.roles.get(int(r), r)

    def common(self, o):
        L, st = self.L, self.st
        path = L.const(st, o, 'base_path')
        return dict(self.extra(o), role=self.role(o), path=path, id=L.const(st, o, 'id'),
                    full=L.const(st, o, 'full_path') if path else None)

    def state(self, o, name='state'):
        v = self.L.const(self.st, o, name)
        return TRUE if v else FALSE

    def expr(self, v):
        L, st = self.L, self.st
        o = L.obj(st, v)
        if o is None:
            v = L.it.deref(st, v)
            if v.op == 'ptr' and v.a[0].op == 'lvg':
                n = str(v.a[0])
                for k, c in (('kOne', 1.0), ('kZero', 0.0)):
                    if k in n:
                        return 'constant', c
            raise Unknown('expression: %s' % str(v)[:80])
        c = o.a[0].split('::')[-1]
        if c == 'Parameter':
            return 'parameter', L.const(st, o, 'name')
        if c == 'MissionTime':
            return ('mission-time',)
        if c == 'ConstantExpression':
            return 'constant', float(L.const(st, o, 'value'))
        name = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'Gt': 'gt', 'Lt': 'lt', 'Eq': 'eq'}
        args = tuple(self.expr(a) for a in L.items(st, L.get(st, o, 'args')))
        inner = re.search(r'Expression<(?:std::)?(\w+)', o.a[0])
        std = {'plus': 'add', 'minus': 'sub', 'multiplies': 'mul', 'greater': 'gt', 'less': 'lt',
               'equal_to': 'eq'}
        tag = std.get(inner.group(1)) if inner else name.get(c)
        if tag is None:
            raise Unknown('expression of %s' % o.a[0])
        return (tag,) + args

    def event(self, v):
        e = self.L.event(self.st, v)
        if e.op == 'lvg':
            return TRUE if 'kTrue' in str(e) else FALSE if 'kFalse' in str(e) else str(e)
        if e.op != 'obj':
            raise Unknown('event: %s' % str(e)[:80])
        return self.L.const(self.st, e, 'name')

    def formula(self, fo):
        L, st = self.L, self.st
        fo = L.obj(st, fo)
        c = self.connectives.get(L.const(st, fo, 'connective'))
        nums = []
        for n in ('min_number', 'max_number'):
            v = L.get(st, fo, n)
            nums.append(int(cval(v)) if is_c(v) and isinstance(cval(v), int) else None)
        args = []
        for a in L.items(st, L.get(st, fo, 'args')):
            comp = L.it.read(st, T('lvf', a, 'complement'))
            if not is_c(comp):
                raise Unknown('complement')
            args.append((bool(cval(comp)), self.event(L.it.read(st, T('lvf', a, 'event')))))
        return c, nums[0], nums[1], args

    def instr(self, v):
        L, st = self.L, self.st
        o = L.obj(st, v)
        if o is None:
            return None
        c = o.a[0].split('::')[-1]
        if c == 'SetHouseEvent':
            return 'set', L.const(st, o, 'name'), self.state(o)
        if c == 'CollectFormula':
            return 'formula', self.formula(L.get(st, o, 'formula'))
        if c == 'CollectExpression':
            return 'expression', self.expr(L.get(st, o, 'expression'))
        if c == 'IfThenElse':
            return ('if', self.expr(L.get(st, o, 'expression')),
                    self.instr(L.get(st, o, 'then_instruction')),
                    self.instr(L.get(st, o, 'else_instruction')))
        if c == 'Block':
            return 'block', self.instrs(o)
        if c == 'Rule':
            return 'rule', L.const(st, o, 'name')
        if c == 'Link':
            return 'link', L.const(st, L.get(st, o, 'event_tree'), 'name')
        raise Unknown('instruction of %s' % o.a[0])

    def instrs(self, o):
        return [self.instr(i) for i in self.L.items(self.st, self.L.get(
            self.st, o, 'instructions'))]

    def branch(self, b):
        L, st = self.L, self.st
        b = L.obj(st, b) or b
        t = L.get(st, b, 'target')
        while t.op == 'variant':
            t = t.a[-1]
        t = L.obj(st, t)
        if t is None:
            raise Unknown('target')
        c = t.a[0].split('::')[-1]
        if c == 'Fork':
            target = ('fork', L.const(st, L.get(st, t, 'functional_event'), 'name'),
                      [(L.const(st, p, 'state'),) + self.branch(p)
                       for p in L.items(st, L.get(st, t, 'paths'))])
        else:
            target = {'Sequence': 'sequence', 'NamedBranch': 'branch'}[c], L.const(st, t, 'name')
        return self.instrs(b), target

    def names(self, o, table, full=True):
        out = []
        for x in self.L.items(self.st, self.L.get(self.st, o, table)):
            n = self.L.const(self.st, x, 'name')
            out.append(self.L.const(self.st, x, 'base_path') + '.' + n if full else n)
        return sorted(out)

    def component(self, o, path, out):
        L, st = self.L, self.st
        c = dict(self.extra(o), role=self.role(o))
        for k in TABLES.values():
            c[k] = self.names(o, k)
        c['components'] = self.names(o, 'components', False)
        out[path] = c
        for x in L.items(st, L.get(st, o, 'components')):
            self.component(x, path + '.' + L.const(st, x, 'name'), out)

    def define(self, tag, o):
        L, st = self.L, self.st
        d = self.common(o)
        if tag == 'house_events':
            d['state'] = self.state(o)
        elif tag == 'basic_events':
            d['expression'] = self.expr(L.get(st, o, 'expression')) if L.const(
                st, o, 'HasExpression') else None
        elif tag == 'parameters':
            d['expression'] = self.expr(L.items(st, L.get(st, o, 'args'))[0])
            u = L.const(st, o, 'unit')
            i = int(u) if isinstance(u, int) else u
            d['unit'] = UNITS[i] if isinstance(i, int) and 0 <= i < len(UNITS) else i
        elif tag == 'gates':
            d['formula'] = self.formula(L.get(st, o, 'formula'))
        elif tag == 'ccf_groups':
            d['members'] = [L.const(st, m, 'name') for m in L.items(st, L.get(st, o, 'members'))]
            d['distribution'] = self.expr(L.get(st, o, 'distribution'))
            d['model'] = {'BetaFactorModel': 'beta-factor', 'MglModel': 'MGL', 'AlphaFactorModel':
                          'alpha-factor', 'PhiFactorModel': 'phi-factor'}.get(
                              o.a[0].split('::')[-1], o.a[0])
        return d

    def flat(self, tag, o):
        L, st = self.L, self.st
        d = self.extra(o)
        if tag in ('rules', 'sequences'):
            d['instructions'] = self.instrs(o)
        elif tag == 'initiating_events':
            t = L.obj(st, L.get(st, o, 'event_tree'))
            d['tree'] = L.const(st, t, 'name') if t is not None else None
        elif tag == 'alignments':
            d['phases'] = {L.const(st, p, 'name'): dict(
                self.extra(p), fraction=float(L.const(st, p, 'time_fraction')),
                instructions=self.instrs(p)) for p in L.items(st, L.get(st, o, 'phases'))}
        elif tag == 'substitutions':
            t = L.get(st, o, 'target')
            while t.op == 'variant':
                t = t.a[-1]
            d.update(hypothesis=self.formula(L.get(st, o, 'hypothesis')),
                     source=[L.const(st, x, 'name')
                             for x in L.items(st, L.get(st, o, 'source'))],
                     target=(TRUE if cval(t) else FALSE) if is_c(t) else self.event(t))
        elif tag == 'event_trees':
            ev = L.items(st, L.get(st, o, 'functional_events'))
            br = L.items(st, L.get(st, o, 'branches'))
            # the observer of the sequences is spelt so
            d.update(sequences=self.names(o, 'sequances', False),
                     events={L.const(st, e, 'name'): dict(
                         self.extra(e), order=L.const(st, e, 'order')) for e in ev},
                     branches={L.const(st, b, 'name'): dict(
                         self.extra(b), branch=self.branch(b)) for b in br},
                     initial=self.branch(L.get(st, o, 'initial_state')))
        return d


# ---- comparison
def compare(ctx, L, rule, key, docs, calls=(), only=None):
    """Obligations: every definition of the documents, and no other one, as declared."""
    out = judge(ctx, L, rule, key, WHERE, docs, None, 'a valid model', calls)
    if out is None:
        return
    st = out[0]
    want = Spec(docs)
    try:
        m = L.model(st)
    except Unknown as e:
        ctx.undecided(rule, key, WHERE, str(e)[:200])
        return
    R = Reader(L, st)
    if only is None or 'model' in only:
        one(ctx, rule, key + ':model', {k: want.model[k] for k in ('label', 'attributes')},
            lambda: {k: v for k, v in R.extra(m).items() if k in ('label', 'attributes')})
        if want.model['name']:
            one(ctx, rule, key + ':model-name', want.model['name'],
                lambda: L.const(st, m, 'name'))
    for tag, w in want.t.items():
        if only is not None and tag not in only:
            continue
        try:
            items = L.items(st, L.get(st, m, tag))
        except (Unknown, KeyError, IndexError) as e:
            ctx.undecided(rule, '%s:%s' % (key, tag), WHERE, str(e)[:200])
            continue
        placed = tag in TABLES.values()
        try:
            got = {(L.const(st, x, 'base_path') + '.' if placed else '') + L.const(
                st, x, 'name'): x for x in items}
        except Unknown as e:
            ctx.undecided(rule, '%s:%s' % (key, tag), WHERE, str(e)[:200])
            continue
        ctx.check(set(got) == set(w) and len(items) == len(w), rule, '%s:%s' % (key, tag), WHERE,
                  'the model has %s instead of %s' % (sorted(got), sorted(w)))
        for n in sorted(set(got) & set(w)):
            if tag == 'fault_trees':
                comps = {}
                try:
                    R.component(got[n], n, comps)
                except (Unknown, KeyError, IndexError) as e:
                    ctx.undecided(rule, '%s:%s:%s' % (key, tag, n), WHERE, str(e)[:200])
                    continue
                exp = {p: c for p, c in want.comp.items() if p.split('.')[0] == n}
                for p in sorted(set(comps) | set(exp)):
                    one(ctx, rule, '%s:container:%s' % (key, p), exp.get(p),
                        lambda p=p: comps.get(p))
            else:
                one(ctx, rule, '%s:%s:%s' % (key, tag, n), w[n],
                    lambda: (R.define if placed else R.flat)(tag, got[n]))


def one(ctx, rule, key, want, read):
    try:
        got = read()
    except (Unknown, KeyError, IndexError, AttributeError) as e:
        ctx.undecided(rule, key, WHERE, str(e)[:200])
        return
    diff = ''
    if got != want:
        if isinstance(got, dict) and isinstance(want, dict):
            diff = '; '.join('%s is %s instead of %s' % (k, got.get(k), want.get(k))
                             for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k))
        else:
            diff = '%s instead of %s' % (got, want)
    ctx.check(got == want, rule, key, WHERE, diff[:400])


# ---- documents
def notes(n, k):
    """Label and attributes in the k-th of the ways."""
    out = []
    if k & 1:
        out.append(E('label', text='label of ' + n))
    if k & 2:
        out.append(E('attributes', *[E('attribute', name='%s%d' % (n, i), value='v%d' % i, **(
            {'type': 't'} if (i + k) % 2 else {})) for i in range(1 + k // 4)]))
    return out


def noted(n, k):
    n.children[:0] = notes(n.attrs['name'].lower(), k)
    return n


def kinds(z='z0'):
    """A definition of every kind by name (fresh nodes on every call)."""
    be_ = lambda n=z: E('basic-event', name=n)
    f = E('collect-formula', be_())
    seq = lambda: E('sequence', name='s')
    return {
        'gate': lambda: ft('A', noted(gate('n', E('or', be_(), E('not', be_('z1')))), kinds.k)),
        'basic': lambda: ft('A', noted(be('n', '0.25'), kinds.k)),
        'house': lambda: ft('A', noted(house('n'), kinds.k)),
        'parameter': lambda: ft('A', noted(par('n'), kinds.k)),
        'group': lambda: ft('A', noted(ccf('n', ['m1', 'm2']), kinds.k)),
        'component': lambda: ft('A', noted(comp('n', gate('g')), kinds.k)),
        'fault-tree': lambda: noted(ft('n', gate('g')), kinds.k),
        'data-basic': lambda: data(noted(be('n', '0.25'), kinds.k)),
        'data-house': lambda: data(noted(house('n'), kinds.k)),
        'data-parameter': lambda: data(noted(par('n'), kinds.k)),
        'data-group': lambda: noted(ccf('n', ['m1', 'm2']), kinds.k),
        'initiating': lambda: noted(E('define-initiating-event', name='n'), kinds.k),
        'rule': lambda: noted(E('define-rule', f, name='n'), kinds.k),
        'event-tree': lambda: noted(et('n'), kinds.k),
        'functional': lambda: et('T', noted(E('define-functional-event', name='n'), kinds.k)),
        'sequence': lambda: et('T', noted(E('define-sequence', f, name='n'), kinds.k),
                               start=(E('sequence', name='n'),)),
        'branch': lambda: et('T', E('define-sequence', name='s'),
                             noted(E('define-branch', f, seq(), name='n'), kinds.k),
                             start=(E('branch', name='n'),)),
        'alignment': lambda: noted(E('define-alignment', E(
            'define-phase', name='p', time_fraction='1'), name='n'), kinds.k),
        'phase': lambda: E('define-alignment', noted(E(
            'define-phase', name='n', time_fraction='1'), kinds.k), name='L'),
        'substitution': lambda: noted(E(
            'define-substitution', E('hypothesis', E('and', be_(), be_('z1'))),
            E('target', E('constant', value='false')), name='n'), kinds.k),
    }


def contents():
    """(key, documents): the content of each kind."""
    z = lambda n='z0', tag='basic-event': E(tag, name=n)
    c = lambda v: E('constant', value=v)
    fl = lambda v: E('float', value=v)
    base = lambda: data(be('z0', '0.5'), be('z1', '0.25'), be('z2', '0.125'), be('z3', '0.375'),
                        house('h0', 'true'), house('h1', 'false'), par('k0'))
    # states, units and expressions
    yield 'house', mef(ft('A', house('a', 'true'), house('b', 'false'), E(
        'define-house-event', name='d'), comp('C', E('define-house-event', name='e'),
                                              house('f', 'true'))), base(),
        data(E('define-house-event', name='g'), house('i', 'true')))
    yield 'units', mef(data(*[par('p%d' % i, unit=u) for i, u in enumerate(UNITS)], par('q')),
                       ft('A', *[par('r%d' % i, unit=u) for i, u in enumerate(UNITS)], par('s')))
    ex = [fl('0.5'), E('int', value='1'), E('bool', value='true'), E('bool', value='false'),
          E('parameter', name='k0'), E('add', E('parameter', name='k0'), fl('0.25')),
          E('sub', fl('0.75'), fl('0.25')), E('mul', fl('0.5'), E('parameter', name='k0'))]
    yield 'expressions', mef(base(), data(*[E('define-basic-event', x, name='b%d' % i)
                                            for i, x in enumerate(ex)], be('n', None)))
    ex = [E('int', value='1'), E('system-mission-time'), E('parameter', name='p0'),
          E('add', E('parameter', name='p1'), E('system-mission-time'))]
    yield 'parameters', mef(data(*[par('p%d' % i, x) for i, x in enumerate(ex)]),
                            ft('A', *[par('q%d' % i, E('parameter', name='p%d' % i))
                                      for i in range(3)]))
    # formulas
    fs = [z(), z('h0', 'house-event'), z('g0', 'gate'), z('z1', 'event'), c('true'), c('false'),
          E('not', z()), E('and', z(), z('z1')), E('or', z('z1'), z()), E('xor', z(), z('z2')),
          E('iff', z('h0', 'house-event'), z()), E('imply', z('z1'), z()),
          E('imply', z(), z('z1')), E('nand', z(), c('true')), E('nor', z(), E('not', z('z3'))),
          E('or', z(), z('z1'), z('z2'), z('z3'), z('g0', 'gate')),
          E('atleast', z(), E('not', z('z1')), z('z2'), min='2'),
          E('atleast', z(), z('z1'), z('z2'), z('z3'), min='3'),
          E('cardinality', z('z2'), z('z1'), z(), min='1', max='2'),
          E('cardinality', z(), z('z1'), min='0', max='0'),
          E('and', E('not', z('g0', 'gate')), E('not', z('h1', 'house-event')), c('false'))]
    yield 'formulas', mef(ft('A', gate('g0'), *[gate('f%d' % i, f) for i, f in enumerate(fs)]),
                          base())
    # groups
    two = lambda m, *fs, n='G', **k: E(
        'define-CCF-group', E('members', z('m1'), z('m3'), z('m2')), E('distribution', fl('0.5')),
        E('factors', *fs), name=n, model=m, **k)
    fac = lambda l, v='0.25': E('factor', fl(v), level=l)
    for m, fs in (('beta-factor', ['3']), ('MGL', ['2', '3']), ('alpha-factor', '123'),
                  ('phi-factor', '123')):
        one_ = lambda l: fac(l, {'1': '0.5'}.get(l, '0.25'))
        yield 'group-' + m, mef(ft('A', two(m, *[one_(l) for l in fs])), base())
        yield 'group-private-' + m, mef(ft('A', comp('P', two(m, *[one_(l) for l in fs]),
                                                     role='private')), two(
            m, *[one_(l) for l in fs]), base())
    # event trees
    cf = lambda n='z0': E('collect-formula', z(n))
    ce = lambda v: E('collect-expression', fl(v))
    sq = lambda n: E('sequence', name=n)
    fe = lambda n: E('define-functional-event', name=n)
    path = lambda s, *k: E('path', *k, state=s)
    fork = lambda f, *k: E('fork', *k, functional_event=f)
    sh = lambda n, v: E('set-house-event', c(v), name=n)
    ins = lambda a, b, c_, d: [
        a, sh('h0', 'false'), sh('h1', 'true'), E('rule', name='R'),
        E('block', b(), E('block', c_()), b()), E('block'),
        E('if', E('gt', fl('2'), fl('1')), b()), E('if', E('lt', fl('2'), fl('1')), b(), c_()),
        E('if', E('bool', value='true'), E('block', c_()), E('rule', name='R')), d]
    for key, xs, r in (
            ('formula', ins(cf(), lambda: cf('z1'), lambda: cf('z2'), E('collect-formula', E(
                'or', z(), E('not', z('z1'))))), cf('z3')),
            ('expression', ins(ce('0.5'), lambda: ce('0.25'), lambda: ce('0.75'), E(
                'collect-expression', E('parameter', name='k0'))), ce('0.125'))):
        yield 'instructions-' + key, mef(E('define-rule', r, name='R'), et(
            'T', E('define-sequence', *xs, name='s0'), E('define-sequence', name='s1'),
            E('define-sequence', E('event-tree', name='U'), name='s2'), start=(sq('s0'),)),
            E('define-initiating-event', name='I', event_tree='T'), et('U'), base())
    rules = [E('block', cf('z1'), cf('z0')), E('rule', name='R'), ce('0.5'), cf('z3')]
    yield 'rules', mef(E('define-rule', *rules, name='Q'), E('define-rule', cf('z2'), name='R'),
                       base())
    for key, x, y in (('formula', cf(), lambda: cf('z1')),
                      ('expression', ce('0.5'), lambda: ce('0.25'))):
        yield 'tree-' + key, mef(et(
            'T', fe('F3'), fe('F1'), fe('F2'), E('define-sequence', y(), name='s0'),
            E('define-sequence', name='s1'), E('define-sequence', name='s2'),
            E('define-branch', y(), sq('s2'), name='b'),
            E('define-branch', fork('F2', path('x', sq('s1')), path(
                'y', y(), E('branch', name='b'))), name='c'), start=(y(), x, fork(
                    'F3', path('yes', y(), fork('F1', path('a', E('branch', name='c')),
                                                path('b', y(), y(), sq('s0')),
                                                path('c', E('branch', name='b')))),
                    path('no', sq('s1'))))),
            E('define-initiating-event', name='I', event_tree='T'),
            E('define-initiating-event', name='J'), base())
    yield 'trees', mef(et('T'), et('U', fe('F')), et('V', fe('G'), fe('F')), E(
        'define-initiating-event', name='I', event_tree='U'), E(
        'define-initiating-event', name='J', event_tree='T'), E(
        'define-initiating-event', name='K', event_tree='V'))
    # alignments
    ph = lambda n, f, *k: E('define-phase', *k, name=n, time_fraction=f)
    yield 'alignments', mef(
        E('define-alignment', ph('a', '0.25', sh('h0', 'false'), sh('h1', 'true')), ph('b', '0.5'),
          ph('c', '0.25', sh('h1', 'false')), name='L'),
        E('define-alignment', ph('a', '1.0', sh('h0', 'true')), name='M'), base())
    # substitutions
    sub = lambda n, h, t, *s: E('define-substitution', E('hypothesis', h), *([E(
        'source', *s)] if s else []), E('target', t), name=n)
    yield 'substitutions', mef(
        sub('d', E('and', z(), z('z1')), c('false')),
        sub('r', E('and', z('z2'), z('z3')), z()),
        base(), ft('A', gate('g0')))
    yield 'substitutions-exchange', mef(
        sub('e', E('and', z(), z('z1')), z('z2'), z('z3')),
        base(), ft('A', gate('g0')))


def tops(n, places):
    """All graphs of n gates: the gates refer to later ones only, in every place."""
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    for bits in itertools.product((0, 1), repeat=len(pairs)):
        edges = [p for p, b in zip(pairs, bits) if b]
        yield edges


def top_doc(n, edges, spots, order):
    """Gates at the spots ('' for the tree, or its components, or another tree)."""
    def path(i):
        return {'': 'A', 'C': 'A.C', 'D': 'A.C.D', 'B': 'B'}[spots[i]] + '.g%d' % i

    def g(i):
        refs = [E('gate', name=path(j)) for a, j in edges if a == i]
        refs = [E('not', r) if (i + k) % 2 else r for k, r in enumerate(refs)]
        return gate('g%d' % i, E('or', E('basic-event', name='z0'), *refs) if refs else None)
    at = lambda s: [g(i) for i in order if spots[i] == s]
    return mef(ft('A', *at(''), comp('C', *at('C'), comp(
        'D', *at('D'), **({'role': 'private'} if (len(edges) + order[0]) % 2 else {})))),
               ft('B', *at('B'), gate('gz')), data(be('z0')))


def check_tops(ctx, L, n, edges, spots, order):
    key = 'tops:%s:%s:%s' % (','.join('%d%d' % e for e in edges) or 'none', '/'.join(
        s or 'A' for s in spots), ''.join(map(str, order)))
    out = judge(ctx, L, 'tops', key, WHERE, [top_doc(n, edges, spots, order)], None,
                'a valid model', RARE)
    if out is None:
        return
    st = out[0]
    try:
        m = L.model(st)
        for name, x in L.table(st, m, 'fault_trees').items():
            got = [(L.const(st, g, 'base_path') + '.' + L.const(st, g, 'name'))
                   for g in L.items(st, L.get(st, x, 'top_events'))]
            mine = [i for i in range(n) if (spots[i] == 'B') == (name == 'B')]
            used = {j for a, j in edges if a in mine}
            want = sorted({'': 'A', 'C': 'A.C', 'D': 'A.C.D', 'B': 'B'}[spots[i]] + '.g%d' % i
                          for i in mine if i not in used) + (['B.gz'] if name == 'B' else [])
            ctx.check(got == want, 'tops', key + ':' + name, WHERE,
                      'the top events of %s are %s instead of %s' % (name, got, want))
    except (Unknown, KeyError, IndexError) as e:
        ctx.undecided('tops', key, WHERE, str(e)[:200])


def places():
    """(key, document): kinds in places with roles."""
    roles = (None, 'public', 'private')
    mk = {'gate': lambda n, **k: gate(n, **k), 'basic': lambda n, **k: be(n, **k),
          'house': lambda n, **k: house(n, **k), 'parameter': lambda n, **k: par(n, **k)}
    for a, b in itertools.product(roles, repeat=2):
        r = lambda x: {'role': x} if x else {}

        def every(tag):
            out = []
            for kind, f in mk.items():
                for x in roles:
                    out.append(f('%s_%s_%s' % (tag, kind[0], (x or 'none')), **r(x)))
            out.append(ccf(tag + '_grp', [tag + '_m1', tag + '_m2']))
            return out
        yield 'places:%s:%s' % (a or 'none', b or 'none'), mef(
            ft('A', *every('a'), comp('C', *every('c'), comp('D', *every('d'), **r(b)), **r(a)),
               comp('E', *every('e'), **r(b))),
            ft('B', gate('bg'), comp('C', gate('bc'))),
            data(be('z0'), be('y0'), house('x0'), par('w0'), be('y1', role='public')))


def run(ctx):
    L = Loader(ctx.prog(*TUS))
    ctx.rule('notes', 'labels and attributes of every kind of definition are kept as written')
    ctx.rule('places', 'role, path, identifier and container of a definition follow its place')
    ctx.rule('content', 'the content of a definition is kept as written')
    ctx.rule('tops', 'the top events of a fault tree are its gates that no gate of it refers to')
    ctx.rule('files', 'the order and the split into files of the definitions do not matter')
    ctx.rule('inherit', 'an attribute is looked up in the definition, then in its containers')
    ctx.rule('time', 'the mission time of the model is that of the settings')
    jobs = []
    z = lambda: data(be('z0'), be('z1'))

    def note(kind, k):
        kinds.k = k
        d = kinds()[kind]()
        compare(ctx, L, 'notes', '%s:%d' % (kind, k), [mef(d, z())])
    for kind in kinds():
        for k in (0, 1, 2, 3, 7, 11) if ctx.tier == 'thorough' else (0, 3, 6, 11):
            jobs.append(lambda a=(kind, k): note(*a))
    for k in (1, 2, 3, 7):
        jobs.append(lambda k=k: compare(ctx, L, 'notes', 'model:%d' % k, [
            mef(*notes('m', k), z()), mef(*notes('o', 3 - k % 3))]))
        jobs.append(lambda k=k: compare(ctx, L, 'notes', 'model-name:%d' % k, [
            mef(*notes('m', k), z(), name='the-model')]))
    for i, (key, _) in enumerate(places()):
        jobs.append(lambda i=i, key=key: compare(ctx, L, 'places', key, [
            list(places())[i][1]], RARE))
    for i, (key, _) in enumerate(contents()):
        jobs.append(lambda i=i, key=key: compare(ctx, L, 'content', key, [
            list(contents())[i][1]], RARE))
        for how in ('reverse', 'split'):
            jobs.append(lambda i=i, key=key, how=how: compare(
                ctx, L, 'files', '%s:%s' % (key, how), shuffled(list(contents())[i][1], how), RARE))
    # top events
    n = 3
    sp = [('', '', ''), ('', 'C', 'D'), ('D', 'C', ''), ('C', '', 'B'), ('B', '', 'C'),
          ('C', 'D', 'C')]
    for i, edges in enumerate(tops(n, None)):
        for j, s in enumerate(sp):
            for o, order in enumerate(itertools.permutations(range(n))):
                if ctx.tier == 'thorough' or (i + j + o) % 3 == 0:
                    jobs.append(lambda a=(n, edges, s, order): check_tops(ctx, L, *a))
    chain = [(0, 1), (1, 2), (2, 3)]
    for edges in (chain, [(0, 1), (0, 2), (1, 3), (2, 3)], [(0, 3), (1, 3)], [(0, 1), (2, 3)]):
        for order in ((0, 1, 2, 3), (3, 2, 1, 0), (2, 0, 3, 1)):
            jobs.append(lambda a=(4, edges, ('', 'C', '', 'D'), order): check_tops(ctx, L, *a))
    levels = ('own', 'component', 'tree', 'model')
    for bits in itertools.product((0, 1), repeat=4):
        w = [l for l, b in zip(levels, bits) if b]
        jobs.append(lambda w=w: inherit(ctx, L, w, 'levels:' + (','.join(w) or 'none')))
    jobs.append(lambda: mission(ctx, L))
    batches(ctx, L, jobs)
    ctx.floor('notes', 50)
    ctx.floor('places', 50)
    ctx.floor('content', 50)
    ctx.floor('tops', 50)


def inherit(ctx, L, where, key):
    """Attribute lookups of a definition with the attribute at the levels given."""
    at = lambda n, level: [E('attributes', E('attribute', name='x', value=level),
                             E('attribute', name='y' + level, value='1'))] if level in where else []

    def put(n, level):
        n.children[:0] = at(n, level)
        return n
    doc = mef(*at(None, 'model'), put(ft('A', put(comp('C', *[put(f('n' + f.__name__), 'own')
                                                              for f in (gate, be, house, par)]),
                                              'component')), 'tree'),
              put(et('T', put(E('define-functional-event', name='F'), 'own')), 'tree'),
              put(E('define-alignment', put(E('define-phase', name='p', time_fraction='1'), 'own'),
                    name='L'), 'tree'), data(be('z0')))
    out = judge(ctx, L, 'inherit', key, WHERE, [doc], None, 'a valid model', RARE)
    if out is None:
        return
    st = out[0]
    try:
        m = L.model(st)
        A, Tr, al = [L.items(st, L.get(st, m, t))[0] for t in (
            'fault_trees', 'event_trees', 'alignments')]
        c = L.items(st, L.get(st, A, 'components'))[0]
        all_ = ('own', 'component', 'tree', 'model')
        chains = [(n, L.items(st, L.get(st, c, t))[0], all_) for n, t in (
            ('gate', 'gates'), ('basic event', 'basic_events'), ('house event', 'house_events'),
            ('parameter', 'parameters'))]
        chains += [('component', c, all_[1:]), ('fault tree', A, all_[2:]),
                   ('event tree', Tr, all_[2:]), ('alignment', al, all_[2:]),
                   ('functional event', L.items(st, L.get(st, Tr, 'functional_events'))[0],
                    ('own', 'tree', 'model')),
                   ('phase', L.items(st, L.get(st, al, 'phases'))[0], ('own', 'tree', 'model'))]
    except (Unknown, KeyError, IndexError) as e:
        ctx.undecided('inherit', key, WHERE, str(e)[:200])
        return
    for name, o, chain in chains:
        for attr in ('x', 'yown', 'ymodel', 'none'):
            want = next((l for l in chain if l in where and attr in ('x', 'y' + l)), None)
            want = want if attr == 'x' or want is None else '1'
            try:
                a = L.obj(st, L.get(st, o, 'GetAttribute', C(attr)))
                got = L.const(st, a, 'value') if a is not None else None
            except (Unknown, KeyError, IndexError) as e:
                ctx.undecided('inherit', '%s:%s:%s' % (key, name, attr), WHERE, str(e)[:200])
                continue
            ctx.check(got == want, 'inherit', '%s:%s:%s' % (key, name, attr), WHERE,
                      'the lookup gives %s instead of %s' % (got, want))


def shuffled(doc, how):
    kids = list(doc.children)
    if how == 'reverse':
        return [mef(*reversed(kids))]
    return [mef(*kids[i::3]) for i in (1, 2, 0) if kids[i::3]]


def mission(ctx, L):
    for v in (0.0, 8760.0, 0.125):
        key = 'mission-time:%s' % v
        for docs in ([mef(data(be('z0')))], [mef(data(be('z0'))), mef(data(be('z1')))]):
            out = judge(ctx, L, 'time', key, WHERE, docs, None, 'a valid model', [
                ('mission_time', C(v))])
            if out is None:
                continue
            try:
                m = L.model(out[0])
                got = L.const(out[0], L.get(out[0], m, 'mission_time'), 'value')
                ctx.check(got == v, 'time', key, WHERE, 'it is %s' % got)
            except (Unknown, KeyError, IndexError) as e:
                ctx.undecided('time', key, WHERE, str(e)[:200])
