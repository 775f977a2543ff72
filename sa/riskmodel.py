"""An abstract model under risk analysis: fault trees, initiating events, house events,
alignments and phases are opaque objects with known structure; analyzers are created
and run as traced effects.  The whole of RiskAnalysis::Analyze is interpreted."""
from interp import Interp, State, T, C, VOID, NULL, TRUE, FALSE, is_c, cval, strip_targs
from settings_model import CLS as SETTINGS, Model as SettingsModel
from facts import Broken

MEF, CORE = 'scram::mef::', 'scram::core::'
TUS = ('risk_analysis.cc', 'settings.cc', 'analysis.cc', 'alignment.cc', 'fault_tree.cc',
       'event.cc')
ANALYSES = ('FaultTreeAnalyzer', 'ProbabilityAnalyzer', 'ImportanceAnalyzer',
            'UncertaintyAnalyzer', 'EventTreeAnalysis')
V = lambda st, v: [(st, 'v', v)]


def ptr(o):
    return T('ptr', T('lvo', o))


class Risk:
    """ies: name -> None or [(sequence, expression only)]; fts: [[gates]];
    alignments: [[(time fraction, {house event: state})]]; houses: name -> state."""

    def __init__(self, prog, calls=(), ies=(), fts=(), alignments=(), houses=(), time=100.0):
        self.p = prog
        it = self.it = Interp(prog, models=self.models())
        it.tracked_optional = True
        it.max_depth, it.recursion, it.budget = 40, 6, 100000
        it.created = {CORE + n: self.create for n in ANALYSES}
        st = self.st = State()
        O = lambda cls, n: T('obj', MEF + cls, n)
        self.model = O('Model', 'model')
        self.mt = O('MissionTime', 'mt')
        self.context = O('Context', 'ctx')
        sm = SettingsModel(prog)
        cur = sm.initial()
        for name, val in list(calls) + [('mission_time', C(time))]:
            cur = [x for x in sm.apply(cur, sm.setter(name), val) if x[1] == 'v'][0][0]
        self.fields = [lv.a[1] for lv in cur.mem if lv.op == 'lvf' and lv.a[0] is sm.obj]
        self.settings = sm.obj
        for lv, v in cur.mem.items():
            if lv.op == 'lvf' and lv.a[0] is sm.obj:
                st.mem[lv] = v
        lst = lambda xs: T('list', *xs)
        refs = lambda xs: lst([T('ref', T('lvo', x)) for x in xs])
        self.data = d = {}
        st.mem[T('lvf', self.mt, '#time')] = C(time)
        self.houses, self.gates, self.seqs, self.ies = {}, {}, {}, {}
        for n, s in dict(houses).items():
            h = self.houses[n] = O('HouseEvent', n)
            st.mem[T('lvf', h, '#state')] = C(s)
        self.fts = []
        for i, tops in enumerate(fts):
            ft = O('FaultTree', 'ft%d' % i)
            self.fts.append(ft)
            for g in tops:
                self.gates.setdefault(g, O('Gate', g))
            d[ft, 'top_events'] = lst([ptr(self.gates[g]) for g in tops])
        for n, seqs in dict(ies).items():
            ie = self.ies[n] = O('InitiatingEvent', n)
            d[ie, 'event_tree'] = NULL if seqs is None else ptr(O('EventTree', n))
            self.seqs[ie] = [(O('Sequence', s), x) for s, x in seqs or ()]
        self.als = []
        self.phases = []
        for i, phases in enumerate(alignments):
            al = O('Alignment', 'al%d' % i)
            ps = []
            for j, (frac, sets) in enumerate(phases):
                ph = O('Phase', 'ph%d%d' % (i, j))
                d[ph, 'time_fraction'] = C(frac)
                ins = []
                for k, (h, s) in enumerate(sets):
                    x = O('SetHouseEvent', 'set%d%d%d' % (i, j, k))
                    d[x, 'name'], d[x, 'state'] = C(h), C(s)
                    ins.append(ptr(x))
                d[ph, 'instructions'] = lst(ins)
                ps.append(ph)
                self.phases.append((al, ph, frac, dict(sets)))
            d[al, 'phases'] = d[al, 'table'] = refs(ps)
            self.als.append(al)
        m = self.model
        d[m, 'mission_time'] = T('ref', T('lvo', self.mt))
        d[m, 'context'] = ptr(self.context)
        self.tables = {'InitiatingEvent': refs(self.ies.values()), 'FaultTree': refs(self.fts),
                       'Alignment': refs(self.als), 'HouseEvent': refs(self.houses.values())}
        for n, k in (('initiating_events', 'InitiatingEvent'), ('fault_trees', 'FaultTree'),
                     ('alignments', 'Alignment'), ('house_events', 'HouseEvent')):
            d[m, n] = self.tables[k]
        self.copied = None

    # ---- models
    def models(self):
        def attr(name):
            def f(it, st, e, o, a, fr):
                ob = self.obj(st, o)
                r = self.data.get((ob, name)) if not a else None
                return None if r is None else V(st, r)
            return f

        def time(it, st, e, o, a, fr):
            lv = T('lvf', self.mt, '#time')
            if a:
                st.mem[lv] = it.deref(st, a[0])
                return V(st, VOID)
            return V(st, st.mem[lv])

        def state(it, st, e, o, a, fr):
            ob = self.obj(st, o)
            if (ob, 'state') in self.data:
                return V(st, self.data[ob, 'state'])
            lv = T('lvf', ob, '#state')
            if lv not in st.mem:
                return None
            if a:
                st.mem[lv] = it.deref(st, a[0])
                return V(st, VOID)
            return V(st, st.mem[lv])

        def name(it, st, e, o, a, fr):
            ob = self.obj(st, o)
            if (ob, 'name') in self.data:
                return V(st, self.data[ob, 'name'])
            return V(st, C(str(ob.a[1]))) if ob is not None and ob.op == 'obj' else None

        def table(it, st, e, o, a, fr):
            for k, r in self.tables.items():
                if k in e.get('qn', '').split('table')[-1]:
                    return V(st, r)
            ob = self.obj(st, o)
            return V(st, self.data[ob, 'table']) if (ob, 'table') in self.data else None

        def find(it, st, e, o, a, fr):
            l = it.deref(st, o)
            n = it.deref(st, a[0]) if a else None
            if l.op != 'list' or n is None or not is_c(n):
                return None
            for i, x in enumerate(l.a):
                ob = self.obj(st, x)
                if ob is not None and ob.a[1] == cval(n):
                    return V(st, T('it', l, C(i)))
            return V(st, T('it', l, C(len(l.a))))

        def get(it, st, e, o, a, fr):
            n = it.deref(st, a[0])
            h = self.houses.get(cval(n)) if is_c(n) else None
            return V(st, T('ref', T('lvo', h))) if h is not None else None

        def settings(it, st, e, o, a, fr):
            return V(st, T('ref', T('lvo', self.settings)))

        def seed(it, st, e, o, a, fr):
            st.emit('seed', it.deref(st, a[0]))
            return V(st, VOID)

        def analyze(it, st, e, o, a, fr):
            ob = self.obj(st, o)
            if ob is None or not any(strip_targs(ob.a[0]) == CORE + n for n in ANALYSES):
                return None
            st.emit('analyze', ob, self.snapshot(st))
            return V(st, VOID)

        def p_total(it, st, e, o, a, fr):
            st.emit('read', self.obj(st, o))
            return V(st, T('p_total', self.obj(st, o)))

        def sequences(it, st, e, o, a, fr):
            ob = self.obj(st, o)
            lv = T('lvf', ob, '#sequences')
            if lv not in st.mem:
                return None
            st.emit('read', ob)
            return V(st, T('ref', lv))
        def rng(k):
            def f(it, st, e, o, a, fr):
                l = it.deref(st, o)
                if l.op != 'list':
                    return None
                return V(st, C(not l.a) if k == 'empty' else C(len(l.a)) if k == 'size' else
                         T('it', l, C(0 if k == 'begin' else len(l.a))))
            return f
        m = {CORE + 'Analysis::settings': settings,
             CORE + 'Analysis::AddWarning': lambda it, st, e, o, a, fr: V(st, VOID),
             CORE + 'Analysis::AddAnalysisTime': lambda it, st, e, o, a, fr: V(st, VOID),
             MEF + 'RandomDeviate::seed': seed, MEF + 'MissionTime::value': time,
             MEF + 'HouseEvent::state': state, MEF + 'SetHouseEvent::state': state,
             MEF + 'Element::name': name, MEF + 'Id::id': name,
             MEF + 'Event::id': name, MEF + 'SetHouseEvent::name': name,
             MEF + 'Composite::table': table, MEF + 'Container::table': table,
             MEF + 'Model::table': table, MEF + 'Model::Get': get, MEF + 'Composite::Get': get,
             MEF + 'Container::Get': get,
             MEF + 'TableRange::find': find,
             CORE + 'ProbabilityAnalysis::p_total': p_total,
             CORE + 'EventTreeAnalysis::sequences': sequences}
        for n in ('begin', 'end', 'empty', 'size'):
            m[MEF + 'TableRange::' + n] = rng(n)
        for c, n in (('Model', 'mission_time'), ('Model', 'context'), ('Model', 'fault_trees'),
                     ('Model', 'initiating_events'), ('Model', 'alignments'),
                     ('Model', 'house_events'), ('FaultTree', 'top_events'),
                     ('InitiatingEvent', 'event_tree'), ('Alignment', 'phases'),
                     ('Phase', 'time_fraction'), ('Phase', 'instructions')):
            m[MEF + c + '::' + n] = attr(n)
        for n in ('FaultTreeAnalysis', 'FaultTreeAnalyzer', 'ProbabilityAnalysis',
                  'ProbabilityAnalyzer', 'ImportanceAnalysis', 'ImportanceAnalyzer',
                  'UncertaintyAnalysis', 'UncertaintyAnalyzer', 'EventTreeAnalysis'):
            m[CORE + n + '::Analyze'] = analyze
        return m

    def obj(self, st, v):
        if v is None:
            return None
        for _ in range(20):
            v = self.it.deref(st, v)
            if v.op in ('ptr', 'ref'):
                if v.a[0].op == 'lvo':
                    v = v.a[0].a[0]
                else:
                    v = self.it.read(st, v.a[0])
            elif v.op == 'obj' and v.a[0] in ('scram::mef::MissionTime',):
                return v
            else:
                break
        return v if v.op == 'obj' else None

    def snapshot(self, st, settings=None):
        """What an analysis started now would see."""
        m = lambda *a: st.mem.get(T('lvf', *a))
        return (m(self.mt, '#time'), self.observed(st, 'mission_time', settings),
                tuple((n, m(h, '#state')) for n, h in self.houses.items()))

    def observed(self, st, name, settings=None):
        f = self.p.one(SETTINGS + '::' + name, nparams=0)
        outs = self.it.invoke(st.copy(), f, settings or self.settings, [])
        return outs[0][2] if len(outs) == 1 and outs[0][1] == 'v' else None

    def create(self, it, st, e, t, args):
        """An analyzer: the arguments are what matters."""
        o = T('obj', t, it.bump())
        vals = tuple(self.obj(st, a) for a in args)
        own = [v for v in vals if v is not None and v.a[0] == SETTINGS]
        st.emit('make', o, vals, self.snapshot(st, own[0] if own else None))
        if t == CORE + 'EventTreeAnalysis':
            res = []
            for s, x in self.seqs.get(vals[0], ()):
                r = T('obj', t + '::Result', it.bump())
                g = T('obj', MEF + 'Gate', it.bump())
                st.mem[T('lvf', r, 'sequence')] = T('ref', T('lvo', s))
                st.mem[T('lvf', r, 'gate')] = ptr(g)
                st.mem[T('lvf', r, 'is_expression_only')] = C(x)
                res.append(r)
            st.mem[T('lvf', o, '#sequences')] = T('list', *res)
        return V(st, o)

    # ---- run and read
    def run(self):
        fs = [f for f in self.p.find(CORE + 'RiskAnalysis::Analyze') if f.get('body')]
        if len(fs) != 1:
            raise Broken('anchor vanished: RiskAnalysis::Analyze')
        self.fn = fs[0]
        o = T('obj', CORE + 'RiskAnalysis', 0)
        ctors = [f for f in self.p.fns.values() if f['kind'] == 'ctor' and
                 f.get('cls') == CORE + 'RiskAnalysis' and len(f['params']) == 2]
        self.it.budget = 100000
        outs = self.it.invoke(self.st, ctors[0], o, [ptr(self.model),
                                                     T('ref', T('lvo', self.settings))])
        if len(outs) != 1 or outs[0][1] != 'v':
            raise Broken('construction of RiskAnalysis is not resolved')
        self.ra = o
        return self.it.invoke(outs[0][0], fs[0], o, [])

    def field(self, st, o, name):
        return self.it.read(st, T('lvf', o, name))

    def values(self, st, name):
        f = self.p.one(CORE + 'RiskAnalysis::' + name, nparams=0)
        outs = self.it.invoke(st, f, self.ra, [])
        l = self.it.deref(st, outs[0][2])
        if l.op != 'list':
            return None
        return [self.it.deref(st, x) for x in l.a]
