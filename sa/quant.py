"""Abstract instances of quantitative analyses: products over symbolic event
probabilities, a symbolic mission time, settings from their own setters.  The
analyzers' constructors and Analyze methods are interpreted; results are read
through the public observers."""
from interp import Interp, State, T, C, TRUE, FALSE, NULL, VOID, is_c, cval
from norm import Norm, PathSigns, Rat, Signs, num, sym, atom, pretty
from settings_model import CLS as SETTINGS, Model as SettingsModel
from prog import base_type, walk

CORE = 'scram::core::'
MEF = 'scram::mef::'


def ptr(o):
    return T('ptr', T('lvo', o))


class Quant:
    """One program, shared builders."""

    def __init__(self, prog, extra=None):
        self.p = prog
        self.it = Interp(prog, models=self.models())
        self.it.models.update(extra or {})
        self.it.budget = 100000
        self.it.max_depth = 24
        self.time = T('lvf', T('obj', MEF + 'MissionTime', 0), 'time')

    def models(self):
        V = lambda st, v: [(st, 'v', v)]

        def time(it, st, e, o, args, fr):
            if args:
                it.write(st, self.time, it.deref(st, args[0]), e)
                return V(st, VOID)
            return V(st, st.mem.get(self.time, T('param', 'M')))

        def ev_p(it, st, e, o, args, fr):
            ev = it.deref(st, o)
            return V(st, T('p', ev, st.mem.get(self.time, T('param', 'M'))))

        def field(name):
            def f(it, st, e, o, args, fr):
                ob = it.deref(st, o)
                lv = T('lvf', ob, name)
                if lv in st.mem:
                    return V(st, T('ref', lv) if st.mem[lv].op != 'ptr' else st.mem[lv])
                return None
            return f

        def settings(it, st, e, o, args, fr):
            return V(st, T('ref', T('lvo', st.x['settings'])))
        return {
            MEF + 'MissionTime::value': time,
            MEF + 'BasicEvent::p': ev_p,
            CORE + 'FaultTreeAnalyzer::graph': field('#graph'),
            CORE + 'FaultTreeAnalysis::graph': field('#graph'),
            CORE + 'FaultTreeAnalyzer::algorithm': field('#algorithm'),
            CORE + 'Zbdd::products': field('#products'),
            CORE + 'Bdd::products': field('#products'),
            CORE + 'Mocus::products': field('#products'),
            CORE + 'Pdag::basic_events': field('#events'),
            CORE + 'Analysis::AddWarning': lambda it, st, e, o, a, fr: (
                st.emit('warning', it.deref(st, a[0])), V(st, VOID))[1],
            CORE + 'Analysis::AddAnalysisTime': lambda it, st, e, o, a, fr: V(st, VOID),
            CORE + 'Analysis::settings': settings,
        }

    def settings(self, st, *calls):
        """A Settings object built by its own setters."""
        sm = SettingsModel(self.p)
        cur = sm.initial()
        for name, val in calls:
            r = [x for x in sm.apply(cur, sm.setter(name), val) if x[1] == 'v']
            cur = r[0][0]
        for lv, v in cur.mem.items():
            if lv.op == 'lvf' and lv.a[0] is sm.obj:
                st.mem[lv] = v
        return sm.obj

    def fta(self, st, products, nevents, algorithm='Zbdd', settings=None):
        """A finished fault tree analysis with the given products."""
        it = self.it
        fta = T('obj', CORE + 'FaultTreeAnalyzer<%s%s>' % (CORE, algorithm), it.bump())
        graph = T('obj', CORE + 'Pdag', it.bump())
        alg = T('obj', CORE + algorithm, it.bump())
        events = [T('obj', MEF + 'BasicEvent', 'e%d' % i) for i in range(nevents)]
        st.mem[T('lvf', graph, '#events')] = T('list', *[ptr(e) for e in events])
        st.mem[T('lvf', fta, '#graph')] = ptr(graph)
        st.mem[T('lvf', fta, '#algorithm')] = ptr(alg)
        st.mem[T('lvf', alg, '#products')] = T('list', *[
            T('list', *[C(i) for i in pr]) for pr in products])
        st.mem[T('lvf', fta, 'settings_')] = settings
        return fta, events

    def ctor(self, cls, args, sel=None):
        """Constructors of class cls taking len(args) parameters."""
        fs = [f for f in self.p.fns.values() if f['kind'] == 'ctor' and
              f.get('cls') == cls and len(f['params']) == len(args)]
        if sel:
            fs = [f for f in fs if sel(f)]
        return fs

    def build(self, st, cls, args, sel=None):
        from facts import Broken
        fs = self.ctor(cls, args, sel)
        if not fs:
            raise Broken('no constructor of %s with %d arguments' % (cls, len(args)))
        o = T('obj', cls, self.it.bump())
        return o, [x for x in self.it.invoke(st, fs[0], o, args)]

    def method(self, cls, name, nparams=0):
        for b in self.p.bases(cls):
            for f in self.p.fns.values():
                if f.get('cls') == b and f['name'] == name and \
                        len(f['params']) == nparams and f.get('body') is not None:
                    return f
        from facts import Broken
        raise Broken('anchor vanished: %s::%s' % (cls, name))

    def field_of(self, cls, observer):
        """Name of the field a trivial observer returns."""
        f = self.method(cls, observer)
        body = f['body']
        names = [n['name'] for n in walk(body) if n['k'] == 'Member' and
                 n.get('dk') == 'field']
        return names[0] if len(set(names)) == 1 else None

    def call(self, st, obj, name, args=()):
        f = self.method(obj.a[0], name, len(args))
        return self.it.invoke(st, f, obj, list(args))


M = T('param', 'M')


class Scenario:
    """Abstract instance of a calculator over products.

    Event probabilities are symbols in (0, 1) or constants.  Comparisons are decided by the sign domain or split the path.
    """

    def __init__(self, prog, products, nevents, fixed=None, algorithm='Zbdd',
                 calls=(), extra=None):
        self.q = Quant(prog, extra)
        self.it = self.q.it
        self.products, self.n = products, nevents
        self.fixed = fixed or {}
        self.ps = PathSigns(Norm(self.leaf)).attach(self.it)
        self.atoms = {}
        self.stops = False
        self.st = State()
        self.settings = self.q.settings(self.st, *calls)
        self.st.x['settings'] = self.settings
        self.fta, self.events = self.q.fta(self.st, products, nevents, algorithm,
                                           self.settings)
        self.mt = T('obj', MEF + 'MissionTime', 0)

    def leaf(self, t):
        if t.op == 'p':
            i = int(t.a[0].a[1][1:])
            return self.prob(i, t.a[1])
        return None

    def prob(self, i, time=M):
        if i in self.fixed:
            return num(self.fixed[i])
        x = ('p%d' % i,) if time is M else ('p%d' % i, repr(time))
        if x not in self.atoms:
            self.atoms[x] = True
            self.ps.assume(sym(x), '+')
            self.ps.base.units.add(x)
        return sym(x)

    def p(self, time=M):
        return [self.prob(i, time) for i in range(self.n)]

    def norm(self, t):
        return self.ps.n(t)

    def finished(self, outs):
        """Completed paths; assertion failures are excluded paths."""
        done = [(s, v) for s, k, v in outs if k == 'v']
        if outs and not done and all(k == 'exit' for s, k, v in outs):
            self.stops = True
        return done

    def stuck(self, ctx, rule, key, where):
        """No path completes: a failed assertion on every path is a violation."""
        if self.stops:
            ctx.bad(rule, key, where, 'every path ends in a failed assertion')
        else:
            ctx.undecided(rule, key, where, 'no completed path')

    def analyzer(self, calc):
        cls = CORE + 'ProbabilityAnalyzer<%s%s>' % (CORE, calc)
        alg = self.fta.a[0].split('<')[1]
        o, outs = self.q.build(self.st, cls, [ptr(self.fta), ptr(self.mt)],
                               lambda f: alg in f['params'][0]['t'])
        return o, self.finished(outs)

    def get(self, st, obj, name):
        """Value of a parameterless observer."""
        r = self.finished(self.q.call(st, obj, name))
        return self.it.deref(st, r[0][1]) if len(r) == 1 else None

    def field(self, st, obj, name):
        lv = T('lvf', obj, name)
        v = st.mem.get(lv)
        return None if v is None else self.it.deref(st, v)
