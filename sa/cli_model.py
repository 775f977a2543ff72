"""Abstract model of the command line: the program's entry point is interpreted
with the option map as a finite valuation of presence atoms and symbolic option
values; calls into other subsystems are events that may also throw."""
from interp import Interp, State, T, C, TRUE, FALSE, VOID, is_c, cval, Budget
from settings_model import CLS, Model, OBS, APX, ALG, oracle, same, truthy, exc_type, POS_STEP
from facts import Broken

VM = 'boost::program_options::'
# documented option -> value type (None: a flag)
OPTIONS = {
    'help': None, 'version': None, 'project': 'string', 'allow-extern': None,
    'validate': None, 'bdd': None, 'zbdd': None, 'mocus': None,
    'prime-implicants': None, 'probability': None, 'importance': None,
    'uncertainty': None, 'ccf': None, 'sil': None, 'rare-event': None,
    'mcub': None, 'limit-order': 'int', 'cut-off': 'double',
    'mission-time': 'double', 'time-step': 'double', 'num-trials': 'int',
    'num-quantiles': 'int', 'num-bins': 'int', 'seed': 'int',
    'output': 'string', 'no-indent': None, 'verbosity': 'int',
    'serialize': None, 'preprocessor': None, 'print': None, 'no-report': None,
}
MAY_THROW = ['scram::IOError', 'scram::xml::ValidityError', 'scram::SettingsError',
             'scram::LogicError', 'boost::exception', 'std::exception']


class Cli:
    def __init__(self, prog):
        self.p = prog
        mains = prog.find('main')
        if not mains:
            raise Broken('anchor vanished: main')
        self.main = mains[0]
        self.sm = Model(prog)
        self.throws = None

    def models(self, present, project_state, sub_throw):
        """present: set of option names; sub_throw: (what, exception) or None."""
        def optname(v):
            if is_c(v) and isinstance(cval(v), str):
                return cval(v)
            return None

        def count(it, st, e, o, args, fr):
            n = optname(it.deref(st, args[0]))
            st.x.setdefault('asked', set())
            if n is None:
                return None
            st.emit('count', n)
            return [(st, 'v', C(1 if n in present else 0))]

        def index(it, st, e, o, args, fr):
            n = optname(it.deref(st, args[0]))
            return [(st, 'v', T('optv', n))] if n else None

        def as_(it, st, e, o, args, fr):
            v = it.deref(st, o)
            if v.op != 'optv':
                return None
            n = v.a[0]
            st.emit('read', n, e.get('t', ''), it.where(e))
            if n not in present:
                return [(st, 'throw', T('exc', 'boost::exception'))]
            return [(st, 'v', T('optval', n))]

        def sub(name):
            def m(it, st, e, o, args, fr):
                vals = [it.deref(st, a) for a in args]
                ov = it.deref(st, o) if isinstance(o, T) else None
                views = []
                for v in vals:
                    v2 = v
                    if v2.op == 'ptr':
                        v2 = it.read(st, v2.a[0])
                    if v2.op in ('obj', 'copyof') and self.is_settings(v2):
                        views.append(self.view(it, st, v2))
                st.emit('sub', name, ov, tuple(vals), views, it.where(e))
                out = []
                if sub_throw and sub_throw[0] == name:
                    out.append((st.copy(), 'throw', T('exc', sub_throw[1])))
                if e['k'] == 'Construct':
                    ob = o if isinstance(o, T) else T('sub', name)
                    r = T('sub', name)
                    out.append((st, 'v', r))
                else:
                    out.append((st, 'v', T('call', name, *(([ov] if ov is not None else []) + vals))))
                return out
            return m

        def proj_settings(it, st, e, o, args, fr):
            ob = T('obj', CLS, 'project')
            for lv, v in project_state.mem.items():
                if lv.op == 'lvf' and lv.a[0] is self.sm.obj:
                    st.mem[T('lvf', ob, lv.a[1])] = v
            st.x['from_project'] = True
            return [(st, 'v', ob)]

        def settings_ctor(it, st, e, o, args, fr):
            if args:
                v = it.deref(st, args[0])
                n = T('obj', CLS, it.bump())
                for lv, x in list(st.mem.items()):
                    if lv.op == 'lvf' and lv.a[0] is v:
                        st.mem[T('lvf', n, lv.a[1])] = x
                return [(st, 'v', n)]
            n = T('obj', CLS, it.bump())
            for lv, x in self.sm.initial().mem.items():
                if lv.op == 'lvf' and lv.a[0] is self.sm.obj:
                    st.mem[T('lvf', n, lv.a[1])] = x
            return [(st, 'v', n)]

        def settings_assign(it, st, e, o, args, fr):
            dst, src = it.deref(st, o), it.deref(st, args[0])
            for lv, x in list(st.mem.items()):
                if lv.op == 'lvf' and lv.a[0] is src:
                    st.mem[T('lvf', dst, lv.a[1])] = x
            return [(st, 'v', o)]
        d = {
            VM + 'variables_map::count': count,
            'std::map::count': count,
            'std::multimap::count': count,
            VM + 'variables_map::operator[]': index,
            VM + 'abstract_variables_map::operator[]': index,
            VM + 'variable_value::as': as_,
            'scram::Project::Project': sub('Project'),
            'scram::Project::settings': proj_settings,
            'scram::mef::Initializer::Initializer': sub('Initializer'),
            'scram::mef::Serialize': sub('Serialize'),
            'scram::core::RiskAnalysis::RiskAnalysis': sub('RiskAnalysis'),
            'scram::core::RiskAnalysis::Analyze': sub('Analyze'),
            'scram::Reporter::Report': sub('Report'),
            VM + 'store': sub('store'),
            CLS + '::Settings': settings_ctor,
            CLS + '::operator=': settings_assign,
        }
        return d

    def is_settings(self, v):
        while v.op == 'copyof':
            v = v.a[0]
        return v.op == 'obj' and v.a[0] == CLS

    def view(self, it, st, obj):
        out = {}
        for n in OBS:
            s = st.copy()
            r = it.run(self.sm.getter(n), obj, [], s)
            vals = {o[2] for o in r if o[1] == 'v'}
            out[n] = vals.pop() if len(vals) == 1 else None
        return out

    def run(self, present, project_state, sub_throw=None):
        it = Interp(self.p, models=self.models(present, project_state, sub_throw),
                    inline=lambda f: f['rel'] == 'src/scram.cc' or
                    f.get('cls') == CLS or f['rel'].startswith('src/ext/scope_guard'))
        it.budget = 3000
        return it, it.run(self.main, None, [T('param', 'argc'), T('param', 'argv')])


SETTER = {  # option -> (setter, value): in the order they are applied
    'bdd': ('algorithm', C(ALG['bdd'])), 'zbdd': ('algorithm', C(ALG['zbdd'])),
    'mocus': ('algorithm', C(ALG['mocus'])),
    'prime-implicants': ('prime_implicants', TRUE),
    'rare-event': ('approximation', C(APX['rare-event'])),
    'mcub': ('approximation', C(APX['mcub'])),
    'time-step': ('time_step', None),
    'sil': ('safety_integrity_levels', TRUE),
    'probability': ('probability_analysis', TRUE),
    'importance': ('importance_analysis', TRUE),
    'uncertainty': ('uncertainty_analysis', TRUE),
    'ccf': ('ccf_analysis', TRUE),
    'seed': ('seed', None), 'limit-order': ('limit_order', None),
    'cut-off': ('cut_off', None), 'mission-time': ('mission_time', None),
    'num-trials': ('num_trials', None), 'num-quantiles': ('num_quantiles', None),
    'num-bins': ('num_bins', None),
}


def expected(view, present):
    """('ok', view) or ('error', _) after the options of the command line."""
    v = dict(view)
    for opt, (setter, val) in SETTER.items():
        if opt in present:
            r, v = oracle(v, setter, val if val is not None else T('optval', opt))
            if r == 'error':
                return r, v
    return 'ok', v
