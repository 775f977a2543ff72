"""Abstract semantics of the analysis settings, shared by the rules on them."""
from interp import Interp, State, T, C, IV, TRUE, FALSE, is_c, cval, Budget
from prog import base_type

CLS = 'scram::core::Settings'
ERR = 'scram::SettingsError'
INF = float('inf')
INT_MIN, INT_MAX = -2**31, 2**31 - 1
DBL_MIN = -INF


def dbl_classes(points):
    """Partition of the doubles by the domain's boundary points."""
    out = [('-inf', C(-INF))]
    prev = -INF
    for p in points:
        out.append(('(%g,%g)' % (prev, p), IV(prev, True, p, True)))
        out.append(('%g' % p, C(float(p))))
        prev = p
    out.append(('(%g,inf)' % prev, IV(prev, True, INF, True)))
    out.append(('nan', C(float('nan'))))
    return out


def int_classes(points):
    out, prev = [], INT_MIN
    for p in points:
        if prev < p - 1:
            out.append(('[%d,%d]' % (prev, p - 1), IV(prev, False, p - 1, False)))
        elif prev == p - 1:
            out.append(('%d' % prev, C(prev)))
        out.append(('%d' % p, C(p)))
        prev = p + 1
    out.append(('[%d,%d]' % (prev, INT_MAX), IV(prev, False, INT_MAX, False)))
    return out


ALG = {'bdd': 0, 'zbdd': 1, 'mocus': 2}
APX = {'none': 0, 'rare-event': 1, 'mcub': 2}
OBS = ['algorithm', 'approximation', 'prime_implicants', 'limit_order',
       'cut_off', 'num_trials', 'num_quantiles', 'num_bins', 'seed',
       'mission_time', 'time_step', 'probability_analysis',
       'safety_integrity_levels', 'importance_analysis',
       'uncertainty_analysis', 'ccf_analysis']


POS_STEP = IV(0, True, INF, True)


class Model:
    def __init__(self, prog):
        self.p = prog
        self.it = Interp(prog)
        self.cls = prog.cls.get(CLS)
        if not self.cls:
            from facts import Broken
            raise Broken('class %s vanished' % CLS)
        self.obj = T('obj', CLS, 0)

    def getter(self, name):
        return self.p.one(CLS + '::' + name, nparams=0)

    def setter(self, name, ptype=None):
        fs = self.p.find(CLS + '::' + name, nparams=1)
        if ptype:
            fs = [f for f in fs if ptype in f['params'][0]['t']]
        else:
            fs = [f for f in fs if 'string' not in f['params'][0]['t']]
        if not fs:
            from facts import Broken
            raise Broken('setter %s vanished' % name)
        return fs[0]

    def initial(self):
        """State of a default-constructed object."""
        st = State()
        ctors = [f for f in self.p.find(CLS + '::Settings', nparams=0)
                 if f.get('body') is not None]
        inited = set()
        if ctors:
            for i in ctors[0].get('inits', ()):
                if 'field' in i and i.get('e') is not None:
                    inited.add(i['field'])
        for f in self.cls['fields']:
            if f['name'] not in inited and f.get('init') is not None:
                outs = self.it.eval(st, f['init'], -1)
                v = outs[0][2]
                if 'int' in f['t'] and is_c(v) and isinstance(cval(v), float):
                    v = C(int(cval(v)))
                st.mem[T('lvf', self.obj, f['name'])] = v
        if ctors:
            outs = self.it.run(ctors[0], self.obj, [], st)
            st = outs[0][0]
        st.trace = None
        return st

    def observe(self, st, name):
        """Value(s) the getter returns in the state (None: not one value)."""
        outs = self.it.run(self.getter(name), self.obj, [], st.copy())
        vals = {o[2] for o in outs if o[1] == 'v'}
        if len(outs) != 1 or len(vals) != 1:
            return None
        return vals.pop()

    def view(self, st):
        return {n: self.observe(st, n) for n in OBS}

    def apply(self, st, f, val):
        """[(state, kind, value)] of calling setter f with an abstract value."""
        s = st.copy()
        s.trace, s.pc = None, {}
        return self.it.run(f, self.obj, [val], s)


def truthy(v):
    """bool of an abstract flag or number, None if unknown."""
    if v is None:
        return None
    if v.op in ('optval', 'proj', 'text'):
        return True     # the representative in-domain non-zero value
    if is_c(v):
        x = cval(v)
        return bool(x)
    from interp import iv
    i = iv(v)
    if i:
        lo, lo_o, hi, hi_o = i
        if lo > 0 or hi < 0 or (lo == 0 and lo_o) or (hi == 0 and hi_o):
            return True
    return None


def oracle(view, name, val):
    """Documented effect of a setter: ('ok', new view) or ('error', view)."""
    new = dict(view)
    if name == 'algorithm':
        new['algorithm'] = val
        if cval(val) == ALG['bdd']:
            if not same(view['approximation'], C(APX['none'])):
                new['approximation'] = C(APX['none'])
        else:
            if same(view['approximation'], C(APX['none'])):
                new['approximation'] = C(APX['rare-event'])
            new['prime_implicants'] = FALSE
        return 'ok', new
    if name == 'approximation':
        if cval(val) != APX['none'] and truthy(view['prime_implicants']):
            return 'error', view
        new['approximation'] = val
        return 'ok', new
    if name == 'prime_implicants':
        if truthy(val):
            if not same(view['algorithm'], C(ALG['bdd'])):
                return 'error', view
            new['approximation'] = C(APX['none'])
        new['prime_implicants'] = val
        return 'ok', new
    if name == 'time_step':
        if truthy(val) is False and truthy(view['safety_integrity_levels']):
            return 'error', view
        new['time_step'] = val
        return 'ok', new
    if name == 'safety_integrity_levels':
        if truthy(val):
            if not truthy(view['time_step']):
                return 'error', view
            new['probability_analysis'] = TRUE
        new[name] = val
        return 'ok', new
    if name in ('importance_analysis', 'uncertainty_analysis'):
        new[name] = val
        if truthy(val):
            new['probability_analysis'] = TRUE
        return 'ok', new
    if name == 'probability_analysis':
        if not (truthy(view['importance_analysis']) or
                truthy(view['uncertainty_analysis']) or
                truthy(view['safety_integrity_levels'])):
            new[name] = val
        return 'ok', new
    new[name] = val
    return 'ok', new


def same(a, b):
    if a is b:
        return True
    if a is None or b is None:
        return False
    if is_c(a) and is_c(b):
        x, y = cval(a), cval(b)
        return x == y or (x != x and y != y)
    return False


def exc_type(v):
    while v.op == 'tagged':
        v = v.a[0]
    return v.a[0] if v.op == 'exc' else '?'
