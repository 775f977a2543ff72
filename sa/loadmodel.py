"""The whole loading of a model: the Initializer is constructed from abstract XML
documents, with every container operation, lookup, definition and validation
interpreted.  Only the file system, the XML library and logging are models."""
import re

from exprmodel import Exprs
from docmodel import Doc, E
from facts import Broken
from interp import Interp, State, T, C, VOID, NULL, TRUE, FALSE, is_c, cval, strip_targs
from settings_model import Model as SettingsModel
from prog import base_type

MEF, CORE = 'scram::mef::', 'scram::core::'
INIT = MEF + 'Initializer'
TUS = ('initializer.cc', 'model.cc', 'event.cc', 'element.cc', 'event_tree.cc', 'fault_tree.cc',
       'substitution.cc', 'parameter.cc', 'ccf_group.cc', 'alignment.cc', 'expression.cc',
       'constant.cc', 'numerical.cc', 'test_event.cc', 'random_deviate.cc', 'exponential.cc',
       'conditional.cc', 'settings.cc', 'event_tree_analysis.cc', 'cycle.cc')
V = lambda st, v: [(st, 'v', v)]
HASHED = 'boost::multi_index::detail::hashed_index::'


def ptr(o):
    return T('ptr', T('lvo', o))


class IntervalModels(Exprs):
    def __init__(self):
        pass


class Unknown(Exception):
    pass


def path_of(it, st, v):
    v = it.deref(st, v)
    while v.op == 'mk' and 'filesystem' in str(v.a[0]) and len(v.a) == 2:
        v = it.deref(st, v.a[1])
    return cval(v) if is_c(v) else None


# containers without an initializer are empty
EMPTY = {'std::vector', 'std::map', 'std::set', 'std::unordered_map', 'std::unordered_set',
         'std::deque', 'std::list', 'boost::multi_index::multi_index_container',
         'boost::multi_index_container'}


class Loader:
    """One program; `load` runs the constructor of the Initializer."""

    def __init__(self, prog, extra=None):
        self.p = prog
        self.extra = extra or {}
        self.used = set()
        self.field_types = {}
        self.canonical, self.missing = {}, ()    # of the file names of the next loads

    def reset(self):
        p = self.p
        self.doc = Doc()
        self.files = {}
        it = self.it = Interp(p, models=self.doc.models())
        Exprs.interval_models(IntervalModels(), it)
        it.models.update(self.models())
        it.models.update(self.extra)
        it.tracked_optional = True
        it.max_depth, it.recursion, it.budget = 90, 14, 400000
        it.static_ok = lambda v: True
        it.max_items = it.max_unroll = 100
        it.split_bases = {MEF + 'Container'}
        it.created = {MEF + 'TableRange': self.table_range,
                      'boost::multi_index::multi_index_container':
                          lambda it, st, e, t, a: V(st, T('list')) if not a else None,
                      'scram::xml::Validator': lambda it, st, e, t, a: V(st, T('obj', t, 0)),
                      'scram::xml::Document': self.document}
        it.field_default = self.field_default

    def field_default(self, o, f):
        if o.op != 'obj':
            return None
        f = f.split('@')[0]
        t = self.field_types.get((o.a[0], f))
        if t is None:
            ts = [strip_targs(base_type(x['t'])) for b in [o.a[0]] + list(self.p.bases(o.a[0]))
                  for x in self.p.cls.get(b, {}).get('fields', ()) if x['name'] == f]
            t = self.field_types[o.a[0], f] = ts[0] if ts else ''
        return T('list') if t in EMPTY else None

    # ---- containers
    def table_range(self, it, st, e, t, args):
        l = it.deref(st, args[0])
        while l.op in ('ptr',):
            l = it.read(st, l.a[0])
        if l.op == 'fld':
            l = T('list')
        if l.op != 'list':
            return V(st, T('mk', t, l))
        return V(st, T('list', *[T('ref', T('lvo', self.obj(st, x))) for x in l.a]))

    def obj(self, st, v):
        for _ in range(20):
            v = self.it.deref(st, v)
            if v.op in ('ptr', 'ref'):
                if v.a[0].op == 'lvo':
                    v = v.a[0].a[0]
                else:
                    v = self.it.read(st, v.a[0])
            else:
                break
        return v if v.op == 'obj' else None

    def key(self, st, qn, x):
        """Key of an element by the index's extractor."""
        m = re.search(r'const_mem_fun<([\w:]+), [^&]*&+([\w:]+)>|&([\w:]+::\w+)>', qn)
        name = re.search(r'&([\w:]+)::(\w+)>', qn)
        if not name:
            return None
        o = self.obj(st, x)
        if o is None:
            return None
        fs = [f for f in self.p.find('%s::%s' % name.groups(), nparams=0) if f.get('body')]
        if not fs:
            return None
        outs = self.it.invoke(st, fs[0], o, [])
        if len(outs) != 1 or outs[0][1] != 'v':
            return None
        return self.it.deref(st, outs[0][2])

    def keys(self, st, qn, l):
        ks = [self.key(st, qn, x) for x in l.a]
        return ks if all(k is not None and is_c(k) for k in ks) else None

    def models(self):
        def table(op):
            def f(it, st, e, o, a, fr):
                lv = o.a[0] if o is not None and o.op == 'ref' else None
                l = it.deref(st, o)
                if l.op == 'fld':
                    l = T('list')
                if l.op != 'list':
                    return None
                if op == 'empty':
                    return V(st, C(not l.a))
                if op == 'size':
                    return V(st, C(len(l.a)))
                rng = 'TableRange' in e['qn'] or any(x.op == 'ref' for x in l.a)
                src = T('ref', lv) if lv is not None and not rng else l
                if op in ('begin', 'end'):
                    return V(st, T('it', src, C(0 if op == 'begin' else len(l.a))))
                ks = self.keys(st, e['qn'], l)
                if ks is None:
                    return None
                ks = [cval(k) for k in ks]
                if op in ('find', 'count'):
                    k = it.deref(st, a[0])
                    if not is_c(k):
                        return None
                    n = cval(k)
                    i = ks.index(n) if n in ks else len(ks)
                    if op == 'count':
                        return V(st, C(int(n in ks)))
                    return V(st, T('it', src, C(i)))
                if op == 'insert':
                    x = it.deref(st, a[0])
                    k = self.key(st, e['qn'], x)
                    if k is None or not is_c(k) or lv is None:
                        return None
                    n = cval(k)
                    r = T('obj', 'std::pair', it.bump())
                    new = n not in ks
                    if new:
                        it.write(st, lv, T('list', *l.a, x), e)
                    st.mem[T('lvf', r, 'first')] = T('it', src, C(
                        len(ks) if new else ks.index(n)))
                    st.mem[T('lvf', r, 'second')] = C(new)
                    return V(st, r)
                return None
            return f

        def ext_find(it, st, e, o, a, fr):
            if 'multi_index' not in e['qn'] or len(a) != 2:
                return None
            c = a[0]
            while it.deref(st, c).op == 'ptr':
                c = T('ref', it.deref(st, c).a[0])
            if 'TableRange' in e['qn']:
                c = it.deref(st, c)
            return table('find')(it, st, e, c, a[1:], fr)

        def root(it, st, e, o, a, fr):
            d = it.deref(st, o)
            while d.op == 'ptr':
                d = it.read(st, d.a[0])
            return V(st, self.doc.add(d.a[1])) if d.op == 'obj' and d.a[0] == 'document' else None

        def const(v):
            return lambda it, st, e, o, a, fr: V(st, v)
        def indirect(it, st, e, o, a, fr):
            l = it.deref(st, a[0])
            if l.op != 'list' or not all(it.deref(st, x).op == 'ptr' for x in l.a):
                return None
            return V(st, T('list', *[T('ref', it.deref(st, x).a[0]) for x in l.a]))

        def no_text(it, st, e, o, a, fr):
            d = it.deref(st, o) if o is not None else VOID
            if is_c(d) and isinstance(cval(d), str):
                return V(st, C(not cval(d)))
            if d.op == 'mk' and len(d.a) == 1 and str(d.a[0]).startswith('std::basic_string'):
                return V(st, TRUE)
            return None

        m = {'std::basic_string::empty': no_text, 'boost::adaptors::indirect': indirect, 'scram::xml::Document::root': root, 'ext::find': ext_find,
             'boost::filesystem::exists': lambda it, st, e, o, a, fr: V(
                 st, C(path_of(it, st, a[0]) not in self.missing)),
             'scram::env::input_schema': const(C('/input.rng')),
             'boost::filesystem::canonical': lambda it, st, e, o, a, fr: V(
                 st, (lambda n: it.deref(st, a[0]) if n is None else C(
                     self.canonical.get(n, n)))(path_of(it, st, a[0]))),
             'boost::filesystem::path::string': lambda it, st, e, o, a, fr: V(
                 st, it.deref(st, o)),
             'scram::xml::Validator::validate': const(VOID),
             }
        for n in ('begin', 'end', 'empty', 'size', 'find', 'count', 'insert'):
            m[HASHED + n] = table(n)
        for n in ('begin', 'end', 'empty', 'size', 'find', 'count'):
            m[MEF + 'TableRange::' + n] = table(n)
        return m

    def document(self, it, st, e, t, args):
        n = it.deref(st, args[0])
        if not is_c(n) or cval(n) not in self.files:
            return V(st, T('mk', t, n))
        return V(st, T('obj', 'document', self.files[cval(n)]))

    # ---- run
    def load(self, *roots, calls=(), st=None):
        """[(state, kind, value)], value: the Initializer object."""
        self.reset()
        st = State()
        sm = SettingsModel(self.p)
        cur = sm.initial()
        self.settings = sm.obj
        for name, val in calls:
            cur = [x for x in sm.apply(cur, sm.setter(name), val) if x[1] == 'v'][0][0]
        for lv, v in cur.mem.items():
            if lv.op == 'lvf' and lv.a[0] is sm.obj:
                st.mem[lv] = v
        names = []
        for i, r in enumerate(roots):
            names.append('f%d.xml' % i)
            self.files[names[-1]] = r
        fs = [f for f in self.p.fns.values() if f['kind'] == 'ctor' and f.get('cls') == INIT and
              len(f['params']) == 4]
        if not fs:
            raise Broken('anchor vanished: constructor of the Initializer')
        self.fn = fs[0]
        o = self.init = T('obj', INIT, 0)
        outs = self.it.invoke(st, fs[0], o, [
            T('list', *[C(n) for n in names]), sm.obj, FALSE, NULL])
        return outs

    # ---- read through public observers
    def method(self, cls, name, nparams=0):
        for b in self.p.bases(cls):
            for f in self.p.fns.values():
                if f.get('cls') == b and f['name'] == name and len(f['params']) == nparams and \
                        f.get('body') is not None:
                    return f
        raise Broken('anchor vanished: %s::%s' % (cls, name))

    def get(self, st, o, name, *args):
        o = self.obj(st, o)
        if o is None:
            raise Unknown('%s of no object' % name)
        outs = self.it.invoke(st, self.method(o.a[0], name, len(args)), o, list(args))
        if len(outs) != 1 or outs[0][1] != 'v':
            raise Unknown('%s of %s: %s' % (name, o.a[0], [str(x[1:])[:100] for x in outs[:2]]))
        return self.it.deref(st, outs[0][2])

    def const(self, st, o, name, *args):
        v = self.get(st, o, name, *args)
        if v.op == 'mk' and len(v.a) == 1 and str(v.a[0]).startswith('std::basic_string'):
            return ''
        if not is_c(v):
            raise Unknown('%s: %s' % (name, str(v)[:80]))
        return cval(v)

    def items(self, st, v):
        v = self.it.deref(st, v)
        if v.op == 'ptr':
            v = self.it.read(st, v.a[0])
        if v.op != 'list':
            raise Unknown('container: %s' % str(v)[:80])
        return [self.obj(st, x) or self.it.deref(st, x) for x in v.a]

    def model(self, st):
        """The model read by the Initializer."""
        t = [f['name'] for f in self.p.cls[INIT]['fields'] if 'mef::Model' in f['t']]
        o = self.obj(st, self.it.read(st, T('lvf', self.init, t[0]))) if len(t) == 1 else None
        if o is None:
            raise Unknown('the model of the Initializer')
        return o

    def table(self, st, o, name):
        """Elements of a container by name."""
        out = {}
        for x in self.items(st, self.get(st, o, name)):
            out[self.const(st, x, 'name')] = x
        return out

    def event(self, st, v):
        """Argument event of a formula."""
        v = self.it.deref(st, v)
        while v.op == 'variant':
            v = v.a[-1]
        if v.op == 'ptr' and v.a[0].op == 'lvg':
            return v.a[0]
        return self.obj(st, v) or v


def error(v):
    """(class, {tag: value}) of a thrown value."""
    tags = {}
    while v.op == 'tagged':
        infos = v.a[1].a[1:] if 'tuple' in str(v.a[1].a[0]).split('<')[0] else [v.a[1]]
        for i in infos:
            m = i.op == 'mk' and re.search(r'tag_(\w+)|errinfo_(\w+)_|throw_(\w+)_', str(i.a[0]))
            if m and len(i.a) > 1:
                tags.setdefault(next(x for x in m.groups() if x), i.a[1])
        v = v.a[0]
    return (v.a[0].split('::')[-1] if v.op == 'exc' else str(v)[:60]), tags
