"""Index over extracted facts: functions, classes, overrides, call graph."""
import functools
import re
from facts import Broken, REPO


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + '/') else path


def walk(n):
    """All nodes (dicts having a kind) below n, preorder, incl. n."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            stack.extend(v for v in reversed(list(x.values()))
                         if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            stack.extend(v for v in reversed(x) if isinstance(v, (dict, list)))


@functools.lru_cache(maxsize=None)
def strip_targs(qn):
    """Drops template argument lists from a qualified name."""
    out, depth, i = [], 0, 0
    while i < len(qn):
        if qn.startswith('operator', i) and (i == 0 or not (qn[i-1].isalnum() or qn[i-1] == '_')):
            m = re.match(r'operator(\(\)|->\*|->|<=>|<<=|>>=|<<|>>|<=|>=|<|>)', qn[i:])
            if m:
                if depth == 0:
                    out.append(m.group(0))
                i += len(m.group(0))
                continue
        c = qn[i]
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def base_type(t):
    """Type without cv, reference, pointer."""
    t = t.strip()
    while True:
        o = t
        if t.startswith('const '):
            t = t[6:]
        if t.endswith((' const', '*const')):
            t = t[:-5]
        t = t.rstrip('&* ').strip()
        if t == o:
            return t


class Program:
    def __init__(self, d):
        self.raw = d
        self.fns = {}
        for f in d['functions']:
            self.fns.setdefault(f['usr'], f)
        self.by_qn = {}
        for f in self.fns.values():
            f['sqn'] = strip_targs(f['qn'])
            f['rel'] = rel(f['file'])
            self.by_qn.setdefault(f['sqn'], []).append(f)
        self.cls = {}
        for c in d['classes']:
            self.cls.setdefault(c['t'], c)
        self.enums = {e['qn']: e for e in d['enums']}
        self.vars = {v['usr']: v for v in d['vars']}
        self.var_by_qn = {}
        for v in d['vars']:
            self.var_by_qn.setdefault(v['qn'], v)
        self.overriders = {}
        for f in self.fns.values():
            for o in f.get('over', ()):
                self.overriders.setdefault(o, set()).add(f['usr'])
        self.derived = {}
        for c in self.cls.values():
            for b in c['bases']:
                self.derived.setdefault(b['t'], set()).add(c['t'])
        self._callers = None

    # -- lookups ---------------------------------------------------------
    def find(self, sqn, nparams=None, ptype=None, const=None):
        r = self.by_qn.get(sqn, [])
        if nparams is not None:
            r = [f for f in r if len(f['params']) == nparams]
        if ptype is not None:
            r = [f for f in r if any(ptype in p['t'] for p in f['params'])]
        if const is not None:
            r = [f for f in r if bool(f.get('const')) == const]
        return r

    def one(self, sqn, **kw):
        r = self.find(sqn, **kw)
        if not r:
            raise Broken('anchor vanished: function %s' % sqn)
        return r[0]

    def bases(self, t, seen=None):
        """All (transitive) base types of class type t, incl. t."""
        seen = seen if seen is not None else []
        if t in seen:
            return seen
        seen.append(t)
        c = self.cls.get(t)
        if c:
            for b in c['bases']:
                self.bases(b['t'], seen)
        return seen

    def all_derived(self, t, seen=None):
        seen = seen if seen is not None else []
        if t in seen:
            return seen
        seen.append(t)
        for d in sorted(self.derived.get(t, ())):
            self.all_derived(d, seen)
        return seen

    def is_a(self, t, b):
        return b in self.bases(t)

    def field(self, t, name):
        for b in self.bases(t):
            c = self.cls.get(b)
            if c:
                for f in c['fields']:
                    if f['name'] == name:
                        return f
        return None

    def all_fields(self, t):
        out = []
        for b in self.bases(t):
            c = self.cls.get(b)
            if c:
                out += c['fields']
        return out

    def overrides_of(self, usr):
        """usr and every transitive overrider that has a body."""
        out, todo = [], [usr]
        while todo:
            u = todo.pop()
            if u in out:
                continue
            out.append(u)
            todo.extend(self.overriders.get(u, ()))
        return [u for u in out if u in self.fns]

    def resolve_virtual(self, usr, dyn):
        """Final overrider of method usr for dynamic class type dyn."""
        names = set([usr])
        for b in self.bases(dyn):
            for f in self.methods_of(b):
                u = f
                if u == usr:
                    return self.fns.get(u)
                seen, todo = set(), [u]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    fx = self.fns.get(x)
                    ov = fx.get('over', ()) if fx else self._decl_over.get(x, ())
                    todo.extend(ov)
                if usr in seen and u in self.fns:
                    return self.fns[u]
        return self.fns.get(usr)

    @property
    def _decl_over(self):
        if not hasattr(self, '_do'):
            self._do = {}
            for c in self.cls.values():
                for m in c['methods']:
                    self._do[m['usr']] = m.get('over', ())
        return self._do

    def methods_of(self, t):
        c = self.cls.get(t)
        return [m['usr'] for m in c['methods']] if c else []

    # -- call graph ------------------------------------------------------
    def callees(self, f, virtual=True):
        """[(usr, call node)] for calls, constructions, lambdas, refs."""
        out = []
        parts = [f.get('body')] + [i.get('e') for i in f.get('inits', ())]
        for part in parts:
            for n in walk(part):
                out += [(u, n) for u in self.node_callees(n, virtual)]
        return out

    def node_callees(self, n, virtual=True):
        k = n['k']
        if k in ('Call', 'Construct') and n.get('fn'):
            if virtual and n.get('virt'):
                return self.overrides_of(n['fn']) or [n['fn']]
            return [n['fn']]
        if k == 'Lambda':
            return list(n['fns'])
        if k == 'Ref' and n.get('dk') == 'func':
            return [n['fn']]
        return []

    def reach(self, roots, stop=lambda f: False):
        seen, todo = {}, [(r, None) for r in roots]
        while todo:
            u, par = todo.pop()
            if u in seen or u not in self.fns:
                continue
            seen[u] = par
            f = self.fns[u]
            if stop(f):
                continue
            for c, n in self.callees(f):
                if c not in seen:
                    todo.append((c, (u, n)))
        return seen

    def callers(self):
        if self._callers is None:
            self._callers = {}
            for f in self.fns.values():
                for u, n in self.callees(f):
                    self._callers.setdefault(u, []).append((f, n))
        return self._callers

    def loc(self, f, n=None):
        return '%s:%s' % (f['rel'], n['l'] if n else f['line'])
