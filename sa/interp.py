"""Abstract interpreter over the resolved statement trees.

Trace-partitioned abstract interpretation: the abstract state maps abstract
locations to abstract values (constants, numeric intervals, uninterpreted
terms), branch conditions that the domain does not decide split the state,
loops are summarised by one generic iteration.  There is no solver; atoms are
only related syntactically or through the rule's own finite domain (`decide`).
"""
import math
import re

from prog import strip_targs, base_type

_tab = {}


class T:
    """Interned uninterpreted term."""
    __slots__ = ('op', 'a', 'h')

    def __new__(cls, op, *a):
        key = (op,) + a
        t = _tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op, t.a, t.h = op, a, hash(key)
            _tab[key] = t
        return t

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


def C(v):
    if isinstance(v, float):
        return T('c', 'float', repr(v))
    return T('c', type(v).__name__, v)


TRUE, FALSE, NULL, VOID = C(True), C(False), T('null'), T('void')


def is_c(t):
    return t.op == 'c'


def cval(t):
    ty, v = t.a
    return float(v) if ty == 'float' else v


def IV(lo, lo_open, hi, hi_open):
    """Abstract number: an interval; degenerate closed ones are constants."""
    if lo == hi and not lo_open and not hi_open:
        return C(float(lo))
    return T('iv', repr(float(lo)), lo_open, repr(float(hi)), hi_open)


def iv(t):
    """Interval view of an abstract number or None; (lo,lo_open,hi,hi_open)."""
    if t.op == 'iv':
        return (float(t.a[0]), t.a[1], float(t.a[2]), t.a[3])
    if t.op == 'c' and t.a[0] in ('int', 'float', 'bool'):
        v = float(cval(t))
        if math.isnan(v):
            return None
        return (v, False, v, False)
    return None


def is_nan(t):
    return t.op == 'c' and t.a[0] == 'float' and t.a[1] == 'nan'


def as_it(t):
    """(sequence, index) of an iterator into a known sequence."""
    return (t.a[0], t.a[1]) if t.op == 'it' else (t, C(0))


def subterms(t):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T) and x not in seen:
            seen.add(x)
            yield x
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)


def rewrite(t, fn, memo=None):
    """Bottom-up rewriting; fn(term) -> term."""
    memo = {} if memo is None else memo
    if isinstance(t, tuple):
        return tuple(rewrite(x, fn, memo) for x in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t)
    if r is None:
        r = fn(T(t.op, *[rewrite(x, fn, memo) for x in t.a]))
        memo[t] = r
    return r


def show(t, depth=6):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return '..'
    if t.op == 'c':
        return repr(cval(t)) if t.a[0] == 'str' else str(t.a[1])
    if t.op == 'iv':
        return '%s%s,%s%s' % ('(' if t.a[1] else '[', t.a[0], t.a[2],
                              ')' if t.a[3] else ']')
    if t.op in ('+', '-', '*', '/', 'lt', 'le', 'eq') and len(t.a) == 2:
        o = {'lt': '<', 'le': '<=', 'eq': '=='}.get(t.op, t.op)
        return '(%s %s %s)' % (show(t.a[0], depth - 1), o, show(t.a[1], depth - 1))
    if t.op == 'fld':
        return '%s.%s' % (show(t.a[0], depth - 1), t.a[1])
    if t.op in ('this', 'null', 'void'):
        return t.op
    if t.op == 'param':
        return t.a[0]
    if t.op == 'deref':
        return '*' + show(t.a[0], depth - 1)
    if t.op == 'call':
        return '%s(%s)' % (t.a[0].split('::')[-1], ', '.join(
            show(x, depth - 1) for x in t.a[1:]))
    return '%s(%s)' % (t.op, ', '.join(show(x, depth - 1) for x in t.a))


class State:
    __slots__ = ('mem', 'pc', 'trace', 'parent', 'x')

    def __init__(self):
        self.mem, self.pc, self.trace, self.parent, self.x = {}, {}, None, {}, {}

    def copy(self):
        s = State()
        s.mem, s.pc, s.trace = dict(self.mem), dict(self.pc), self.trace
        s.parent, s.x = dict(self.parent), dict(self.x)
        return s

    def emit(self, *ev):
        self.trace = (ev, self.trace)

    def events(self):
        out, t = [], self.trace
        while t:
            out.append(t[0])
            t = t[1]
        return out[::-1]


def found_iterator(it, st, e, obj, args, fr):
    """The result of a lookup wrapped with its outcome is the iterator itself."""
    v = it.deref(st, args[0])
    return [(st, 'v', v)] if obj is None and v.op == 'it' and is_c(v.a[1]) else None


def is_found(it, st, e, o, args, fr):
    v = it.deref(st, o)
    if v.op != 'it':
        return None
    l, i = as_it(v)
    l = it.deref(st, l)
    return [(st, 'v', C(cval(i) < len(l.a)))] if l.op == 'list' and is_c(i) else None


class Budget(Exception):
    pass


# Functions whose result is one of their arguments (identity on values).
IDENT = re.compile(r'^(std::(move|forward|addressof|as_const|__addressof)|'
                   r'gsl::\w+|boost::throw_exception)$')
STRING = re.compile(r'std::(__cxx11::)?basic_string(_view)?::')
ALLOC = re.compile(r'(const )?(std|__gnu_cxx|boost::container)::[\w:]*allocator\b')
SMART = re.compile(r'^(std::(unique_ptr|shared_ptr|weak_ptr)|boost::intrusive_ptr|'
                   r'std::__uniq_ptr\w*|std::__(shared|weak)_ptr\w*|gsl::not_null)\b')
OPTIONAL = re.compile(r'(const )?(std|boost)::optional\b')
MATH = {'std::' + n for n in (
    'exp log log10 sqrt pow abs fabs sin cos tan asin acos atan sinh cosh tanh '
    'fmod fmin fmax log1p expm1 floor ceil min max round trunc erf isnan isfinite isinf').split()}
MATH |= {n[5:] for n in MATH}
STD_FUNCTORS = {}
for _n, _o in (('plus', '+'), ('minus', '-'), ('multiplies', '*'), ('divides', '/')):
    for _t in ('<void>', '<>', '<double>', '<int>', ''):
        STD_FUNCTORS['std::' + _n + _t] = _o
CONST_NAMES = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'find',
               'count', 'front', 'back', 'at', 'c_str', 'data', 'length',
               'compare', 'substr', 'str', 'has_value', 'value', 'get',
               'rbegin', 'rend', 'lower_bound', 'upper_bound', 'contains'}


VECTOR = re.compile(r'(const )?(std::(vector|deque|list|array)|ext::index_map|'
                    r'boost::container::(small_vector|static_vector|vector))\b')
MAP = re.compile(r'(const )?((std::|boost::)(unordered_|container::flat_)?map|ext::linear_map)\b')
SET = re.compile(r'(const )?(std::|boost::)(unordered_|container::flat_)?set\b')
PAIR = re.compile(r'(const )?std::(pair|tuple)\b')


def targs(t):
    """Top-level template arguments of a type's spelling."""
    i = t.find('<')
    if i < 0:
        return []
    out, depth, cur = [], 0, ''
    for c in t[i:]:
        if c in '<(':
            depth += 1
            if depth == 1:
                continue
        elif c in '>)':
            depth -= 1
            if depth == 0:
                break
        if c == ',' and depth == 1:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    return out + [cur.strip()] if cur.strip() else out


class Interp:
    max_depth = 12
    max_states = 4000
    max_unroll = 12
    max_items = 16

    tracked_optional = False    # empty optionals are always known
    recursion = 0               # further frames allowed of one function

    def __init__(self, prog, models=None, inline=None, decide=None,
                 virtual=None):
        self.p = prog
        self.split_bases = ()   # base templates instantiated repeatedly in one object
        self.created = {}       # class -> model of its construction
        self.models = {'ext::find_iterator::find_iterator': found_iterator,
                       'ext::find_iterator::operator bool': is_found}
        self.models.update(models or {})
        self.inline_pred = inline or (lambda f: True)
        self.decide_hook = decide
        self.virtual = virtual          # (interp, st, node, obj) -> fn or None
        self.nframe = 0
        self.nfresh = 0
        self.stack = []
        self.frame_args = {}
        self.unknown = {}               # opaque calls seen: qn -> count
        self.inlined = set()
        self.budget = 400000
        self.field_default = None       # (O, field) -> term or None
        self.on_write = None
        self.on_branch = None           # (st, atom, truth) after a fork

    # -- entry --------------------------------------------------------------
    def static_ok(self, v):
        """Is the non-constant global never changed after its initialisation?"""
        return False

    def run(self, f, this=None, args=(), st=None):
        """Runs f; args are values (lists as lvalue via T('ref', lv))."""
        st = st or State()
        return self.invoke(st, f, this, [
            a if a is not None else T('param', p['name'] or '_%d' % i)
            for i, (p, a) in enumerate(zip(
                f['params'], list(args) + [None] * len(f['params'])))])

    def fresh(self, tag):
        self.nfresh += 1
        return T('fresh', tag, self.nfresh)

    def where(self, n=None):
        f = self.stack[-1] if self.stack else None
        return '%s:%s' % (f['rel'] if f else '?', n['l'] if n else 0)

    # -- memory -------------------------------------------------------------
    def read(self, st, lv):
        v = st.mem.get(lv)
        if v is not None:
            return v
        op = lv.op
        if op == 'lvf':
            o, f = lv.a
            if o.op == 'copyof':
                return self.read(st, T('lvf', o.a[0], f))
            if self.field_default:
                v = self.field_default(o, f)
                if v is not None:
                    return v
            return T('fld', o, f)
        if op == 'lvi':
            return T('elem', *lv.a)
        if op == 'lvo':
            return lv.a[0]
        if op == 'lve':
            c = self.read(st, lv.a[0])
            i = lv.a[1]
            if c.op == 'list' and is_c(i):
                if 0 <= cval(i) < len(c.a):
                    return c.a[cval(i)]
                st.emit('out-of-range', lv, self.where())
                return T('uninit', lv)
            return self.read(st, T('lvi', c, i))
        if op == 'lvd':
            if lv.a[0].op in ('it', 'list'):
                l, i = as_it(lv.a[0])
                if l.op == 'ref':
                    return self.read(st, T('lve', l.a[0], i))
                if is_c(i) and l.op == 'list' and 0 <= cval(i) < len(l.a):
                    return l.a[cval(i)]
            return T('deref', lv.a[0])
        if op == 'lvg':
            v = self.p.var_by_qn.get(lv.a[0])
            if v is not None and v.get('init') and (v.get('const') or self.static_ok(v)):
                outs = self.eval(State(), v['init'], -1)
                if len(outs) == 1 and outs[0][1] == 'v':
                    s, _, x = outs[0]
                    for k, y in s.mem.items():
                        if k.op == 'lvf':
                            st.mem[k] = y
                    if any(y.op in ('obj', 'list') for y in subterms(x)):
                        st.mem[lv] = x
                    return x
            return T('glob', lv.a[0])
        return T('uninit', lv)

    def write(self, st, lv, val, n=None):
        if lv.op == 'lvd' and lv.a[0].op == 'it' and lv.a[0].a[0].op == 'ref':
            lv = T('lve', lv.a[0].a[0].a[0], lv.a[0].a[1])
        if lv.op == 'lve':
            c, i = self.read(st, lv.a[0]), lv.a[1]
            if c.op == 'list' and is_c(i) and 0 <= cval(i) < len(c.a):
                items = list(c.a)
                items[cval(i)] = val
                self.write(st, lv.a[0], T('list', *items), n)
                return
            lv = T('lvi', c, i)
        st.mem[lv] = val
        if lv.op in ('lvf', 'lvg', 'lvd', 'lvi', 'lvo'):
            st.emit('set', lv, val, self.where(n))
        if self.on_write:
            self.on_write(st, lv, val, n)

    def var_lv(self, st, fr, vid):
        k = T('lvv', fr, vid)
        f = fr
        while True:
            k = T('lvv', f, vid)
            if k in st.mem:
                v = st.mem[k]
                if v.op == 'ref':
                    return v.a[0]
                return k
            if f not in st.parent:
                return T('lvv', fr, vid)
            f = st.parent[f]

    def this(self, st, fr):
        f = fr
        while True:
            v = st.mem.get(T('lvv', f, 'this'))
            if v is not None:
                return v
            if f not in st.parent:
                return T('this')
            f = st.parent[f]

    # -- branching ----------------------------------------------------------
    def truth(self, st, v):
        """[(st, bool)] for condition value v."""
        neg = False
        while v.op == '!':
            v, neg = v.a[0], not neg
        if is_c(v):
            return [(st, (v.a[0] == 'str' or bool(cval(v))) != neg)]
        if v is NULL:
            return [(st, neg)]
        if v.op in ('ptr', 'closure', 'obj', 'new'):
            return [(st, not neg)]
        if v.op == 'iv':
            lo, lo_o, hi, hi_o = iv(v)
            if lo > 0 or hi < 0 or (lo == 0 and lo_o) or (hi == 0 and hi_o):
                return [(st, not neg)]
        if v in st.pc:
            return [(st, st.pc[v] != neg)]
        if self.decide_hook:
            d = self.decide_hook(st, v)
            if d is not None:
                return [(st, d != neg)]
        d = self.implied(st, v)
        if d is not None:
            return [(st, d != neg)]
        self.budget -= 1
        if self.budget <= 0:
            raise Budget()
        s2 = st.copy()
        st.pc[v] = True
        s2.pc[v] = False
        if self.on_branch:
            self.on_branch(st, v, True)
            self.on_branch(s2, v, False)
        return [(st, not neg), (s2, neg)]

    def implied(self, st, v):
        if v.op == 'eq':
            a, b = v.a
            # x == c1 known true and c1 != c2
            for k, val in st.pc.items():
                if val and k.op == 'eq':
                    for x, y in ((0, 1), (1, 0)):
                        for p, q in ((a, b), (b, a)):
                            if k.a[x] is p and is_c(k.a[y]) and is_c(q) and \
                                    cval(k.a[y]) != cval(q):
                                return False
        return None

    def cmp(self, op, a, b, flt):
        """Abstract comparison -> term (TRUE/FALSE/atom)."""
        if op in ('>', '>='):
            return self.cmp({'>': '<', '>=': '<='}[op], b, a, flt)
        if op == '!=':
            return self.neg(self.cmp('==', a, b, flt))
        if is_nan(a) or is_nan(b):
            return FALSE
        if is_c(a) and is_c(b):
            x, y = cval(a), cval(b)
            try:
                return C({'<': lambda: x < y, '<=': lambda: x <= y,
                          '==': lambda: x == y}[op]())
            except TypeError:
                pass
        if op == '==' and a.op == b.op == 'list':
            if len(a.a) != len(b.a):
                return FALSE
            parts = [self.cmp('==', x, y, flt) for x, y in zip(a.a, b.a)]
            if FALSE in parts:
                return FALSE
            if all(x is TRUE for x in parts):
                return TRUE
        ia, ib = iv(a), iv(b)
        if ia and ib:
            al, alo, ah, aho = ia
            bl, blo, bh, bho = ib
            strict_lt = ah < bl or (ah == bl and (aho or blo))
            le = ah <= bl
            ge = al >= bh
            gt = al > bh or (al == bh and (alo or bho))
            if op == '<':
                if strict_lt:
                    return TRUE
                if ge:
                    return FALSE
            elif op == '<=':
                if le:
                    return TRUE
                if gt:
                    return FALSE
            else:
                if strict_lt or gt:
                    return FALSE
        if a.op in ('it', 'list') and b.op in ('it', 'list') and 'it' in (a.op, b.op):
            (la, i), (lb, j) = as_it(a), as_it(b)
            if self.same_seq(la, lb):
                return self.cmp(op, i, j, False)
        if op == '==':
            if a is b and not flt:
                return TRUE
            if a is NULL and b is NULL:
                return TRUE
            for x, y in ((a, b), (b, a)):
                if x is NULL and (y.op in ('ptr', 'new', 'obj', 'closure', 'xml') or
                                  y.op == 'c' and y.a[0] == 'str'):
                    return FALSE
            if a.op == b.op == 'str' or (is_c(a) and is_c(b)):
                return C(a is b)
            if a.op == b.op == 'ptr' and a.a[0].op == b.a[0].op == 'lvo' and all(
                    x.a[0].a[0].op == 'obj' and isinstance(x.a[0].a[0].a[1], int)
                    for x in (a, b)) and a.a[0].a[0] is not b.a[0].a[0]:
                return FALSE            # objects created apart
            for x, y in ((a, b), (b, a)):
                if x.op == y.op == 'ptr' and y.a[0].op == 'lvg' and x.a[0].op == 'lvo' and \
                        x.a[0].a[0].op == 'obj' and isinstance(x.a[0].a[0].a[1], int):
                    return FALSE        # a created object is no global one
            for x, y in ((a, b), (b, a)):
                if x.op in ('lt', 'le', 'eq', '!') and is_c(y) and cval(y) in (0, 1) and \
                        y.a[0] != 'str':
                    return x if cval(y) else self.neg(x)
            if repr(a) > repr(b):
                a, b = b, a
            return T('eq', a, b)
        if a is b and not flt:
            return C(op == '<=')
        if op == '<=' and not flt:
            return self.neg(T('lt', b, a))
        return T({'<': 'lt', '<=': 'le'}[op], a, b)

    def neg(self, v):
        if is_c(v):
            return C(not cval(v))
        if v.op == '!':
            return v.a[0]
        return T('!', v)

    # -- arithmetic ---------------------------------------------------------
    def arith(self, op, a, b, isint=False):
        if a.op == 'it' or (a.op == 'list' and b.op in ('it', 'c')):
            la, i = as_it(a)
            if b.op in ('it', 'list') and op == '-':
                lb, j = as_it(b)
                if self.same_seq(la, lb):
                    return self.arith('-', i, j, True)
            elif op in ('+', '-'):
                return T('it', la, self.arith(op, i, b, True))
        if is_c(a) and is_c(b) and a.a[0] in ('int', 'float', 'bool') and \
                b.a[0] in ('int', 'float', 'bool'):
            x, y = cval(a), cval(b)
            try:
                if op == '+':
                    r = x + y
                elif op == '-':
                    r = x - y
                elif op == '*':
                    r = x * y
                elif op == '/':
                    if isint:
                        r = int(x / y)
                    else:
                        x, y = float(x), float(y)
                        if y == 0:
                            r = math.nan if x == 0 or math.isnan(x) else \
                                math.copysign(math.inf, x) * math.copysign(1, y)
                        else:
                            r = x / y
                elif op == '%':
                    r = int(math.fmod(x, y))
                elif op == '|':
                    r = int(x) | int(y)
                elif op == '&':
                    r = int(x) & int(y)
                elif op == '^':
                    r = int(x) ^ int(y)
                elif op == '<<':
                    r = int(x) << int(y)
                elif op == '>>':
                    r = int(x) >> int(y)
                else:
                    return T(op, a, b)
                return C(r)
            except (ZeroDivisionError, OverflowError, ValueError):
                return T(op, a, b)
        if is_nan(a) or is_nan(b):
            return C(math.nan)
        ia, ib = iv(a), iv(b)
        if ia and ib and op in '+-*/':
            r = iv_arith(op, ia, ib)
            if r is not None:
                return r
        return T(op, a, b)

    # -- calls --------------------------------------------------------------
    def invoke(self, st, f, this, args, closure=None):
        """Inlines f with argument values / T('ref', lv); -> outcomes."""
        self.inlined.add(f['usr'])
        self.nframe += 1
        fr = self.nframe
        self.frame_args[fr] = list(args)
        if this is not None:
            st.mem[T('lvv', fr, 'this')] = this
        if closure is not None:
            st.parent[fr] = closure.a[1]
            for vid, v in closure.a[2]:
                st.mem[T('lvv', fr, vid)] = v
        for p, a in zip(f['params'], args):
            if a.op == 'ref' and not p['t'].endswith('&'):
                a = self.read(st, a.a[0])
            elif p['t'].endswith('&') and a.op != 'ref':
                lv = T('lvt', fr, p['id'])
                st.mem[lv] = a
                a = T('ref', lv)
            st.mem[T('lvv', fr, p['id'])] = a
        self.stack.append(f)
        res = []
        try:
            outs = [(st, 'n', VOID)]
            if f['kind'] == 'ctor' and this is not None:
                outs = self.ctor_inits(st, f, this, fr)
            for s, k, v in outs:
                if k != 'n':
                    res.append((s, k, v))
                    continue
                for s2, k2, v2 in self.exec(s, f.get('body'), fr):
                    if k2 in ('n', 'brk', 'cont'):
                        res.append((s2, 'v', VOID))
                    elif k2 == 'ret':
                        res.append((s2, 'v', v2))
                    else:
                        res.append((s2, k2, v2))
        finally:
            self.stack.pop()
        if f.get('nx'):
            res = [(s, 'exit', T('terminate', v, f['qn'])) if k == 'throw'
                   else (s, k, v) for s, k, v in res]
        return res

    def ctor_inits(self, st, f, this, fr):
        outs = [(st, 'n', VOID)]
        for i in f.get('inits', ()):
            e = i.get('e')
            if e is None:
                continue
            nxt = []
            for s, k, v in outs:
                if k != 'n':
                    nxt.append((s, k, v))
                    continue
                if 'field' in i:
                    fld = self.p.field(f['cls'], i['field'])
                    ft = fld['t'] if fld else ''
                    if ft.endswith('&'):
                        ev = self.eval_lv(s, e, fr)
                        ev = [(a, b, T('ref', c) if b == 'v' else c)
                              for a, b, c in ev]
                    else:
                        ev = self.eval(s, e, fr)
                    for s2, k2, v2 in ev:
                        if k2 == 'v':
                            lv = T('lvf', this, i['field'])
                            s2.mem[lv] = v2
                            s2.emit('init', lv, v2, self.where(i))
                            nxt.append((s2, 'n', VOID))
                        else:
                            nxt.append((s2, k2, v2))
                else:
                    # base or delegating constructor on the same object
                    for s2, k2, v2 in self.construct(s, e, fr, obj=this):
                        nxt.append((s2, 'n' if k2 == 'v' else k2, v2))
            outs = nxt
        return outs

    def construct(self, st, e, fr, obj=None):
        """Construct node; returns outcomes with the object's term."""
        if e['k'] != 'Construct':
            return self.eval(st, e, fr)
        t = base_type(e['t'])
        f = self.p.fns.get(e.get('fn'))
        sqn = strip_targs(e['qn'])
        res = []
        for s, k, args in self.eval_args(st, e.get('a', ()), fr):
            if k != 'v':
                res.append((s, k, args))
                continue
            if e.get('inherited') and not args:
                args = self.frame_args.get(fr, [])
            m = self.model_for(sqn)
            if m:
                r = m(self, s, e, obj, args, fr)
                if r is not None:
                    res += r
                    continue
            if self.created and obj is None and not e.get('copy') and strip_targs(t) in self.created:
                res += self.created[strip_targs(t)](self, s, e, t, args)
                continue
            vals = [self.deref(s, a) for a in args]
            if e.get('copy') and len(vals) == 1 and obj is None:
                v = vals[0]
                if e['copy'] == 'copy' and (t in self.p.cls and \
                        v.op in ('obj', 'this', 'copyof', 'fld', 'deref') or
                        v.op in ('obj', 'list')):
                    v = self.copy_value(s, v)
                elif e['copy'] == 'move' and v.op == 'list' and args[0].op == 'ref' and \
                        (VECTOR.match(t) or MAP.match(t) or SET.match(t)):
                    self.write(s, args[0].a[0], T('list'), e)  # moved from
                res.append((s, 'v', v))
                continue
            if e.get('list') and not args and not f and not OPTIONAL.match(t) and \
                    not SMART.match(t):
                r = self.std_object(s, t, [])
                res.append((s, 'v', T('mk', t) if r is None else r))
                continue
            if f is None and self.p.is_a(t, 'scram::Error'):
                o = obj or T('exc', t, self.bump())
                res.append((s, 'v', o))
                continue
            if self.p.is_a(t, 'scram::Error'):
                res.append((s, 'v', obj or T('exc', t, self.bump())))
                continue
            if VECTOR.match(t) and obj is None:
                vs = [v for v in vals if not (v.op == 'mk' and ALLOC.match(str(v.a[0])))]
                r = self.std_object(s, t, vs)
                if r is not None:
                    res.append((s, 'v', r))
                    continue
            if t.startswith('ext::linear_map') and obj is None and not vals:
                res.append((s, 'v', T('list')))
                continue
            if f is not None and t in self.p.cls and self.can_inline(f):
                o = obj or T('obj', t, self.bump())
                for s2, k2, v2 in self.invoke(s, f, o, args):
                    res.append((s2, k2, o if k2 == 'v' else v2))
                continue
            if SMART.match(t) or OPTIONAL.match(t) and not vals:
                if not vals:
                    res.append((s, 'v', NULL))
                else:
                    res.append((s, 'v', vals[0]))
                continue
            vals = [v for v in vals if not (v.op == 'mk' and ALLOC.match(str(v.a[0])))]
            r = self.std_object(s, t, vals)
            if r is not None:
                res.append((s, 'v', r))
                continue
            if len(vals) == 1 and re.match(
                    r'(const )?std::(basic_string|basic_string_view|function|'
                    r'string_view|optional|variant|reference_wrapper)\b', t):
                v = vals[0]
                res.append((s, 'v', v))
                continue
            if len(vals) == 1 and vals[0].op == 'it' and 'iterator' in t:
                res.append((s, 'v', vals[0]))
                continue
            if f is not None and t in self.p.cls:
                o = obj or T('obj', t, self.bump())
                s.emit('ctor', t, o, tuple(vals), self.where(e))
                res.append((s, 'v', o))
                continue
            res.append((s, 'v', T('mk', t, *vals)))
        return res

    def copy_ctor(self, t):
        """The copy constructor a class itself writes."""
        c = self.__dict__.setdefault('copy_ctors', {})
        if t not in c:
            fs = [f for f in self.p.fns.values() if f['kind'] == 'ctor' and f.get('cls') == t and
                  not f.get('implicit') and not f.get('defaulted') and f.get('body') is not None
                  and len(f['params']) == 1 and base_type(f['params'][0]['t']) == t and
                  '&&' not in f['params'][0]['t']]
            c[t] = fs[0] if len(fs) == 1 else None
        return c[t]

    def copy_value(self, st, v):
        """Copy of a value: aggregates get an identity of their own."""
        if v.op == 'list':
            if any(x.op == 'obj' for x in v.a):
                return T('list', *[self.copy_value(st, x) if x.op == 'obj' else x
                                   for x in v.a])
            return v
        o = T('copyof', v, self.bump()) if v.op != 'obj' else \
            T('obj', v.a[0], self.bump())
        f = self.copy_ctor(v.a[0]) if v.op == 'obj' else None
        if f is not None and self.can_inline(f):
            outs = self.invoke(st.copy(), f, o, [T('ref', T('lvo', v))])
            if len(outs) == 1 and outs[0][1] == 'v':
                for n in State.__slots__:
                    setattr(st, n, getattr(outs[0][0], n))
                return o
        for lv, x in list(st.mem.items()):
            if lv.op == 'lvf' and lv.a[0] is v:
                st.mem[T('lvf', o, lv.a[1])] = \
                    self.copy_value(st, x) if x.op in ('obj', 'list') else x
        return o

    def std_object(self, st, t, vals):
        """Values of standard containers and pairs with known contents."""
        if PAIR.match(t):
            if len(vals) == 2:
                o = T('obj', t, self.bump())
                st.mem[T('lvf', o, 'first')] = vals[0]
                st.mem[T('lvf', o, 'second')] = vals[1]
                return o
            if not vals:
                o = T('obj', t, self.bump())
                for n, et in zip(('first', 'second'), targs(t)):
                    st.mem[T('lvf', o, n)] = self.fresh_zero(st, et)
                return o
            if len(vals) == 1 and vals[0].op == 'obj':
                return self.copy_value(st, vals[0])
            return None
        if (MAP.match(t) or SET.match(t)) and not vals:
            return T('list')
        if (MAP.match(t) or SET.match(t)) and vals[0].op == 'list' and \
                (SET.match(t) or all(x.op == 'obj' for x in vals[0].a)):
            return vals[0]
        if t.replace('const ', '').startswith('boost::iterator_range<'):
            l = None
            if len(vals) == 2 and vals[0].op == vals[1].op == 'it':
                l = self.slice(st, vals[0], vals[1])
            elif len(vals) == 1 and vals[0].op == 'list':
                l = vals[0]
            if l is not None and all(x.op in ('ptr', 'obj') for x in l.a):
                return l            # a snapshot: the elements have identity
            return None
        if VECTOR.match(t):
            if not vals:
                return T('list')
            if vals[0].op == 'it' and len(vals) == 2 and vals[1].op == 'it':
                return self.slice(st, vals[0], vals[1])
            if len(vals) == 1 and vals[0].op == 'list':
                return vals[0]
            if is_c(vals[0]) and vals[0].a[0] == 'int' and len(vals) <= 2 \
                    and 0 <= cval(vals[0]) <= 64:
                et = self.elem_type(t)
                return T('list', *[vals[1] if len(vals) == 2 else self.fresh_zero(st, et)
                                   for _ in range(cval(vals[0]))])
        return None

    @staticmethod
    def elem_type(t):
        ta = targs(t) or ['?']
        return ta[1] if 'index_map' in t.split('<')[0] and len(ta) > 1 else ta[0]

    def same_seq(self, a, b):
        if a is b:
            return True
        for x, y in ((a, b), (b, a)):
            if x.op == 'ref' and x.a[0].op == 'lvg' and y.op == 'list':
                return self.read(State(), x.a[0]) is y
        return False

    def slice(self, st, a, b):
        (la, i), (lb, j) = as_it(a), as_it(b)
        if la is not lb or not (is_c(i) and is_c(j)):
            return None
        l = self.deref(st, la)
        return T('list', *l.a[cval(i):cval(j)]) if l.op == 'list' else None

    def fresh_zero(self, st, t):
        if PAIR.match(base_type(t)):
            return self.std_object(st, base_type(t), [])
        return self.zero(t)

    def zero(self, t):
        """Value-initialized scalar of a type."""
        t = t.strip()
        b = base_type(t)
        if t.endswith('*'):
            return NULL
        if b == 'bool':
            return FALSE
        if b in ('double', 'float', 'long double'):
            return C(0.0)
        if re.match(r'(unsigned |signed )?(int|long|short|char)', b):
            return C(0)
        if VECTOR.match(b) or MAP.match(b) or SET.match(b):
            return T('list')
        if SMART.match(b):
            return NULL
        if re.match(r'std::(__cxx11::)?basic_string<', b):
            return C('')
        return T('mk', b)

    def bump(self):
        self.nfresh += 1
        return self.nfresh

    def deref(self, st, a):
        return self.read(st, a.a[0]) if a.op == 'ref' else a

    def can_inline(self, f):
        if len(self.stack) >= self.max_depth or \
                sum(1 for g in self.stack if g is f) > self.recursion:
            return False
        if f.get('body') is None:
            return False
        return self.inline_pred(f)

    def model_for(self, sqn):
        m = self.models.get(sqn)
        if m:
            return m
        for k, v in self.models.items():
            if k.endswith('*') and sqn.startswith(k[:-1]):
                return v
        return None

    def eval_args(self, st, exprs, fr):
        """[(st,'v',[values or T('ref',lv)])]."""
        outs = [(st, 'v', [])]
        for e in exprs:
            nxt = []
            for s, k, acc in outs:
                if k != 'v':
                    nxt.append((s, k, acc))
                    continue
                for s2, k2, v2 in self.eval_ref(s, e, fr):
                    nxt.append((s2, k2, acc + [v2] if k2 == 'v' else v2))
            outs = nxt
        return outs

    def is_lv(self, e):
        k = e['k']
        if k == 'Ref':
            return e.get('dk') in ('param', 'local', 'slocal', 'global', 'binding')
        if k == 'Member':
            return e.get('dk') in ('field', 'global')
        if k == 'Un':
            return e['op'] in ('*',) or (e['op'] in ('++', '--') and not e.get('post'))
        if k == 'Index' or k == 'Assign':
            return True
        if k == 'Cond':
            return self.is_lv(e['a']) and self.is_lv(e['b'])
        if k == 'Cast':
            return e['ck'] in ('NoOp', 'BaseToDerived', 'DerivedToBase', 'Dynamic',
                               'UncheckedDerivedToBase') and self.is_lv(e['e']) \
                and not e.get('t', '').endswith('*')
        return False

    def eval_ref(self, st, e, fr):
        """Value, or T('ref', lv) for lvalues."""
        if e is None:
            return [(st, 'v', VOID)]
        if self.is_lv(e):
            return [(s, k, T('ref', v) if k == 'v' else v)
                    for s, k, v in self.eval_lv(st, e, fr)]
        if e['k'] in ('Call', 'Cast'):
            return self.eval0(st, e, fr)
        return self.eval(st, e, fr)

    def eval_lv(self, st, e, fr):
        k = e['k']
        if k == 'Ref' and e.get('dk') in ('param', 'local', 'slocal', 'binding'):
            return [(st, 'v', self.var_lv(st, fr, e['id']))]
        if k == 'Ref' and e.get('dk') == 'global' or \
                k == 'Member' and e.get('dk') == 'global':
            return [(st, 'v', T('lvg', e['qn']))]
        if k == 'Member' and e.get('dk') == 'field':
            out = []
            if e.get('arrow'):
                evs = [(s, kk, self.target(s, v) if kk == 'v' else v)
                       for s, kk, v in self.eval(st, e['e'], fr)]
            else:
                evs = self.eval(st, e['e'], fr)
            for s, kk, v in evs:
                if kk != 'v':
                    out.append((s, kk, v))
                    continue
                n = e['name']
                if self.split_bases and strip_targs(e.get('cls', '')) in self.split_bases:
                    n = '%s@%s' % (n, e['cls'])
                lv = T('lvf', v, n)
                cur = s.mem.get(lv)
                if cur is not None and cur.op == 'ref':
                    lv = cur.a[0]
                out.append((s, 'v', lv))
            return out
        if k == 'Un' and e['op'] == '*':
            return [(s, kk, self.deref_lv(v) if kk == 'v' else v)
                    for s, kk, v in self.eval(st, e['e'], fr)]
        if k == 'Un' and e['op'] in ('++', '--'):
            out = []
            for s, kk, lv in self.eval_lv(st, e['e'], fr):
                if kk == 'v':
                    v = self.arith(e['op'][0], self.read(s, lv), C(1))
                    self.write(s, lv, v, e)
                out.append((s, kk, lv))
            return out
        if k == 'Index':
            out = []
            for s, kk, a in self.eval_ref(st, e['a'], fr):
                if kk != 'v':
                    out.append((s, kk, a))
                    continue
                for s2, k2, b in self.eval(s, e['b'], fr):
                    if k2 == 'v':
                        if a.op == 'ref' and self.deref(s2, a).op == 'list':
                            b = T('lve', a.a[0], b)
                        else:
                            b = self.index_lv(s2, self.deref(s2, a), b)
                    out.append((s2, k2, b))
            return out
        if k == 'Assign':
            return self.assign(st, e, fr)
        if k == 'Cond':
            out = []
            for s, kk, c in self.eval(st, e['cond'], fr):
                if kk != 'v':
                    out.append((s, kk, c))
                    continue
                for s2, b in self.truth(s, c):
                    out += self.eval_lv(s2, e['a'] if b else e['b'], fr)
            return out
        if k == 'Cast' and self.is_lv(e['e']) and not e['t'].endswith('*'):
            return self.eval_lv(st, e['e'], fr)
        out = []
        for s, kk, v in self.eval0(st, e, fr):
            if kk == 'v':
                if v.op == 'ref':
                    v = v.a[0]
                else:
                    lv = T('lvt', fr, self.bump())
                    s.mem[lv] = v
                    v = lv
            out.append((s, kk, v))
        return out

    def index_lv(self, st, a, b):
        return T('lvi', a, b)

    def deref_lv(self, p):
        if p.op == 'ptr':
            return p.a[0]
        if p.op == 'it' and p.a[0].op == 'ref':
            return T('lve', p.a[0].a[0], p.a[1])
        if p.op == 'it' and p.a[0].op == 'list' and is_c(p.a[1]) and \
                0 <= cval(p.a[1]) < len(p.a[0].a) and p.a[0].a[cval(p.a[1])].op == 'ref':
            return p.a[0].a[cval(p.a[1])].a[0]
        return T('lvd', p)

    def target(self, st, p):
        """Object term a pointer value points to."""
        lv = self.deref_lv(p)
        return self.read(st, lv)

    def eval(self, st, e, fr):
        return [(s, k, self.deref(s, v) if k == 'v' else v)
                for s, k, v in self.eval0(st, e, fr)]

    def isflt(self, *es):
        for e in es:
            if e is None:
                continue
            if e['k'] == 'Float':
                return True
            t = e.get('t', '')
            if 'double' in t or 'float' in t:
                return True
        return False

    def map1(self, outs, fn):
        r = []
        for s, k, v in outs:
            if k == 'v':
                x = fn(s, v)
                if isinstance(x, list):
                    r += x
                else:
                    r.append((s, 'v', x))
            else:
                r.append((s, k, v))
        return r

    def eval0(self, st, e, fr):
        if e is None:
            return [(st, 'v', VOID)]
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(st, 'v', T('other', e.get('ck', k), self.bump()))]
        return m(st, e, fr)

    def e_Int(self, st, e, fr):
        return [(st, 'v', C(e['v']))]

    def e_Float(self, st, e, fr):
        return [(st, 'v', C(float(e['v'])))]

    def e_Str(self, st, e, fr):
        return [(st, 'v', C(e['v']))]

    def e_Char(self, st, e, fr):
        return [(st, 'v', C(e['v']))]

    def e_Bool(self, st, e, fr):
        return [(st, 'v', C(bool(e['v'])))]

    def e_Nullptr(self, st, e, fr):
        return [(st, 'v', NULL)]

    def e_Const(self, st, e, fr):
        return [(st, 'v', C(e['cv']) if 'cv' in e else T('const', e['l']))]

    def e_ValueInit(self, st, e, fr):
        t = e.get('t', '')
        if t.endswith('*'):
            return [(st, 'v', NULL)]
        if t == 'bool':
            return [(st, 'v', FALSE)]
        if OPTIONAL.match(t):
            return [(st, 'v', NULL)]
        if 'double' in t or 'float' in t:
            return [(st, 'v', C(0.0))]
        if re.match(r'(unsigned |signed )?(int|long|short|char)', t):
            return [(st, 'v', C(0))]
        if SMART.match(t):
            return [(st, 'v', NULL)]
        return [(st, 'v', T('mk', base_type(t)))]

    def e_This(self, st, e, fr):
        return [(st, 'v', T('ptr', T('lvo', self.this(st, fr))))]

    def e_Ref(self, st, e, fr):
        dk = e.get('dk')
        if dk == 'enum':
            return [(st, 'v', C(e['cv']))]
        if dk == 'func':
            return [(st, 'v', T('fn', e['fn']))]
        if dk in ('param', 'local', 'slocal', 'binding'):
            lv = self.var_lv(st, fr, e['id'])
            if lv not in st.mem and 'cv' in e:
                return [(st, 'v', C(e['cv']))]
            return [(st, 'v', self.read(st, lv))]
        if dk == 'global':
            if 'cv' in e:
                return [(st, 'v', C(e['cv']))]
            return [(st, 'v', self.read(st, T('lvg', e['qn'])))]
        return [(st, 'v', T('other', e.get('name', '')))]

    def e_Member(self, st, e, fr):
        if e.get('dk') == 'enum':
            return [(st, 'v', C(e['cv']))]
        if e.get('dk') == 'global' and 'cv' in e:
            return [(st, 'v', C(e['cv']))]
        if e.get('dk') in ('field', 'global'):
            return self.map1(self.eval_lv(st, e, fr),
                             lambda s, lv: self.read(s, lv))
        return [(st, 'v', T('other', e.get('name', '')))]

    def e_Index(self, st, e, fr):
        out = []
        for s, k, a in self.eval(st, e['a'], fr):
            if k != 'v':
                out.append((s, k, a))
                continue
            for s2, k2, b in self.eval(s, e['b'], fr):
                if k2 == 'v':
                    if a.op == 'list' and is_c(b) and 0 <= cval(b) < len(a.a):
                        b = a.a[cval(b)]
                    else:
                        b = self.read(s2, T('lvi', a, b))
                out.append((s2, k2, b))
        return out

    def e_InitList(self, st, e, fr):
        outs = self.eval_args(st, e['a'], fr)
        t = base_type(e.get('t', ''))
        c = self.p.cls.get(t)
        if c is not None:
            def mk(s, vals):
                o = T('obj', t, self.bump())
                for f, v in zip(c['fields'], vals):
                    if not f['t'].endswith('&'):
                        v = self.deref(s, v)
                    s.mem[T('lvf', o, f['name'])] = v
                return o
            return self.map1(outs, mk)
        if len(e['a']) == 1 and not ('[' in t):
            return self.map1(outs, lambda s, v: self.deref(s, v[0]))
        if not e['a'] and not '[' in t:
            return self.e_ValueInit(st, e, fr)
        return self.map1(outs, lambda s, vals: T(
            'list', *[self.deref(s, v) for v in vals]))

    def e_Un(self, st, e, fr):
        op = e['op']
        if op == '&' and e['e']['k'] == 'Ref' and e['e'].get('dk') == 'func':
            return self.eval(st, e['e'], fr)
        if op == '&':
            return self.map1(self.eval_lv(st, e['e'], fr), lambda s, lv:
                             lv.a[0] if lv.op == 'lvd' else T('ptr', lv))
        if op == '*':
            return self.map1(self.eval_lv(st, e, fr), lambda s, lv: self.read(s, lv))
        if op in ('++', '--'):
            def f(s, lv):
                v0 = self.read(s, lv)
                v = self.arith(op[0], v0, C(1))
                self.write(s, lv, v, e)
                return v0 if e.get('post') else v
            return self.map1(self.eval_lv(st, e['e'], fr), f)
        if op == '!':
            return self.map1(self.eval(st, e['e'], fr),
                             lambda s, v: C(v is NULL) if v is NULL else self.neg(v))
        if op == '-':
            def g(s, v):
                if is_c(v) and v.a[0] in ('int', 'float'):
                    return C(-cval(v))
                i = iv(v)
                if i:
                    return IV(-i[2], i[3], -i[0], i[1])
                return T('neg', v)
            return self.map1(self.eval(st, e['e'], fr), g)
        if op == '+':
            return self.eval(st, e['e'], fr)
        return self.map1(self.eval(st, e['e'], fr), lambda s, v: T(op, v))

    def e_Bin(self, st, e, fr):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, k, a in self.eval(st, e['a'], fr):
                if k != 'v':
                    out.append((s, k, a))
                    continue
                for s2, b in self.truth(s, a):
                    if b == (op == '||'):
                        out.append((s2, 'v', C(b)))
                        continue
                    for s3, k3, v3 in self.eval(s2, e['b'], fr):
                        if k3 != 'v':
                            out.append((s3, k3, v3))
                            continue
                        out += [(s4, 'v', C(b4)) for s4, b4 in self.truth(s3, v3)]
            return out
        if op == ',':
            out = []
            for s, k, a in self.eval(st, e['a'], fr):
                out += self.eval0(s, e['b'], fr) if k == 'v' else [(s, k, a)]
            return out
        out = []
        for s, k, a in self.eval(st, e['a'], fr):
            if k != 'v':
                out.append((s, k, a))
                continue
            for s2, k2, b in self.eval(s, e['b'], fr):
                if k2 != 'v':
                    out.append((s2, k2, b))
                    continue
                if op in ('==', '!=', '<', '>', '<=', '>='):
                    v = self.cmp(op, a, b, self.isflt(e['a'], e['b']))
                else:
                    v = self.arith(op, a, b, not self.isflt(e['a'], e['b'], e))
                out.append((s2, 'v', v))
        return out

    def assign(self, st, e, fr):
        """Built-in assignment; outcomes carry the lvalue."""
        out = []
        op = e['op']
        for s, k, b in self.eval(st, e['b'], fr):
            if k != 'v':
                out.append((s, k, b))
                continue
            for s2, k2, lv in self.eval_lv(s, e['a'], fr):
                if k2 != 'v':
                    out.append((s2, k2, lv))
                    continue
                if op != '=':
                    b2 = self.arith(op[:-1], self.read(s2, lv), b,
                                    not self.isflt(e['a'], e['b']))
                else:
                    b2 = b
                self.write(s2, lv, b2, e)
                out.append((s2, 'v', lv))
        return out

    def e_Assign(self, st, e, fr):
        return self.map1(self.assign(st, e, fr), lambda s, lv: self.read(s, lv))

    def e_Cond(self, st, e, fr):
        out = []
        for s, k, c in self.eval(st, e['cond'], fr):
            if k != 'v':
                out.append((s, k, c))
                continue
            for s2, b in self.truth(s, c):
                out += self.eval0(s2, e['a'] if b else e['b'], fr)
        return out

    def e_Elvis(self, st, e, fr):
        out = []
        for s, k, c in self.eval(st, e['a'], fr):
            if k != 'v':
                out.append((s, k, c))
                continue
            for s2, b in self.truth(s, c):
                out += [(s2, 'v', c)] if b else self.eval0(s2, e['b'], fr)
        return out

    def e_Cast(self, st, e, fr):
        ck = e['ck']

        def f(s, v):
            if v.op == 'ref':
                return v
            if ck == 'NullToPointer':
                return NULL
            if ck == 'ToVoid':
                return VOID
            if is_c(v) and v.a[0] in ('int', 'float', 'bool'):
                x = cval(v)
                if ck == 'IntegralToFloating':
                    return C(float(x))
                if ck == 'FloatingToIntegral' and math.isfinite(x):
                    return C(int(x))
                if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                    return C(bool(x))
                if ck == 'IntegralCast' and v.a[0] == 'bool':
                    return C(int(x))
                return v
            if ck in ('FloatingToBoolean', 'IntegralToBoolean', 'PointerToBoolean'):
                if v is NULL:
                    return FALSE
                if v.op in ('ptr', 'new', 'fn', 'closure') or \
                        v.op == 'c' and v.a[0] == 'str':
                    return TRUE
                if v.op in ('lt', 'le', 'eq', '!'):
                    return v
                if ck == 'PointerToBoolean':
                    return self.neg(self.cmp('==', v, NULL, False))
                return self.neg(self.cmp('==', v, C(0), False))
            if ck == 'FloatingToIntegral':
                return v if v.op == 'toint' else T('toint', v)
            if ck == 'Dynamic':
                return self.dyncast(s, e, v)
            return v
        if ck in ('ConstructorConversion', 'UserDefinedConversion') or e['style'] == 'const' if 'style' in e else False:
            return self.eval0(st, e['e'], fr)
        return self.map1(self.eval0(st, e['e'], fr), f)

    def dyncast(self, st, e, v):
        if v is NULL:
            return NULL
        if v.op == 'ptr' and v.a[0].op == 'lvo' and v.a[0].a[0].op == 'obj' and \
                isinstance(v.a[0].a[0].a[1], int) and v.a[0].a[0].a[0] in self.p.cls and \
                e['t'].rstrip().endswith('*'):
            return v if self.p.is_a(v.a[0].a[0].a[0], base_type(e['t'])) else NULL
        if v.op == 'ptr' and v.a[0].op != 'lvo' and e['t'].rstrip().endswith('*'):
            o = self.read(st, v.a[0])
            if o.op == 'obj' and isinstance(o.a[1], int) and o.a[0] in self.p.cls:
                return v if self.p.is_a(o.a[0], base_type(e['t'])) else NULL
        return T('dyncast', base_type(e['t']), v)

    def e_Lambda(self, st, e, fr):
        caps = []
        outs = [(st, 'v', VOID)]
        for c in e.get('caps', ()):
            if c.get('init'):
                nxt = []
                for s, k, v in outs:
                    if k != 'v':
                        nxt.append((s, k, v))
                        continue
                    nxt += self.eval(s, c['e'], fr)
                outs = nxt
                if len(outs) == 1 and outs[0][1] == 'v':
                    caps.append((c['id'], outs[0][2]))
        def mk(s, _):
            cs = list(caps)
            for c in e.get('caps', ()):
                if 'id' in c and not c.get('init') and not c.get('ref'):
                    cs.append((c['id'], self.read(s, self.var_lv(s, fr, c['id']))))
            return T('closure', tuple(e['fns']), fr, tuple(cs))
        return self.map1(outs, mk)

    def e_New(self, st, e, fr):
        t = base_type(e['t'])
        if e.get('e') is not None and e['e']['k'] == 'Construct':
            return self.map1(self.construct(st, e['e'], fr), lambda s, v:
                             T('ptr', T('lvo', v)))
        return [(st, 'v', T('ptr', T('lvo', T('obj', t, self.bump()))))]

    def e_Delete(self, st, e, fr):
        return self.map1(self.eval(st, e['e'], fr), lambda s, v: (
            s.emit('delete', v, self.where(e)), VOID)[1])

    def e_Throw(self, st, e, fr):
        if e.get('e') is None:
            return [(st, 'throw', self.deref(st, st.x.get('exc') or T('exc', 'rethrow')))]
        out = []
        for s, k, v in self.eval(st, e['e'], fr):
            if k == 'v':
                if v.op not in ('exc', 'tagged'):
                    v = T('exc', base_type(e.get('t', '?')), v)
                s.emit('throw', v, self.where(e))
                out.append((s, 'throw', v))
            else:
                out.append((s, k, v))
        return out

    def e_Construct(self, st, e, fr):
        return self.construct(st, e, fr)

    def e_Typeid(self, st, e, fr):
        return [(st, 'v', T('typeid', self.bump()))]

    def e_StmtExpr(self, st, e, fr):
        return [(st, 'v', T('other', 'stmtexpr'))]

    def e_Other(self, st, e, fr):
        if e.get('ck') == 'CXXScalarValueInitExpr':
            return self.e_ValueInit(st, e, fr)
        if e.get('ck') == 'ArrayInitLoopExpr':
            return [(st, 'v', T('other', 'arr', self.bump()))]
        return [(st, 'v', T('other', e.get('ck'), self.bump()))]

    def e_Call(self, st, e, fr):
        if e.get('m') in ('LOG', 'BLOG', 'DEBUG1'):
            return [(st, 'v', VOID)]
        out = []
        # object
        objs = [(st, 'v', None)]
        if e.get('o') is not None:
            if e.get('arrow'):
                objs = [(s, k, T('ref', self.deref_lv(v)) if k == 'v' else v)
                        for s, k, v in self.eval(st, e['o'], fr)]
            else:
                objs = self.eval_ref(st, e['o'], fr)
        for s, k, o in objs:
            if k != 'v':
                out.append((s, k, o))
                continue
            if not e.get('fn'):
                for s1, k1, cal in self.eval(s, e['callee'], fr):
                    if k1 != 'v':
                        out.append((s1, k1, cal))
                        continue
                    for s2, k2, args in self.eval_args(s1, e['a'], fr):
                        if k2 != 'v':
                            out.append((s2, k2, args))
                        else:
                            out += self.call_value(s2, e, cal, args, fr)
                continue
            for s2, k2, args in self.eval_args(s, e['a'], fr):
                if k2 != 'v':
                    out.append((s2, k2, args))
                else:
                    out += self.call(s2, e, o, args, fr)
        return out

    def call_value(self, st, e, cal, args, fr):
        """Call through a function value."""
        if cal.op == 'ref':
            cal = self.read(st, cal.a[0])
        if cal.op == 'ptr':
            cal = self.read(st, cal.a[0])
        if cal.op == 'fn' and cal.a[0] in self.p.fns and \
                self.can_inline(self.p.fns[cal.a[0]]):
            return self.invoke(st, self.p.fns[cal.a[0]], None, args)
        mf = [x for x in subterms(cal) if x.op == 'fn'] if cal.op in ('call', 'mk', 'mem_fn') and \
            cal.a and 'mem_fn' in cal.op + str(cal.a[0]) else []
        if len(mf) == 1 and mf[0].a[0] in self.p.fns and args:
            o = args[0]
            for _ in range(4):
                if o.op in ('ptr', 'ref') and o.a[0].op == 'lvo':
                    o = o.a[0].a[0]
                elif o.op in ('ptr', 'ref'):
                    o = self.read(st, o.a[0])
            if o.op == 'obj':
                f = self.p.resolve_virtual(mf[0].a[0], o.a[0]) or self.p.fns[mf[0].a[0]]
                if self.can_inline(f):
                    return self.invoke(st, f, o, args[1:])
        if cal.op == 'closure':
            fns = [self.p.fns[u] for u in cal.a[0] if u in self.p.fns]
            if len(fns) > 1:
                fns = [f for f in fns if len(f['params']) == len(args)] or fns
            if fns and len(self.stack) < self.max_depth + 4:
                return self.invoke(st, fns[0], None, args, closure=cal)
        vals = [self.deref(st, a) for a in args]
        return [(st, 'v', T('apply', cal, *vals))]

    def call(self, st, e, o, args, fr):
        sqn = strip_targs(e['qn'])
        m = self.model_for(sqn)
        if m:
            r = m(self, st, e, o, args, fr)
            if r is not None:
                return r
        r = self.builtin(st, e, sqn, o, args, fr)
        if r is not None:
            return r
        f = self.p.fns.get(e['fn'])
        if e.get('virt') and o is not None:
            f = None
            if self.virtual:
                f = self.virtual(self, st, e, self.deref(st, o))
            if f is None:
                ob = self.deref(st, o)
                if ob.op == 'obj':
                    f = self.p.resolve_virtual(e['fn'], ob.a[0])
        if f is not None and f['kind'] == 'lambda' and o is not None:
            c = self.deref(st, o)
            if c.op == 'closure' and c.a[0] and e['fn'] not in c.a[0]:
                # instantiations of one generic lambda for different closures
                return self.call_value(st, e, c, list(args), fr)
            if c.op == 'closure':
                return self.invoke(st, f, None, args, closure=c)
        if f is not None and (f.get('implicit') or f.get('defaulted')) and \
                f['name'] == 'operator=' and o is not None and len(args) == 1:
            return self.copy_assign(st, e, o, args[0])
        if f is not None and self.can_inline(f):
            this = self.deref(st, o) if o is not None else None
            return self.invoke(st, f, this, args)
        return self.opaque(st, e, sqn, o, args, f)

    def copy_assign(self, st, e, o, a):
        v = self.assigned(st, e, self.deref(st, a))
        if o.op == 'ref':
            self.write(st, o.a[0], v, e)
        return [(st, 'v', o)]

    def assigned(self, st, e, v):
        """Value assigned from a value that lives on."""
        if v.op in ('list', 'obj') and e.get('a') and self.is_lv(e['a'][-1]):
            return self.copy_value(st, v)
        return v

    def opaque(self, st, e, sqn, o, args, f):
        self.unknown[sqn] = self.unknown.get(sqn, 0) + 1
        vals = [self.deref(st, a) for a in args]
        ov = self.deref(st, o) if o is not None else None
        full = ([ov] if ov is not None else []) + vals
        st.emit('call', sqn, ov, tuple(vals), self.where(e), e)
        if e.get('noreturn'):
            return [(st, 'exit', T('noreturn', sqn))]
        pure = self.is_pure(e, sqn, f)
        if pure:
            return [(st, 'v', T('call', sqn, *full))]
        if o is not None and o.op == 'ref' and not e.get('repo') and \
                sqn.startswith(('std::', 'boost::')) and \
                e['name'] not in ('operator->', 'operator*', 'get'):
            # container mutation: functional update of the container's value
            st.mem[o.a[0]] = T('mut', ov, sqn, *vals)
            if o.a[0].op in ('lvf', 'lvg', 'lvd'):
                st.emit('mut', o.a[0], sqn, tuple(vals), self.where(e))
            return [(st, 'v', T('call', sqn, *full))]
        return [(st, 'v', T('call', sqn, *full))]

    def is_pure(self, e, sqn, f):
        if f is not None:
            return bool(f.get('const')) or f['kind'] == 'func' and False
        if sqn in MATH:
            return True
        return e['name'] in CONST_NAMES

    def builtin(self, st, e, sqn, o, args, fr):
        name = e['name']
        V = lambda v: [(st, 'v', v)]
        if IDENT.match(sqn) and len(args) >= 1:
            if 'addressof' in sqn:
                a = args[0]
                return V(T('ptr', a.a[0]) if a.op == 'ref' else a)
            return V(args[0])
        if sqn.startswith(('std::__', '__builtin')) and name == '__assert_fail':
            return [(st, 'exit', T('noreturn', 'assert'))]
        if name == 'operator()' and o is not None and sqn.startswith('std::'):
            r = self.functor(st, e, self.deref(st, o), [self.deref(st, a) for a in args])
            if r is not None:
                return r
        if STRING.match(sqn) or sqn in ('std::operator+', 'std::to_string'):
            r = self.strings(st, e, name, o, args)
            if r is not None:
                return r
        if name in ('shared_from_this', 'weak_from_this') and o is not None and \
                sqn.startswith(('std::', 'boost::')):
            x = self.deref(st, o)
            return V(x if x.op == 'ptr' else T('ptr', T('lvo', x)))
        if sqn == 'boost::math::sign' and len(args) == 1:
            v = self.deref(st, args[0])
            if is_c(v) and not isinstance(cval(v), str):
                return V(C((cval(v) > 0) - (cval(v) < 0)))
        if name == '__assert_fail' or sqn in ('abort', 'std::abort', 'std::terminate'):
            return [(st, 'exit', T('noreturn', 'assert'))]
        if name == 'operator<<' and args:
            v = self.deref(st, args[0])
            if v.op in ('exc', 'tagged'):
                info = self.deref(st, args[1]) if len(args) > 1 else VOID
                if info.op == 'mk' and 'throw_' in str(info.a[0]):
                    return V(v)
                v = T('tagged', v, info)
                if args[0].op == 'ref':         # information added to a caught error
                    self.write(st, args[0].a[0], v, e)
                    return V(args[0])
                return V(v)
        if o is not None:
            ot = e['qn']
            if SMART.match(sqn) or SMART.match(ot):
                if name in ('get', 'operator->'):
                    return V(self.deref(st, o))
                if name == 'operator*':
                    return V(T('ref', self.deref_lv(self.deref(st, o))))
                if name == 'operator bool':
                    return V(self.neg(self.cmp('==', self.deref(st, o), NULL, False)))
                if name == 'reset' and o.op == 'ref':
                    self.write(st, o.a[0], self.deref(st, args[0]) if args else NULL, e)
                    return V(VOID)
                if name == 'operator=' and o.op == 'ref':
                    self.write(st, o.a[0], self.deref(st, args[0]), e)
                    return V(o)
                if name == 'swap' and o.op == 'ref' and args and args[0].op == 'ref':
                    v, w = self.deref(st, o), self.deref(st, args[0])
                    self.write(st, o.a[0], w, e)
                    self.write(st, args[0].a[0], v, e)
                    return V(VOID)
                if name == 'lock':
                    return V(self.deref(st, o))
                if name == 'expired':
                    return V(self.cmp('==', self.deref(st, o), NULL, False))
                if name == 'release' and o.op == 'ref':
                    v = self.deref(st, o)
                    self.write(st, o.a[0], NULL, e)
                    return V(v)
            if OPTIONAL.match(sqn):
                v = self.deref(st, o)
                if name in ('operator*', 'value', 'get'):
                    return V(o if v is not NULL else T('other', 'empty optional'))
                if name == 'operator->':
                    return V(T('ptr', o.a[0]) if o.op == 'ref' else T('ptr', T('lvo', v)))
                if name in ('operator bool', 'has_value', 'is_initialized', 'operator!'):
                    t = self.neg(self.cmp('==', v, NULL, False)) \
                        if v.op in ('c', 'null', 'obj', 'ptr', 'xml') or self.tracked_optional \
                        else None
                    if t is not None:
                        if is_c(v):
                            t = TRUE
                        return V(self.neg(t) if name == 'operator!' else t)
                if name == 'value_or':
                    return V(v if v is not NULL else self.deref(st, args[0]))
            if sqn.startswith('std::function::operator()') or \
                    sqn.startswith('std::function') and name == 'operator()':
                return self.call_value(st, e, self.deref(st, o), args, fr)
            if name == 'operator=' and not e.get('repo') and o.op == 'ref' and len(args) == 1:
                self.write(st, o.a[0], self.assigned(st, e, self.deref(st, args[0])), e)
                return V(o)
            if name in ('operator[]', 'at', 'front', 'back') and (
                    sqn.startswith('std::') and 'map' not in sqn or
                    sqn.startswith('ext::index_map') or
                    sqn.startswith('boost::container::') and 'map' not in sqn):
                c = self.deref(st, o)
                i = self.deref(st, args[0]) if args else C(0 if name == 'front' else -1)
                if name == 'operator[]' and 'index_map' in sqn:
                    i = self.arith('-', i, C(int(targs(e['qn'])[0])), True)
                if c.op == 'list' and is_c(i) and name == 'back':
                    i = C(len(c.a) - 1)
                if c.op == 'list' and o.op == 'ref':
                    return V(T('ref', T('lve', o.a[0], i)))
                if c.op == 'list' and is_c(i) and -len(c.a) <= cval(i) < len(c.a):
                    return V(c.a[cval(i)])
                return V(T('ref', self.index_lv(st, c, i)))
        r = self.sequence(st, e, sqn, name, o, args, fr)
        if r is not None:
            return r
        if name in ('make_unique', 'make_shared') and sqn.startswith(('std::', 'boost::')):
            ta = targs(e['qn']) or targs(e.get('t', ''))
            outs = self.emplace(st, e, base_type(ta[0]), args) if ta else []
            if outs and all(k != 'v' or v.op in ('obj', 'list') for _, k, v in outs):
                return [(s, k, T('ptr', T('lvo', v)) if k == 'v' else v)
                        for s, k, v in outs]
            return None
        if sqn == 'std::invoke' and args:
            cal = self.deref(st, args[0])
            if cal.op in ('closure', 'fn'):
                return self.call_value(st, e, cal, list(args[1:]), fr)
        if sqn in ('std::swap', 'boost::swap', 'std::iter_swap') and len(args) == 2:
            a, b = args
            if name == 'iter_swap':
                a, b = [T('ref', self.deref_lv(self.deref(st, x))) for x in args]
            if a.op == b.op == 'ref':
                x, y = self.read(st, a.a[0]), self.read(st, b.a[0])
                self.write(st, a.a[0], y, e)
                self.write(st, b.a[0], x, e)
                return V(VOID)
        if sqn in ('std::get_if', 'std::get', 'std::holds_alternative', 'std::visit'):
            r = self.variant(st, e, sqn[5:], args)
            if r is not None:
                return r
        if name == 'operator()' and o is not None and len(args) == 1 and \
                sqn.startswith(('boost::range_detail::', 'boost::adaptors::')):
            return V(T('adaptor', self.deref(st, o), self.deref(st, args[0])))
        if sqn in ('boost::adaptors::reverse', 'boost::range::reverse') and len(args) == 1:
            l = self.deref(st, args[0])
            if l.op == 'list':
                return V(T('list', *reversed(l.a)))
        if name == 'operator|' and len(args) == 2 and sqn.startswith('boost::'):
            r = self.adapt(st, e, args)
            if r is not None:
                return r
        if name == 'make_iterator_range' and sqn.startswith('boost::'):
            its = [self.deref(st, a) for a in args]
            if len(its) == 2 and all(i.op == 'it' and is_c(i.a[1]) for i in its) and \
                    its[0].a[0].op == its[1].a[0].op == 'ref':
                i, j = int(cval(its[0].a[1])), int(cval(its[1].a[1]))
                return V(T('list', *[T('ref', T('lve', its[0].a[0].a[0], C(k)))
                                     for k in range(i, j)]))
            if len(its) == 1 and args[0].op == 'ref' and its[0].op == 'list':
                return V(T('list', *[T('ref', T('lve', args[0].a[0], C(k)))
                                     for k in range(len(its[0].a))]))
        if sqn in ('boost::join', 'boost::algorithm::join') and len(args) == 2:
            l, sep = self.deref(st, args[0]), self.deref(st, args[1])
            if l.op == 'list' and is_c(sep):
                xs = [self.deref(st, x) for x in l.a]
                if all(is_c(x) and isinstance(cval(x), str) for x in xs):
                    return V(C(cval(sep).join(cval(x) for x in xs)))
                return V(T('join', sep, *xs))
        if sqn in ('std::rotate', 'std::_V2::rotate', 'std::swap_ranges', 'std::reverse') and \
                len(args) == (2 if name == 'reverse' else 3):
            its = [self.deref(st, a) for a in args]
            if all(i.op == 'it' and i.a[0].op == 'ref' and is_c(i.a[1]) and
                   i.a[0] == its[0].a[0] for i in its):
                lv = its[0].a[0].a[0]
                l = self.read(st, lv)
                p = [int(cval(i.a[1])) for i in its]
                if l.op == 'list' and all(0 <= i <= len(l.a) for i in p):
                    x = list(l.a)
                    if name == 'rotate':
                        x[p[0]:p[2]] = x[p[1]:p[2]] + x[p[0]:p[1]]
                        end = p[0] + p[2] - p[1]
                    elif name == 'reverse':
                        x[p[0]:p[1]] = x[p[0]:p[1]][::-1]
                        end = None
                    else:
                        end = p[2] + p[1] - p[0]
                        x[p[0]:p[1]], x[p[2]:end] = x[p[2]:end], x[p[0]:p[1]]
                    self.write(st, lv, T('list', *x), e)
                    return V(VOID if end is None else T('it', its[0].a[0], C(end)))
        if sqn == 'std::exchange' and len(args) == 2 and args[0].op == 'ref':
            x = self.read(st, args[0].a[0])
            self.write(st, args[0].a[0], self.deref(st, args[1]), e)
            return V(x)
        if sqn in MATH:
            vals = [self.deref(st, a) for a in args]
            return V(self.math(sqn.split('::')[-1], vals))
        if name in ('operator==', 'operator!=') and not e.get('repo'):
            full = ([o] if o is not None else []) + args
            if len(full) == 2:
                a, b = [self.deref(st, x) for x in full]
                return V(self.cmp(name[8:], a, b, False))
        if name in ('operator<', 'operator>', 'operator<=', 'operator>=') and not e.get('repo'):
            full = [self.deref(st, x) for x in ([o] if o is not None else []) + args]
            if len(full) == 2 and all(is_c(x) and isinstance(cval(x), str) for x in full):
                return V(self.cmp(name[8:], *full, False))
        r = self.known_algorithm(st, e, sqn, name, args, fr)
        if r is not None:
            return r
        if name == 'count' and sqn.split('::')[0] in ('boost', 'std') and len(args) == 2:
            l, x = [self.deref(st, v) for v in args]
            if l.op == 'list':
                same = [self.cmp('==', self.deref(st, y), x, False) for y in l.a]
                if all(is_c(c) for c in same):
                    return V(C(sum(bool(cval(c)) for c in same)))
        if sqn in ('std::find', 'std::find_if', 'std::any_of', 'std::all_of',
                   'std::none_of', 'std::for_each', 'std::count_if',
                   'boost::find_if', 'boost::count_if') or sqn.startswith('ext::any_of') \
                or sqn.startswith('ext::none_of') or sqn.startswith('ext::all_of'):
            return self.algorithm(st, e, sqn, args, fr)
        return None

    FUNCTORS = {'equal_to': '==', 'not_equal_to': '!=', 'less': '<', 'greater': '>',
                'less_equal': '<=', 'greater_equal': '>='}

    def holds(self, st, v, t):
        """Is the alternative held by the variant value of type t?  None: unknown."""
        t = t.strip()
        if is_c(v):
            x = cval(v)
            return base_type(t) in (('bool',) if isinstance(x, bool) else
                                    ('int', 'long', 'unsigned int') if isinstance(x, int) else
                                    ('double', 'float') if isinstance(x, float) else
                                    ('std::string', 'std::basic_string', 'char')) or \
                isinstance(x, str) and 'string' in t
        if v.op == 'ptr':
            if not t.rstrip('&const ').endswith('*'):
                return False
            v = self.read(st, v.a[0])
            if v.op != 'obj':
                return None
            return self.p.is_a(v.a[0], base_type(t))
        if v.op == 'obj':
            return '*' not in t and self.p.is_a(v.a[0], base_type(t))
        return None

    def variant(self, st, e, name, args):
        V = lambda v: [(st, 'v', v)]
        if name == 'visit':
            if len(args) != 2:
                return None
            f, v = self.deref(st, args[0]), self.deref(st, args[1])
            if f.op == 'closure':
                fns = [self.p.fns[u] for u in f.a[0] if u in self.p.fns]
            elif f.op in ('obj', 'mk'):
                fns = [x for b in self.p.bases(f.a[0]) for x in self.p.fns.values()
                       if x.get('cls') == b and x['name'] == 'operator()']
            else:
                return None
            fit = [x for x in fns if len(x['params']) == 1 and x.get('body') is not None and
                   self.holds(st, v, x['params'][0]['t'])]
            if v.op == 'ptr':
                own = self.read(st, v.a[0])
                fit.sort(key=lambda x: self.p.bases(own.a[0]).index(
                    base_type(x['params'][0]['t'])))
            if not fit:
                return None
            if f.op == 'closure':
                return self.invoke(st, fit[0], None, [args[1]], closure=f)
            return self.invoke(st, fit[0], f, [args[1]])
        ta = targs(e['qn'])
        if not args or not ta or ta[0].isdigit():
            return None
        if name == 'get_if':
            p = self.deref(st, args[0])
            if p.op != 'ptr':
                return None
            h = self.holds(st, self.read(st, p.a[0]), ta[0])
            return None if h is None else V(p if h else NULL)
        h = self.holds(st, self.deref(st, args[0]), ta[0])
        if h is None:
            return None
        if name == 'holds_alternative':
            return V(C(h))
        return V(args[0]) if h else [(st, 'throw', T('exc', 'std::bad_variant_access'))]

    def adapt(self, st, e, args):
        """Range adaptors, evaluated eagerly on known sequences."""
        r, ad = self.deref(st, args[0]), self.deref(st, args[1])
        if r.op != 'list':
            return None
        names = [x for x in ('transformed', 'filtered', 'reversed', 'indirected')
                 if any(y.op == 'glob' and x in y.a[0] for y in subterms(ad))]
        if len(names) != 1:
            return None
        item = (lambda i: T('ref', T('lve', args[0].a[0], C(i)))) \
            if args[0].op == 'ref' else (lambda i: r.a[i])
        if names[0] == 'reversed':
            return [(st, 'v', T('list', *reversed(r.a)))]
        if names[0] == 'indirected':
            return [(st, 'v', T('list', *[T('ref', self.deref_lv(x)) for x in r.a]))]
        fn = [x for x in subterms(ad) if x.op in ('closure', 'fn') or x.op == 'mk' and
              x is not ad and 'mem_fn' in str(x.a[0])]
        if len(fn) != 1:
            return None
        live, out = [(st, ())], []
        for i in range(len(r.a)):
            nxt = []
            for s, acc in live:
                for s2, k2, v2 in self.call_value(s, e, fn[0], [item(i)], 0):
                    if k2 != 'v':
                        out.append((s2, k2, v2))
                    elif names[0] == 'transformed':
                        nxt.append((s2, acc + (self.deref(s2, v2),)))
                    else:
                        for s3, b in self.truth(s2, self.deref(s2, v2)):
                            nxt.append((s3, acc + ((item(i),) if b else ())))
            live = nxt
        return out + [(s, 'v', T('list', *acc)) for s, acc in live]

    def strings(self, st, e, name, o, args):
        """Operations on known strings."""
        V = lambda v: [(st, 'v', v)]
        vals = [self.deref(st, a) for a in args]
        vals = [v for v in vals if not (v.op == 'mk' and ALLOC.match(str(v.a[0])))]
        if not all(is_c(v) for v in vals):
            return None
        a = [cval(v) for v in vals]
        text = lambda x: chr(x) if isinstance(x, int) and not isinstance(x, bool) else x
        if o is None:
            if name == 'operator+' and len(a) == 2 and any(isinstance(x, str) for x in a):
                return V(C(text(a[0]) + text(a[1])))
            if name == 'to_string' and len(a) == 1 and isinstance(a[0], int):
                return V(C(str(int(a[0]))))
            return None
        x = self.deref(st, o)
        if not is_c(x) or not isinstance(cval(x), str):
            return None
        x = cval(x)
        if name in ('empty', 'size', 'length') and not a:
            return V(C(not x) if name == 'empty' else C(len(x)))
        if name in ('c_str', 'data', 'begin', 'operator basic_string_view') and not a:
            return V(C(x)) if name != 'begin' else None
        if name.startswith('operator ') and 'string_view' in name:
            return V(C(x))
        if name in ('front', 'back') and not a:
            return V(C(ord(x[0 if name == 'front' else -1]))) if x else None
        if name in ('operator[]', 'at') and len(a) == 1:
            i = int(a[0])
            if 0 <= i < len(x):
                return V(C(ord(x[i])))
            if name == 'at':
                return [(st, 'throw', T('exc', 'std::out_of_range'))]
            return V(C(0)) if i == len(x) else None
        if name == 'find' and 1 <= len(a) <= 2:
            return V(C(x.find(text(a[0]), int(a[1]) if len(a) > 1 else 0)))
        if name == 'rfind' and (len(a) == 1 or len(a) == 2 and a[1] in (-1, 2 ** 64 - 1)):
            return V(C(x.rfind(text(a[0]))))
        if name == 'find_first_of' and (len(a) == 1 or len(a) == 2 and not a[1]) or \
                name == 'find_last_of' and (len(a) == 1 or len(a) == 2 and a[1] in (
                    -1, 2 ** 64 - 1)):
            p = [i for i, c in enumerate(x) if c in text(a[0])]
            return V(C((p[0] if name == 'find_first_of' else p[-1]) if p else -1))
        if name == 'substr' and len(a) <= 2:
            i = int(a[0]) if a else 0
            n = int(a[1]) if len(a) > 1 and 0 <= a[1] < 2 ** 62 else len(x)
            if i > len(x):
                return [(st, 'throw', T('exc', 'std::out_of_range'))]
            return V(C(x[i:i + n]))
        if name == 'compare' and len(a) == 1 and isinstance(a[0], str):
            return V(C((x > a[0]) - (x < a[0])))
        if o.op == 'ref':
            y = None
            if name in ('operator+=', 'append', 'push_back') and len(a) == 1:
                y = x + text(a[0])
            elif name == 'append' and len(a) == 2 and isinstance(a[0], str):
                y = x + a[0][:int(a[1])]
            elif name == 'clear' and not a:
                y = ''
            elif name == 'pop_back' and x:
                y = x[:-1]
            if y is not None:
                self.write(st, o.a[0], C(y), e)
                return V(o)
        return None

    def functor(self, st, e, f, vals):
        """Function objects of <functional>."""
        if f.op != 'mk' or len(f.a) != 1:
            return None
        m = re.match(r'(?:const )?std::(\w+)(?:<(.*)>)?$', str(f.a[0]))
        if not m or not vals:
            return None
        n, ty = m.group(1), m.group(2) or 'void'
        if ty == 'int':
            vals = [T('toint', v) if v.op not in ('toint', 'c') or v.a[0] == 'float' else v
                    for v in vals]
        ops = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}
        if n in ops and len(vals) == 2:
            return [(st, 'v', self.arith(ops[n], vals[0], vals[1], ty == 'int'))]
        if n == 'negate':
            return [(st, 'v', C(-cval(vals[0])) if is_c(vals[0]) else T('neg', vals[0]))]
        if n == 'modulus' and len(vals) == 2:
            return [(st, 'v', T('%', *vals))]
        if n in self.FUNCTORS and len(vals) == 2:
            cond = self.cmp(self.FUNCTORS[n], vals[0], vals[1], ty != 'int')
            return [(s, 'v', C(b)) for s, b in self.truth(st, cond)]
        if n in ('logical_not', 'logical_and', 'logical_or'):
            out = []
            for s, b in self.truth(st, self.nonzero(vals[0])):
                if n == 'logical_not':
                    out.append((s, 'v', C(not b)))
                elif b == (n == 'logical_or'):
                    out.append((s, 'v', C(b)))
                else:
                    out += [(s2, 'v', C(b2)) for s2, b2 in self.truth(s, self.nonzero(vals[1]))]
            return out
        return None

    def nonzero(self, v):
        if is_c(v):
            return C(bool(cval(v)))
        if v.op in ('lt', 'le', 'eq', '!'):
            return v
        return self.neg(self.cmp('==', v, C(0), False))

    def sequence(self, st, e, sqn, name, o, args, fr):
        """Operations on sequences whose elements are all known."""
        if e.get('repo') and not name.startswith('operator') and not (
                sqn.startswith(('ext::', 'scram::xml::'))):
            return None
        full = ([o] if o is not None else []) + args
        if not full:
            return None
        a = self.deref(st, full[0])
        loc = full[0] if full[0].op == 'ref' else None
        if a.op == 'ptr':
            loc = T('ref', a.a[0])
            a = self.read(st, a.a[0])
        if name == 'operator->' and 'proxy' in sqn and self.deref(st, full[0]).op == 'ptr':
            return [(st, 'v', self.deref(st, full[0]))]
        if a.op not in ('list', 'it'):
            return None
        vals = [self.deref(st, x) for x in full]
        vals[0] = a
        V = lambda v: [(st, 'v', v)]
        if a.op == 'list':
            r = self.list_op(st, e, name, loc, a, vals, full)
            if r is not None:
                return r
        if name == 'distance' and len(full) == 2:
            return V(self.arith('-', vals[1], T('it', *as_it(a)), True))
        if name in ('next', 'prev') and a.op == 'it':
            n = vals[1] if len(vals) > 1 else C(1)
            return V(self.arith('+' if name == 'next' else '-', a, n, True))
        if name == 'find' and len(full) == 3 and vals[1].op == 'it':
            l, i = as_it(a)
            items = self.deref(st, l)
            if items.op == 'list':
                return self.find_in(st, items, i, vals[1].a[1], vals[2], l)
        if a.op == 'it' and name == 'advance' and loc is not None:
            self.write(st, loc.a[0], self.arith('+', a, vals[1], True), e)
            return V(VOID)
        if a.op == 'it':
            if name in ('operator++', 'operator--') and full[0].op == 'ref':
                v = self.arith(name[-1], a, C(1))
                st.mem[full[0].a[0]] = v
                return V(a if len(full) > 1 else full[0])
            if name in ('operator++', 'operator--') and len(full) == 1:
                return V(self.arith(name[-1], a, C(1)))
            if name in ('operator*', 'operator->') and len(full) == 1:
                if a.a[0].op == 'ref' and is_c(a.a[1]):
                    seq = self.read(st, a.a[0].a[0])
                    if seq.op == 'list' and not 0 <= cval(a.a[1]) < len(seq.a):
                        return [(st, 'exit', T('call', 'dereference past the end', self.bump()))]
                lv = self.deref_lv(a)
                if name == 'operator->':
                    return V(T('ptr', lv))
                return V(T('ref', lv))
            if name in ('operator+', 'operator-') and len(full) == 2:
                return V(self.arith(name[-1], a, vals[1], True))
            if name in ('operator+=', 'operator-=') and full[0].op == 'ref':
                v = self.arith(name[-2], a, vals[1], True)
                st.mem[full[0].a[0]] = v
                return V(full[0])
            if name in ('operator<', 'operator<=', 'operator>', 'operator>=',
                        'operator==', 'operator!=') and vals[1].op == 'it':
                return V(self.cmp(name[8:], a, vals[1], False))
            if name == 'base':
                return V(a)
        return None

    def list_op(self, st, e, name, loc, a, vals, full):
        V = lambda v: [(st, 'v', v)]
        n = len(full)
        src = loc if loc is not None else a
        if name in ('begin', 'cbegin') and n == 1:
            return V(T('it', src, C(0)))
        if name in ('end', 'cend') and n == 1:
            return V(T('it', src, C(len(a.a))))
        if name in ('rbegin', 'crbegin', 'rend', 'crend') and n == 1:
            items = [T('ref', T('lve', loc.a[0], C(i))) if loc is not None else x
                     for i, x in enumerate(a.a)][::-1]
            return V(T('it', T('list', *items), C(0 if 'begin' in name else len(a.a))))
        if name in ('size', 'distance', 'length') and n == 1:
            return V(C(len(a.a)))
        if name == 'empty' and n == 1:
            return V(C(not a.a))
        if name == 'operator[]' and 'iterator_range' in e['qn'] and is_c(vals[1]) and \
                0 <= cval(vals[1]) < len(a.a):
            i = int(cval(vals[1]))
            return V(T('ref', T('lve', loc.a[0], C(i))) if loc is not None else a.a[i])
        if name in ('front', 'back') and a.a:
            i = 0 if name == 'front' else len(a.a) - 1
            return V(T('ref', T('lve', loc.a[0], C(i))) if loc is not None else a.a[i])
        r = self.keyed(st, e, name, loc, a, vals, full)
        if r is not None:
            return r
        if name == 'find' and n == 2 and 'map' not in e['qn']:
            return self.find_in(st, a, C(0), C(len(a.a)), vals[1], src)
        if name == 'data' and n == 1:
            return V(T('it', src, C(0)))
        if loc is None:
            return None
        w = lambda items: self.write(st, loc.a[0], T('list', *items), e)
        if name in ('reserve', 'shrink_to_fit'):
            return V(VOID)
        if name in ('push_back', 'emplace_back') and 'map' not in e['qn']:
            et = (targs(e['qn']) or [''])[0]
            if 'index_map' in e['qn'].split('<')[0]:
                et = targs(e['qn'])[1]
            if n == 2:
                x = vals[1]
                outs = [(st, 'v', x)]
                c = self.p.cls.get(base_type(et))
                if name == 'emplace_back' and c is not None and not et.strip().endswith('*') \
                        and x.op not in ('obj', 'copyof'):
                    outs = self.emplace(st, e, base_type(et), full[1:])
            else:
                outs = self.emplace(st, e, base_type(et), full[1:])
            res = []
            for s, k, x in outs:
                if k == 'v':
                    cur = self.read(s, loc.a[0])
                    self.write(s, loc.a[0], T('list', *cur.a, x), e)
                    s.emit('push', loc.a[0], x, self.where(e))
                    x = T('ref', T('lve', loc.a[0], C(len(cur.a))))
                res.append((s, k, x))
            return res
        if name == 'pop_back' and a.a:
            w(a.a[:-1])
            return V(VOID)
        if name == 'clear' and n == 1:
            w(())
            return V(VOID)
        if name == 'resize' and n in (2, 3) and is_c(vals[1]) and cval(vals[1]) <= 64:
            k = int(cval(vals[1]))
            et = self.elem_type(e['qn'])
            w(list(a.a[:k]) + [vals[2] if n == 3 else self.fresh_zero(st, et)
                               for _ in range(k - len(a.a))])
            return V(VOID)
        if name == 'insert' and n >= 3 and vals[1].op == 'it' and is_c(vals[1].a[1]):
            k = cval(vals[1].a[1])
            if n == 3:
                new = (vals[2],)
            elif vals[2].op == 'it':
                l = self.slice(st, vals[2], vals[3])
                if l is None:
                    return None
                new = l.a
            else:
                return None
            w(a.a[:k] + new + a.a[k:])
            return V(T('it', loc, C(k)))
        if name == 'erase' and n == 2 and vals[1].op == 'it' and is_c(vals[1].a[1]):
            k = cval(vals[1].a[1])
            w(a.a[:k] + a.a[k + 1:])
            return V(T('it', loc, C(k)))
        if name == 'assign' and n == 3 and vals[1].op == 'it':
            l = self.slice(st, vals[1], vals[2])
            if l is not None:
                w(l.a)
                return V(VOID)
        if name == 'swap' and n == 2 and full[1].op == 'ref':
            w(vals[1].a)
            self.write(st, full[1].a[0], a, e)
            return V(VOID)
        return None

    def key_eq(self, st, a, b):
        """Equality of keys; pairs are compared by their members."""
        if a.op == b.op == 'obj' and a.a[0].startswith('std::pair<') and \
                b.a[0].startswith('std::pair<'):
            r = TRUE
            for f in ('first', 'second'):
                x, y = (self.deref(st, self.read(st, T('lvf', o, f))) for o in (a, b))
                c = self.key_eq(st, x, y)
                if c is FALSE:
                    return FALSE
                if c is not TRUE:
                    r = None
            if r is TRUE:
                return TRUE
        return self.cmp('==', a, b, False)

    def keyed(self, st, e, name, loc, a, vals, full):
        """Maps and sets whose entries are all known (insertion order)."""
        n, qn = len(full), e['qn']
        head = qn.split('<')[0]
        ismap = 'map' in head and 'index_map' not in head
        if not (ismap or 'set' in head.rsplit('::', 1)[-1] or head.endswith('set')):
            return None
        def key(s, i):
            x = a.a[i]
            return s.mem.get(T('lvf', x, 'first')) or x if ismap else x
        def lookup(s, k):
            out, cur = [], s
            for i in range(len(a.a)):
                nxt = None
                for s2, b in self.truth(cur, self.key_eq(cur, key(cur, i), k)):
                    if b:
                        out.append((s2, i))
                    else:
                        nxt = s2
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                out.append((cur, None))
            return out
        src = loc if loc is not None else a
        if name in ('find', 'count', 'contains', 'at') and n == 2:
            out = []
            for s, i in lookup(st, vals[1]):
                if name == 'find':
                    v = T('it', src, C(len(a.a) if i is None else i))
                elif name == 'at':
                    if i is None:
                        out.append((s, 'throw', T('exc', 'std::out_of_range')))
                        continue
                    v = T('ref', T('lvf', a.a[i], 'second'))
                else:
                    v = C(i is not None) if name == 'contains' else C(int(i is not None))
                out.append((s, 'v', v))
            return out
        if loc is None:
            return None
        ordered = not ('unordered' in head or 'linear' in head)
        if name == 'data' and n == 1 and 'linear_map' in head:
            return [(st, 'v', loc)]
        if name == 'erase' and n == 2:
            if vals[1].op == 'it' and is_c(vals[1].a[1]):
                hits = [(st, int(cval(vals[1].a[1])))]
            elif vals[1].op == 'it':
                return None
            else:
                hits = lookup(st, vals[1])
            out = []
            for s, i in hits:
                if i is not None and not 0 <= i < len(a.a):
                    out.append((s, 'exit', T('noreturn', 'erasing past the end')))
                    continue
                if i is not None:
                    x = list(a.a)
                    if 'MoveEraser' in qn:
                        x[i] = x[-1]
                        x.pop()
                    else:
                        del x[i]
                    self.write(s, loc.a[0], T('list', *x), e)
                out.append((s, 'v', C(int(i is not None)) if vals[1].op != 'it' else
                            T('it', src, C(i))))
            return out
        if name in ('emplace', 'insert', 'try_emplace', 'operator[]', 'emplace_hint') and n >= 2:
            if name == 'insert' and n == 3 and not ismap and not ordered and \
                    vals[1].op == vals[2].op == 'it':
                r1, r2 = as_it(vals[1]), as_it(vals[2])
                l = self.deref(st, r1[0])
                if r1[0] is not r2[0] or l.op != 'list' or not is_c(r1[1]) or not is_c(r2[1]):
                    return None
                x = list(a.a)
                for y in l.a[int(cval(r1[1])):int(cval(r2[1]))]:
                    y = self.deref(st, y)
                    eq = [self.cmp('==', z, y, False) for z in x]
                    if any(q is TRUE for q in eq):
                        continue
                    if not all(is_c(q) for q in eq):
                        return None
                    x.append(y)
                self.write(st, loc.a[0], T('list', *x), e)
                return [(st, 'v', VOID)]
            if vals[1].op == 'it' and n == 3 and not ismap:     # with a hint
                vals, n = [vals[0], vals[2]], 2
                hint = True
            else:
                hint = False
            if name == 'insert' and n != 2 or vals[1].op == 'it':
                return None
            k, item = vals[1], None
            if ismap and name == 'insert' or ismap and name == 'emplace' and n == 2:
                item = vals[1]
                k = st.mem.get(T('lvf', item, 'first'))
                if k is None:
                    return None
            elif ismap and name in ('emplace', 'try_emplace') and n != 3:
                return None
            out = []
            for s, i in lookup(st, k):
                if i is None:
                    if item is None and ismap:
                        v = vals[2] if n == 3 else self.zero((targs(qn) or ['?', '?'])[1])
                        if n == 3 and full[2].op == 'ref' and v.op == 'obj' and \
                                name == 'emplace':
                            v = self.copy_value(s, v)
                        item2 = T('obj', 'std::pair<>', self.bump())
                        s.mem[T('lvf', item2, 'first')] = k
                        s.mem[T('lvf', item2, 'second')] = v
                    else:
                        item2 = item if ismap else k
                    x, j, new = list(a.a), len(a.a), TRUE
                    ks = [key(s, q) for q in range(len(x))]
                    if ordered and is_c(k) and all(is_c(q) and type(cval(q)) is type(cval(k))
                                                   for q in ks):
                        j = sum(cval(q) < cval(k) for q in ks)
                    x.insert(j, item2)
                    self.write(s, loc.a[0], T('list', *x), e)
                else:
                    item2, j, new = a.a[i], i, FALSE
                if name == 'operator[]':
                    out.append((s, 'v', T('ref', T('lvf', item2, 'second'))))
                    continue
                if hint:
                    out.append((s, 'v', T('it', src, C(j))))
                    continue
                r = T('obj', 'std::pair<>', self.bump())
                s.mem[T('lvf', r, 'first')] = T('it', src, C(j))
                s.mem[T('lvf', r, 'second')] = new
                out.append((s, 'v', r))
            return out
        return None

    def default_of(self, f, i):
        """Default argument of a parameter, also of an inherited constructor."""
        for _ in range(5):
            if i >= len(f['params']):
                return None
            if f['params'][i].get('def') or not f.get('implicit'):
                return f['params'][i].get('def')
            b = [x['e'] for x in f.get('inits') or () if x.get('base') and
                 x['e'].get('inherited')]
            f = self.p.fns.get(b[0].get('fn')) if len(b) == 1 else None
            if f is None:
                return None
        return None

    def emplace(self, st, e, t, args):
        """Constructs a t from argument values."""
        vals = [self.deref(st, x) for x in args]
        if self.created and strip_targs(t) in self.created:
            return self.created[strip_targs(t)](self, st, e, t, args)
        c = self.p.cls.get(t)
        if c is not None:
            ctors = [f for f in self.p.fns.values() if f['kind'] == 'ctor' and
                     f.get('cls') == t and len(f['params']) >= len(args) and
                     all(self.default_of(f, i) for i in range(len(args), len(f['params'])))
                     and not (f.get('implicit') and len(args) == 1 and
                              base_type(f['params'][0]['t']) == t)]
            if len(ctors) > 1:
                ctors = [f for f in ctors if all(
                    self.holds(st, v, q['t']) is not False
                    for v, q in zip(vals, f['params']))]
            if len(ctors) == 1 and self.can_inline(ctors[0]):
                o = T('obj', t, self.bump())
                outs = [(st, 'v', tuple(args))]
                for i in range(len(args), len(ctors[0]['params'])):
                    nxt = []
                    for s, k, a in outs:
                        if k != 'v':
                            nxt.append((s, k, a))
                        else:
                            nxt += [(s2, k2, a + (v2,) if k2 == 'v' else v2)
                                    for s2, k2, v2 in self.eval(
                                        s, self.default_of(ctors[0], i), 0)]
                    outs = nxt
                res = []
                for s, k, a in outs:
                    if k == 'v':
                        res += [(s2, k2, o if k2 == 'v' else v2) for s2, k2, v2 in
                                self.invoke(s, ctors[0], o, list(a))]
                    else:
                        res.append((s, k, a))
                return res
        r = self.std_object(st, t, vals)
        if r is None:
            r = T('mk', t, *vals)
        return [(st, 'v', r)]

    def find_in(self, st, lst, i, j, v, src=None):
        src = src if src is not None else lst
        out = []
        if not (is_c(i) and is_c(j)):
            return None
        cur = st
        for n in range(cval(i), cval(j)):
            nxt = None
            for s, b in self.truth(cur, self.cmp('==', lst.a[n], v, False)):
                if b:
                    out.append((s, 'v', T('it', src, C(n))))
                else:
                    nxt = s
            cur = nxt
            if cur is None:
                break
        if cur is not None:
            out.append((cur, 'v', T('it', src, j)))
        return out

    def known_range(self, st, args):
        """(source, lo, hi, remaining args) of a known range argument."""
        if not args:
            return None
        a = self.deref(st, args[0])
        if a.op == 'list':
            return (args[0] if args[0].op == 'ref' else a), 0, len(a.a), args[1:]
        if a.op == 'it' and len(args) > 1:
            b = self.deref(st, args[1])
            if b.op == 'it' and a.a[0] is b.a[0] and is_c(a.a[1]) and is_c(b.a[1]):
                return a.a[0], cval(a.a[1]), cval(b.a[1]), args[2:]
        if a.op in ('mk', 'obj') and a.a[0].startswith('boost::iterator_range') and \
                a.op == 'mk' and len(a.a) == 3:
            return self.known_range(st, [a.a[1], a.a[2]] + list(args[1:]))
        return None

    def known_algorithm(self, st, e, sqn, name, args, fr):
        ns = sqn.rsplit('::', 1)[0]
        if not (ns.startswith(('std', 'boost', 'ext'))):
            return None
        if name not in ('find_if', 'find_if_not', 'any_of', 'all_of', 'none_of',
                        'for_each', 'count_if', 'accumulate', 'transform', 'copy',
                        'fill', 'reduce', 'is_sorted', 'adjacent_find', 'sort', 'stable_sort'):
            return None
        kr = self.known_range(st, args)
        if kr is None:
            return None
        src, lo, hi, rest = kr
        if hi - lo > 16:
            return None
        def item(i):
            if src.op == 'ref':
                return T('ref', T('lve', src.a[0], C(i)))
            return src.a[i]
        def callf(s, fv, a):
            if fv.op == 'mk' and len(fv.a) == 1 and fv.a[0] in STD_FUNCTORS:
                return [(s, 'v', self.arith(STD_FUNCTORS[fv.a[0]], self.deref(s, a[0]),
                                            self.deref(s, a[1])))]
            return self.call_value(s, e, fv, a, fr)
        if name in ('sort', 'stable_sort'):
            # Insertion of the values, if the comparisons are decided.
            if src.op != 'ref':
                return None
            s, vals = st, []
            fnv = self.deref(s, rest[0]) if rest else None
            for x in [self.deref(s, item(i)) for i in range(lo, hi)]:
                at = len(vals)
                if fnv is not None:
                    r = callf(s, fnv, [x, x])
                    if len(r) == 1 and r[0][1] == 'v':
                        t = self.truth(r[0][0], self.deref(r[0][0], r[0][2]))
                        if len(t) == 1 and t[0][1]:
                            return [(s, 'exit', T('call', 'comparator is not a strict order',
                                                  self.bump()))]
                while at:
                    if fnv is not None:
                        r = callf(s, fnv, [x, vals[at - 1]])
                    else:
                        r = [(s, 'v', self.cmp('<', x, vals[at - 1], True))]
                    if len(r) != 1 or r[0][1] != 'v':
                        return None
                    t = self.truth(r[0][0], self.deref(r[0][0], r[0][2]))
                    if len(t) != 1:
                        return None
                    s = t[0][0]
                    if not t[0][1]:
                        break
                    at -= 1
                vals.insert(at, x)
            for i, x in enumerate(vals):
                self.write(s, T('lve', src.a[0], C(lo + i)), x, e)
            return [(s, 'v', args[0] if ns.startswith('boost') else VOID)]
        if name == 'fill':
            for i in range(lo, hi):
                if src.op == 'ref':
                    self.write(st, T('lve', src.a[0], C(i)), self.deref(st, rest[0]), e)
            return [(st, 'v', VOID)]
        if name in ('accumulate', 'reduce'):
            if not rest:
                return None
            live = [(st, 'v', self.deref(st, rest[0]))]
            isint = not self.isflt(e)
            for i in range(lo, hi):
                nxt = []
                for s, k, acc in live:
                    if k != 'v':
                        nxt.append((s, k, acc))
                    elif len(rest) > 1:
                        nxt += [(s2, k2, self.deref(s2, v2) if k2 == 'v' else v2)
                                for s2, k2, v2 in callf(
                                    s, self.deref(s, rest[1]), [acc, item(i)])]
                    else:
                        nxt.append((s, 'v', self.arith('+', acc, self.deref(s, item(i)), isint)))
                live = nxt
            return live
        if name in ('is_sorted', 'adjacent_find'):
            fnv = self.deref(st, rest[0]) if rest else None
            live, out = [st], []
            for i in range(lo, hi - 1):
                a, b = (item(i), item(i + 1)) if name == 'adjacent_find' else \
                    (item(i + 1), item(i))
                nxt = []
                for s in live:
                    if fnv is not None:
                        r = callf(s, fnv, [a, b])
                    else:
                        r = [(s, 'v', self.cmp('==' if name == 'adjacent_find' else '<',
                                               self.deref(s, a), self.deref(s, b), True))]
                    for s2, k2, v2 in r:
                        if k2 != 'v':
                            out.append((s2, k2, v2))
                            continue
                        for s3, t in self.truth(s2, self.deref(s2, v2)):
                            if not t:
                                nxt.append(s3)
                            else:
                                out.append((s3, 'v', FALSE if name == 'is_sorted' else
                                            T('it', src, C(i))))
                live = nxt
            return out + [(s, 'v', TRUE if name == 'is_sorted' else T('it', src, C(hi)))
                          for s in live]
        if name == 'copy':
            return None
        if name == 'transform':
            dst = self.deref(st, rest[0]) if rest else None
            if dst is None or dst.op not in ('it', 'call', 'mk') or len(rest) != 2:
                return None
        fnv = self.deref(st, rest[-1]) if rest else None
        if fnv is None:
            return None
        out, live = [], [(st, 0)]
        src_it = lambda i: T('it', src, C(i))
        for i in range(lo, hi):
            nxt = []
            for s, cnt in live:
                for s2, k2, v2 in self.call_value(s, e, fnv, [item(i)], fr):
                    if k2 != 'v':
                        out.append((s2, k2, v2))
                        continue
                    v2 = self.deref(s2, v2)
                    if name == 'for_each':
                        nxt.append((s2, cnt))
                        continue
                    if name == 'transform':
                        d = self.deref(s2, rest[0])
                        if d.op == 'it':
                            self.write(s2, self.deref_lv(self.arith('+', d, C(i - lo), True)), v2, e)
                        elif d.a[0] in ('std::back_inserter', 'std::inserter') and d.a[1].op == 'ptr':
                            l = self.read(s2, d.a[1].a[0])
                            if l.op != 'list':
                                return None
                            self.write(s2, d.a[1].a[0], T('list', *l.a, v2), e)
                        else:
                            return None
                        nxt.append((s2, cnt))
                        continue
                    for s3, b in self.truth(s2, v2):
                        if name in ('find_if', 'find_if_not'):
                            if b == (name == 'find_if'):
                                out.append((s3, 'v', src_it(i)))
                            else:
                                nxt.append((s3, cnt))
                        elif name == 'count_if':
                            nxt.append((s3, cnt + b))
                        else:
                            stop = b if name != 'all_of' else not b
                            if stop:
                                out.append((s3, 'v', C(name == 'any_of')))
                            else:
                                nxt.append((s3, cnt))
            live = nxt
        for s, cnt in live:
            out.append((s, 'v', {'find_if': src_it(hi), 'find_if_not': src_it(hi),
                                 'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE,
                                 'count_if': C(cnt)}.get(name, VOID)))
        return out

    def algorithm(self, st, e, sqn, args, fr):
        name = sqn.split('::')[-1]
        fnv = self.deref(st, args[-1])
        if fnv.op not in ('closure', 'fn'):
            return None
        rng = self.deref(st, args[0])
        if rng.op == 'call' and rng.a[0].split('::')[-1] in ('begin', 'cbegin'):
            rng = rng.a[1]
        elem = T('each', rng)
        out = []
        lv = T('lvt', fr, self.bump())
        base = st.copy()
        st.mem[lv] = elem
        for s, k, v in self.call_value(st, e, fnv, [T('ref', lv)], fr):
            if k != 'v':
                out.append((s, k, v))
                continue
            if name == 'for_each':
                out.append((s, 'v', VOID))
                continue
            for s2, b in self.truth(s, self.deref(s, v)):
                # existential witness / universal failure found
                if name in ('any_of', 'all_of', 'none_of'):
                    hit = b if name != 'all_of' else not b
                    if hit:
                        out.append((s2, 'v', C(name == 'any_of')))
                elif b:
                    out.append((s2, 'v', T('found', elem)))
        if name in ('any_of', 'all_of', 'none_of'):
            base.emit('noelem', name, rng, fnv)
            out.append((base, 'v', C(name != 'any_of')))
        elif name.startswith('find'):
            out.append((base, 'v', T('call', 'std::end', rng)))
        elif name == 'count_if':
            out.append((base, 'v', C(0)))
        return out

    def math(self, name, vals):
        if any(is_nan(v) for v in vals) and name not in ('isnan', 'isfinite', 'isinf', 'min', 'max'):
            return C(math.nan)
        if name == 'isnan' and len(vals) == 1:
            if is_nan(vals[0]):
                return TRUE
            if iv(vals[0]):
                return FALSE
        if name == 'isfinite' and len(vals) == 1:
            if is_nan(vals[0]):
                return FALSE
            i = iv(vals[0])
            if i:
                if math.isfinite(i[0]) and math.isfinite(i[2]) or \
                        (i[1] or math.isfinite(i[0])) and (i[3] or math.isfinite(i[2])):
                    return TRUE
                if i[0] == i[2]:
                    return FALSE
        if name in ('min', 'max') and len(vals) == 2:
            a, b = vals
            if is_nan(a) or is_nan(b):
                # std::min(a,b) = (b<a)?b:a ; comparison with NaN is false
                return a
            c = self.cmp('<', b, a, True) if name == 'min' else self.cmp('<', a, b, True)
            if c is TRUE:
                return b
            if c is FALSE:
                return a
            ia, ib = iv(a), iv(b)
            if ia and ib:
                pick = min if name == 'min' else max
                lo = pick((ia[0], ia[1]), (ib[0], ib[1]))
                hi = pick((ia[2], not ia[3]), (ib[2], not ib[3]))
                return IV(lo[0], lo[1], hi[0], not hi[1])
        if name in ('abs', 'fabs') and is_c(vals[0]) and vals[0].a[0] == 'int':
            return C(abs(cval(vals[0])))
        if all(is_c(v) for v in vals) and name in ('exp', 'log', 'sqrt', 'pow', 'abs', 'fabs'):
            try:
                x = [float(cval(v)) for v in vals]
                return C({'exp': math.exp, 'log': math.log, 'sqrt': math.sqrt,
                          'pow': math.pow, 'abs': abs, 'fabs': abs}[name](*x))
            except (ValueError, OverflowError):
                pass
        if name == 'exp' and iv(vals[0]):
            lo, a, hi, b = iv(vals[0])
            f = lambda x: math.exp(x) if x < 700 else math.inf
            return IV(f(lo), a, f(hi), b)
        return T('call', name, *vals)

    # -- statements -----------------------------------------------------------
    def exec(self, st, s, fr):
        """-> [(state, kind, value)], kind in n, ret, brk, cont, throw, exit."""
        if s is None:
            return [(st, 'n', VOID)]
        if s.get('m') in ('LOG', 'BLOG', 'DEBUG1', 'DEBUG2', 'DEBUG3', 'DEBUG4', 'DEBUG5',
                          'INFO', 'WARNING', 'ERROR'):
            return [(st, 'n', VOID)]
        m = getattr(self, 's_' + s['k'], None)
        if m:
            return m(st, s, fr)
        res = []
        for s1, k, v in self.eval0(st, s, fr):
            res.append((s1, 'n' if k == 'v' else k, v))
        return res

    def s_Null(self, st, s, fr):
        return [(st, 'n', VOID)]

    def s_Compound(self, st, s, fr):
        outs = [(st, 'n', VOID)]
        dtors = []
        for x in s['c']:
            nxt = []
            live = False
            for s1, k, v in outs:
                if k != 'n':
                    nxt.append((s1, k, v))
                else:
                    live = True
                    nxt += self.exec(s1, x, fr)
            outs = nxt
            if len(outs) > self.max_states:
                raise Budget()
            if x and x['k'] == 'Decl':
                for d in x['vars']:
                    if not d['t'].endswith('&'):
                        f = self.user_dtor(base_type(d['t'])) if not d['t'].endswith('*') else None
                        if f:
                            dtors.append((d, f))
            if not live:
                break
        for d, f in reversed(dtors):
            nxt = []
            for s1, k, v in outs:
                key = T('lvv', fr, d['id'])
                if key not in s1.mem or k == 'exit':
                    nxt.append((s1, k, v))
                    continue
                for s2, k2, v2 in self.invoke(s1, f, s1.mem[key], []):
                    nxt.append((s2, k, v) if k2 == 'v' else (s2, k2, v2))
            outs = nxt
        return outs

    def user_dtor(self, t):
        c = self.p.cls.get(t)
        if not c:
            return None
        for m in c['methods']:
            if m['name'].startswith('~') and not m.get('implicit'):
                f = self.p.fns.get(m['usr'])
                if f and f.get('body') and not f.get('defaulted') and self.can_inline(f):
                    return f
        return None

    def s_Decl(self, st, s, fr):
        outs = [(st, 'n', VOID)]
        for d in s['vars']:
            nxt = []
            for s1, k, v in outs:
                if k != 'n':
                    nxt.append((s1, k, v))
                else:
                    nxt += self.declare(s1, d, fr)
            outs = nxt
        return outs

    def declare(self, st, d, fr):
        key = T('lvv', fr, d['id'])
        st.mem.pop(key, None)
        res = []
        isref = d['t'].endswith('&')
        if d.get('init') is None:
            st.mem[key] = T('uninit', d['name'])
            return [(st, 'n', VOID)]
        if isref:
            evs = [(a, b, T('ref', c) if b == 'v' else c)
                   for a, b, c in self.eval_lv(st, d['init'], fr)]
        else:
            evs = self.eval(st, d['init'], fr)
        for s1, k, v in evs:
            if k != 'v':
                res.append((s1, k, v))
                continue
            s1.mem[key] = v
            for i, b in enumerate(d.get('bindings', ())):
                self.bind(s1, fr, d, b, i, v)
            res.append((s1, 'n', VOID))
        return res

    def bind(self, st, fr, d, b, i, v):
        val = self.deref(st, v)
        if b.get('e') is not None and b['e']['k'] == 'Member':
            lv = T('lvf', val, b['e']['name'])
        else:
            lv = T('lvf', val, ('first', 'second')[i] if i < 2 and
                   'pair' in d['t'] else 'bind%d' % i)
        if val.op == 'mk' and len(val.a) > i + 1 and lv not in st.mem:
            st.mem[lv] = val.a[i + 1]
        st.mem[T('lvv', fr, b['id'])] = T('ref', lv)

    def s_Return(self, st, s, fr):
        if s.get('e') is None:
            return [(st, 'ret', VOID)]
        f = self.stack[-1] if self.stack else None
        if f is not None and f['ret'].endswith('&'):
            evs = [(a, b, T('ref', c) if b == 'v' else c)
                   for a, b, c in self.eval_lv(st, s['e'], fr)]
        else:
            evs = self.eval(st, s['e'], fr)
        return [(a, 'ret' if b == 'v' else b, c) for a, b, c in evs]

    def s_Break(self, st, s, fr):
        return [(st, 'brk', VOID)]

    def s_Continue(self, st, s, fr):
        return [(st, 'cont', VOID)]

    def s_If(self, st, s, fr):
        outs = [(st, 'n', VOID)]
        if s.get('init'):
            outs = self.exec(st, s['init'], fr)
        if s.get('var'):
            nxt = []
            for s1, k, v in outs:
                nxt += self.declare(s1, s['var'], fr) if k == 'n' else [(s1, k, v)]
            outs = nxt
        res = []
        for s1, k, v in outs:
            if k != 'n':
                res.append((s1, k, v))
                continue
            for s2, k2, c in self.eval(s1, s['cond'], fr):
                if k2 != 'v':
                    res.append((s2, k2, c))
                    continue
                for s3, b in self.truth(s2, c):
                    br = s['then'] if b else s.get('else')
                    res += self.exec(s3, br, fr)
        return res

    def s_Switch(self, st, s, fr):
        outs = [(st, 'n', VOID)]
        if s.get('init'):
            outs = self.exec(st, s['init'], fr)
        if s.get('var'):
            nxt = []
            for s1, k, v in outs:
                nxt += self.declare(s1, s['var'], fr) if k == 'n' else [(s1, k, v)]
            outs = nxt
        body = s['body']
        items = body['c'] if body and body['k'] == 'Compound' else [body]
        # flatten case labels
        flat = []                      # (labels, stmt)
        for x in items:
            labels = []
            while x is not None and x['k'] in ('Case', 'Default'):
                labels.append(x.get('cv') if x['k'] == 'Case' else 'default')
                x = x['sub']
            flat.append((labels, x))
        res = []
        for s1, k, v in outs:
            if k != 'n':
                res.append((s1, k, v))
                continue
            for s2, k2, c in self.eval(s1, s['cond'], fr):
                if k2 != 'v':
                    res.append((s2, k2, c))
                    continue
                res += self.switch_on(s2, s, c, flat, fr)
        return res

    def switch_on(self, st, s, c, flat, fr):
        starts = {}
        for i, (labels, x) in enumerate(flat):
            for l in labels:
                starts[l] = i
        res = []
        cur = st
        cases = [l for l in starts if l != 'default']
        enum = self.p.enums.get(s['cond'].get('t', ''))
        done = False
        for l in cases:
            if cur is None:
                break
            nxt = None
            for s1, b in self.truth(cur, self.cmp('==', c, C(l), False)):
                if b:
                    res += self.run_from(s1, flat, starts[l], fr)
                else:
                    nxt = s1
            cur = nxt
        if cur is not None:
            covered = enum and not is_c(c) and \
                {x['v'] for x in enum['enumerators']} <= set(cases)
            if covered:
                pass
            elif 'default' in starts:
                res += self.run_from(cur, flat, starts['default'], fr)
            else:
                res.append((cur, 'n', VOID))
        return res

    def run_from(self, st, flat, i, fr):
        outs = [(st, 'n', VOID)]
        for _, x in flat[i:]:
            nxt = []
            for s1, k, v in outs:
                nxt += self.exec(s1, x, fr) if k == 'n' else [(s1, k, v)]
            outs = nxt
        return [(s1, 'n' if k == 'brk' else k, v) for s1, k, v in outs]

    def s_Case(self, st, s, fr):
        return self.exec(st, s['sub'], fr)

    s_Default = s_Case

    def s_Label(self, st, s, fr):
        return self.exec(st, s.get('sub'), fr)

    def s_OtherStmt(self, st, s, fr):
        return [(st, 'n', VOID)]

    def s_Try(self, st, s, fr):
        res = []
        for s1, k, v in self.exec(st, s['body'], fr):
            if k != 'throw':
                res.append((s1, k, v))
                continue
            exc, et = v, v
            while et.op == 'tagged':
                et = et.a[0]
            et = et.a[0] if et.op == 'exc' else ''
            for c in s['catches']:
                ct = base_type(c.get('t') or '') if c.get('t') else '...'
                if ct == '...' or ct == et or (et in self.p.cls and ct in self.p.bases(et)) \
                        or (ct == 'std::exception' and 'std::' in et) \
                        or (ct == 'std::exception' and self.p.is_a(et, 'scram::Error')) \
                        or (ct == 'boost::exception' and self.p.is_a(et, 'scram::Error')):
                    if c.get('var'):
                        vv = c['var']
                        lv = T('lvt', fr, self.bump())
                        s1.mem[lv] = exc.a[1] if exc.op == 'exc' and len(exc.a) > 1 and \
                            isinstance(exc.a[1], T) and et not in self.p.cls and \
                            exc.a[1].op == 'c' else exc
                        s1.mem[T('lvv', fr, vv['id'])] = T('ref', lv)
                    old = s1.x.get('exc')
                    s1.x['exc'] = T('ref', lv) if c.get('var') else exc
                    s1.emit('catch', exc, self.where(c.get('body') or s))
                    for o in self.exec(s1, c['body'], fr):
                        o[0].x['exc'] = old
                        res.append(o)
                    break
            else:
                res.append((s1, k, v))
        return res

    # -- loops ----------------------------------------------------------------
    def s_While(self, st, s, fr):
        return self.loop(st, s, fr, None)

    def s_Do(self, st, s, fr):
        c = s.get('cond')
        while c is not None and c.get('k') in ('Cast', 'Paren') and 'e' in c:
            c = c['e']
        if c is not None and (c.get('k') == 'Bool' or c.get('k') == 'Int') and not c.get('v'):
            return [(s1, 'n' if k in ('brk', 'cont') else k, v)
                    for s1, k, v in self.exec(st, s['body'], fr)]      # do { } while (false)
        res = []
        for s1, k, v in self.exec(st, s['body'], fr):
            if k in ('n', 'cont'):          # the rest is a while loop
                res += self.loop(s1, dict(s, k='While'), fr, None)
            else:
                res.append((s1, 'n' if k == 'brk' else k, v))
        return res

    def s_For(self, st, s, fr):
        res = []
        outs = self.exec(st, s['init'], fr) if s.get('init') else [(st, 'n', VOID)]
        for s1, k, v in outs:
            res += self.loop(s1, s, fr, None) if k == 'n' else [(s1, k, v)]
        return res

    def s_RangeFor(self, st, s, fr):
        res = []
        outs = self.exec(st, s['init'], fr) if s.get('init') else [(st, 'n', VOID)]
        for s0, k0, v0 in outs:
            if k0 != 'n':
                res.append((s0, k0, v0))
                continue
            for s1, k, rng in self.eval_ref(s0, s['range'], fr):
                if k != 'v':
                    res.append((s1, k, rng))
                    continue
                rv = self.deref(s1, rng)
                if rv.op == 'list' and len(rv.a) <= self.max_items:
                    items = rv.a
                    if rng.op == 'ref' and not any(x.op == 'ref' for x in rv.a):
                        items = [T('ref', T('lve', rng.a[0], C(i)))
                                 for i in range(len(rv.a))]
                    res += self.unroll(s1, s, fr, items)
                else:
                    res += self.loop(s1, s, fr, rv)
        return res

    def unroll(self, st, s, fr, items):
        outs = [(st, 'n', VOID)]
        done = []
        for it in items:
            nxt = []
            for s1, k, v in outs:
                self.bind_iter(s1, s, fr, it)
                for s2, k2, v2 in self.exec(s1, s['body'], fr):
                    if k2 in ('n', 'cont'):
                        nxt.append((s2, 'n', v2))
                    elif k2 == 'brk':
                        done.append((s2, 'n', VOID))
                    else:
                        done.append((s2, k2, v2))
            outs = nxt
        return outs + done

    def bind_iter(self, st, s, fr, elem):
        d = s['var']
        lv = T('lvt', fr, d['id'], 'it')
        if elem.op == 'ref':
            lv = elem.a[0]
        else:
            st.mem[lv] = elem
        if d.get('bindings'):
            st.mem[T('lvv', fr, d['id'])] = T('ref', lv)
            for i, b in enumerate(d['bindings']):
                self.bind(st, fr, d, b, i, T('ref', lv))
        elif d['t'].endswith('&'):
            st.mem[T('lvv', fr, d['id'])] = T('ref', lv)
        else:
            v = self.read(st, lv)
            if v.op == 'obj' and not d['t'].endswith('*'):
                v = self.copy_value(st, v)
            st.mem[T('lvv', fr, d['id'])] = v

    def loop_iter(self, st, s, fr, rng, first=False):
        """One iteration from st. -> (backs, exits, others)."""
        backs, exits, others = [], [], []
        if s['k'] == 'RangeFor':
            self.bind_iter(st, s, fr, T('each', rng))
            entry = [(st, 'n', VOID)]
        else:
            entry = [(st, 'n', VOID)]
            if s.get('var'):
                entry = self.declare(st, s['var'], fr)
            if s.get('cond') is not None and not first:
                nxt = []
                for s1, k, v in entry:
                    if k != 'n':
                        nxt.append((s1, k, v))
                        continue
                    for s2, k2, c in self.eval(s1, s['cond'], fr):
                        if k2 != 'v':
                            others.append((s2, k2, c))
                            continue
                        for s3, b in self.truth(s2, c):
                            if b:
                                nxt.append((s3, 'n', VOID))
                            else:
                                exits.append(s3)
                entry = nxt
        for s1, k, v in entry:
            if k != 'n':
                others.append((s1, k, v))
                continue
            for s2, k2, v2 in self.exec(s1, s['body'], fr):
                if k2 in ('n', 'cont'):
                    if s.get('inc') is not None:
                        for s3, k3, v3 in self.eval0(s2, s['inc'], fr):
                            if k3 == 'v':
                                backs.append(s3)
                            else:
                                others.append((s3, k3, v3))
                    else:
                        backs.append(s2)
                elif k2 == 'brk':
                    exits.append(s2)
                else:
                    others.append((s2, k2, v2))
        return backs, exits, others

    def loop(self, st, s, fr, rng, first=False):
        """Summarises a loop: havoc what the body modifies, one iteration."""
        if s['k'] in ('For', 'While') and s.get('cond') is not None:
            r = self.try_unroll(st.copy(), s, fr)
            if r is not None:
                return r
        # discover the locations the body writes (fixpoint)
        W = set()
        saved = (self.nfresh, self.nframe)
        for _ in range(6):
            probe = st.copy()
            self.havoc(probe, W, s, st)
            before = dict(probe.mem)
            backs, exits, others = self.loop_iter(probe, s, fr, rng)
            new = set()
            for b in backs + exits:
                for lv, v in b.mem.items():
                    if lv in before and before[lv] is not v and lv not in W:
                        new.add(lv)
                    elif lv not in before and lv.op in ('lvf', 'lvg', 'lvd', 'lvi', 'lvo') and lv not in W:
                        if not any(x.op in ('each',) for x in subterms(lv)) \
                                and not any(x.op == 'obj' and x not in st_objs(before) for x in subterms(lv)):
                            new.add(lv)
            if not new:
                break
            W |= new
        it = st.copy()
        self.havoc(it, W, s, st)
        ntr = it.trace
        start = it.copy()
        backs, exits, others = self.loop_iter(it, s, fr, rng)
        res = []
        bodies = []
        for b in backs:
            ev, t = [], b.trace
            while t is not ntr and t is not None:
                ev.append(t[0])
                t = t[1]
            newpc = {k: v for k, v in b.pc.items() if k not in start.pc}
            ups = tuple((w, b.mem.get(w)) for w in sorted(W, key=repr)
                        if b.mem.get(w) is not start.mem.get(w))
            bodies.append((tuple(sorted(newpc.items(), key=lambda kv: repr(kv[0]))),
                           ups, ev[::-1]))
        def summarise(s1):
            s1.emit('loop', rng, bodies, self.where(s), s)
            for w in W:
                inits = st.mem.get(w) if w in st.mem else self.read(st, w)
                ups = []
                for pc, up, _ in bodies:
                    d = dict(up)
                    if w in d:
                        ups.append((pc, d[w]))
                if ups and s1.mem.get(w) is start.mem.get(w):
                    s1.mem[w] = T('fold', self.loopkey(s, rng), w, inits, tuple(ups))
            return s1
        # normal exit after zero or more iterations
        if s['k'] == 'RangeFor':
            ex = start.copy()
            res.append((summarise(ex), 'n', VOID))
            for e in exits:
                e.emit('loopbreak', rng, self.where(s))
                res.append((e, 'n', VOID))
        else:
            for e in exits:
                res.append((summarise(e), 'n', VOID))
        res += others
        return res

    def try_unroll(self, st, s, fr):
        """Unrolls a loop whose condition is always decided by constants."""
        live, res = [st], []
        for _ in range(self.max_unroll + 1):
            if not live:
                return res
            nxt = []
            for s1 in live:
                n0 = len(s1.pc)
                if s.get('var'):
                    entry = self.declare(s1, s['var'], fr)
                    if len(entry) != 1 or entry[0][1] != 'n':
                        return None
                    s1 = entry[0][0]
                cs = self.eval(s1, s['cond'], fr)
                if len(cs) != 1 or cs[0][1] != 'v':
                    return None
                s2, _k, c = cs[0]
                while c.op == '!':
                    c = c.a[0] if is_c(c.a[0]) else c
                    break
                if not is_c(c) or len(s2.pc) != n0:
                    return None
                if not cval(c):
                    res.append((s2, 'n', VOID))
                    continue
                for s3, k3, v3 in self.exec(s2, s['body'], fr):
                    if k3 in ('n', 'cont'):
                        if s.get('inc') is not None:
                            for s4, k4, v4 in self.eval0(s3, s['inc'], fr):
                                if k4 == 'v':
                                    nxt.append(s4)
                                else:
                                    res.append((s4, k4, v4))
                        else:
                            nxt.append(s3)
                    elif k3 == 'brk':
                        res.append((s3, 'n', VOID))
                    else:
                        res.append((s3, k3, v3))
            live = nxt
            if len(live) > 64:
                return None
        return None

    def loopkey(self, s, rng):
        return rng if rng is not None else T('loop', s['k'])

    def havoc(self, probe, W, s, st):
        for w in W:
            probe.mem[w] = T('acc', w)


def st_objs(mem):
    out = set()
    for lv, v in mem.items():
        for x in (lv, v):
            for y in subterms(x):
                if y.op == 'obj':
                    out.add(y)
    return out


def iv_arith(op, a, b):
    al, alo, ah, aho = a
    bl, blo, bh, bho = b
    if op == '+':
        lo, hi = al + bl, ah + bh
        if math.isnan(lo) or math.isnan(hi):
            return None
        return IV(lo, alo or blo, hi, aho or bho)
    if op == '-':
        return iv_arith('+', a, (-bh, bho, -bl, blo))
    if op == '*':
        def mul(x, xo, y, yo):
            if x == 0 and not xo or y == 0 and not yo:
                return (0.0, False)
            if x == 0 or y == 0:
                return (0.0, True)
            return (x * y, xo or yo)
        c = [mul(al, alo, bl, blo), mul(al, alo, bh, bho),
             mul(ah, aho, bl, blo), mul(ah, aho, bh, bho)]
        lo = min(c, key=lambda p: (p[0], p[1]))
        hi = max(c, key=lambda p: (p[0], not p[1]))
        return IV(lo[0], lo[1], hi[0], hi[1])
    if op == '/':
        if bl > 0 or bh < 0 or (bl == 0 and blo) or (bh == 0 and bho):
            f = lambda x: math.inf if x == 0 else 1 / x
            g = lambda x: -math.inf if x == 0 else 1 / x
            if bl >= 0:
                inv = ((0.0 if math.isinf(bh) else 1 / bh), bho, f(bl), blo)
            else:
                inv = (g(bh), bho, (0.0 if math.isinf(bl) else 1 / bl), blo)
            return iv_arith('*', a, inv)
        return None
    return None
