"""Common-cause failure groups.  For every CCF model, number of members and top level
the input handler's registration and definition of the group, its validation and the
application of the model are interpreted on an abstract element whose distribution and
factors are opaque expressions.  The formula substituted for each member, the events of
the formula and the expressions of their probabilities are read from the resulting
objects and compared with the Open-PSA definition as normal forms.  For the validation
every accepting path has to imply the domain of all quantities and every rejecting
path has to contradict it."""
from itertools import combinations
from math import comb
from fractions import Fraction as Fr

from docmodel import E
from exprmodel import Exprs, TUS, MEF, INIT, arg
from interp import T, C, State, Budget, is_c, cval
from facts import Broken
from norm import num, sym, pretty
from prog import base_type

ASSUMPTIONS = ['Groups have at most four members (five in the thorough tier); the code treats '
               'members uniformly',
               'Exact real arithmetic']
ERR = 'scram::'
MODELS = ('beta-factor', 'MGL', 'alpha-factor', 'phi-factor')
GROUP = MEF + 'CcfGroup'


class Groups(Exprs):
    def __init__(self, prog, fixed=None):
        super().__init__(prog, fixed)
        it = self.it
        it.budget = 20000
        for f in ('abs', 'fabs'):
            it.models['std::' + f] = it.models[f] = self.absolute
        it.models[MEF + 'Container::Add'] = lambda it, st, e, o, a, fr: [
            (st, 'v', T('void'))]

    @staticmethod
    def absolute(it, st, e, o, a, fr):
        x = it.deref(st, a[0])
        if is_c(x):
            return None
        return [(s, 'v', it.arith('-', C(0.0), x) if b else x)
                for s, b in it.truth(st, it.cmp('<', x, C(0.0), True))]

    def named(self, name, param=None, ret=None):
        for f in self.p.find(INIT + '::' + name):
            if f.get('body') is None:
                continue
            if ret is not None and base_type(f['ret']) == ret or \
                    param is not None and len(f['params']) == 2 and \
                    base_type(f['params'][1]['t']) == param:
                return f
        raise Broken('anchor vanished: %s of %s' % (name, ret or param))

    def load(self, node):
        """[(state, group, stage, outcome kind, value)] after definition."""
        init, st = T('obj', INIT, 0), State()
        lv = T('lvt', self.it.bump(), 'group')
        st.mem[lv] = self.doc.add(node)
        reg, df = self.named('Register', ret=GROUP), self.named('Define', param=GROUP)
        out = []
        for s, k, v in self.it.invoke(st, reg, init, [T('ref', lv), C(''), C(0)]):
            o = self.object(s, v) if k == 'v' else None
            if o is None:
                out.append((s, None, k, v))
                continue
            for s2, k2, v2 in self.it.invoke(s, df, init, [T('ref', lv), v]):
                out.append((s2, o, k2, v2))
        return out

    def step(self, s, o, name):
        f = self.p.one(GROUP + '::' + name)
        return self.it.invoke(s, f, o, [])


def element(model, names, factors, extra=()):
    fs = [E('factor', arg(i), **({} if lev is None else {'level': lev}))
          for i, lev in factors]
    fs = [E('factors', *fs)] if model != 'beta-factor' else fs
    return E('define-CCF-group', E('members', *[E('basic-event', name=m) for m in names]),
             E('distribution', arg(0)), *(fs + list(extra)), name='group', model=model)


def levels(model, n, top):
    return {'beta-factor': [n], 'MGL': range(2, top + 1)}.get(model, range(1, top + 1))


def definition(model, n, top):
    """{level: probability of one event of the level}."""
    q = sym(('val', 0))
    f = {k: sym(('val', k)) for k in levels(model, n, top)}
    one = num(1)
    if model == 'beta-factor':
        return {1: (one - f[n]) * q, n: f[n] * q}
    if model == 'phi-factor':
        return {k: f[k] * q for k in f}
    out = {}
    for k in range(1, top + 1):
        c = num(Fr(1, comb(n - 1, k - 1)))
        if model == 'MGL':
            r = q
            for i in range(2, k + 1):
                r = r * f[i]
            out[k] = c * r * ((one - f[k + 1]) if k < top else one)
        else:
            s = num(0)
            for i in f:
                s = s + num(i) * f[i]
            out[k] = num(k) * c * f[k] / s * q
    return out


def run(ctx):
    p = ctx.prog(*(TUS + ('ccf_group.cc', 'event.cc', 'element.cc')))
    ctx.rule('substitute', 'each member becomes the disjunction of exactly the events of the '
             'combinations that contain it')
    ctx.rule('probability', 'an event of k members has the probability the model defines')
    ctx.rule('domain', 'a group is accepted if and only if all quantities and their sample '
             'domains are probabilities (and the factors of the phi model sum to 1)')
    ctx.rule('structure', 'ill-formed groups are rejected with an input error, well-formed ones '
             'accepted')
    top_n = 5 if ctx.tier == 'thorough' else 4
    where = p.loc(p.one(GROUP + '::ApplyModel'))
    for model in MODELS:
        for n in range(2, top_n + 1):
            for top in ([n] if model == 'beta-factor' else range(2, n + 1)):
                try:
                    one(ctx, p, model, n, top, where)
                except Budget:
                    ctx.undecided('substitute', '%s %d %d' % (model, n, top), where, 'budget')
        structure(ctx, p, model)
    ctx.floor('substitute', 15)
    ctx.floor('probability', 15)
    ctx.floor('domain', 8)


def assume(x, n_args):
    """Facts of valid probabilities."""
    return [(sym((k, i)) - num(b), s) for i in n_args
            for k, b, s in (('val', 0, '0+'), ('val', 1, '-0'), ('ilo', 0, '0+'), ('ihi', 1, '-0'))]


def error(v):
    while v.op == 'tagged':
        v = v.a[0]
    return v.a[0] if v.op == 'exc' else str(v)


def one(ctx, p, model, n, top, where):
    key = '%s, %d members, top level %d' % (model, n, top)
    names = ['m%d' % i for i in range(n)]
    x = Groups(p)
    lev = list(levels(model, n, top))
    outs = x.load(element(model, names, [(k, k) for k in lev]))
    good = [(s, o) for s, o, k, v in outs if k == 'v' and o is not None]
    for s, o, k, v in outs:
        if k != 'v':
            ctx.bad('structure', key, where, 'a well-formed group is not accepted: %s' %
                    str(error(v))[:100])
    check_domain = n == 3 or ctx.tier == 'thorough' and n < 5
    dom = assume(x, [0] + lev)
    for s, o in good:
        if check_domain:
            domain(ctx, x, s.copy(), o, key, model, lev, dom)
        s = s.copy()
        for r, sg in dom:
            x.ps.learn(s, r, sg)
        for s2, k, v in x.step(s, o, 'ApplyModel'):
            if k == 'exit' or k == 'throw':
                ctx.bad('substitute', key, where, 'applying the model fails: %s' % str(v)[:100])
            else:
                substitute(ctx, x, s2, o, key, model, n, top, names, where)
    for u in x.it.inlined:
        if p.fns[u]['rel'].startswith('src/'):
            ctx.fn(p.fns[u])


def observe(x, s, o, name):
    """Value of an observer with a single outcome."""
    outs = [r for r in x.call(s, o, name) if r[1] != 'exit']
    if len(outs) != 1 or outs[0][1] != 'v':
        return None
    return x.it.deref(outs[0][0], outs[0][2])


def substitute(ctx, x, s, o, key, model, n, top, names, where):
    it, want = x.it, definition(model, n, top)
    mem = observe(x, s, o, 'members')
    if mem is None or mem.op != 'list':
        return ctx.undecided('substitute', key, where, 'members not known')
    events, got = {}, {}
    for m in mem.a:
        mo = x.object(s, m)
        mname = observe(x, s, mo, 'name') if mo is not None else None
        gate = x.object(s, observe(x, s, mo, 'ccf_gate') or T('void')) if mo else None
        if mname is None or not is_c(mname) or gate is None:
            return ctx.undecided('substitute', key, where, 'substitute of a member not known')
        gname = observe(x, s, gate, 'name')
        if gname is None or not is_c(gname) or cval(gname) != cval(mname):
            ctx.bad('substitute', key, where, 'the substitute of %s is called %s' % (mname, gname))
        fo = x.object(s, observe(x, s, gate, 'formula') or T('void'))
        args = observe(x, s, fo, 'args') if fo is not None else None
        conn = observe(x, s, fo, 'connective') if fo is not None else None
        if args is None or args.op != 'list' or conn is None or not is_c(conn):
            return ctx.undecided('substitute', key, where, 'formula of a substitute not known')
        kor = [c['v'] for e in x.p.enums.values() if e['qn'] == MEF + 'Connective'
               for c in e['enumerators'] if c['name'] == 'kOr']
        if kor and cval(conn) != kor[0]:
            ctx.bad('substitute', key, where, 'the substitute of %s is not a disjunction' % mname)
            return
        for a in args.a:
            ev = x.object(s, s.mem.get(T('lvf', a, 'event'), T('void')))
            neg = s.mem.get(T('lvf', a, 'complement'), C(False))
            if ev is None:
                return ctx.undecided('substitute', key, where, 'event not known')
            if neg is not C(False) and neg is not C(0):
                ctx.bad('substitute', key, where, 'a complemented event')
            events.setdefault(ev, set()).add(cval(mname))
            if cval(mname) in got.setdefault(ev, []):
                ctx.bad('substitute', key, where, 'an event occurs twice')
            got[ev].append(cval(mname))
    exp = sorted(c for k in want for c in combinations(names, k))
    have = sorted(tuple(sorted(v)) for v in events.values())
    ctx.check(have == exp, 'substitute', key, where,
              'the combinations with events are %s' % [
                  c for c in have + exp if have.count(c) != exp.count(c)][:6])
    bad = None
    for ev, ms in events.items():
        listed = observe(x, s, ev, 'members') if x.method(ev.a[0], 'members') else None
        if listed is not None and listed.op == 'list':
            ns = [observe(x, s, x.object(s, g), 'name') for g in listed.a if x.object(s, g)]
            if all(q is not None and is_c(q) for q in ns) and {cval(q) for q in ns} != ms:
                ctx.bad('substitute', key, where, 'an event of %s lists %s' % (
                    sorted(ms), sorted(cval(q) for q in ns)))
        outs = [r for r in x.call(s.copy(), ev, 'p') if r[1] == 'v']
        if not outs:
            bad = ('undecided', 'no probability')
        for s2, _, v in outs:
            r = x.ps.n(it.deref(s2, v))
            w = want.get(len(ms))
            if w is None or r.close(w):
                continue
            if any(y.op not in ('c', 'val', '+', '-', '*', '/', 'neg') for y in subs(v)):
                bad = bad or ('undecided', str(v)[:150])
            else:
                bad = ('bad', 'an event of %d members: %s instead of %s' % (
                    len(ms), pretty(r)[:150], pretty(w)[:150]))
    if bad and bad[0] == 'bad':
        ctx.bad('probability', key, where, bad[1])
    elif bad:
        ctx.undecided('probability', key, where, bad[1])
    else:
        ctx.ok('probability', key, where)


def subs(t):
    from interp import subterms
    return [y for y in subterms(t)]


def domain(ctx, x, s, o, key, model, lev, dom):
    where = x.p.loc(x.p.one(GROUP + '::Validate'))
    total = {k: sum((sym((k, i)) for i in lev), num(0)) - num(1)
             for k in ('val', 'ilo', 'ihi')}
    eps = num(Fr(1, 10**4))
    if model == 'phi-factor':
        dom = dom + [(total[k] - eps, '-0') for k in total] + \
            [(total[k] + eps, '0+') for k in total]
    n = 0
    for s2, k, v in x.step(s, o, 'Validate'):
        n += 1
        if k == 'exit':
            ctx.bad('domain', key, where, 'the validation aborts')
        elif k == 'v':
            side = {(total[k] - eps).key(): (total[k], '-0') for k in total}
            side.update({(total[k] + eps).key(): (total[k], '0+') for k in total})
            open_ = [(r, g) for r, g in dom if not set(x.ps.sign(s2, r)) <= set(g) and not (
                r.key() in side and set(x.ps.sign(s2, side[r.key()][0])) <=
                set(side[r.key()][1]))]
            if open_:
                ctx.bad('domain', key, where, 'accepted although it is not known that the sign '
                        'of %s is one of %s' % (pretty(open_[0][0]), '/'.join(open_[0][1])))
            else:
                ctx.ok('domain', key, where)
        else:
            hit = [r for r, g in dom if not set(x.ps.sign(s2, r)) & set(g)]
            if not hit:
                ctx.bad('domain', key, where, 'valid quantities are rejected: %s' %
                        str(error(v))[:80])
            elif not x.p.is_a(error(v), 'scram::Error'):
                ctx.bad('domain', key, where, 'rejected with %s' % error(v))
            else:
                ctx.ok('domain', key, where)
    # NaN never passes
    for i in [0] + lev:
        y = Groups(x.p, {i: float('nan')})
        for s3, o3, k, v in y.load(element(model, ['m0', 'm1', 'm2'],
                                           [(j, j) for j in lev])):
            if k == 'v' and o3 is not None:
                outs = y.step(s3, o3, 'Validate')
                ctx.check(not any(k2 == 'v' for _, k2, _ in outs), 'domain',
                          key + ', NaN for ' + str(i), where, 'NaN is accepted')


def structure(ctx, p, model):
    where = p.loc(p.one(GROUP + '::AddFactor'))
    n = 3
    two = {'beta-factor': [3], 'MGL': [2, 3]}.get(model, [1, 2, 3])
    full = [(k, k) for k in two]
    cases = [('levels left out', ['a', 'b', 'c'], [(k, None) for k in two], True),
             ('a single member', ['a'], full, False),
             ('a member twice', ['a', 'b', 'a'], full, False),
             ('a level more than members', ['a', 'b', 'c'], full + [(4, 4)], False),
             ('a level more than members, implicit', ['a', 'b', 'c'], full + [(4, None)], False),
             ('a level twice', ['a', 'b', 'c'], full + [(4, two[-1])], False)]
    if model == 'beta-factor':
        cases += [('the factor of a lower level', ['a', 'b', 'c'], [(2, 2)], False)]
    if model == 'MGL':
        cases += [('the factor of level one', ['a', 'b', 'c'], [(1, 1)] + full, False),
                  ('a level missing', ['a', 'b', 'c'], [(3, 3)], False)]
    if model in ('alpha-factor', 'phi-factor'):
        cases += [('a level missing', ['a', 'b', 'c'], [(1, 1), (3, 3)], False),
                  ('the first level missing', ['a', 'b', 'c'], [(2, 2), (3, 3)], False),
                  ('level one only', ['a', 'b', 'c'], [(1, 1)], False)]
        cases += [('levels out of order, the last implicit', ['a', 'b', 'c'],
                   [(3, 3), (1, 1), (2, None)], True)]
    for what, names, factors, valid in cases:
        key = '%s, %s' % (model, what)
        x = Groups(p)
        try:
            outs = x.load(element(model, names, factors))
            ends = []
            for s, o, k, v in outs:
                if k == 'v' and o is not None:
                    for r, sg in assume(x, [0] + [i for i, _ in factors]):
                        x.ps.learn(s, r, sg)
                    x2 = [(s2, 'unapplied' if k2 == 'v' else k2, v2)
                          for s2, k2, v2 in x.step(s, o, 'Validate')]
                    for s2, k2, v2 in x2:
                        if k2 != 'unapplied':
                            ends.append((k2, v2))
                            continue
                        ends += [(k3, v3) for _, k3, v3 in x.step(s2, o, 'ApplyModel')]
                else:
                    ends.append((k, v))
        except Budget:
            ctx.undecided('structure', key, where, 'budget')
            continue
        if any(k == 'exit' for k, _ in ends):
            ctx.bad('structure', key, where, 'the program is aborted')
        elif valid:
            ctx.check(any(k == 'v' for k, _ in ends), 'structure', key, where,
                      'rejected: %s' % [str(error(v))[:60] for k, v in ends][:2])
        else:
            acc = any(k == 'v' for k, _ in ends)
            ill = [error(v) for k, v in ends if k == 'throw' and
                   p.is_a(error(v), 'scram::LogicError')]
            ctx.check(not acc and not ill, 'structure', key, where,
                      'accepted' if acc else 'reported as an internal error')
