"""Documents for the loading properties: builders and the judgement of a load."""
from docmodel import E
from interp import Budget, T, is_c
from loadmodel import Loader, Unknown, error


def be(n, v='0.1', **k):
    return E('define-basic-event', *([E('float', value=v)] if v is not None else []), name=n, **k)


def house(n, v='true', **k):
    return E('define-house-event', E('constant', value=v), name=n, **k)


def gate(n, f=None, **k):
    return E('define-gate', f or E('basic-event', name='z0'), name=n, **k)


def par(n, v=None, **k):
    return E('define-parameter', v or E('float', value='0.1'), name=n, **k)


def ccf(n, members, **k):
    return E('define-CCF-group', E('members', *[E('basic-event', name=m) for m in members]),
             E('distribution', E('float', value='0.1')), E('factor', E('float', value='0.2')),
             name=n, model='beta-factor', **k)


def ft(n, *kids, **k):
    return E('define-fault-tree', *kids, name=n, **k)


def comp(n, *kids, **k):
    return E('define-component', *kids, name=n, **k)


def data(*kids):
    return E('model-data', *kids)


def mef(*kids, **k):
    return E('opsa-mef', *kids, **k)


def et(n, *kids, start=None):
    """Event tree; by default the initial state is the sequence n_end."""
    if start is None:
        kids = (E('define-sequence', name=n + '_end'),) + kids
        start = (E('sequence', name=n + '_end'),)
    return E('define-event-tree', *kids, E('initial-state', *start), name=n)


def nodes_of(e):
    yield e
    for c in e.children:
        yield from nodes_of(c)


def within(root, node):
    return any(x is node for x in nodes_of(root))


def outcome(L, docs, calls=()):
    """Single outcome of loading: (state, kind, value)."""
    try:
        outs = L.load(*docs, calls=calls)
    except Budget as e:
        raise Unknown(str(e) or 'too many paths')
    L.used |= L.it.inlined
    if len(outs) != 1:
        raise Unknown('%d outcomes: %s' % (len(outs), [
            (o[1], error(o[2])[0] if o[1] == 'throw' else str(o[2])[:80]) for o in outs[:3]]))
    return outs[0]


def blamed(tags):
    """Line and file of an error as terms."""
    def val(t):
        v = tags.get(t)
        while v is not None and v.op == 'mk' and len(v.a) > 1:
            v = v.a[1]
        return v
    return val('at_line'), val('file_name')


def judge(ctx, L, rule, key, where, docs, want, what='', calls=()):
    """want: None for acceptance or the set of error classes; returns the outcome if as wanted."""
    try:
        st, k, v = outcome(L, docs, calls)
    except Unknown as e:
        ctx.undecided(rule, key, where, str(e)[:300])
        return None
    if k == 'exit':
        ctx.bad(rule, key, where, 'the load ends with %s (%s)' % (str(v)[:100], what))
        return None
    cls = error(v)[0] if k == 'throw' else None
    if want is None:
        good = k == 'v'
        ctx.check(good, rule, key, where, 'a valid model is rejected with %s (%s)' % (cls, what))
    else:
        good = cls in want
        ctx.check(good, rule, key, where, '%s instead of being rejected with %s (%s)' % (
            'the model is accepted' if k == 'v' else 'rejected with %s' % cls,
            ' or '.join(sorted(want)), what))
    return (st, k, v) if good else None


def account(ctx, L):
    """Reports the functions of the sources that the loads went through."""
    for u in L.used:
        if L.p.fns[u]['rel'].startswith('src/'):
            ctx.fn(L.p.fns[u])


def batches(ctx, L, jobs):
    """Runs the jobs in parallel, with the functions analysed."""
    ctx.parallel([lambda j=j: (j(), account(ctx, L)) for j in jobs])
