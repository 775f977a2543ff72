"""Abstract interpretation of the program entry point with the option map as a
finite valuation of presence atoms (every single option and every pair of
analysis options, with and without a project file) and symbolic option values.
The configuration that reaches model initialization and risk analysis is read
through the public observers and must be the project's (or default)
configuration with exactly the given options applied; contradictory options must
be rejected before any model is loaded; every option must be declared with the
value type it is read as."""
import itertools
from interp import T, C, TRUE, FALSE, Budget, is_c, cval, subterms, IV
from prog import walk
from cli_model import *

ASSUMPTIONS = ['boost::program_options stores each option once under its long name']
ANALYSIS = list(SETTER)
EXCL = [{'bdd', 'zbdd', 'mocus'}, {'rare-event', 'mcub'}]


def contradictory(present):
    return any(len(present & e) > 1 for e in EXCL)


def project_states(m):
    def seq(*calls):
        st = m.initial()
        for name, val in calls:
            r = [x for x in m.apply(st, m.setter(name), val) if x[1] == 'v']
            if not r:
                return None
            st = r[0][0]
        st.pc, st.trace = {}, None
        return st
    num = [(n, T('proj', n)) for n in (
        'limit_order', 'cut_off', 'num_trials', 'num_quantiles', 'num_bins',
        'seed', 'mission_time')]
    out = {
        'project(default)': seq(),
        'project(bdd,pi,probability,numbers)': seq(
            ('prime_implicants', TRUE), ('probability_analysis', TRUE), *num),
        'project(mocus,mcub,sil,importance,uncertainty,ccf,numbers)': seq(
            ('algorithm', C(ALG['mocus'])), ('approximation', C(APX['mcub'])),
            ('time_step', POS_STEP), ('safety_integrity_levels', TRUE),
            ('importance_analysis', TRUE), ('uncertainty_analysis', TRUE),
            ('ccf_analysis', TRUE), *num),
        'project(zbdd,ccf)': seq(('algorithm', C(ALG['zbdd'])), ('ccf_analysis', TRUE)),
    }
    return {k: v for k, v in out.items() if v is not None}


def run(ctx):
    p = ctx.prog('scram.cc', 'settings.cc')
    cli = Cli(p)
    ctx.fn(cli.main)
    ctx.rule('configuration', 'the analysed configuration is the base configuration '
             'with exactly the given options applied')
    ctx.rule('exclusive', 'contradictory options are rejected before any input is loaded')
    ctx.rule('declared', 'options are declared with the type they are read as')
    bases = [('default', None, cli.sm.initial())]
    for k, st in project_states(cli.sm).items():
        bases.append((k, 'project', st))
    reads = {}
    for label, proj, st in bases:
        bview = cli.sm.view(st)
        subsets = [()] + [(o,) for o in ANALYSIS]
        if label == 'default' or 'bdd' in label or ctx.tier == 'thorough' or 'mcub' in label:
            subsets += list(itertools.combinations(ANALYSIS, 2))
        if ctx.tier == 'thorough' and label == 'default':
            subsets += list(itertools.combinations(ANALYSIS, 3))
        for sub in subsets:
            present = set(sub) | {'input-files'}
            if proj:
                present.add('project')
            key = '%s+%s' % (label, '+'.join(sub))
            try:
                it, outs = cli.run(present, st)
            except Budget:
                ctx.undecided('configuration', key, p.loc(cli.main), 'state budget')
                continue
            for s, k, v in outs:
                for e in s.events():
                    if e[0] == 'read':
                        reads.setdefault(e[1], set()).add((e[2], e[3]))
            if contradictory(present):
                bad = [o for o in outs if any(
                    e[0] == 'sub' and e[1] in ('Initializer', 'RiskAnalysis', 'Analyze', 'Report')
                    for e in o[0].events()) or not nonzero(o)]
                ctx.check(not bad, 'exclusive', key, p.loc(cli.main),
                          'contradictory options are not rejected')
                continue
            exp, ev = expected(bview, present)
            judge(ctx, p, cli, key, outs, exp, ev)
    declared = {}
    for f in p.fns.values():
        if f['rel'] != 'src/scram.cc':
            continue
        for n in walk(f.get('body')):
            if n['k'] == 'Call' and n['qn'].startswith(VM + 'options_description_easy_init::operator()'):
                name = n['a'][0] if n['a'] else None
                if name is None or name['k'] != 'Str':
                    continue
                ty = None
                for x in walk(n['a'][1:]):
                    if x['k'] == 'Call' and x['qn'].startswith(VM + 'value'):
                        ty = x.get('t', '')
                declared[name['v'].split(',')[0]] = (ty, p.loc(f, n))
    short = {'string': 'basic_string<char', 'int': 'typed_value<int', 'double': 'typed_value<double'}
    for name, ty in sorted(OPTIONS.items()):
        if name not in declared:
            if declared:
                ctx.bad('declared', name, p.loc(cli.main), 'option --%s is not declared' % name)
            continue
        have, where = declared[name]
        okty = (have is None) if ty is None else (have is not None and short[ty] in have)
        ctx.check(okty, 'declared', name, where, 'declared with %s, documented %s' % (have, ty))
        for rt, rw in sorted(reads.get(name, ())):
            good = ty is not None and (('string' in rt) if ty == 'string' else ty in rt.split())
            ctx.check(good or not rt, 'declared', '%s@read' % name, rw,
                      'read as %s although documented as %s' % (rt, ty))
    ctx.floor('configuration', 300)
    ctx.floor('exclusive', 4)
    ctx.floor('declared', 25)


def nonzero(o):
    s, k, v = o
    return k == 'v' and is_c(v) and cval(v) != 0


def judge(ctx, p, cli, key, outs, exp, ev):
    where = p.loc(cli.main)
    reached = False
    for s, k, v in outs:
        evs = [e for e in s.events() if e[0] == 'sub']
        for e in evs:
            if e[1] in ('Initializer', 'RiskAnalysis'):
                if exp == 'error':
                    ctx.bad('configuration', key, e[5],
                            'the contradictory configuration reaches %s' % e[1])
                    return
                if not e[4]:
                    ctx.undecided('configuration', key, e[5], 'settings argument not identified')
                    return
                got = e[4][0]
                diff = [n for n in OBS if not same(got[n], ev[n])]
                if diff:
                    ctx.bad('configuration', key, e[5], 'at %s: %s' % (e[1], ', '.join(
                        '%s is %s instead of %s' % (n, got[n], ev[n]) for n in diff)))
                    return
                if e[1] == 'RiskAnalysis':
                    reached = True
        if k != 'v':
            ctx.bad('configuration', key, where, 'the program ends by %s %s' % (k, v))
            return
    if exp == 'ok' and not reached:
        if any(o[0].pc for o in outs):
            ctx.undecided('configuration', key, where, 'analysis not reached on decided paths')
        else:
            ctx.bad('configuration', key, where, 'the analysis is never run')
        return
    ctx.ok('configuration', key, where)
