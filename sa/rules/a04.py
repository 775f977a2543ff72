"""Abstract interpretation of the program entry point: every call into another
subsystem (project file, model initialization, analysis, report) may end with
each kind of error or succeed; on every path the exit status, the calls made
after a failure, the report destination, the input order and the permission to
load external libraries are decided."""
import itertools
from interp import T, C, TRUE, FALSE, Budget, is_c, cval, subterms, VOID
from cli_model import *
import a03

ASSUMPTIONS = a03.ASSUMPTIONS + ['errors derive from the error base class, '
                                 'boost::exception or std::exception']
STAGES = ['store', 'Project', 'Initializer', 'RiskAnalysis', 'Analyze', 'Report']


def status(o):
    s, k, v = o
    if k != 'v':
        return '%s %s' % (k, v)
    if v is VOID:
        return 0
    return cval(v) if is_c(v) else None


def subs(o):
    return [e for e in o[0].events() if e[0] == 'sub']


def run(ctx):
    p = ctx.prog('scram.cc', 'settings.cc')
    cli = Cli(p)
    ctx.fn(cli.main)
    where = p.loc(cli.main)
    ctx.rule('error-status', 'a failed stage ends in a nonzero exit status, a diagnostic, '
             'and no later stage')
    ctx.rule('success', 'a fault-free run performs the requested stages once and exits with 0')
    ctx.rule('inputs', 'all given inputs are loaded, project files first')
    ctx.rule('extern', 'external libraries are enabled iff explicitly allowed')
    st0 = cli.sm.initial()

    def outcomes(key, rule, present, thr=None):
        try:
            return cli.run(present, st0, thr)[1]
        except Budget:
            ctx.undecided(rule, key, where, 'state budget')
            return None
    # error containment
    for base in ({'input-files'}, {'project'}, {'input-files', 'project', 'output'},
                 {'input-files', 'validate'}, {'input-files', 'verbosity'}):
        for stage in STAGES:
            for exc in MAY_THROW:
                key = '%s:%s@%s' % (stage, exc, '+'.join(sorted(base)))
                outs = outcomes(key, 'error-status', base, (stage, exc))
                if outs is None:
                    continue
                hit = 0
                for o in outs:
                    evs = o[0].events()
                    caught = [i for i, e in enumerate(evs) if e[0] == 'sub' and e[1] == stage]
                    if not caught:
                        continue
                    # the path on which the stage threw: no normal return event marker
                    thrown = any(e[0] == 'catch' for e in evs) or o[1] != 'v'
                    if not thrown:
                        continue
                    hit += 1
                    r = status(o)
                    if r == 0 or not isinstance(r, int):
                        ctx.bad('error-status', key, where, 'exit status %s after %s from %s' %
                                (r, exc, stage))
                        break
                    ci = max([i for i, e in enumerate(evs) if e[0] == 'catch'], default=0)
                    late = [e[1] for e in evs[ci:] if e[0] == 'sub']
                    if late:
                        ctx.bad('error-status', key, where, 'stage %s runs after the failure' % late[0])
                        break
                else:
                    if hit:
                        ctx.ok('error-status', key, where)
    # usage errors
    for sub in itertools.chain(
            itertools.combinations(['bdd', 'zbdd', 'mocus'], 2), [('bdd', 'zbdd', 'mocus')],
            [('rare-event', 'mcub')]):
        for base in ({'input-files'}, {'project'}):
            key = 'usage:%s@%s' % ('+'.join(sub), '+'.join(base))
            outs = outcomes(key, 'error-status', base | set(sub))
            if outs is None:
                continue
            bad = [o for o in outs if status(o) in (0, None) or not isinstance(status(o), int)
                   or any(e[1] in ('Project', 'Initializer', 'Analyze', 'Report') for e in subs(o))]
            ctx.check(not bad, 'error-status', key, where, 'contradictory options accepted')
    for opts in (set(), {'bdd'}, {'probability', 'output'}):
        key = 'usage:no-input+%s' % '+'.join(sorted(opts))
        outs = outcomes(key, 'error-status', opts)
        if outs:
            bad = [o for o in outs if status(o) == 0 or any(
                e[1] in ('Initializer', 'Analyze', 'Report') for e in subs(o))]
            ctx.check(not bad, 'error-status', key, where, 'missing input accepted')
    # successful runs
    plans = [
        ({'input-files'}, ['Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'project'}, ['Project', 'Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'output'}, ['Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'no-indent'}, ['Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'output', 'no-indent'}, ['Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'project', 'output'}, ['Project', 'Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'validate'}, ['Initializer']),
        ({'project', 'validate'}, ['Project', 'Initializer']),
        ({'input-files', 'validate', 'output'}, ['Initializer']),
        ({'input-files', 'validate', 'probability'}, ['Initializer']),
        ({'input-files', 'verbosity'}, ['Initializer', 'RiskAnalysis', 'Analyze', 'Report']),
        ({'input-files', 'serialize'}, ['Initializer', 'Serialize']),
        ({'input-files', 'no-report'}, ['Initializer', 'RiskAnalysis', 'Analyze']),
        ({'help'}, []), ({'version'}, []), ({'help', 'input-files'}, []),
        ({'version', 'input-files', 'output'}, []),
    ]
    for extra in (set(), {'probability'}, {'ccf'}, {'allow-extern'}, {'prime-implicants'}):
        for present, plan in plans:
            pr = present | extra
            key = '+'.join(sorted(pr))
            outs = outcomes(key, 'success', pr)
            if outs is None:
                continue
            good = False
            for o in outs:
                names = [e[1] for e in subs(o) if e[1] != 'store']
                r = status(o)
                if r == 0:
                    if names != plan:
                        ctx.bad('success', key, where, 'stages %s instead of %s' % (names, plan))
                        break
                    rep = [e for e in subs(o) if e[1] == 'Report']
                    if rep:
                        args = rep[0][3]
                        dest = T('optval', 'output') if 'output' in pr else T('glob', 'stdout')
                        if len(args) >= 2 and args[1] is not dest and \
                                (args[1].op in ('optval', 'glob') or is_c(args[1])):
                            ctx.bad('success', key, rep[0][5], 'report goes to %s instead of %s' %
                                    (args[1], dest))
                            break
                        if len(args) >= 3 and is_c(args[2]) and \
                                bool(cval(args[2])) != ('no-indent' not in pr):
                            ctx.bad('success', key, rep[0][5], 'indentation is %s' % args[2])
                            break
                    good = True
                elif not isinstance(r, int):
                    ctx.bad('success', key, where, 'ends by %s' % r)
                    break
                elif not o[0].pc:
                    ctx.bad('success', key, where, 'exit status %s without a failure' % r)
                    break
            else:
                ctx.check(good, 'success', key, where, 'no successful path')
            # inputs and extern permission
            for o in outs:
                for e in subs(o):
                    if e[1] != 'Initializer':
                        continue
                    args = e[3]
                    st = set(subterms(args))
                    if 'input-files' in pr:
                        ctx.check(T('optval', 'input-files') in st, 'inputs', key + ':command-line',
                                  e[5], 'command-line inputs are not loaded')
                    if 'project' in pr:
                        pf = [x for x in st if x.op == 'call' and x.a[0].endswith('input_files')]
                        ctx.check(bool(pf), 'inputs', key + ':project', e[5],
                                  'project inputs are not loaded')
                    if len(args) >= 3 and is_c(args[2]):
                        ctx.check(bool(cval(args[2])) == ('allow-extern' in pr), 'extern', key, e[5],
                                  'extern permission is %s' % args[2])
                    elif len(args) < 3:
                        ctx.check('allow-extern' not in pr, 'extern', key, e[5], 'permission not passed')
    ctx.floor('error-status', 100)
    ctx.floor('success', 60)
    ctx.floor('inputs', 40)
    ctx.floor('extern', 40)
