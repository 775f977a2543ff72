"""Rule runner: obligations, known findings, evidence and exit status."""
import json
import os
import pickle
import re
import sys
import time
import traceback
import warnings

from facts import Broken, VERIF, REPO, load, core_sources, gui_sources
from prog import Program

KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Ob:
    __slots__ = ('rule', 'key', 'status', 'where', 'why')

    def __init__(self, rule, key, status, where, why):
        self.rule, self.key, self.status = rule, key, status
        self.where, self.why = where, why


class Ctx:
    """What a rule module sees: the program and the obligation sink."""

    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.obs = []
        self.notes = {}
        self.analysed = set()
        self.floors = []
        self._progs = {}
        self.rules = {}

    def prog(self, *names, kind='core'):
        """Program of the translation units whose path ends with a name."""
        allf = core_sources() if kind == 'core' else gui_sources()
        if names:
            files = []
            for n in names:
                m = [f for f in allf if f.endswith('/' + n)]
                if not m:
                    raise Broken('translation unit %s not found' % n)
                files += m
        else:
            files = allf
        key = (kind, tuple(sorted(set(files))))
        if key not in self._progs:
            self._progs[key] = Program(load(list(key[1]), kind))
            self.notes.setdefault('translation_units', []).extend(
                f[len(REPO) + 1:] for f in key[1])
        return self._progs[key]

    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, key, where='', why=''):
        self.obs.append(Ob(rule, key, 'ok', where, why))

    def bad(self, rule, key, where, why):
        self.obs.append(Ob(rule, key, 'violated', where, why))

    def undecided(self, rule, key, where, why):
        self.obs.append(Ob(rule, key, 'undecided', where, why))

    def check(self, cond, rule, key, where, why):
        (self.ok if cond else self.bad)(rule, key, where, why)
        return cond

    def fn(self, *fs):
        for f in fs:
            self.analysed.add('%s (%s:%s)' % (f['qn'].split('(')[0], f['rel'], f['line']))

    def parallel(self, jobs, workers=None):
        """Runs the jobs (callables that add obligations) in forked workers; keeps their order."""
        n = min(workers or os.cpu_count() or 1, len(jobs))
        if n < 2:
            for j in jobs:
                j()
            return
        pipes = []
        sys.stdout.flush()
        sys.stderr.flush()
        for w in range(n):
            r, o = os.pipe()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                pid = os.fork()
            if not pid:
                os.close(r)
                out = []
                try:
                    for i in range(w, len(jobs), n):
                        self.obs = []
                        jobs[i]()
                        out.append((i, [(b.rule, b.key, b.status, b.where, str(b.why))
                                        for b in self.obs]))
                    res = ('ok', out, self.analysed)
                except Broken as e:
                    res = ('broken', str(e), None)
                except BaseException:
                    res = ('error', traceback.format_exc(), None)
                with os.fdopen(o, 'wb') as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(o)
            pipes.append((pid, r))
        all_ = []
        failed = None
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            k, out, fns = pickle.loads(data) if data else ('error', 'a worker died', None)
            if k != 'ok':
                failed = failed or (k, out)
                continue
            all_ += out
            self.analysed |= fns
        if failed:
            if failed[0] == 'broken':
                raise Broken(failed[1])
            raise RuntimeError(failed[1])
        for _i, obs in sorted(all_):
            self.obs += [Ob(*o) for o in obs]

    def floor(self, rule, n):
        """At least n obligations of a rule, else the analysis is broken."""
        self.floors.append((rule, n))


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def run(pid, module, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        module.run(ctx)
        for rule, n in ctx.floors:
            have = sum(1 for o in ctx.obs if o.rule == rule)
            if have < n and not any(o.status == 'violated' for o in ctx.obs):
                raise Broken('rule %s: %d obligations, at least %d confirmed by '
                             'hand' % (rule, have, n))
        if not ctx.obs:
            raise Broken('no obligations')
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        traceback.print_exc()
        return 3
    known = known_findings(pid)
    viol = [o for o in ctx.obs if o.status == 'violated']
    new = [o for o in viol if o.key not in known]
    seen = []
    for o in viol:
        if o.key in known and o.key not in seen:
            seen.append(o.key)
            print('KNOWN-FINDING: property=%s %s [%s] %s' %
                  (pid, o.key, o.where, known[o.key]))
    count = {s: sum(1 for o in ctx.obs if o.status == s)
             for s in ('ok', 'violated', 'undecided')}
    by_rule = {}
    for o in ctx.obs:
        d = by_rule.setdefault(o.rule, {'text': ctx.rules.get(o.rule, ''),
                                        'ok': 0, 'violated': 0, 'undecided': 0})
        d[o.status] += 1
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': module.LEVEL if hasattr(module, 'LEVEL') else 'other',
        'coverage': {
            'explanation': ' '.join((module.__doc__ or '').split()),
            'obligations': len(ctx.obs), 'discharged': count['ok'],
            'undecided': count['undecided'],
            'rules': by_rule,
            'functions_analysed': sorted(ctx.analysed),
            'translation_units': sorted(set(ctx.notes.get('translation_units', ()))),
            'sample_obligations': [
                {'rule': o.rule, 'instance': o.key, 'at': o.where, 'note': str(o.why)[:300]}
                for o in ctx.obs[:12]],
            'undecided_list': [
                {'rule': o.rule, 'instance': o.key, 'at': o.where, 'note': str(o.why)[:300]}
                for o in ctx.obs if o.status == 'undecided'][:40],
        },
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d violated (%d known), '
          '%d functions analysed, %.1fs' %
          (pid, len(ctx.obs), count['ok'], count['undecided'], len(viol),
           len(viol) - len(new), len(ctx.analysed), time.time() - t0))
    for o in ctx.obs:
        if o.status == 'undecided':
            print('  undecided [%s] %s at %s: %s' % (o.rule, o.key, o.where, str(o.why)[:200]))
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for o in new:
                f.write('rule: %s\n  %s\ninstance: %s\nat: %s\nwhy: %s\n\n' % (
                    o.rule, ctx.rules.get(o.rule, ''), o.key, o.where, o.why))
        for o in new[:8]:
            print('  violated [%s] %s at %s: %s' % (o.rule, o.key, o.where, str(o.why)[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
