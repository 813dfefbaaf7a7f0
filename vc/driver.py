"""Check driver: obligations, replay, evidence, exit codes."""
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv/bin/python'


class CheckError(Exception):
    pass


def real_env():
    e = dict(os.environ)
    e.update(TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
             PYTHONPATH=VERIF, PYTHONWARNINGS='ignore')
    return e


class RealJob(object):
    """A job of the project interpreter, running in the background."""

    def __init__(self, job, timeout=600):
        self.dir = tempfile.mkdtemp(prefix='verif-')
        self.timeout = timeout
        self.jf, self.rf = os.path.join(self.dir, 'job.json'), os.path.join(self.dir, 'result.json')
        with open(self.jf, 'w') as f:
            json.dump(job, f)
        self.log = open(os.path.join(self.dir, 'log'), 'w+')
        self.p = subprocess.Popen([PYPY, '-m', 'real.main', self.jf, self.rf], cwd=self.dir,
                                  env=real_env(), stdout=self.log, stderr=subprocess.STDOUT)

    def result(self):
        try:
            try:
                self.p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                raise CheckError('job timed out')
            if not os.path.exists(self.rf):
                self.log.seek(0)
                raise CheckError('job failed: %s' % self.log.read()[-2000:])
            with open(self.rf) as f:
                r = json.load(f)
            return r
        finally:
            self.log.close()
            shutil.rmtree(self.dir, ignore_errors=True)


def real(job, timeout=600):
    return RealJob(job, timeout).result()


def days(ds):
    """Day numbers as dates."""
    import datetime
    return ', '.join(str(datetime.date(1970, 1, 1) + datetime.timedelta(d)) for d in ds[:6])


# -- verification workers -----------------------------------------------------------

_WORLD = {}


def _world(key=()):
    from . import loader
    if key not in _WORLD:
        _WORLD[key] = loader.World(key)
    return _WORLD[key]


def _contract_task(task):
    """Verify one contract variant; on failure look for counterexamples."""
    name, variant, ms, cex_s, budget = task
    try:
        from spec import api
        from . import cex, core, verify
        ct = [c for c in api.CONTRACTS if c.name == name][0]
        w = _world()
        rep = verify.verify(w, ct, variant, deadline=time.time() + budget, ms=ms)
        rep.vacuous = not verify.reachable(w, ct, variant)
        d = report_dict(rep)
        if not rep.proved:
            d['candidates'], d['cex_notes'] = cex.search(w, ct, variant, budget=cex_s)
        d['stats'] = dict(core.STATS)
        for k in core.STATS:
            core.STATS[k] = type(core.STATS[k])(0)
        d['contract'] = name
        return d
    except Exception:
        return dict(func=name, contract=name, error=traceback.format_exc(), obligations=[],
                    proved=False, candidates=[], unsupported=None)


def report_dict(rep):
    return dict(func=rep.func, proved=bool(rep.proved), paths=rep.paths, outcomes=rep.outcomes,
                unsupported=rep.unsupported, vacuous=rep.vacuous, wall=rep.wall,
                contracts_used=sorted(rep.contracts_used), candidates=[], error=None,
                obligations=[dict(name=o.name, status=o.status, backend=o.backend,
                                  wall=round(o.wall, 3), detail=str(o.detail)[:200])
                             for o in rep.obligations])


def call_task(task):
    """Generic task: (module, function, args) -> report dict(s)."""
    mod, fn, args = task
    try:
        import importlib
        return getattr(importlib.import_module(mod), fn)(*args)
    except Exception:
        return dict(func='%s.%s' % (mod, fn), error=traceback.format_exc(), obligations=[],
                    proved=False, candidates=[], unsupported=None)


def pool(fn, tasks):
    n = min(len(tasks), int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4))
    if n <= 1:
        return [fn(t) for t in tasks]
    with multiprocessing.get_context('fork').Pool(n, maxtasksperchild=1) as p:
        return p.map(fn, tasks, chunksize=1)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)['findings']
    return []


class Check(object):
    """One run of one property's check."""

    def __init__(self, prop, level='proof'):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.t0 = time.time()
        self.functions = []
        self.obligations = []
        self.violations = []
        self.known = []
        self.bounded = []
        self.undecided = []
        self.trusted = set()
        self.assumptions = []
        self.extra = {}
        self.solver = {}
        self.nrep = 0

    # -- obligations
    def add_report(self, d):
        if d.get('error'):
            # the engine failed on this source: nothing is proved, the bounded run decides
            d['unsupported'] = 'engine error: %s' % d['error'].strip().splitlines()[-1][:200]
            d['wall'] = 0
        self.functions.append(dict(function=d['func'], proved=d['proved'],
                                   paths=d.get('paths'), outcomes=d.get('outcomes'),
                                   obligations=len(d['obligations']),
                                   not_proved=d.get('unsupported')))
        self.obligations.extend(d['obligations'])
        self.trusted.update(d.get('contracts_used', []))
        for k, v in d.get('stats', {}).items():
            self.solver[k] = self.solver.get(k, 0) + v
        if d['proved'] and not d['obligations']:
            raise CheckError('no obligation generated for %s' % d['func'])
        if d.get('vacuous'):
            raise CheckError('precondition of %s is not satisfiable' % d['func'])

    def lemmas(self):
        from . import lemmas
        _world()
        for name, r in lemmas.run():
            self.obligations.append(dict(name=name, status=r.status, backend=r.backend,
                                         wall=round(r.wall, 3), detail=str(r.detail)))
            if r.status != 'proved':
                raise CheckError('lemma %s not proved' % name)

    # -- results
    def violation(self, what, replay, no_input=False):
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.prop, len(self.violations)))
        with open(p, 'w') as f:
            json.dump(dict(property=self.prop, what=what, **replay), f, indent=1, default=str)
        self.violations.append(dict(what=what, replay=p, no_input=no_input))

    def note_bounded(self, name, evaluations, distinct, rule, samples=None):
        self.bounded.append(dict(name=name, evaluations=evaluations, distinct_nontrivial=distinct,
                                 rule=rule, samples=samples or []))

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        disch = [o for o in self.obligations if o['status'] == 'proved']
        by = {}
        for o in disch:
            by[o['backend']] = by.get(o['backend'], 0) + 1
        cov = dict(obligations=len(self.obligations), discharged=len(disch),
                   checker_cmd='cd /verif && python3-vt check.py %s' % self.prop,
                   trusted_base=sorted(self.trusted) + self.TRUSTED,
                   discharged_by=by,
                   functions_under_contract=self.functions,
                   not_proved=self.undecided,
                   solver_time_s=round(self.solver.get('solver_s', 0) + self.solver.get('feas_s', 0), 2),
                   cvc5_time_s=round(self.solver.get('cvc5_s', 0), 2),
                   paths=self.solver.get('paths', 0),
                   failed_obligations=[o for o in self.obligations if o['status'] != 'proved'][:20],
                   bounded_cross_checks=self.bounded)
        ev = sum(b['evaluations'] for b in self.bounded)
        if self.level == 'proof' and self.undecided:
            self.level = 'exploration'      # something was not proved on this tree
        if self.level != 'proof':
            cov.update(evaluations=ev,
                       distinct_nontrivial=sum(b['distinct_nontrivial'] for b in self.bounded),
                       rule=' | '.join(b['rule'] for b in self.bounded),
                       samples=[s for b in self.bounded for s in b['samples']][:5])
        cov.update(self.extra)
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                   coverage=cov, wall_s=round(time.time() - self.t0, 2),
                   assumptions=self.assumptions, violations=len(self.violations),
                   violation_list=self.violations,
                   known_findings=self.known)
        with open(os.path.join(VERIF, 'evidence', '%s.json' % self.prop), 'w') as f:
            json.dump(doc, f, indent=1, default=str)
        if self.level == 'proof' and not self.obligations and not self.violations:
            raise CheckError('no obligations')
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        for u in self.undecided:
            print('not proved (bounded check only): %s' % str(u)[:300])
        print('%s: %d/%d obligations discharged, %d bounded evaluations, %.1f s' % (
            self.prop, len(disch), len(self.obligations), ev, time.time() - self.t0))
        for v in self.violations[:5]:
            print(v['what'][:500])
            print('VIOLATION property=%s replay=%s%s' % (
                self.prop, v['replay'], ' no-failing-input-found' if v['no_input'] else ''))
        return 1 if self.violations else 0

    TRUSTED = [
        'z3 / cvc5', 'CPython 3.12 executing the repository source under the contract models',
        'contract models of numpy and pandas in vc/seqs.py and vc/loader.py (tools/libcheck.py compares them with the real libraries at setup)',
        'real pytz, toolz, six',
    ]

    # -- contracts of calendar queries
    def queries(self, tasks, bounded_names, cex_s=45, ms=20000, budget=240, mode=None):
        """tasks: [(contract name, variant)]"""
        quick = self.tier == 'quick'
        if mode == 'history':
            bj = RealJob(dict(job='histories', seed=self.seed, repeat=2 if quick else 10,
                              length=200 if quick else 400, budget=60 if quick else 400))
        else:
            bj = RealJob(dict(job='bounded', names=bounded_names, seed=self.seed,
                              cap=60 if quick else 400, budget=60 if quick else 400))
        try:
            res = pool(_contract_task, [(n, v, ms, cex_s, budget) for n, v in tasks])
            cands, failed = [], []
            for d in res:
                self.add_report(d)
                if not d['proved']:
                    failed.append(d)
                    for c in d.get('candidates', []):
                        cands.append(dict(c, func=d['func']))
            results = []
            if cands:
                rr = self.real(dict(job='replay', candidates=cands, mode=mode))
                results = rr['results']
        finally:
            b = bj.result()
        if not b['ok']:
            return self.crashed(b)
        seen = set()
        for r in results:
            if not r['confirmed'] or r['op'] in seen:
                continue
            seen.add(r['op'])
            fo = [o['name'] for d in failed if d['func'] == r['func']
                  for o in d['obligations'] if o['status'] != 'proved']
            self.violation('%s(%s) broke its contract: got %s; failed obligation %s' % (
                r['op'], ', '.join(map(str, r['args'])), r['got'], (fo or ['-'])[0]),
                dict(kind='query', mode=mode, case=r, obligations=fo))
        if mode == 'history':
            self.note_bounded('random histories on real calendars', b['evaluations'], b['distinct'],
                              'each answer compared with its contract / a fresh calendar; '
                              'distinct = distinct (operation, kind of outcome)',
                              samples=[dict(histories=b['histories'])])
        else:
            self.note_bounded('queries on real calendars', b['evaluations'], b['distinct'],
                              'contract evaluated on real calendar objects at boundary instants; '
                              'distinct = distinct (operation, outcome)',
                              samples=[dict(operations=bounded_names)])
            self.extra['bounded_notes'] = b['notes']
        for v in b['violations']:
            if v['op'] not in seen:
                seen.add(v['op'])
                self.violation('%s(%s) broke its contract on a real calendar: got %s' % (
                    v['op'], ', '.join(map(str, v['args'])), v['got']),
                    dict(kind='query', mode=mode, case=v))
        open_ = []
        for d in failed:
            if d['contract'] in seen:
                continue
            mine = [r for r in results if r['func'] == d['func']]
            fo = [o['name'] for o in d['obligations'] if o['status'] != 'proved']
            if mine and mode != 'history' and all(r['confirmed'] is None for r in mine):
                self.violation('%s: obligation %s fails; its counter-model could not be run: %s' % (
                    d['func'], (fo or ['-'])[0], mine[0].get('why')),
                    dict(kind='obligation', obligations=fo, candidates=mine, report=d), no_input=True)
                seen.add(d['contract'])
                continue
            open_.append(d)
            self.undecided.append(dict(
                function=d['func'], reason=d.get('unsupported') or 'obligation not discharged',
                obligations=fo, candidates=len(d.get('candidates', [])), cex_notes=d.get('cex_notes')))
        if open_ and mode != 'history':
            # not proved: a larger bounded check on full-size calendars
            try:
                b = self.real(dict(job='deep', names=sorted(set(d['contract'] for d in open_)),
                                   seed=self.seed, budget=150), timeout=300)
            except CheckError as e:
                if 'timed out' not in str(e):
                    raise
                self.extra['deep'] = 'full-size calendars: no result in time'
                return
            self.note_bounded('full-size calendars (functions not proved)', b['evaluations'],
                              b['distinct'], 'contract evaluated on full-size shipped calendars',
                              samples=[])
            for v in b['violations']:
                if v['op'] not in seen:
                    seen.add(v['op'])
                    self.violation('%s(%s) broke its contract on a real calendar: got %s' % (
                        v['op'], ', '.join(map(str, v['args'])), v['got']),
                        dict(kind='query', case=v))

    # -- contracts of plain functions
    def functions_check(self, tasks, job, what, rule, samples=None, params=None):
        """tasks: [(module, function, args)]; `job` replays candidates and runs
        the bounded cross-check of the same contracts on the real code."""
        params = dict(params or {}, job=job, seed=self.seed, full=self.tier != 'quick')
        bj = RealJob(params)
        try:
            res = pool(call_task, tasks)
            cands = []
            for d in res:
                self.add_report(d)
                cands += [dict(c, func=d['func']) for c in d['candidates']]
            results = []
            if cands:
                results = self.real(dict(params, candidates=cands))['results']
        finally:
            b = bj.result()
        if not b['ok']:
            return self.crashed(b)
        self.note_bounded(job, b['evaluations'], b['distinct'], rule, samples=samples)
        listed = {f['id']: f for f in load_known() if self.prop in f['properties']}
        for k, v in sorted(b.get('known', {}).items()):
            if k in listed:
                self.known.append('%s (%s; %d times, for instance %s)' % (
                    listed[k]['what'], k, v['count'], json.dumps(v['example'], default=str)))
            else:
                b['violations'].append(dict(v['example']))
        keys, funcs = set(), set()
        for r in [r for r in results if r['confirmed']] + b['violations']:
            if r.get('func'):
                funcs.add(r['func'])
            if r['key'] in keys:
                continue
            keys.add(r['key'])
            fo = [o['name'] for d in res if d['func'] == r.get('func') or not r.get('func')
                  for o in d['obligations'] if o['status'] != 'proved']
            self.violation(what(r) + ('; failed obligation %s' % fo[0] if fo else ''),
                           dict(kind=job, case=r, obligations=fo))
        for d in res:
            if d['proved'] or d['func'] in funcs:
                continue
            fo = [o['name'] for o in d['obligations'] if o['status'] != 'proved']
            mine = [r for r in results if r.get('func') == d['func']]
            if mine and all(r['confirmed'] is None for r in mine):
                self.violation('%s: obligation %s fails; its counter-model could not be run' % (
                    d['func'], (fo or ['-'])[0]),
                    dict(kind='obligation', obligations=fo, candidates=mine, report=d), no_input=True)
                continue
            self.undecided.append(dict(function=d['func'], obligations=fo,
                                       reason=d.get('unsupported') or 'obligation not discharged',
                                       candidates=len(mine)))
        return res

    def crashed(self, b):
        """The bounded run ended with an error raised by the code under check."""
        if not b.get('crash'):
            raise CheckError(b['error'])
        self.level = 'exploration'
        self.note_bounded('aborted', 1, 1, 'the run ended with an unexpected error')
        self.violation('unexpected error in %s' % b['crash'], dict(kind='crash', error=b['error']))

    def real(self, job, timeout=600):
        r = real(job, timeout)
        if not r['ok']:
            raise CheckError(r['error'])
        return r


def main(prop):
    sys.path.insert(0, VERIF)
    import importlib
    mod = importlib.import_module('checks')
    try:
        ck = mod.CHECKS[prop]()
        rc = ck.finish()
    except CheckError as e:
        print('check error: %s' % e, file=sys.stderr)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    return rc
