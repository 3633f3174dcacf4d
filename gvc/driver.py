"""Runs a check: exports SSA from /repo, discharges the obligations of a property, searches for a failing input
when one is not discharged, writes evidence."""
import glob
import json
import multiprocessing
import os
import pickle
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
MODULE = 'github.com/mmcloughlin/trunnel'
BIN = os.path.join(VERIF, 'bin')
GOENV = dict(os.environ, GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off', GOFLAGS='', GONOSUMDB='*', GOWORK='off')
ALLPKGS = ['./ast', './fault', './inspect', './internal/intervals', './tv', './gen', './parse', './parse/internal/parser']


class CheckError(Exception):
    """the check itself could not run"""


def sh(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env or GOENV, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def build_gossa():
    src = os.path.join(VERIF, 'tools', 'gossa')
    out = os.path.join(BIN, 'gossa')
    newest = max(os.path.getmtime(os.path.join(src, f)) for f in os.listdir(src))
    if os.path.exists(out) and os.path.getmtime(out) >= newest:
        return out
    os.makedirs(BIN, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    rc, o, e = sh(['go', 'build', '-o', tmp, '.'], cwd=src, env=dict(GOENV, GOFLAGS='-mod=mod'))
    if rc != 0:
        raise CheckError('building the SSA exporter failed: ' + e)
    os.rename(tmp, out)
    return out


class Work:
    """scratch directory of one run"""

    def __init__(self, prop):
        self.dir = tempfile.mkdtemp(prefix='verif-%s-' % prop)
        self.n = 0

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def ensure_gomod():
    """the project has no go.mod of its own; the build scripts put one next to it, and so do we when it is missing"""
    for f in ('go.mod', 'go.sum'):
        if not os.path.exists(os.path.join(REPO, f)) and os.path.exists('/opt/vp/gomod/' + f):
            shutil.copy('/opt/vp/gomod/' + f, os.path.join(REPO, f))


def export(work, pkgs=ALLPKGS, dir=None, overlay=None):
    ensure_gomod()
    out = work.path('ssa.json')
    cmd = [build_gossa(), '-dir', dir or REPO, '-modfile', os.path.join(VERIF, 'mod', 'go.mod'),
           '-prefix', MODULE + '/', '-o', out] + pkgs
    ov = {}
    for d, _, fs in os.walk(os.path.join(VERIF, 'entry')):
        for f in fs:
            if f.endswith('.go.txt'):
                ov[os.path.join(dir or REPO, os.path.relpath(d, os.path.join(VERIF, 'entry')), 'zz' + f[:-4])] = os.path.join(d, f)
    ov.update(overlay or {})
    with open(work.path('entry.json'), 'w') as f:
        json.dump({'Replace': ov}, f)
    rc, o, e = sh(cmd[:1] + ['-overlay', work.path('entry.json')] + cmd[1:], env=dict(GOENV, GOFLAGS='-mod=readonly'))
    if rc != 0:
        # the compositions in entry/ may no longer fit; properties that do not use them are still decided
        rc, o, e = sh(cmd, env=dict(GOENV, GOFLAGS='-mod=readonly'))
    if rc != 0:
        raise CheckError('exporting SSA from the working tree failed (does it compile?): ' + e[-2000:])
    return out


# ------------------------------------------------------------------ proofs
def obl_dict(o):
    return {'label': o.label, 'kind': o.kind, 'status': o.status, 'model': o.model, 'time': round(o.time, 3),
            'backend': o.backend, 'where': o.where}


def verify_one(prog, env, name, opts):
    ct = env.contracts[name]
    first = None
    t0 = time.time()
    for v in ct.variants or (None,):
        env.plan = v
        left = opts.get('budget', 420) - (time.time() - t0)
        if first is not None and left < 30:
            break
        r = verify_with(prog, env, name, dict(opts, budget=left))
        if not bad(r):
            return r
        first = first or r
        if not any(w in o['label'] for o in bad(r) for w in ('lucky', 'planned', 'can be drawn', 'wanted')):
            break
    return first


def verify_with(prog, env, name, opts):
    from . import core
    ct = env.contracts[name]
    t0 = time.time()
    S = core.Session(prog, env, prog.funcs[ct.name], ct, opts)
    try:
        obls = [obl_dict(o) for o in S.verify()]
    except core.Unsupported as e:
        obls = [{'label': 'unverifiable: %s' % e, 'kind': 'unsupported', 'status': 'unknown', 'model': None, 'time': 0,
                 'backend': 'z3', 'where': ''}]
    except RecursionError:
        obls = [{'label': 'unverifiable: recursion in symbolic execution', 'kind': 'unsupported', 'status': 'unknown',
                 'model': None, 'time': 0, 'backend': 'z3', 'where': ''}]
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, ValueError) as e:
        obls = [{'label': 'unverifiable: contract does not fit the code (%r)' % e, 'kind': 'unsupported', 'status': 'unknown',
                 'model': traceback.format_exc()[-1500:], 'time': 0, 'backend': 'z3', 'where': ''}]
    return {'name': name, 'root': ct.root, 'obls': obls, 'paths': S.npaths, 'covers': S.covers, 'time': time.time() - t0,
            'calls': sorted(S.calls_used), 'inlined': sorted(S.inlined), 'trusted': sorted(S.trusted),
            'queries': core.STATS.queries, 'solver_time': core.STATS.time,
            'invariants': S.invariants() if hasattr(S, 'invariants') else []}


def bad(r):
    return [o for o in r['obls'] if o['status'] != 'proved']


def parallel(tasks, fn, workers=None, timeout=600):
    """run fn(task) for all tasks in forked processes; results in order"""
    import threading
    sys.setrecursionlimit(20000)
    workers = workers or min(8, os.cpu_count() or 4)
    results = [None] * len(tasks)
    running = {}
    todo = list(range(len(tasks)))
    t0 = time.time()
    while todo or running:
        while todo and len(running) < workers:
            k = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    threading.stack_size(512 * 1024 * 1024)
                    box = {}

                    def go():
                        try:
                            box['v'] = (True, fn(tasks[k]))
                        except BaseException:
                            box['v'] = (False, traceback.format_exc())
                    t = threading.Thread(target=go)
                    t.start()
                    t.join()
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(box['v'], f)
                except BaseException:
                    traceback.print_exc()
                    code = 1
                os._exit(code)
            os.close(w)
            running[pid] = (k, r, time.time(), bytearray())
            os.set_blocking(r, False)
        time.sleep(0.005)
        for pid in list(running):
            k, r, ts, buf = running[pid]
            try:
                while True:
                    c = os.read(r, 1 << 20)
                    if not c:
                        break
                    buf += c
            except BlockingIOError:
                if time.time() - ts > timeout:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    os.close(r)
                    results[k] = (False, 'timeout')
                    del running[pid]
                continue
            os.close(r)
            os.waitpid(pid, 0)
            try:
                results[k] = pickle.loads(bytes(buf))
            except Exception:
                results[k] = (False, 'worker died')
            del running[pid]
    return results


def unsupported(name, why):
    return {'name': name, 'root': True, 'obls': [{'label': 'unverifiable: ' + why, 'kind': 'unsupported', 'status': 'unknown', 'model': None, 'time': 0,
                                                  'backend': 'none', 'where': ''}], 'paths': 0, 'covers': 0, 'time': 0, 'calls': [], 'inlined': [],
            'trusted': [], 'queries': 0, 'solver_time': 0, 'invariants': []}


class ProofRun:
    def __init__(self):
        self.results = {}
        self.lemmas = []
        self.inline = {}
        self.failed = []
        self.notes = []
        self.retries = 0

    def all_obls(self):
        for r in self.results.values():
            for o in r['obls']:
                yield r['name'], o

    def totals(self):
        n = d = 0
        for _, o in self.all_obls():
            n += 1
            d += o['status'] == 'proved'
        return n, d


def lemma_tasks(folds):
    from . import fold
    return [(f, i) for f in folds for i in range(len(fold.lemma_obligations(f)))]


def check_lemmas():
    import z3
    from . import fold
    out = []
    todo = [x for f in fold.ALL.values() for x in fold.lemma_obligations(f)]
    todo += [x for f in fold.RREG.values() for x in f.lemma()]
    for lab, g in todo:
        t = time.time()
        s = z3.Solver()
        s.set('rlimit', 30000000)
        s.add(z3.Not(g))
        r = s.check()
        out.append({'label': 'lemma ' + lab, 'kind': 'lemma', 'status': 'proved' if r == z3.unsat else str(r),
                    'model': None, 'time': time.time() - t, 'backend': 'z3', 'where': ''})
    return out


def prove(prog, env, prop, tier, budget=420, opts=None, total=540):
    run = ProofRun()
    names = [n for n, c in env.contracts.items() if prop in c.props and not c.trusted]
    base = dict(opts or {})
    usable, absent = [], []
    for n in names:
        ct = env.contracts[n]
        fn = prog.funcs.get(ct.name)
        if fn is None or not fn.has_body or (ct.nparams is not None and len(fn.params) != ct.nparams):
            absent.append(n)
            if ct.root:
                run.results[n] = {'name': n, 'root': True, 'obls': [{
                    'label': 'function %s exists with the expected parameters' % ct.name, 'kind': 'missing', 'status': 'failed',
                    'model': None, 'time': 0, 'backend': 'none', 'where': ''}], 'paths': 0, 'covers': 0, 'time': 0,
                    'calls': [], 'inlined': [], 'trusted': [], 'queries': 0, 'solver_time': 0, 'invariants': []}
            else:
                run.notes.append('helper contract %s not used: no such function with these parameters' % n)
            continue
        usable.append(n)
    for n in absent:
        env.contracts[n].enabled = False
    t0 = time.time()

    def go(tasks):
        b = max(20, min(budget, total - (time.time() - t0)))
        rs = parallel(tasks, lambda t: verify_one(prog, env, t[0], dict(base, inline=t[1], budget=b)), timeout=b + 60)
        for t, (ok, r) in zip(tasks, rs):
            if not ok:
                ct = env.contracts[t[0]]
                r = {'name': t[0], 'root': ct.root, 'obls': [{
                    'label': 'unverifiable: ' + str(r)[-1500:], 'kind': 'unsupported', 'status': 'unknown', 'model': None,
                    'time': 0, 'backend': 'none', 'where': ''}], 'paths': 0, 'covers': 0, 'time': 0, 'calls': [],
                    'inlined': [], 'trusted': [], 'queries': 0, 'solver_time': 0, 'invariants': []}
            run.results[t[0]] = r
            run.inline[t[0]] = t[1]

    # longest first helps the schedule
    order = sorted(usable, key=lambda n: -len(json.dumps(prog.funcs[env.contracts[n].name].blocks)))
    lem = parallel([None], lambda _: check_lemmas())[0]
    if not lem[0]:
        raise CheckError('lemma checking failed: ' + lem[1])
    run.lemmas = lem[1]
    go([(n, frozenset()) for n in order])
    disabled = set()
    for _ in range(4):
        newly = {n for n in usable if n not in disabled and not env.contracts[n].root and bad(run.results[n])}
        if not newly or time.time() - t0 > total:
            break
        disabled |= newly
        redo = [n for n in order if n not in disabled and any(env.contracts[m].name in run.results[n]['calls'] for m in disabled)]
        run.retries += len(redo)
        go([(n, frozenset(env.contracts[m].name for m in disabled)) for n in redo])
    # a root that fails although its helpers are fine may still hold when the helpers are read as code
    aux = frozenset(env.contracts[n].name for n in usable if not env.contracts[n].root) | \
        frozenset(env.contracts[m].name for m in disabled)
    redo = [n for n in order if env.contracts[n].root and bad(run.results[n]) and any(m in aux and m not in run.inline[n] for m in run.results[n]['calls'])]
    if redo and time.time() - t0 < min(budget, total):
        keep = {n: run.results[n] for n in redo}
        run.retries += len(redo)
        go([(n, aux) for n in redo])
        for n in redo:
            if bad(run.results[n]):
                run.results[n] = keep[n]
    for n in sorted(disabled):
        run.notes.append('helper contract %s not established on this tree; its callers were verified with the helper as code: %s'
                         % (n, '; '.join(o['label'] for o in bad(run.results[n])[:3])))
        del run.results[n]
    run.failed = [(n, o) for n in run.results for o in bad(run.results[n])]
    run.failed += [('lemma', o) for o in run.lemmas if o['status'] != 'proved']
    return run


# ------------------------------------------------------------------ failing inputs
SHARED = {'vectors': ['codec/model.go']}     # sources used by more than one program


def harness_overlay(work, name, extra=None, srcs=None):
    rep = {}
    for f in glob.glob(os.path.join(VERIF, 'harness', 'lib', '*.go')):
        rep[os.path.join(REPO, 'zzverif', 'lib', os.path.basename(f))] = f
    d = os.path.join(VERIF, 'harness', name)
    for f in glob.glob(os.path.join(d, '*.go')):
        rep[os.path.join(REPO, 'zzverif', name, os.path.basename(f))] = f
    for f in SHARED.get(name, ()):
        rep[os.path.join(REPO, 'zzverif', name, os.path.basename(f))] = os.path.join(VERIF, 'harness', f)
    for k, v in (extra or {}).items():
        rep[os.path.join(REPO, k)] = v
    p = work.path('overlay-%s.json' % name)
    with open(p, 'w') as f:
        json.dump({'Replace': rep}, f)
    return p


def build_harness(work, name, extra=None):
    ensure_gomod()
    ov = harness_overlay(work, name, extra)
    exe = work.path('h-' + name)
    rc, o, e = sh(['go', 'build', '-overlay', ov, '-modfile', os.path.join(VERIF, 'mod', 'go.mod'), '-o', exe, './zzverif/' + name],
                  cwd=REPO, env=dict(GOENV, GOFLAGS='-mod=readonly'))
    if rc != 0:
        raise CheckError('building the failing-input search failed: ' + e[-3000:])
    return exe


def run_harness(work, name, seed, budget_s, args=(), env=None, extra=None, limit=None, exe=None):
    """returns (fails, stats)"""
    exe = exe or build_harness(work, name, extra)
    e = dict(GOENV, VERIF_SEED=str(seed), VERIF_BUDGET_MS=str(int(budget_s * 1000)), GOMAXPROCS='4', **(env or {}))
    cwd = work.path('run-%s' % name, 'x')
    cwd = os.path.dirname(cwd)

    def once(trace):
        try:
            p = subprocess.run([exe] + list(args), cwd=cwd, env=dict(e, VERIF_TRACE='1') if trace else e, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=limit or budget_s * 3 + 60)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = -9, x.stdout or b'', x.stderr or b''
        fails, stats, last, known = [], {}, None, []
        for l in out.decode('utf-8', 'replace').splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if 'fail' in d:
                fails.append(d['fail'])
            if 'stats' in d:
                stats = d['stats']
            if 'case' in d:
                last = d['case']
            if 'known' in d:
                known.append(d['known'])
        if known:
            stats['known'] = known
        return rc, fails, stats, last, err.decode('utf-8', 'replace')
    rc, fails, stats, last, err = once(False)
    if rc != 0 and not fails:
        rc, fails, stats, last, err = once(True)
        if rc != 0 and not fails:
            if last is None:
                raise CheckError('failing-input search %s died: %s' % (name, err[-2000:]))
            fails = [dict(last, observed='the process died: ' + err[:900] + ' ... ' + err[-400:], expected='an answer')]
    return fails, stats


# ------------------------------------------------------------------ known findings
def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#') and not l.startswith('fixed:'):
                d = json.loads(l)
                if d['property'] == prop:
                    out.append(d)
    return out


# ------------------------------------------------------------------ outcome
TRUSTED = [
    'translation of Go source to SSA by golang.org/x/tools/go/ssa v0.52.0 and the exporter tools/gossa',
    'symbolic execution and invariant checking in gvc/ (not itself verified)',
    'z3 (decision procedure for every obligation)',
]


class Outcome:
    def __init__(self, prop, tier, seed, level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.coverage = {}
        self.assumptions = []
        self.fails = []         # dicts with an input
        self.unproved = []      # (function, obligation)
        self.known = []
        self.t0 = time.time()

    def replay_path(self):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, '%s.json' % self.prop)

    def finish(self):
        viol = bool(self.fails or self.unproved)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.coverage,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.fails) + len(self.unproved)}
        if self.known:
            ev['known_findings'] = self.known
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k))
        if not viol:
            print('OK property=%s %s' % (self.prop, self.summary()))
            return 0
        rp = self.replay_path()
        rep = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
               'failing_inputs': self.fails,
               'failed_obligations': [{'function': n, 'obligation': o['label'], 'kind': o['kind'], 'status': o['status'],
                                       'path': o.get('where'), 'verifier_model': o.get('model')} for n, o in self.unproved],
               'how_to_reproduce': 'VERIF_SEED=%d VERIF_TIER=%s ./check %s  (in /verif, against the same /repo tree)' % (
                   self.seed, self.tier, self.prop)}
        with open(rp, 'w') as f:
            json.dump(rep, f, indent=1, default=str)
            f.write('\n')
        for n, o in self.unproved[:20]:
            print('  obligation not discharged: %s: %s [%s] %s' % (n, o['label'], o['status'], (o.get('model') or '')[:300]))
        for x in self.fails[:3]:
            print('  failing input: %s' % json.dumps(x, default=str)[:1500])
        print('VIOLATION property=%s replay=%s%s' % (self.prop, rp, '' if self.fails else ' no-failing-input-found'))
        return 1

    def summary(self):
        c = self.coverage
        parts = []
        for k in ('obligations', 'discharged', 'programs', 'disagreements_checked', 'evaluations'):
            if k in c:
                parts.append('%s=%s' % (k, c[k]))
        return ' '.join(parts)


def proof_coverage(out, run, prog, env, prop):
    n, d = run.totals()
    n += len(run.lemmas)
    d += sum(o['status'] == 'proved' for o in run.lemmas)
    fns = []
    trusted, assumed = set(), set()
    inl = set()
    st = 0.0
    q = 0
    for r in run.results.values():
        fns.append({'function': r['name'], 'obligations': len(r['obls']), 'discharged': len(r['obls']) - len(bad(r)),
                    'paths': r['paths'], 'reachable_returns': r['covers'], 'seconds': round(r['time'], 2), 'root': r['root']})
        trusted |= set(r['trusted'])
        assumed |= {n for n in r['calls'] if n in env.contracts and env.contracts[n].trusted and not env.contracts[n].shown}
        inl |= set(r['inlined'])
        st += r['solver_time']
        q += r['queries']
    kinds = {}
    for _, o in run.all_obls():
        kinds[o['kind']] = kinds.get(o['kind'], 0) + 1
    out.coverage.update({
        'obligations': n, 'discharged': d,
        'checker_cmd': './check %s' % prop,
        'trusted_base': TRUSTED + ['assumed contract of external function %s' % t for t in sorted(trusted)] + [
            'assumed contract of %s' % t for t in sorted(assumed)],
        'functions_under_contract': fns,
        'functions_verified_inside_their_callers': sorted(inl),
        'lemma_obligations': len(run.lemmas),
        'obligations_by_kind': kinds,
        'back_end': 'z3 %s' % z3_version(),
        'solver_queries': q,
        'solver_seconds': round(st, 2),
        'retries_with_helpers_as_code': run.retries,
        'notes': run.notes,
    })
    out.unproved += run.failed


def z3_version():
    import z3
    return z3.get_version_string()


ARITH = ['Go integers are modelled as mathematical integers with exact wrap-around at every operation; '
         'no slice, string or loop run exceeds 2^40 elements (memory), and make of up to 2^42 elements is taken to succeed',
         'no data races; memory exhaustion and stack exhaustion are not modelled']
