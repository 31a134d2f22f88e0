"""Check runner: executes seeded workloads against the real qosy code, with the
monitors of one property observing, and turns what was observed into a verdict.

Verdicts: 0 held on everything explored / 1 violated / 3 inconclusive / 2 harness error.
"""
import hashlib
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback
import multiprocessing.connection as mpc

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QOSY_REPO', '/repo')

CASE_CPU_S = float(os.environ.get('VERIF_CASE_CPU', '150'))


class Violation(Exception):
    def __init__(self, key, msg, data=None):
        Exception.__init__(self, '{}: {}'.format(key, msg))
        self.key, self.msg, self.data = key, msg, data


class Skip(Exception):
    """The case is outside what the oracle can decide (counted, never folded into a verdict)."""


class CaseHang(BaseException):
    pass


class Family:
    def __init__(self, name, fn, quick, thorough, require=1, chunk=None):
        self.name, self.fn, self.quick, self.thorough = name, fn, quick, thorough
        self.require = require          # minimum number of decided cases
        self.chunk = chunk


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.evals = 0
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.known = {}
        self.case = None

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def seen(self, *key):
        """Register one non-trivial distinct observation."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append('{}: {}'.format(self.case, str(text)[:400]))

    def check(self, cond, key, msg='', **data):
        self.evals += 1
        if not cond:
            if callable(msg):
                msg = msg()
            raise Violation(key, str(msg)[:3000], {k: repr(v)[:3000] for k, v in data.items()})
        return True

    def raises(self, exc, key, fn, *a, **kw):
        self.evals += 1
        try:
            r = fn(*a, **kw)
        except exc:
            return True
        raise Violation(key, 'expected {} but got the result {!r}'.format(exc, r)[:2000])

    def finding(self, key, text):
        """A deviation that belongs to a specific, recorded mechanism."""
        self.known[key] = text


def case_seed(seed, prop, fam, idx):
    h = hashlib.sha256('{}|{}|{}|{}'.format(seed, prop, fam, idx).encode()).digest()
    return int.from_bytes(h[:4], 'big')


def load_check(prop):
    return importlib.import_module('mon.checks.' + prop.lower())


def _handler(signum, frame):
    raise CaseHang()


def run_case(ctx, fam, seed, idx):
    """returns None or a failure dict"""
    ctx.case = '{}[{}]'.format(fam.name, idx)
    rng = np.random.RandomState(case_seed(seed, ctx.prop, fam.name, idx))
    signal.signal(signal.SIGPROF, _handler)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
    try:
        fam.fn(ctx, rng, idx)
        ctx.count('decided:' + fam.name)
        return None
    except Skip as s:
        ctx.count('skipped:' + fam.name)
        ctx.count('skip-reason:' + str(s)[:80])
        return None
    except Violation as v:
        return dict(family=fam.name, index=idx, key=v.key, msg=v.msg, data=v.data,
                    trace=traceback.format_exc()[-3000:])
    except CaseHang:
        return dict(family=fam.name, index=idx, key='no-progress',
                    msg='the call did not finish within {} CPU seconds'.format(CASE_CPU_S),
                    data=None, trace='')
    except Exception as e:                       # the API raised where a result is specified
        return dict(family=fam.name, index=idx, key='raised:' + type(e).__name__,
                    msg='unexpected exception: {!r}'.format(e)[:2000], data=None,
                    trace=traceback.format_exc()[-3000:])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def _worker(args):
    prop, tier, seed, jobs = args
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    devnull = open(os.devnull, 'w')
    so, sys.stdout = sys.stdout, devnull
    try:
        mod = load_check(prop)
        fams = {f.name: f for f in mod.FAMILIES}
        ctx = Ctx(prop, tier)
        if hasattr(mod, 'install'):
            mod.install(ctx)
        fails = []
        n = 0
        t_fam = {}
        for (fname, idx) in jobs:
            n += 1
            t0 = time.process_time()
            f = run_case(ctx, fams[fname], seed, idx)
            t_fam[fname] = t_fam.get(fname, 0.0) + time.process_time() - t0
            if f is not None:
                fails.append(f)
                break
        if hasattr(mod, 'uninstall'):
            mod.uninstall()
        return dict(n=n, evals=ctx.evals, counters=ctx.counters, distinct=ctx.distinct,
                    samples=ctx.samples, fails=fails, known=ctx.known, t_fam=t_fam)
    finally:
        sys.stdout = so


def _fork(prop, tier, seed, chunk):
    """run a chunk of cases in a process of its own; returns its process id and the pipe its result comes through"""
    recv, send = mpc.Pipe(duplex=False)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid:
        send.close()
        return pid, recv
    try:
        recv.close()
        try:
            d = _worker((prop, tier, seed, chunk))
        except BaseException:
            d = dict(error=traceback.format_exc())
        send.send(d)
        send.close()
    finally:
        os._exit(0)


def read_findings(prop):
    out = {}
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property={} '.format(prop)):
                rest = line.split(' ', 2)[2]
                key, text = rest.split(' ', 1)
                out[key.split('=', 1)[1]] = text
    return out


def main(argv):
    prop = argv[0].upper()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    replay = None
    only = None
    it = iter(argv[1:])
    for a in it:
        if a == '--tier':
            tier = next(it)
        elif a == '--seed':
            seed = int(next(it))
        elif a == '--replay':
            replay = next(it)
        elif a == '--only':
            only = next(it)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    mod = load_check(prop)

    if replay:
        r = json.load(open(replay))
        ctx = Ctx(prop, r.get('tier', tier))
        if hasattr(mod, 'install'):
            mod.install(ctx)
        fam = {f.name: f for f in mod.FAMILIES}[r['family']]
        f = run_case(ctx, fam, r['seed'], r['index'])
        print(json.dumps(f, indent=1) if f else 'replay: no violation')
        if f:
            print('VIOLATION property={} replay={}'.format(prop, replay))
        return 1 if f else 0

    jobs = []
    for f in mod.FAMILIES:
        if only and f.name != only:
            continue
        n = f.quick if tier == 'quick' else f.thorough
        jobs += [(f.name, i) for i in range(n)]
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    budget = float(os.environ.get('VERIF_BUDGET', '700' if tier == 'quick' else '800'))
    # deterministic shuffle so that chunks are balanced over families
    order = np.random.RandomState(12345).permutation(len(jobs))
    jobs = [jobs[i] for i in order]
    nchunk = max(1, min(len(jobs), nproc * 12))
    chunks = [jobs[i::nchunk] for i in range(nchunk)]

    total = dict(n=0, evals=0, counters={}, distinct=set(), samples=[], fails=[], known={}, t_fam={})
    cut = False
    todo = [(c, 0) for c in chunks[::-1]]
    running = {}                         # result pipe -> (process, chunk, attempt)
    try:
        while todo or running:
            if time.time() - t0 > budget:
                cut = True
                break
            while todo and len(running) < nproc:
                c, attempt = todo.pop()
                pid, pipe = _fork(prop, tier, seed, c)
                running[pipe] = (pid, c, attempt)
            for pipe in mpc.wait(list(running), timeout=0.5):
                pid, c, attempt = running.pop(pipe)
                try:
                    d = pipe.recv()
                except EOFError:
                    d = None
                pipe.close()
                status = os.waitpid(pid, 0)[1]
                if d is None:            # the process ended without a result
                    if attempt < 2:
                        todo.insert(0, (c, attempt + 1))
                    elif os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL:
                        total['counters']['workers-killed'] = total['counters'].get('workers-killed', 0) + 1
                    else:
                        total['fails'].append(dict(family=c[0][0], index=c[0][1], key='process-died', data=None, trace='',
                                                   msg='the process running {} cases ended with status {}'.format(len(c), status)))
                    continue
                if 'error' in d:
                    raise RuntimeError(d['error'])
                total['n'] += d['n']
                total['evals'] += d['evals']
                for k, v in d['counters'].items():
                    total['counters'][k] = total['counters'].get(k, 0) + v
                for k, v in d['t_fam'].items():
                    total['t_fam'][k] = total['t_fam'].get(k, 0) + v
                total['distinct'] |= d['distinct']
                total['samples'] += d['samples']
                total['fails'] += d['fails']
                total['known'].update(d['known'])
            if total['fails']:
                break
    finally:
        for pipe, (pid, c, attempt) in running.items():
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            pipe.close()

    listed = read_findings(prop)
    unlisted = {k: v for k, v in total['known'].items() if k not in listed}
    for k, v in unlisted.items():
        total['fails'].append(dict(family='known-mechanism', index=-1, key=k, msg=v, data=None, trace=''))

    per_fam = {f.name: total['counters'].get('decided:' + f.name, 0) for f in mod.FAMILIES}
    missing = [f.name for f in mod.FAMILIES
               if (not only or f.name == only) and (f.quick if tier == 'quick' else f.thorough) > 0
               and per_fam[f.name] < min(f.require, f.quick if tier == 'quick' else f.thorough)]
    for c in getattr(mod, 'REQUIRED_COUNTERS', []):
        if not only and total['counters'].get(c, 0) == 0:
            missing.append(c)

    seen_samples, samples = set(), []
    for s in total['samples']:
        fam = s.split('[')[0]
        if fam not in seen_samples or len(samples) < 5:
            seen_samples.add(fam)
            samples.append(s)
        if len(samples) >= 14:
            break
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=total['n'], distinct_nontrivial=len(total['distinct']),
                            rule=mod.RULE, samples=samples or ['none'],
                            oracle_comparisons=total['evals'],
                            cases_decided_per_workload=per_fam,
                            monitor_counters={k: v for k, v in sorted(total['counters'].items())
                                              if not k.startswith('decided:')},
                            cut_short_by_budget=cut),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(total['fails']))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)

    for k, v in sorted(total['known'].items()):
        if k in listed:
            print('KNOWN-FINDING: property={} {} [{}]'.format(prop, listed[k], k))
    if os.environ.get('VERIF_TIMES'):
        print('cpu by workload:', {k: round(v, 1) for k, v in total['t_fam'].items()})
    if total['fails']:
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        for n, f in enumerate(total['fails'][:4]):
            path = os.path.join(d, '{}-{}.json'.format(prop, n))
            f = dict(f, seed=seed, tier=tier, property=prop)
            with open(path, 'w') as fh:
                json.dump(f, fh, indent=1)
            print('{} {}[{}] {}: {}'.format(prop, f['family'], f['index'], f['key'], f['msg'][:600]))
            if f['data']:
                for k, v in f['data'].items():
                    print('   {} = {}'.format(k, v[:300]))
            if f['key'].startswith('raised'):
                print(f['trace'][-1200:])
            print('VIOLATION property={} replay={}'.format(prop, path))
        return 1
    if missing:
        print('INCONCLUSIVE property={}: not enough decided cases for {}'.format(prop, missing))
        return 3
    print('HELD property={} tier={} seed={} cases={} comparisons={} distinct={} wall={:.1f}s{}'.format(
        prop, tier, seed, total['n'], total['evals'], len(total['distinct']), time.time() - t0,
        ' (cut by budget)' if cut else ''))
    return 0
