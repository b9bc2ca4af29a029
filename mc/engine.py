"""Exploration engine: shards run in forked children, every case under a watchdog, results merged.

A check module (checks/Cxx.py) provides
    ID, LEVEL, RULE, BOUNDS (text per tier), ASSUMPTIONS
    shards(tier) -> list of picklable shard descriptors (simplest first)
    explore(rec, shard, tier) -> None         enumerates completely, calling rec.check(...)
    replay(rec, case) -> None                 re-runs one recorded case
"""
import ast
import hashlib
import importlib
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

from mc import rt

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOL_PER_SHARD = 5
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def h64(key):
    if not isinstance(key, (str, bytes)):
        key = repr(key)
    if isinstance(key, str):
        key = key.encode('utf-8', 'surrogatepass')
    return int.from_bytes(hashlib.blake2b(key, digest_size=8).digest(), 'big')


def privileged():
    """Undo mc.rt.unprivileged()"""
    if os.geteuid() != 0 and os.getresuid()[2] == 0:
        os.setresuid(0, 0, 0)
        os.setresgid(0, 0, 0)


class StopShard(BaseException):
    pass


class Rec:
    """Records what one shard explored."""

    def __init__(self, shard, out_path=None, limit=MAX_VIOL_PER_SHARD):
        self.shard = shard
        self.out_path = out_path
        self.evals = 0
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.nontrivial = set()
        self.samples = []
        self.violations = []
        self.counters = {}
        self.limit = limit
        self.current = None
        self._last_sampled = 0

    # -- accounting
    def state(self, key):
        h = h64(key)
        new = h not in self.states
        self.states.add(h)
        return new

    def transition(self, n=1):
        self.transitions += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, case, message, key=None):
        self.violations.append({'case': case, 'message': message, 'key': key or repr(case)})
        if len(self.violations) >= self.limit:
            raise StopShard()

    # -- one case: body() returns (observed, expected) or a message / None
    def check(self, case, body, timeout=20.0, key=None, nontrivial=True):
        self.evals += 1
        self.current = case

        def hard(*_):
            # The code swallowed the soft alarm: record and leave.
            self.violations.append({'case': case, 'message': 'does not terminate', 'key': key or repr(case)})
            self.dump()
            os._exit(0)

        def soft(*_):
            signal.signal(signal.SIGALRM, hard)
            signal.setitimer(signal.ITIMER_REAL, 5)
            raise rt.Hang()

        signal.signal(signal.SIGALRM, soft)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            res = body()
        except rt.Hang:
            res = f'does not terminate (gave up after {timeout}s)'
        except StopShard:
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{os.path.relpath(f.filename, rt.REPO)}:{f.lineno}' for f in tb
                     if f.filename.startswith(rt.REPO + '/')]
            if not where:
                signal.setitimer(signal.ITIMER_REAL, 0)
                raise
            res = f'uncaught {type(e).__name__}: {e} (at {where[-1]})'
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.current = None
        if isinstance(res, tuple):
            observed, expected = res
            msg = None if observed == expected else f'observed {observed!r}, expected {expected!r}'
            o = h64(observed)
        else:
            msg = res
            o = h64(res)
        self.outcomes.add(o)
        if nontrivial:
            self.nontrivial.add(h64(case))
        if len(self.samples) < 2 or (self.evals > 4 * self._last_sampled and len(self.samples) < 5):
            self._last_sampled = self.evals
            self.samples.append(_short({'case': case, 'observed': res[0] if isinstance(res, tuple) else (res or 'ok')}))
        if msg is not None:
            self.violation(case, msg, key)
        return msg is None

    def dump(self):
        d = dict(shard=self.shard, evals=self.evals, transitions=self.transitions, states=self.states,
                 outcomes=self.outcomes, nontrivial=self.nontrivial, samples=self.samples,
                 violations=self.violations, counters=self.counters)
        privileged()
        tmp = self.out_path + '.tmp'
        with open(tmp, 'wb') as f:
            pickle.dump(d, f)
        os.replace(tmp, self.out_path)


def _short(x, n=400):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...'


def run_shard(mod, shard, tier, path):
    rec = Rec(shard, path)
    try:
        rt.init_process(mod.ID)
        try:
            mod.explore(rec, shard, tier)
        except StopShard:
            rec.count('shards_stopped_after_violations')
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{f.filename}:{f.lineno}' for f in tb if f.filename.startswith(rt.REPO + '/')]
            if where and not isinstance(e, (KeyboardInterrupt, MemoryError)):
                # marcel itself failed outside any individual case (e.g. it cannot even start).
                rec.violations.append({'case': {'shard': shard}, 'key': f'shard {shard}',
                                       'message': f'marcel failed while the harness drove it: '
                                                  f'{type(e).__name__}: {e} at {where[-1]}'})
            else:
                traceback.print_exc()
                rec.dump()
                return 3
        rec.dump()
        return 0
    finally:
        rt.cleanup_process()


def known(prop):
    keys = {}
    try:
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('finding: ') and f'property={prop} ' in line:
                # finding: property=C05 key=<python literal> :: description
                body = line.split(' key=', 1)[1]
                key, _, desc = body.partition(' :: ')
                keys[ast.literal_eval(key)] = desc
    except FileNotFoundError:
        pass
    return keys


def main(prop, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in argv:
        tier = 'thorough'
    elif '--quick' in argv:
        tier = 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.environ['PYTHONHASHSEED'] = '0'
    jobs = int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1)
    t0 = time.time()
    rt.import_marcel()
    mod = importlib.import_module(f'checks.{prop}')
    assert mod.ID == prop
    if '--replay' in argv:
        return do_replay(mod, argv[argv.index('--replay') + 1], tier)
    shards = mod.shards(tier)
    if '--only' in argv:
        want = argv[argv.index('--only') + 1]
        shards = [s for s in shards if want in repr(s)]
    deadline = t0 + (840 if tier == 'quick' else 6 * 3600)
    tmpdir = tempfile.mkdtemp(prefix=f'mcverif_{prop}_out_')
    pending = list(enumerate(shards))
    running = {}
    failed = []
    results = {}
    try:
        while pending or running:
            while pending and len(running) < jobs:
                i, s = pending.pop(0)
                path = os.path.join(tmpdir, f'{i}.pkl')
                sys.stdout.flush(); sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    code = 3
                    try:
                        os.setpgid(0, 0)
                        code = run_shard(mod, s, tier, path)
                    except BaseException:
                        traceback.print_exc()
                    finally:
                        try:
                            sys.stdout.flush(); sys.stderr.flush()
                        except Exception:
                            pass
                        os._exit(code)
                running[pid] = (i, s, path)
            pid, status = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                if time.time() > deadline:
                    for p in running:
                        try:
                            os.killpg(p, signal.SIGKILL)
                        except OSError:
                            pass
                    for p in running:
                        rt.remove_homes_of(p)
                    failed.append('deadline exceeded')
                    break
                time.sleep(0.005)
                continue
            if pid not in running:
                continue
            i, s, path = running.pop(pid)
            try:
                os.killpg(pid, signal.SIGKILL)     # anything the shard left behind
            except OSError:
                pass
            rt.remove_homes_of(pid)
            if os.path.exists(path):
                with open(path, 'rb') as f:
                    results[i] = pickle.load(f)
            if status != 0 or i not in results:
                failed.append(f'shard {_short(s, 100)}: status {status}')
    finally:
        import shutil
        shutil.rmtree(tmpdir, ignore_errors=True)
    return report(mod, tier, seed, shards, results, failed, t0)


def report(mod, tier, seed, shards, results, failed, t0):
    prop = mod.ID
    states, outcomes, nontrivial = set(), set(), set()
    evals = transitions = 0
    samples, violations, counters = [], [], {}
    for i in sorted(results):
        r = results[i]
        states |= r['states']; outcomes |= r['outcomes']; nontrivial |= r['nontrivial']
        evals += r['evals']; transitions += r['transitions']
        samples += r['samples']
        violations += r['violations']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
    kn = known(prop)
    fresh, hit = [], {}
    for v in violations:
        if v['key'] in kn:
            hit[v['key']] = kn[v['key']]
        else:
            fresh.append(v)
    for k, d in sorted(hit.items()):
        print(f'KNOWN-FINDING: property={prop} {d} [{k}]')
    fresh.sort(key=lambda v: len(repr(v['case'])))
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    for n, v in enumerate(fresh[:10], 1):
        path = os.path.join(rdir, f'{prop}-{n}.json')
        with open(path, 'w') as f:
            json.dump({'property': prop, 'case': repr(v['case']), 'message': v['message'], 'key': v['key'],
                       'replay': f'bin/check {prop} --replay {path}'}, f, indent=1)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'    case: {_short(v["case"], 1500)}')
        print(f'    {_short(v["message"], 1500)}')
    if len(samples) > 12:
        step = len(samples) / 12
        samples = [samples[int(k * step)] for k in range(12)]
    exhaustive = not failed and not counters.get('shards_stopped_after_violations') and not counters.get('capped')
    cov = dict(rule=mod.RULE, samples=samples, distinct_outcomes=len(outcomes), exhaustive=exhaustive,
               shards=len(shards), bounds=mod.BOUNDS[tier], counters=counters)
    if mod.LEVEL == 'model_checking':
        cov.update(states=len(states), transitions=transitions, traces_validated_against_impl=evals)
    else:
        cov.update(evaluations=evals, distinct_nontrivial=len(nontrivial), states=len(states), transitions=transitions)
    ev = dict(property=prop, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    epath = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(epath + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(epath + '.tmp', epath)
    print(f'{prop} [{tier}]: {evals} executions, {len(states)} states, {transitions} transitions, '
          f'{len(outcomes)} distinct outcomes, {len(fresh)} violations, {len(hit)} known, {ev["wall_s"]}s')
    for f in failed:
        print(f'    ERROR {f}')
    if fresh:
        return 1
    return 2 if failed else 0


def do_replay(mod, path, tier):
    with open(path) as f:
        d = json.load(f)
    rec = Rec('replay', None, limit=10 ** 9)
    rt.init_process(mod.ID)
    try:
        mod.replay(rec, ast.literal_eval(d['case']))
    finally:
        rt.cleanup_process()
    for v in rec.violations:
        print(f'VIOLATION property={mod.ID} replay={path}')
        print(f'    {v["message"]}')
    return 1 if rec.violations else 0
