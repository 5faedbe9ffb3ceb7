"""Runs plans in isolated processes, many at once; minimises and replays failures; writes evidence.

A plan is plain JSON.  `check.plan(rng, tier)` draws it from the seed, `check.execute(plan)` runs it and returns an
outcome; an execution happens in a process forked from the freshly imported package, so no run sees another's state.
"""
import gc
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import time
import traceback

from . import boot, core, fs, oracle, world

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WALL_LIMIT = 90.0  # Real seconds before a run counts as hung (an ordinary one takes well under a second)
ROOT = None  # Scratch data folder of this process


class HarnessError(Exception):
    """The check itself misbehaved; never reported as a violation"""


class Violation(Exception):

    def __init__(self, kind, detail):
        super().__init__('%s: %s' % (kind, detail))
        self.kind = kind
        self.detail = detail


def require(cond, kind, detail=''):
    if not cond:
        raise Violation(kind, detail() if callable(detail) else detail)


# ###############################################################################
# ISOLATION
# ###############################################################################


def blames_code(e):
    """Tells whether an exception came out of the code under test rather than the harness"""
    tb = e.__traceback__
    last = None
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        if name.startswith(core.REPO_PREFIX):
            last = True
        elif name.startswith(VERIF + '/'):
            last = False
        tb = tb.tb_next
    return last is True


def fork_call(fn, *args, limit=WALL_LIMIT):
    """Runs fn in a forked process; returns ('ok', result), ('exc', traceback) or ('hang', None)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fs._os['close'](r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            gc.disable()
            try:
                payload = ('ok', fn(*args))
            except Violation as v:
                payload = ('bad', (v.kind, str(v.detail)[:4000]))
            except BaseException as e:
                payload = ('code' if blames_code(e) else 'exc', traceback.format_exc())
            data = pickle.dumps(payload)
            view = memoryview(data)
            while view:
                n = fs._os['write'](w, view[:65536])
                view = view[n:]
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    fs._os['close'](w)
    chunks = []
    deadline = core._real_monotonic() + limit
    hung = False
    while True:
        left = deadline - core._real_monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5.0))
        if ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            chunks.append(chunk)
    if hung:
        for p in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                p()
            except OSError:
                pass
    fs._os['close'](r)
    os.waitpid(pid, 0)
    if hung:
        return 'hang', None
    data = b''.join(chunks)
    if not data:
        return 'exc', 'the run ended without an answer'
    return pickle.loads(data)


def pristine(fn, *args):
    """Result of fn in a process of its own; harness errors propagate"""
    status, value = fork_call(fn, *args)
    if status == 'ok':
        return value
    if status == 'hang':
        raise Violation('hang', 'no answer within %d s of real time' % WALL_LIMIT)
    if status == 'bad':
        raise Violation(*value)
    if status == 'code':
        raise Violation('unexpected-exception', value[-1500:])
    raise HarnessError(value)


def run_plan(check, plan, limit=WALL_LIMIT):
    """Outcome of one plan: a dict, with 'violation' None or {kind, detail}"""
    status, value = fork_call(_execute, check, plan, limit=limit)
    if status == 'hang':
        status, value = fork_call(_execute, check, plan, limit=limit * 2)
        if status == 'hang':
            return {'violation': {'kind': 'hang', 'detail': 'no answer within %d s of real time' % (limit * 2)},
                    'stats': {}, 'digest': 'hang'}
    if status != 'ok':
        raise HarnessError(str(value))
    return value


def _attempt(fn, *args):
    """None, or the violation that fn ran into"""
    try:
        fn(*args)
    except Violation as v:
        return {'kind': v.kind, 'detail': str(v.detail)[:4000]}
    except Exception as e:
        # Raised by the code under test where nothing was injected: a failure of that code, not of the harness
        if not blames_code(e):
            raise
        return {'kind': 'unexpected-exception', 'detail': traceback.format_exc()[-1500:]}
    return None


def _execute(check, plan):
    """Runs in the forked process"""
    out = Outcome()
    out.violation = _attempt(check.execute, plan, out)
    return out.pack()


def _setup(check):
    """The shared fault-free preparation; None, or the violation it ran into"""
    return _attempt(check.setup)


class Outcome(object):

    def __init__(self):
        self.stats = {}
        self.violation = None
        self.digest = hashlib.blake2b(digest_size=12)
        self.trails = []
        self.switches = []
        self.steps = 0
        self.sim_time = 0.0
        self.fired = []
        self.nontrivial = False
        self.notes = []

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def note_digest(self, *parts):
        self.digest.update(repr(parts).encode('utf-8', 'backslashreplace'))

    def absorb(self, sim, start=1000.0):
        """Takes over what a finished simulation recorded"""
        self.trails.append(sim.trail.hexdigest())
        self.steps += sim.steps
        self.sim_time += sim.now - start
        self.fired.extend(sim.fired)
        self.switches.append(sim.switches)
        self.count('switches', sim.nb_switches)
        self.count('tasks', len(sim.tasks))
        for k, n in sim.stats.items():
            if not k.startswith('_'):
                self.stats[k] = self.stats.get(k, 0) + n
        self.note_digest(sim.trail.hexdigest(), sim.steps, sim.fired, sim.unhandled)

    def pack(self):
        self.note_digest(self.violation and self.violation['kind'])
        return {'violation': self.violation, 'stats': self.stats, 'digest': self.digest.hexdigest(),
                'trail': hashlib.blake2b(repr(self.trails).encode(), digest_size=8).hexdigest(),
                'switches': self.switches, 'steps': self.steps, 'sim_time': self.sim_time, 'fired': self.fired,
                'nontrivial': self.nontrivial, 'notes': self.notes}


# ###############################################################################
# MANY RUNS
# ###############################################################################


def plan_for(check, seed, tier, idx):
    rng = random.Random('%s/%s/%d' % (check.ID, seed, idx))
    plan = check.plan(rng, tier)
    plan['idx'] = idx
    return json.loads(json.dumps(plan))


def explore(check, seed, tier, nb_runs, workers, on_progress=None):
    """Runs plans 0..nb_runs-1; returns (aggregate, failures) where failures is sorted by index"""
    agg = {'runs': 0, 'steps': 0, 'sim_time': 0.0, 'stats': {}, 'trails': set(), 'nontrivial': 0, 'digests': {}}
    failures = []
    errors = []
    pipes = {}
    pids = {}
    for w in range(workers):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            fs._os['close'](r)
            for fd in pipes:
                fs._os['close'](fd)
            _worker(check, seed, tier, range(w, nb_runs, workers), wfd)
            os._exit(0)
        fs._os['close'](wfd)
        pipes[r] = b''
        pids[r] = pid
    stop = False
    while pipes:
        ready, _, _ = select.select(list(pipes), [], [], 1.0)
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                fs._os['close'](r)
                os.waitpid(pids.pop(r), 0)
                rest = pipes.pop(r)
                if rest and not stop:
                    errors.append('a worker ended in the middle of a message')
                continue
            pipes[r] += chunk
            while len(pipes[r]) >= 8:
                size = struct.unpack('>Q', pipes[r][:8])[0]
                if len(pipes[r]) < 8 + size:
                    break
                msg = pickle.loads(pipes[r][8:8 + size])
                pipes[r] = pipes[r][8 + size:]
                if msg[0] == 'err':
                    errors.append(msg[1])
                    stop = True
                elif msg[0] == 'bad':
                    failures.append(msg[1:])
                    _merge(agg, msg[2])
                    stop = True
                elif msg[0] == 'done':
                    _merge_done(agg, msg[1])
        if stop and pids:
            for r, pid in pids.items():
                try:
                    os.kill(pid, signal.SIGTERM)
                except OSError:
                    pass
            # Let the workers flush what they have
            stop_at = core._real_monotonic() + 2.0
            while pipes and core._real_monotonic() < stop_at:
                ready, _, _ = select.select(list(pipes), [], [], 0.2)
                for r in ready:
                    if not os.read(r, 1 << 20):
                        fs._os['close'](r)
                        pipes.pop(r)
                        os.waitpid(pids.pop(r), 0)
            for r, pid in list(pids.items()):
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                fs._os['close'](r)
            pipes = {}
            pids = {}
    failures.sort(key=lambda f: f[0])
    return agg, failures, errors


def _merge(agg, out):
    agg['runs'] += 1
    agg['steps'] += out.get('steps', 0)
    agg['sim_time'] += out.get('sim_time', 0.0)
    agg['trails'].add(out.get('trail', ''))
    agg['nontrivial'] += bool(out.get('nontrivial'))
    for k, n in out['stats'].items():
        agg['stats'][k] = agg['stats'].get(k, 0) + n


def _merge_done(agg, part):
    agg['runs'] += part['runs']
    agg['steps'] += part['steps']
    agg['sim_time'] += part['sim_time']
    agg['trails'] |= part['trails']
    agg['nontrivial'] += part['nontrivial']
    agg['digests'].update(part['digests'])
    for k, n in part['stats'].items():
        agg['stats'][k] = agg['stats'].get(k, 0) + n


def _worker(check, seed, tier, idxs, wfd):
    signal.signal(signal.SIGTERM, lambda *a: os._exit(0))

    def send(msg):
        data = pickle.dumps(msg)
        view = memoryview(struct.pack('>Q', len(data)) + data)
        while view:
            n = fs._os['write'](wfd, view[:65536])
            view = view[n:]

    agg = {'runs': 0, 'steps': 0, 'sim_time': 0.0, 'stats': {}, 'trails': set(), 'nontrivial': 0, 'digests': {}}
    try:
        for idx in idxs:
            plan = plan_for(check, seed, tier, idx)
            out = run_plan(check, plan)
            if out['violation'] is not None:
                send(('bad', idx, out, plan))
                return
            agg['digests'][idx] = out['digest']
            _merge(agg, out)
        send(('done', agg))
    except BaseException:
        send(('err', traceback.format_exc()))


# ###############################################################################
# MINIMISATION
# ###############################################################################


def minimise(check, plan, out, budget_runs=160, budget_s=150.0):
    """Smaller plan that still fails in the same way"""
    kind = out['violation']['kind']
    t0 = core._real_monotonic()
    state = {'runs': 0}

    def attempt(p):
        if state['runs'] >= budget_runs or core._real_monotonic() - t0 > budget_s:
            return None
        state['runs'] += 1
        try:
            o = run_plan(check, p)
        except HarnessError:
            return None
        if o['violation'] is not None and o['violation']['kind'] == kind:
            return o
        return None

    best, best_out = plan, out
    if kind == 'hang':
        return best, best_out, state['runs']
    # Smaller workload, fewer faults
    progress = True
    while progress and state['runs'] < budget_runs:
        progress = False
        for cand in check.shrink(best):
            o = attempt(cand)
            if o is not None:
                best, best_out = cand, o
                progress = True
                break
            if state['runs'] >= budget_runs * 0.7:
                break
        if state['runs'] >= budget_runs * 0.7:
            break
    # Explicit schedule, then fewer switches
    if best_out.get('switches') and best.get('sched', {}).get('mode') not in ('seq', 'list') and 'sched' in best:
        cand = json.loads(json.dumps(best))
        cand['sched'] = {'mode': 'list', 'switches': best_out['switches'][0]}
        o = attempt(cand)
        if o is not None:
            best, best_out = cand, o
            n = 2
            sw = best['sched']['switches']
            while len(sw) >= 1 and state['runs'] < budget_runs:
                size = max(1, len(sw) // n)
                reduced = False
                for i in range(0, len(sw), size):
                    cand = json.loads(json.dumps(best))
                    cand['sched']['switches'] = sw[:i] + sw[i + size:]
                    o = attempt(cand)
                    if o is not None:
                        best, best_out = cand, o
                        sw = cand['sched']['switches']
                        n = max(2, n - 1)
                        reduced = True
                        break
                if not reduced:
                    if size == 1:
                        break
                    n = min(len(sw), n * 2)
    return best, best_out, state['runs']


def drop_each(seq, at_least=0):
    """Sequences with a half, a quarter ... or one element less"""
    n = len(seq)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            cand = seq[:i] + seq[i + size:]
            if len(cand) >= at_least and len(cand) < n:
                yield cand
        size //= 2


# ###############################################################################
# ENTRY POINT
# ###############################################################################


def prepare():
    """Boots the package on a fresh scratch data folder"""
    global ROOT
    boot.boot()
    ROOT = os.path.realpath(world.scratch())
    world.populate(ROOT)
    boot.rebase_data(ROOT)
    oracle.load_char_codes(ROOT)
    return ROOT


def cleanup():
    if not ROOT or not os.path.basename(ROOT).startswith('scrappy-sim-'):
        return
    parent = os.path.dirname(ROOT)
    for name in os.listdir(parent):
        if name != os.path.basename(ROOT) and not name.startswith(os.path.basename(ROOT) + '.run-'):
            continue
        for dirpath, dirs, files in os.walk(os.path.join(parent, name), topdown=False):
            for f in files:
                try:
                    fs._os['unlink'](os.path.join(dirpath, f))
                except OSError:
                    pass
            try:
                fs._os['rmdir'](dirpath)
            except OSError:
                pass


def private_root():
    """A data folder of this run's own, for runs that write; the package's paths point at it from now on"""
    root = '%s.run-%d' % (ROOT, os.getpid())
    fs._os['mkdir'](root)
    for d in world.SUBDIRS:
        fs._os['mkdir'](os.path.join(root, d))
    boot.rebase_data(root)
    return root


def drop_root(root):
    if '.run-' in os.path.basename(root):
        for dirpath, dirs, files in os.walk(root, topdown=False):
            for f in files:
                fs._os['unlink'](os.path.join(dirpath, f))
            fs._os['rmdir'](dirpath)


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with fs._open(tmp, 'w', encoding='utf-8') as f:
        json.dump(obj, f, indent=1, sort_keys=True, ensure_ascii=True)
        f.write('\n')
    fs._os['replace'](tmp, path)


def evidence(check, tier, seed, agg, wall, violations, samples):
    stats = agg['stats']
    faults = {k[6:]: n for k, n in sorted(stats.items()) if k.startswith('fault.')}
    cov = {
        'evaluations': agg['runs'],
        'distinct_nontrivial': len(agg['trails']) if check.DISTINCT == 'trails' else agg['nontrivial'],
        'rule': check.RULE,
        'samples': samples,
        'simulated_runs': agg['runs'],
        'runs_per_hour': int(agg['runs'] * 3600 / max(wall, 1e-6)),
        'seeds_per_hour': int(agg['runs'] * 3600 / max(wall, 1e-6)),
        'simulated_seconds': round(agg['sim_time'], 3),
        'scheduler_steps': agg['steps'],
        'distinct_interleavings': len(agg['trails']),
        'interleaving_measure': 'distinct sequences of (task, task steps, next task) hand-overs',
        'nontrivial_runs': agg['nontrivial'],
        'faults_injected': faults,
        'counters': {k: n for k, n in sorted(stats.items()) if not k.startswith('fault.') and not k.startswith('_')},
        'real_components': check.REAL,
        'stub_components': check.STUB,
        'exhaustive': False,
    }
    path = os.path.join(VERIF, 'evidence', check.ID + '.json')
    write_json(path, {'property': check.ID, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
                      'assumptions': check.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': violations})


def compact(obj, limit=600):
    s = json.dumps(obj, ensure_ascii=True, sort_keys=True)
    return s if len(s) <= limit else s[:limit] + '...'


def main(check, argv):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    replay = None
    runs = None
    one = None
    digests = None
    workers = min(8, os.cpu_count() or 1)
    args = list(argv)
    while args:
        a = args.pop(0)
        if a == '--replay':
            replay = args.pop(0)
        elif a == '--runs':
            runs = int(args.pop(0))
        elif a == '--workers':
            workers = int(args.pop(0))
        elif a == '--seed':
            seed = int(args.pop(0))
        elif a == '--tier':
            tier = args.pop(0)
        elif a == '--one':
            one = int(args.pop(0))
        elif a == '--digests':
            digests = args.pop(0)
        else:
            raise SystemExit('unknown argument %s' % a)
    t0 = core._real_monotonic()
    try:
        prepare()
        print('%s seed=%d tier=%s' % (check.ID, seed, tier), flush=True)
        bad = _setup(check)
        if bad is not None:
            path = os.path.join(VERIF, 'replays', '%s-setup.json' % check.ID)
            write_json(path, {'property': check.ID, 'seed': seed, 'tier': tier, 'plan': {'setup': True},
                              'violation': bad, 'digest': 'setup'})
            agg = {'runs': 0, 'steps': 0, 'sim_time': 0.0, 'stats': {}, 'trails': set(), 'nontrivial': 0}
            evidence(check, tier, seed, agg, core._real_monotonic() - t0, 1, ['setup, before any run'])
            print('%s: %s' % (bad['kind'], bad['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (check.ID, path), flush=True)
            return 1
        if replay is not None:
            return _replay(check, replay)
        if one is not None:
            plan = plan_for(check, seed, tier, one)
            out = run_plan(check, plan)
            print(json.dumps(plan, indent=1)[:6000])
            out['switches'] = [s[:20] for s in out['switches']]
            print(json.dumps(out, indent=1)[:6000])
            return 0
        n = runs or check.RUNS[tier]
        agg, failures, errors = explore(check, seed, tier, n, workers)
        wall = core._real_monotonic() - t0
        samples = [compact(plan_for(check, seed, tier, i)) for i in range(min(2, n))]
        if digests:
            write_json(digests, {str(k): d for k, d in sorted(agg['digests'].items())})
        if failures:
            idx, out, plan = failures[0]
            print('run %d: %s: %s' % (idx, out['violation']['kind'], out['violation']['detail'][:1500]), flush=True)
            small, small_out, tries = minimise(check, plan, out)
            name = '%s-%s.json' % (check.ID, hashlib.blake2b(json.dumps(small, sort_keys=True).encode(),
                                                            digest_size=6).hexdigest())
            path = os.path.join(VERIF, 'replays', name)
            write_json(path, {'property': check.ID, 'seed': seed, 'tier': tier, 'run': idx, 'plan': small,
                              'violation': small_out['violation'], 'digest': small_out['digest'],
                              'fired': small_out.get('fired', []), 'minimisation_runs': tries})
            evidence(check, tier, seed, agg, wall, len(failures), samples)
            print('minimised (%d extra runs): %s: %s' % (tries, small_out['violation']['kind'],
                                                         small_out['violation']['detail'][:1500]))
            print('VIOLATION property=%s replay=%s' % (check.ID, path), flush=True)
            return 1
        if errors:
            print(errors[0][-3000:], file=sys.stderr)
            print('HARNESS ERROR in %s' % check.ID)
            return 2
        if agg['runs'] != n:
            print('HARNESS ERROR in %s: %d of %d runs answered' % (check.ID, agg['runs'], n))
            return 2
        missing = [p for p in check.PROBES if not any(k == p or k.startswith(p + '.') for k in agg['stats'])]
        evidence(check, tier, seed, agg, wall, 0, samples)
        for line in check.known_lines():
            print(line)
        print('%s held on %d simulated runs (%d distinct interleavings, %d steps) in %.1f s%s'
              % (check.ID, agg['runs'], len(agg['trails']), agg['steps'], wall,
                 '; never reached: ' + ', '.join(missing) if missing else ''))
        return 0
    except HarnessError as e:
        print(str(e)[-3000:], file=sys.stderr)
        print('HARNESS ERROR in %s' % check.ID)
        return 2
    finally:
        cleanup()


def _replay(check, path):
    with fs._open(path, encoding='utf-8') as f:
        rec = json.load(f)
    out = run_plan(check, rec['plan'])
    if out['violation'] is None:
        print('replay of %s: no violation' % path)
        return 0
    same = out['violation']['kind'] == rec['violation']['kind'] and out['digest'] == rec['digest']
    print('%s: %s' % (out['violation']['kind'], out['violation']['detail'][:3000]))
    print('reproduced %s' % ('exactly' if same else 'with differences'))
    print('VIOLATION property=%s replay=%s' % (check.ID, path))
    return 1


class Check(object):
    """One property"""
    ID = None
    RUNS = {'quick': 100, 'thorough': 1000}
    RULE = ''
    DISTINCT = 'trails'
    REAL = []
    STUB = []
    ASSUMPTIONS = []
    PROBES = []

    def setup(self):
        pass

    def plan(self, rng, tier):
        raise NotImplementedError

    def execute(self, plan, out):
        raise NotImplementedError

    def shrink(self, plan):
        return iter(())

    def known_lines(self):
        return []
