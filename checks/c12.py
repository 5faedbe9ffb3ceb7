"""C12: loading is all-or-nothing under disk faults, and leaves nothing open"""
import gc
import os
import threading

from sim import fs, pipes, runner, vocab, world
from sim.runner import require

PROBE_TEXTS = ['The cat sat on the mat.', "John doesn't like the big red dog and Mary ran.", 'The dogs were eaten.']


def view_lm(lm):
    return (len(lm), [sorted(lm.top_ngrams(n)) for n in (1, 2)],
            [sorted(lm.next_word(w) or []) for w in ('the', 'cat', 'the cat', 'john')],
            [lm.has_ngram(w) for w in ('the', 'cat', 'zzz')], lm.best_ngram('the', 'cat', 'zzz'))


def view_charset(cs):
    return len(cs), [cs[c] for c in 'abcxyzABC0189!?.,†‡世界é\x00']


def view_wordset(ws):
    return len(ws), [[float(x) for x in ws[w]] for w in sorted(vocab.ALL_WORDS)[:40] + ['The', 'zzz', '']]



def make(kind):
    if kind == 'charset':
        from scrappybara.syntax.charset import Charset
        return Charset()
    if kind == 'wordset':
        from scrappybara.syntax.wordset import Wordset
        return Wordset()
    return None


def load(kind, obj=None):
    """Loads one artifact with the real code"""
    if kind in ('charset', 'wordset'):
        obj = obj if obj is not None else make(kind)
        obj.load()
        return obj
    if kind == 'lm1':
        from scrappybara.langmodel.language_model import LanguageModel
        return LanguageModel(1)
    if kind == 'lm2':
        from scrappybara.langmodel.language_model import LanguageModel
        return LanguageModel(2, 1)
    from scrappybara.pipeline.pipeline import Pipeline
    return Pipeline(nb_cores=2, batch_size=4)


def view(kind, obj):
    if kind == 'charset':
        return view_charset(obj)
    if kind == 'wordset':
        return view_wordset(obj)
    if kind in ('lm1', 'lm2'):
        return view_lm(obj)
    return pipes.docs_repr(obj(list(PROBE_TEXTS)))


def clean(kind, bufsize):
    """The artifact a fault-free load gives, and how many disk operations that takes"""
    disks = []
    keep = []
    _, _, err = pipes.simulate(lambda sim: keep.append(load(kind)), runner.Outcome(), trace=None, keep_fs=disks,
                               bufsize=bufsize)
    if err is not None:
        return repr(err), None, 0
    got = []
    _, _, err = pipes.simulate(lambda sim: got.append(view(kind, keep[0])), runner.Outcome(), trace=None)
    if err is not None:
        return repr(err), None, 0
    return None, got[0], disks[0].ops


def opened(kind, root):
    """The data files that loading opens, in this process, after it loaded everything once before"""
    names = []

    def note(disk, what, path):
        if what.startswith('open'):
            names.append(os.path.relpath(path, disk.root))

    pipes.simulate(lambda sim: load(kind), runner.Outcome(), trace=None, root=root)
    pipes.simulate(lambda sim: load(kind), runner.Outcome(), trace=None, root=root, fs_on_op=note)
    return sorted(set(names))


def put(root, name, data):
    path = os.path.join(root, name)
    if data is None:
        fs._os['unlink'](path)
        return
    with fs._open(path, 'wb') as f:
        f.write(data)


def damaged(name, how, frac, data):
    """What a copy that went wrong leaves of a file; None: no file at all"""
    if how == 'missing':
        return None
    if how == 'cut':
        # In the middle of a line, before its last column
        lines = data.splitlines(True)
        rows = [k for k, line in enumerate(lines) if line.count(b'\t') and line.index(b'\t') > 1]
        if rows:
            k = rows[min(int(frac * len(rows)), len(rows) - 1)]
            return b''.join(lines[:k]) + lines[k][:1 + int(frac * 977) % (lines[k].rindex(b'\t') + 1)]
    if name.endswith('.txt'):
        # A byte that no text in UTF-8 holds
        at = int(frac * len(data))
        return data[:at] + b'\xff' + data[at:]
    return data[:int(frac * len(data))]


class C12(runner.Check):
    ID = 'C12'
    RUNS = {'quick': 2500, 'thorough': 80000}
    RULE = ('a language model, the character codes, the word vectors or a whole pipeline is loaded by one to three threads '
            'while open and read calls fail, come up short or are aborted at seeded points, or a file it needs is missing, '
            'cut short or undecodable; every object that comes back '
            'is compared with a fault-free load, every failure must be raised, and the next load must succeed; '
            'non-trivial: a fault fired')
    DISTINCT = 'nontrivial'
    REAL = pipes.PIPE_REAL + ['pickle']
    STUB = pipes.PIPE_STUB + ['disk (scratch folder with injected open and read faults)']
    ASSUMPTIONS = pipes.PIPE_ASSUME + ['the files hold what the package wrote, or are missing, cut short (pickles and weights anywhere, tables within a line) or undecodable (texts)']
    PROBES = ['fault.io_error', 'fault.short_read', 'fault.abort', 'fault.line_error', 'fault.damage.missing', 'fault.damage.spoilt', 'fault.damage.cut', 'raised', 'intact', 'reload',
              'kind.lm1', 'kind.lm2', 'kind.charset', 'kind.wordset', 'kind.pipeline', 'threads']

    def setup(self):
        pipes.build_base()

    def plan(self, rng, tier):
        kind = rng.choice(['lm1', 'lm2', 'lm2', 'charset', 'wordset', 'pipeline', 'pipeline'])
        plan = {'kind': kind, 'threads': rng.choice([1, 1, 1, 2, 3]) if kind != 'pipeline' else rng.choice([1, 1, 2]),
                'reload': kind in ('charset', 'wordset') and rng.random() < 0.5,
                'bufsize': rng.choice([64, 512, 4096, 8192]), 'sched': pipes.sched_plan(rng, 300), 'fs': [], 'faults': []}
        r = rng.random()
        plan['damage'] = None
        if rng.random() < 0.25:
            plan['damage'] = {'which': rng.random(), 'how': rng.choice(['missing', 'spoilt', 'cut']),
                              'frac': rng.choice([0.0, rng.random(), rng.random()])}
        elif r < 0.5:
            for _ in range(rng.choice([1, 1, 2])):
                plan['fs'].append({'kind': 'io_error', 'where': rng.random(),
                                   'error': rng.choice(['eio', 'eio', 'emfile', 'eacces', 'enoent'])})
        elif r < 0.75:
            for _ in range(rng.choice([1, 3, 12])):
                plan['fs'].append({'kind': 'short_io', 'where': rng.random(), 'frac': rng.random() * 0.9})
        elif r < 0.9:
            plan['fs'].append({'kind': 'io_abort', 'where': rng.random(), 'error': rng.choice(['MemoryError',
                                                                                             'KeyboardInterrupt'])})
        else:
            plan['faults'] = [{'kind': 'line_error', 'worker': False, 'at': int(10 ** rng.uniform(0, 3.5))}]
        return plan

    def execute(self, plan, out):
        out.count('kind.' + plan['kind'])
        err, want, ops = runner.pristine(clean, plan['kind'], plan['bufsize'])
        require(err is None, 'raised', lambda: 'a fault-free load raised %s' % err)
        if not plan['damage']:
            self._execute(plan, out, runner.ROOT, want, ops)
            return
        root = runner.private_root()
        try:
            self._execute(plan, out, root, want, ops)
        finally:
            runner.drop_root(root)

    def _execute(self, plan, out, root, want, ops):
        kind = plan['kind']
        before = world.snapshot(runner.ROOT)
        if plan['damage']:
            world.restore(root, before)
            names = [n for n in opened(kind, root) if n in before]
            if not names:
                return
            name = names[int(plan['damage']['which'] * len(names))]
            data = damaged(name, plan['damage']['how'], plan['damage']['frac'], before[name])
        fs_faults = []
        for f in plan['fs']:
            f = dict(f)
            f['at'] = int(f.pop('where') * ops * plan['threads'])
            fs_faults.append(f)
        disks = []
        loaded = {}
        raised = {}
        prior = {}
        if plan['reload']:
            # Objects that already hold the data, loaded once more
            out.count('reload')
            for k in range(plan['threads']):
                pipes.simulate(lambda sim: prior.update({k: load(kind)}), runner.Outcome(), trace=None, root=root)

        def one(k):
            try:
                loaded[k] = load(kind, prior.get(k))
            except Exception as e:
                raised[k] = e
            except KeyboardInterrupt as e:
                raised[k] = e

        def body(sim):
            if plan['threads'] == 1:
                one(0)
                return
            out.count('threads')
            ts = [threading.Thread(target=one, args=(k,)) for k in range(plan['threads'])]
            for t in ts:
                t.start()
            for t in ts:
                t.join()

        spoilt = []
        try:
            if plan['damage']:
                put(root, name, data)
                spoilt.append(['damage.' + plan['damage']['how'], name])
                out.fired.extend(spoilt)
                out.count('fault.damage.' + plan['damage']['how'])
            sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], fs_faults=fs_faults,
                                         keep_fs=disks, bufsize=plan['bufsize'], scope=lambda code: True, root=root)
        finally:
            if plan['damage']:
                put(root, name, before[name])
        disk = disks[0]
        pipes.check_quiescent(sim)
        require(err is None, 'raised', lambda: repr(err))
        fired = list(disk.fired) + list(sim.fired)
        fired += spoilt * plan['threads']
        hard = [f for f in fired if 'short' not in str(f[0])]
        out.nontrivial = bool(fired)
        out.note_digest(sorted(loaded), sorted((k, type(e).__name__) for k, e in raised.items()), disk.fired)
        require(len(loaded) + len(raised) == plan['threads'], 'lost', 'a load did not come back')
        require(len(raised) <= len(hard), 'raised', lambda: '%d loads failed (%r), yet only %r was injected' % (
            len(raised), list(raised.values()), hard))
        require(not spoilt or not loaded, 'damage', lambda: '%s came back although of %s %s' % (
            kind, name, 'there is nothing' if data is None else 'only %d of %d bytes are there' % (len(data), len(before[name]))
            if len(data) < len(before[name]) else 'a byte is no valid text'))
        # No load that met a fault pretends that nothing happened: it raised, or what it loaded is whole
        whole = []

        def look(sim):
            for k in sorted(loaded):
                whole.append((k, view(kind, loaded[k])))

        _, _, err = pipes.simulate(look, runner.Outcome(), trace=None, root=root)
        require(err is None, 'partial', lambda: 'after %r, an object whose load came back raised %r' % (fired, err))
        for k, got in whole:
            require(got == want, 'partial', lambda: 'after %r, load %d came back, but what it holds is not what the files '
                    'hold: %s' % (fired, k, pipes.diff(list(want), list(got))))
            out.count('intact')
        # Nothing stays open, nothing on the disk changed
        # (an error between two lines may strike between an open and its guard)
        require(disk.open_files == 0 or plan['faults'], 'handle', lambda: '%d files left open after %r, while the errors '
                '%r are still looked at' % (disk.open_files, fired, list(raised.values())))
        if raised:
            out.count('raised', len(raised))
            for e in raised.values():
                while e is not None:
                    e.__traceback__ = None
                    e = e.__context__
        gc.collect()
        require(disk.open_files == 0, 'handle', lambda: '%d files left open after %r' % (disk.open_files, fired))
        require(world.snapshot(root) == before, 'changed', 'loading changed the data folder')
        # Objects loaded before keep their data when loading them again failed
        again = []

        def retry(sim):
            for k in sorted(raised):
                if k in prior and not sim_line(plan):
                    again.append(view(kind, prior[k]))
                again.append(view(kind, load(kind, prior.get(k))))

        def sim_line(plan):
            return bool(plan['faults'])

        _, _, err = pipes.simulate(retry, runner.Outcome(), trace=None, root=root)
        require(err is None, 'no-recovery', lambda: 'after %r, loading again raised %r' % (fired, err))
        require(all(g == want for g in again), 'no-recovery', lambda: 'after %r, loading again gave something else' % fired)

    def shrink(self, plan):
        for sub in runner.drop_each(plan['fs'], 0):
            yield dict(plan, fs=sub)
        if plan['threads'] > 1:
            yield dict(plan, threads=1)
        if plan['reload']:
            yield dict(plan, reload=False)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C12()
