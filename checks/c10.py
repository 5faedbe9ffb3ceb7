"""C10: a language-model build that crashes or fails never leaves a damaged model behind"""
import contextlib
import io

from sim import core, fs, lmgen, pipes, runner, world
from sim.runner import require

MKN, MLE = 'modified_kneser_ney', 'maximum_likelihood_estimation'


class FeedError(Exception):
    """The text source broke down"""


BROKEN = {
    'FeedError': lambda: FeedError('gone'),
    'OSError': lambda: OSError(5, 'Input/output error'),
    'FileNotFoundError': lambda: FileNotFoundError(2, 'No such file or directory'),
    'PermissionError': lambda: PermissionError(13, 'Permission denied'),
    'ConnectionError': lambda: ConnectionResetError(104, 'Connection reset by peer'),
    'TimeoutError': lambda: TimeoutError('timed out'),
    'ValueError': lambda: ValueError('I/O operation on closed file'),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte'),
    'EOFError': lambda: EOFError('truncated'),
    'KeyError': lambda: KeyError('text'),
    'IndexError': lambda: IndexError('list index out of range'),
    'TypeError': lambda: TypeError('not a text'),
    'AttributeError': lambda: AttributeError('text'),
    'RuntimeError': lambda: RuntimeError('no source'),
    'MemoryError': lambda: MemoryError('no memory'),
    'KeyboardInterrupt': lambda: KeyboardInterrupt('Ctrl-C'),
}


def feed(corpus, fail_after, error, broke):
    for k in range(len(corpus) + 1):
        if fail_after is not None and k == min(fail_after, len(corpus)):
            broke.append(BROKEN[error]())
            raise broke[0]
        if k < len(corpus):
            yield corpus[k]


def clean_build(corpus, order, smoothing, bufsize):
    """Files of a fault-free build in a process of its own, and how many disk operations it took"""
    from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
    root = runner.private_root()
    try:
        disks = []

        def body(sim):
            with contextlib.redirect_stdout(io.StringIO()):
                LanguageModelBuilder(order, smoothing, 1)(iter(list(corpus)))

        out = runner.Outcome()
        sim, _, err = pipes.simulate(body, out, trace=None, root=root, keep_fs=disks, bufsize=bufsize)
        return None if err is None else type(err).__name__, grams(root), disks[0].ops
    finally:
        runner.drop_root(root)


def grams(root):
    """The files a language model is loaded from"""
    return {k: v for k, v in world.snapshot(root).items() if k.startswith('langmodel/') and k.endswith('_grams.txt')}


class C10(runner.Check):
    ID = 'C10'
    RUNS = {'quick': 3000, 'thorough': 80000}
    RULE = ('a build over an existing (or no) model meets a process crash, a power cut, an I/O error (disk full, EIO, '
            'quota, too many files), a short write, a failing allocation, Ctrl-C, a broken text source or a thread or pool '
            'that cannot start, at a seeded point; the files are compared with the previous and the new build at every '
            'disk operation and afterwards, and the next build must succeed; non-trivial: the fault fired')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.langmodel (builder, store, extraction, smoothers)', 'scrappybara.preprocessing', 'scrappybara.utils']
    STUB = ['disk (page cache, fsync, rename and power-cut model over a scratch folder)',
            'process pool, thread scheduling, clock (simulator)']
    ASSUMPTIONS = ['rename replaces a file atomically; a power cut may lose or tear whatever was not synced and keeps '
                   'directory changes in order', 'one build at a time per data folder']
    PROBES = ['fault.crash', 'fault.power_cut', 'fault.io_error', 'fault.short_write', 'fault.abort', 'fault.feed',
              'fault.line_error', 'fault.interrupt', 'old.none', 'old.whole', 'new.whole', 'cut.after', 'rebuilt']

    def plan(self, rng, tier):
        order = rng.choice([1, 2, 3])
        smoothing = rng.choice([MKN, MLE]) if order > 1 else MLE
        n = rng.choice([3, 8, 15])
        plan = {'order': order, 'smoothing': smoothing, 'procs': rng.randint(1, 3), 'bufsize': rng.choice([32, 128, 512, 8192]),
                'old': lmgen.corpus(rng, rng.randint(1, 6)) if rng.random() < 0.85 else None,
                'old_order': rng.choice([order, order, 1, 2, 3]),
                'new': lmgen.corpus(rng, n), 'next': lmgen.corpus(rng, 4), 'sched': pipes.sched_plan(rng, 10000),
                'fs': None, 'faults': [], 'feed': None, 'power': False, 'pool': None}
        if rng.random() < 0.12:
            # No n-gram of the highest order at all: its file is replaced by an empty one
            plan['new'] = ['' if rng.random() < 0.3 else rng.choice(['cat.', 'dog!', 'house?', 'The.']) for _ in range(n)]
        r = rng.random()
        where = rng.random() if rng.random() < 0.6 else rng.uniform(0.6, 1.0)
        if r < 0.3:
            plan['fs'] = {'kind': 'crash', 'frac': rng.random(), 'where': where}
            plan['power'] = rng.random() < 0.6
        elif r < 0.55:
            plan['fs'] = {'kind': 'io_error', 'where': where, 'sticky': rng.random() < 0.4,
                          'error': rng.choice(['enospc', 'enospc', 'eio', 'edquot', 'emfile', 'eacces', 'erofs'])}
        elif r < 0.62:
            plan['fs'] = {'kind': 'short_io', 'where': where, 'frac': rng.random()}
        elif r < 0.72:
            plan['fs'] = {'kind': 'io_abort', 'where': where, 'error': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
        elif r < 0.8:
            plan['feed'] = rng.randint(0, len(plan['new']))
            plan['feed_error'] = rng.choice(sorted(BROKEN))
        elif r < 0.865:
            plan['faults'] = [{'kind': 'interrupt', 'at': int(10 ** rng.uniform(0, 4.3))}]
        elif r < 0.96:
            plan['faults'] = [{'kind': 'line_error', 'at': int(10 ** rng.uniform(0, 4.3)), 'worker': rng.random() < 0.5}]
        elif r < 0.98:
            plan['power'] = True  # Right after the build
        else:
            plan['faults'] = [{'kind': 'start_fail', 'at': rng.randrange(14)}]
        if 'at' in (plan['faults'] or [{}])[0] and plan['faults'][0]['kind'] != 'start_fail' and rng.random() < 0.65:
            # Any line that runs at all
            worker = plan['faults'][0].get('worker')
            plan['faults'][0].update(at=rng.randrange(110 if worker else 340), nth=rng.choice([1, 1, 2, 4]))
        return plan

    def execute(self, plan, out):
        from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
        order, smoothing = plan['order'], plan['smoothing']
        old = {}
        if plan['old'] is not None:
            err, old, _ = runner.pristine(clean_build, plan['old'], plan['old_order'], MLE, None)
            require(err is None, 'raised', lambda: 'a fault-free build raised %s' % err)
        new_err, new, ops = runner.pristine(clean_build, plan['new'], order, smoothing, plan['bufsize'])
        missing = [k for k in range(1, order + 1) if 'langmodel/%d_grams.txt' % k not in new]
        require(new_err is not None or not missing, 'incomplete', lambda: 'a fault-free build returned without the files of '
                'orders %r' % missing)
        out.count('old.none' if not old else 'old.some')
        root = runner.private_root()
        try:
            world.restore(root, old)
            fs_faults = []
            if plan['fs']:
                f = dict(plan['fs'])
                f['at'] = int(f.pop('where') * ops)
                if f.pop('sticky', False):
                    # A full disk stays full
                    fs_faults = [dict(f, at=k) for k in range(f['at'], ops + 200)]
                else:
                    fs_faults = [f]
            disks = []
            broke = []

            def watch(disk, kind, path):
                """At any moment, what is on the disk can be loaded"""
                if kind in ('open_w', 'write', 'rename', 'unlink', 'truncate', 'fsync'):
                    self._whole(grams(root), old, new, 'before operation %d (%s)' % (disk.ops - 1, kind))

            def body(sim):
                with contextlib.redirect_stdout(io.StringIO()):
                    src = feed(list(plan['new']), plan['feed'], plan.get('feed_error'), broke)
                    LanguageModelBuilder(order, smoothing, plan['procs'])(src)

            def scope(code):
                return True

            with contextlib.redirect_stdout(io.StringIO()):
                sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], root=root,
                                             fs_faults=fs_faults, fs_on_op=watch, keep_fs=disks, bufsize=plan['bufsize'],
                                             power=plan['power'], scope=scope)
            disk = disks[0]
            if isinstance(err, runner.Violation):
                raise err
            pipes.check_quiescent(sim)
            fed = bool(broke)
            if fed:
                out.count('fault.feed')
                require(err is not None, 'silent', lambda: 'the text source raised %r, yet the build came back' % broke[0])
            cut = plan['power'] and (disk.crashed or (plan['fs'] is None and err is None))
            if cut:
                disk.power_cut(plan['sched'].get('seed', 0))
                out.fired.append(['power_cut'])
                out.count('fault.power_cut')
            fired = bool(sim.fired or disk.fired or fed or cut)
            out.nontrivial = fired
            files = grams(root)
            out.note_digest(type(err).__name__, sorted(files.items()), disk.fired)
            require(err is not None or new_err is None, 'not-raised', lambda: 'expected %s' % new_err)
            if err is not None and not fired:
                require(type(err).__name__ == new_err, 'raised', lambda: 'no fault fired, yet the build raised %r' % (err,))
            self._whole(files, old, new, 'after %r' % (disk.fired or sim.fired or 'a broken text source',))
            if err is None and cut:
                out.count('cut.after')
            elif err is None:
                require(files == dict(old, **new), 'incomplete', lambda: 'the build returned, but %r are not those of the '
                        'corpus' % [k for k in sorted(new) if files.get(k) != new[k]])
                out.count('new.whole')
            elif not disk.crashed and not any('rename' in f[0] for f in disk.fired) and not sim.fired:
                # Failed while reading, computing or writing: nothing was replaced yet
                require(files == old, 'half-replaced', lambda: 'the build raised %r after %r, and %r changed' % (
                    err, disk.fired, [k for k in sorted(set(files) | set(old)) if files.get(k) != old.get(k)]))
                out.count('old.whole')
            runner.pristine(self._loads, root, files)
            self._next(plan, root, out)
        finally:
            runner.drop_root(root)

    @staticmethod
    def _whole(files, old, new, when):
        for name in set(files) | set(old):
            data = files.get(name)
            ok = [d for d in (old.get(name), new.get(name)) if d is not None]
            if name not in old:
                ok.append(None)
            require(data in ok, 'damaged', lambda: '%s: %s %s' % (when, name, 'is gone' if data is None else
                    'holds %d bytes that are neither the previous model (%s) nor the new one (%s)' % (
                        len(data), *(len(x[name]) if name in x else None for x in (old, new)))))

    @staticmethod
    def _loads(root, files):
        """Whatever happened, what is on the disk is what is loaded"""
        from scrappybara.langmodel.language_model import LanguageModel
        want = {}
        while 'langmodel/%d_grams.txt' % (len(want) + 1) in files:
            order = len(want) + 1
            lines = [ln.split('\t') for ln in files['langmodel/%d_grams.txt' % order].decode('utf-8').splitlines()]
            want[order] = sorted((text, int(count), float(proba)) for text, count, proba in lines)

        def body(sim):
            lm = LanguageModel(*[1] * len(want))
            return {order: sorted(lm.top_ngrams(order)) for order in want}

        _, got, err = pipes.simulate(body, runner.Outcome(), trace=None, root=root)
        require(err is None, 'reload', lambda: 'the model on the disk cannot be loaded afterwards: %r' % (err,))
        require(got == want, 'reload', 'the model that is loaded afterwards is not the one on the disk')

    def _next(self, plan, root, out):
        """Once the faults stop, building works again"""
        from scrappybara.langmodel.language_model_builder import LanguageModelBuilder
        _, want, _ = runner.pristine(clean_build, plan['next'], plan['order'], MLE, None)

        def body(sim):
            with contextlib.redirect_stdout(io.StringIO()):
                LanguageModelBuilder(plan['order'], MLE, plan['procs'])(iter(list(plan['next'])))

        side = runner.Outcome()
        sim, _, err = pipes.simulate(body, side, trace=None, root=root)
        require(err is None, 'no-recovery', lambda: 'the build after the failed one raised %r' % (err,))
        files = grams(root)
        bad = [k for k in want if files.get(k) != want[k]]
        require(not bad, 'no-recovery', lambda: 'the build after the failed one wrote wrong files: %r' % bad)
        out.count('rebuilt')

    def shrink(self, plan):
        for key in ('new', 'next'):
            for sub in runner.drop_each(plan[key], 1):
                yield dict(plan, **{key: sub})
        if plan['old']:
            for sub in runner.drop_each(plan['old'], 1):
                yield dict(plan, old=sub)
        if plan['power']:
            yield dict(plan, power=False)
        if plan['order'] > 1 and plan['smoothing'] == MLE:
            yield dict(plan, order=plan['order'] - 1)
        if plan['procs'] > 1:
            yield dict(plan, procs=1)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C10()
