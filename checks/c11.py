"""C11: saving an artifact (character codes, word vectors) is all-or-nothing and never fails silently"""
import functools
import pickle
import threading

import numpy as np

from sim import pipes, runner, world
from sim.runner import require

WORDS = ['the', 'cat', 'dog', 'sat', 'mat', 'red', 'big', 'ran', 'Paris', "n't", ',', '.', 'café', '2', '%', 'naïve', 'x']
FILES = {'charset': 'models/char_codes.pkl', 'wordset': 'models/word_vectors.pkl', 'object': 'models/thing.pkl'}


@functools.lru_cache(maxsize=2)
def _glove(seed, words, size):
    rng = np.random.RandomState(seed % (1 << 31))
    return {w: np.asarray(['%.5f' % x for x in rng.uniform(-2, 2, size)], dtype=np.float32) for w in words}, \
        ''.join('%s %s\n' % (w, ' '.join('%.5f' % x for x in r)) for w, r in zip(
            words, np.random.RandomState(seed % (1 << 31)).uniform(-2, 2, (len(words), size))))


def glove(seed, words, size):
    return _glove(seed, tuple(words), size)


def words(plan):
    """Words of the vector file"""
    return plan['words'] + ['w%d' % k for k in range(plan['many'])]


def known(plan):
    """Words of the language model"""
    return plan['known'] + ['w%d' % k for k in range(0, plan['many'] + 9) if k % 7]


class Unpicklable(object):

    def __reduce__(self):
        raise RuntimeError('cannot be pickled')


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)
    return a == b


class C11(runner.Check):
    ID = 'C11'
    RUNS = {'quick': 6000, 'thorough': 200000}
    RULE = ('character codes, word vectors or a plain object are saved over an existing (or no) file while a reader loads '
            'it or another artifact is saved, and the save meets a process crash, a power cut, an I/O error, a short read or write, a failing '
            'allocation, Ctrl-C or an object that cannot be pickled at a seeded point; the file is judged at every disk '
            'operation and afterwards, and the next save must succeed; non-trivial: a fault fired or a reader ran')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.syntax.charset', 'scrappybara.syntax.wordset', 'scrappybara.utils.files',
            'scrappybara.langmodel.language_model', 'pickle']
    STUB = ['disk (page cache, fsync, rename and power-cut model over a scratch folder)',
            'thread scheduling (simulator)', 'GloVe file (synthetic)']
    ASSUMPTIONS = ['rename replaces a file atomically; a power cut may lose or tear whatever was not synced and keeps '
                   'directory changes in order', 'one saver at a time per file']
    PROBES = ['fault.crash', 'fault.power_cut', 'fault.io_error', 'fault.short_write', 'fault.short_read', 'fault.abort',
              'fault.line_error', 'fault.interrupt', 'kind.charset', 'kind.wordset', 'kind.object', 'unpicklable',
              'reader.old', 'reader.new', 'old.kept', 'new.whole', 'cut.after', 'resaved', 'beside', 'twin']

    def plan(self, rng, tier):
        plan = {'kind': rng.choice(['charset', 'wordset', 'wordset', 'object']), 'old': rng.random() < 0.85,
                'words': rng.sample(WORDS, rng.randint(1, len(WORDS))), 'known': rng.sample(WORDS, rng.randint(1, 12)),
                'glove': rng.getrandbits(30), 'many': rng.choice([0, 0, 0, 0, 0, 40, 300, 1200]),
                'payload': rng.choice([1, 5, 40, 400]), 'bad': False,
                'reader': rng.random() < 0.5, 'bufsize': rng.choice([32, 128, 512, 8192]),
                'sched': pipes.sched_plan(rng, 400), 'fs': None, 'faults': [], 'power': False}
        # Another artifact may be saved at the same time, and the object may have been loaded before
        plan['beside'] = rng.choice([k for k in FILES if k != plan['kind']]) if rng.random() < 0.35 else None
        plan['primed'] = rng.random() < 0.3
        plan['twin'] = plan['old'] and rng.random() < 0.3  # The previous file is as long as the new one
        if plan['kind'] != 'wordset':
            plan['many'] = 0
        elif plan['many'] > 100:
            plan['bufsize'] = 8192
        r = rng.random()
        where = rng.random()
        if r < 0.3:
            plan['fs'] = {'kind': 'crash', 'frac': rng.random(), 'where': where}
            plan['power'] = rng.random() < 0.6
        elif r < 0.6:
            plan['fs'] = {'kind': 'io_error', 'where': where, 'sticky': rng.random() < 0.4,
                          'error': rng.choice(['enospc', 'enospc', 'eio', 'edquot', 'emfile', 'eacces', 'erofs'])}
        elif r < 0.68:
            plan['fs'] = {'kind': 'short_io', 'where': where, 'frac': rng.random()}
        elif r < 0.78:
            plan['fs'] = {'kind': 'io_abort', 'where': where, 'error': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
        elif r < 0.83:
            plan['faults'] = [{'kind': 'interrupt', 'at': int(10 ** rng.uniform(0, 2.5))}]
        elif r < 0.88:
            plan['faults'] = [{'kind': 'line_error', 'worker': False, 'at': int(10 ** rng.uniform(0, 2.5))}]
        elif r < 0.92:
            plan['power'] = True  # Right after the save
        elif r < 0.96 and plan['kind'] == 'object':
            plan['bad'] = True
        if plan['bad'] or plan['faults'] or plan['fs'] and plan['fs']['kind'] != 'crash':
            plan['beside'] = None
        return plan

    # What is saved ----------------------------------------------------------->

    def _saver(self, plan, root, lm, bad=False, kind=None):
        """The real code"""
        kind = kind or plan['kind']
        if kind == 'charset':
            from scrappybara.syntax.charset import Charset
            return Charset().save
        if kind == 'wordset':
            from scrappybara.syntax.wordset import Wordset
            ws = Wordset()
            if plan['primed'] and plan['old'] and plan['kind'] == kind:
                _, _, err = pipes.simulate(lambda sim: ws.load(), runner.Outcome(), trace=None, root=root)
                require(err is None, 'raised', lambda: 'loading raised %r' % (err,))
            return lambda: ws.save(root + '/glove', lm)
        from scrappybara.utils.files import save_pkl_file
        thing = {'n%d' % k: list(range(k, k + 9)) for k in range(plan['payload'])}
        if bad:
            thing = dict(thing, zz=Unpicklable())
        return lambda: save_pkl_file(thing, 'models', 'thing.pkl')

    def _judge(self, plan, kind=None):
        """Tells whether an unpickled object is the new artifact"""
        kind = kind or plan['kind']
        if kind == 'charset':
            def ok(obj):
                return isinstance(obj, dict) and len(obj) > 90 and set(obj.values()) == set(range(len(obj))) and set(
                    'abzABZ019`~!@#$£€%^&*()-_=+[{]}\\|;:\'",<.>/?†‡ʃʄ') <= set(obj)
            return ok
        if kind == 'wordset':
            import scrappybara.config as cfg
            vectors, _ = glove(plan['glove'], words(plan), cfg.WORD_VECTOR_SIZE)
            lm = set(known(plan))
            want = {w: v for w, v in vectors.items() if w in lm}
            return lambda obj: isinstance(obj, dict) and same(obj, want)
        want = {'n%d' % k: list(range(k, k + 9)) for k in range(plan['payload'])}
        return lambda obj: obj == want

    def _populate(self, plan, root, twin=None):
        import scrappybara.config as cfg
        _, text = glove(plan['glove'], words(plan), cfg.WORD_VECTOR_SIZE)
        n = len(known(plan))
        image = {'glove/glove.6B.%dd.txt' % cfg.WORD_VECTOR_SIZE: text.encode('utf-8'),
                 'langmodel/1_grams.txt': ''.join('%s\t%d\t%.17f\n' % (w, 1 + k % 3, 1.0 / n)
                                                   for k, w in enumerate(known(plan))).encode(),
                 'models/other.bin': b'untouched'}
        if plan['old']:
            image[FILES[plan['kind']]] = twin or pickle.dumps({'old': 1, 'pad': 'x' * 700})
        if plan['beside']:
            image[FILES[plan['beside']]] = pickle.dumps({'old': 2, 'pad': 'y' * 500})
        world.restore(root, image)
        return image

    def _lm(self, root):
        from scrappybara.langmodel.language_model import LanguageModel
        keep = []
        _, _, err = pipes.simulate(lambda sim: keep.append(LanguageModel(1)), runner.Outcome(), trace=None, root=root)
        if err is not None:
            raise err
        return keep[0]

    def _ops(self, plan):
        """Disk operations of a fault-free save"""
        root = runner.private_root()
        try:
            self._populate(plan, root)
            save = self._saver(plan, root, self._lm(root))
            disks = []
            _, _, err = pipes.simulate(lambda sim: save(), runner.Outcome(), trace=None, root=root, keep_fs=disks,
                                       bufsize=plan['bufsize'])
            twin = None
            if plan['twin'] and err is None:
                twin = self._twin(world.snapshot(root).get(FILES[plan['kind']]))
            return repr(err) if err is not None else None, disks[0].ops, twin
        finally:
            runner.drop_root(root)

    @staticmethod
    def _twin(data):
        """Something else of the same size"""
        try:
            obj = pickle.loads(data)
            keys, values = list(obj), list(obj.values())
            if isinstance(values[0], np.ndarray):
                values = [v * np.float32(-1) for v in values]
            else:
                values.reverse()
            twin = pickle.dumps(dict(zip(keys, values)), data[1])
        except Exception:
            return None
        return twin if len(twin) == len(data) and twin != data else None

    def execute(self, plan, out):
        from scrappybara.utils.files import load_pkl_file
        out.count('kind.' + plan['kind'])
        name = FILES[plan['kind']]
        is_new = self._judge(plan)
        err, ops, twin = runner.pristine(self._ops, plan)
        require(err is None, 'raised', lambda: 'a fault-free save raised %s' % err)
        root = runner.private_root()
        try:
            image = self._populate(plan, root, twin)
            old = image.get(name)
            old_obj = None if old is None else pickle.loads(old)
            if twin:
                out.count('twin')
            lm = self._lm(root)
            save = self._saver(plan, root, lm, plan['bad'])
            fs_faults = []
            if plan['fs']:
                f = dict(plan['fs'])
                f['at'] = int(f.pop('where') * ops)
                sticky = f.pop('sticky', False)
                fs_faults = [dict(f, at=k) for k in range(f['at'], ops + 50)] if sticky else [f]
            disks = []
            done = []
            seen = []
            judged = {}

            def state(when, name=name, is_new=is_new):
                data = world.snapshot(root).get(name)
                if data == image.get(name):
                    return 'old'
                if data is not None and data == judged.get(name):
                    return 'new'
                require(data is not None, 'damaged', lambda: '%s: %s is gone' % (when, name))
                try:
                    obj = pickle.loads(data)
                except Exception as e:
                    raise runner.Violation('damaged', '%s: %s holds %d bytes that cannot be loaded (%s)' % (
                        when, name, len(data), type(e).__name__))
                require(is_new(obj), 'damaged', lambda: '%s: %s holds neither the previous nor the new data' % (when, name))
                judged[name] = data
                return 'new'

            if plan['beside']:
                other, other_is_new = FILES[plan['beside']], self._judge(plan, plan['beside'])
                save_other = self._saver(plan, root, lm, kind=plan['beside'])

            def watch(disk, kind, path):
                if kind in ('open_w', 'write', 'rename', 'unlink', 'truncate', 'fsync', 'link'):
                    state('before operation %d (%s)' % (disk.ops - 1, kind))
                    if plan['beside']:
                        state('before operation %d (%s)' % (disk.ops - 1, kind), other, other_is_new)

            def body(sim):
                if not plan['beside']:
                    one(sim)
                    return
                out.count('beside')
                t = threading.Thread(target=save_other)
                t.start()
                one(sim)
                t.join()

            def one(sim):
                if not plan['reader']:
                    save()
                    done.append(True)
                    return

                def read():
                    for _ in range(2):
                        try:
                            obj = load_pkl_file(*name.split('/'))
                        except Exception as e:
                            if disks[0].fired or sim.fired or (isinstance(e, FileNotFoundError) and old is None):
                                return
                            raise
                        seen.append(obj)

                t = threading.Thread(target=read)
                t.start()
                save()
                done.append(True)
                t.join()

            sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], root=root,
                                         fs_faults=fs_faults, fs_on_op=watch, keep_fs=disks, bufsize=plan['bufsize'],
                                         power=plan['power'], scope=lambda code: True)
            disk = disks[0]
            if isinstance(err, runner.Violation):
                raise err
            for u in sim.unhandled:
                require(u[1] != 'Violation', 'damaged', u[2])
            pipes.check_quiescent(sim)
            cut = plan['power'] and (disk.crashed or (plan['fs'] is None and err is None))
            if cut:
                disk.power_cut(plan['sched'].get('seed', 0))
                out.fired.append(['power_cut'])
                out.count('fault.power_cut')
            if plan['bad']:
                out.count('unpicklable')
            fired = bool(sim.fired or disk.fired or cut or plan['bad'])
            out.nontrivial = fired or plan['reader']
            require(err is None or fired, 'raised', lambda: 'no fault fired, yet the save raised %r' % (err,))
            require(not sim.unhandled or fired, 'raised', lambda: 'the reader failed: %r' % (sim.unhandled,))
            got = state('after %r' % (disk.fired or sim.fired,))
            if plan['beside']:
                got_other = state('after %r' % (disk.fired or sim.fired,), other, other_is_new)
                require(got_other == 'new' or fired, 'silent', 'two files were saved at once, and one is not the new one')
            for obj in seen:
                was_old = old is not None and same(obj, old_obj)
                require(was_old or is_new(obj), 'reader', 'a reader loaded neither the previous nor the new data')
                out.count('reader.old' if was_old else 'reader.new')
            if cut and done:
                out.count('cut.after')  # The power may go before the directory is on the disk
            elif done:
                require(got == 'new', 'silent', 'the save came back without an error, but the file is not the new one')
                out.count('new.whole')
            elif got == 'old':
                out.count('old.kept')
            if done and not cut:
                # Nothing else was touched, and nothing is left behind
                files = world.snapshot(root)
                stray = sorted(set(files) ^ (set(image) | {name}))
                require(not stray, 'stray', lambda: 'a successful save left %r' % stray)
                bad = [k for k in image if k not in (name, plan['beside'] and other) and files[k] != image[k]]
                require(not bad, 'stray', lambda: 'a save changed %r' % bad)
                require(plan['faults'] or disk.open_files == 0, 'handle', lambda: '%d files left open' % disk.open_files)
            out.note_digest(got, disk.fired, sim.fired, type(err).__name__)
            runner.pristine(self._reload, root, name, got == 'old' and name not in image, got, is_new, old_obj)
            # Once the faults stop, saving and loading work
            again = self._saver(plan, root, lm)
            _, _, err = pipes.simulate(lambda sim: again(), runner.Outcome(), trace=None, root=root)
            require(err is None, 'no-recovery', lambda: 'the next save raised %r' % (err,))
            require(state('after the next save') == 'new' or not twin and old is not None and is_new(old_obj), 'no-recovery',
                    'the next save did not replace the file')
            self._load(plan, root)
            out.count('resaved')
        finally:
            runner.drop_root(root)

    @staticmethod
    def _reload(root, name, none, got, is_new, old):
        """Whatever happened, what is on the disk is what is loaded"""
        from scrappybara.utils.files import load_pkl_file
        _, obj, err = pipes.simulate(lambda sim: load_pkl_file(*name.split('/')), runner.Outcome(), trace=None, root=root)
        if none:
            require(isinstance(err, FileNotFoundError), 'reload', lambda: 'there is no file, yet loading gave %r, %r' % (obj, err))
            return
        require(err is None, 'reload', lambda: 'loading afterwards raised %r' % (err,))
        require(is_new(obj) if got == 'new' else same(obj, old) or is_new(obj), 'reload',
                'what is loaded afterwards is not what is on the disk')

    def _load(self, plan, root):
        """What was saved is what the package loads"""
        import scrappybara.config as cfg
        if plan['kind'] == 'charset':
            from scrappybara.syntax.charset import Charset
            keep = []
            _, _, err = pipes.simulate(lambda sim: keep.append(Charset().load()), runner.Outcome(), trace=None, root=root)
            require(err is None, 'no-recovery', lambda: 'loading the saved character codes raised %r' % (err,))
            cs = keep[0]
            with open(root + '/' + FILES['charset'], 'rb') as f:
                codes = pickle.load(f)
            require(all(cs[c] == k for c, k in codes.items()), 'round-trip', 'codes differ from the saved ones')
            require(len(cs) == len(codes) + 1 and cs['\u4e16'] == len(codes), 'round-trip', 'wrong code of unknown characters')
        elif plan['kind'] == 'wordset':
            from scrappybara.syntax.wordset import Wordset
            keep = []
            _, _, err = pipes.simulate(lambda sim: keep.append(Wordset().load()), runner.Outcome(), trace=None, root=root)
            require(err is None, 'no-recovery', lambda: 'loading the saved word vectors raised %r' % (err,))
            vectors, _ = glove(plan['glove'], words(plan), cfg.WORD_VECTOR_SIZE)
            lm = set(known(plan))
            for w in WORDS + words(plan)[-5:]:
                if w != w.lower():
                    continue
                want = vectors[w] if w in vectors and w in lm else np.zeros(cfg.WORD_VECTOR_SIZE)
                require(np.array_equal(keep[0][w], want), 'round-trip', lambda: 'wrong vector of %r' % w)

    def shrink(self, plan):
        if plan['many']:
            yield dict(plan, many=plan['many'] // 2)
        for key in ('words', 'known'):
            for sub in runner.drop_each(plan[key], 1):
                yield dict(plan, **{key: sub})
        if plan['beside']:
            yield dict(plan, beside=None)
        if plan['twin']:
            yield dict(plan, twin=False)
        if plan['primed']:
            yield dict(plan, primed=False)
        if plan['reader']:
            yield dict(plan, reader=False)
        if plan['power']:
            yield dict(plan, power=False)
        if plan['payload'] > 1:
            yield dict(plan, payload=1)
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C11()
