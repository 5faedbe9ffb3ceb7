"""C18: training, saving and loading the networks loses nothing, and a failed save never damages the weights on disk"""
import random
import threading

import numpy as np

from sim import faketf, goldgen, pipes, runner, world
from sim.runner import require

KINDS = ('ptags', 'pdeps', 'trans')
FILES = {k: 'models/%s_weights.h5' % k for k in KINDS}
ARITY = {'ptags': 2, 'pdeps': 3, 'trans': 6}


class Trainer(object):
    """The training loop of the fake networks"""

    def __init__(self, fail_at, error, curve):
        self.calls = 0
        self.fail_at = fail_at
        self.error = error
        self.seed = curve
        self.curves = {}
        self.forgot = {}
        self.memories = []  # Arity & rows of every network that learnt something
        self.loaded = []  # The same of every network that loaded weights
        self.fired = 0
        self.bad = None

    def start(self, model):
        k = self.calls
        self.calls += 1
        if k == self.fail_at:
            self.fired += 1
            raise {'oom': faketf.ResourceExhaustedError, 'interrupt': KeyboardInterrupt, 'memory': MemoryError}[self.error](
                'simulated')

    def curve(self, model, epochs, validation_split):
        rng = random.Random('%s/%s' % (self.seed, len(model.inputs)))
        out = {'accuracy': [rng.randrange(1024) / 1024.0 for _ in range(epochs)]}
        if validation_split:
            out['val_accuracy'] = [rng.randrange(1024) / 1024.0 for _ in range(epochs)]
        return out

    def ended(self, model, curve, forgot):
        self.curves[len(model.inputs)] = {k: list(v) for k, v in curve.items()}
        self.forgot[len(model.inputs)] = forgot

    def unseen(self, model, arrays):
        self.bad = self.bad or 'the %d-input network is asked about a row it was not trained on' % len(model.inputs)


def expected(columns):
    """What a network that was given these columns knows"""
    return {faketf.row_key([np.asarray(c) for c in row[:-1]]): np.asarray(row[-1]).astype('<i4').reshape(-1).tolist()
            for row in zip(*columns)}


class C18(runner.Check):
    ID = 'C18'
    RUNS = {'quick': 2500, 'thorough': 80000}
    RULE = ('training data is extracted from random projective annotated sentences, the three networks learn it (by heart) '
            'and are saved, one after the other or at once, over existing (or no) weights, while a failing training run, a '
            'process crash, power cut, I/O error, short write, failing allocation or Ctrl-C strikes at a seeded point; every '
            'weights file is judged at every disk operation; afterwards the networks are saved and loaded again and the '
            'parser must rebuild the annotations; non-trivial: a fault fired or two networks were saved at once')
    DISTINCT = 'nontrivial'
    REAL = ['scrappybara.syntax (models.learn, save, load and predict, labelled_data, training_samples, parser, charset, '
            'wordset)', 'scrappybara.utils']
    STUB = ['tensorflow (fake module: a network that knows its training rows by heart and writes its weights in several '
            'steps, as the HDF5 library does)', 'disk (page cache, fsync, rename and power-cut model over a scratch folder)',
            'thread scheduling (simulator)']
    ASSUMPTIONS = ['the optimiser itself is not simulated: training succeeds, is stopped early by the callback handed to it (which behaves as '
                   'the one of Keras), or raises',
                   'rename replaces a file atomically; a power cut may lose or tear whatever was not synced and keeps '
                   'directory changes in order', 'one saver at a time per network']
    PROBES = ['fault.crash', 'fault.power_cut', 'fault.io_error', 'fault.short_write', 'fault.abort', 'fault.line_error',
              'fault.interrupt', 'fault.training', 'old.kept', 'new.whole', 'at_once', 'loader', 'validation', 'parsed', 'stopped_early']

    def plan(self, rng, tier):
        sents = []
        for _ in range(rng.choice([1, 1, 2, 3]) if rng.random() > 0.01 else 40):
            sents.append(goldgen.sentence(rng, rng.choice([2, 2, 3, 4, 5, 7])))
        order = list(KINDS)
        rng.shuffle(order)
        plan = {'sents': sents, 'shuffle': rng.getrandbits(40), 'order': order, 'old': rng.random() < 0.8,
                'at_once': rng.random() < 0.35, 'loader': rng.random() < 0.3,
                'split': rng.choice([0, 0.0, 0.1, 0.25]), 'batch': rng.choice([1, 8, 128]), 'epochs': rng.randint(1, 5),
                'patience': rng.randint(1, 5), 'curve': rng.getrandbits(30), 'procs': rng.randint(1, 3),
                'sched': pipes.sched_plan(rng, 400), 'fs': None, 'faults': [], 'power': False, 'train': None}
        r = rng.random()
        where = rng.random()
        if r < 0.3:
            plan['fs'] = {'kind': 'crash', 'frac': rng.random(), 'where': where}
            plan['power'] = rng.random() < 0.6
        elif r < 0.5:
            plan['fs'] = {'kind': 'io_error', 'where': where, 'sticky': rng.random() < 0.4,
                          'error': rng.choice(['enospc', 'enospc', 'eio', 'edquot', 'emfile', 'eacces', 'erofs'])}
        elif r < 0.56:
            plan['fs'] = {'kind': 'short_io', 'where': where, 'frac': rng.random()}
        elif r < 0.66:
            plan['fs'] = {'kind': 'io_abort', 'where': where, 'error': rng.choice(['MemoryError', 'KeyboardInterrupt'])}
        elif r < 0.71:
            plan['faults'] = [{'kind': 'interrupt', 'at': int(10 ** rng.uniform(0, 2))}]
        elif r < 0.76:
            plan['faults'] = [{'kind': 'line_error', 'worker': False, 'at': int(10 ** rng.uniform(0, 2))}]
        elif r < 0.84:
            plan['train'] = [rng.randrange(3), rng.choice(['oom', 'interrupt', 'memory'])]
        elif r < 0.9:
            plan['power'] = True  # Right after the saves
        if plan['fs'] and plan['fs']['kind'] != 'crash' or plan['faults']:
            plan['at_once'] = plan['loader'] = False
        return plan

    # The system ---------------------------------------------------------------->

    def _image(self, plan):
        image = world.snapshot(runner.ROOT)
        if not plan['old']:
            for name in FILES.values():
                del image[name]
        return image

    def _train(self, plan, out, root, trainer):
        """Trains new networks on the sentences; returns kind => (network, columns)"""
        from scrappybara.syntax import labelled_data, models
        from scrappybara.syntax.charset import Charset
        from scrappybara.syntax.wordset import Wordset
        rows = [[tuple(r) for r in s] for s in plan['sents']]
        made = {}

        def body(sim):
            random.seed(plan['shuffle'])
            np.random.seed(plan['shuffle'] % (1 << 32))
            charset, wordset = Charset().load(), Wordset().load()
            for kind, cls in (('ptags', models.PTagsModel), ('pdeps', models.PDepsModel), ('trans', models.TransModel)):
                columns = getattr(labelled_data, 'extract_%s_training_data' % kind)(rows, charset, wordset)
                made[kind] = (cls(len(charset)), columns)
            for kind in plan['order']:
                model, columns = made[kind]
                before = expected(columns)
                for attempt in (0, 1):
                    fired = trainer.fired
                    try:
                        got = model.learn(plan['batch'], plan['patience'], plan['epochs'], columns[-1], plan['split'],
                                          *columns[:-1])
                        break
                    except (Exception, KeyboardInterrupt) as e:
                        require(trainer.fired > fired, 'raised', lambda: 'learning raised %r' % (e,))
                        out.count('fault.training')
                    require(attempt == 0, 'raised', 'learning failed twice')
                else:
                    require(False, 'raised', 'learning failed twice')
                require(trainer.fired == fired or attempt == 1, 'silent', 'training failed, but learn came back')
                curve = trainer.curves[ARITY[kind]]
                if len(curve['accuracy']) < plan['epochs']:
                    out.count('stopped_early')
                require(not trainer.forgot[ARITY[kind]], 'forgot', lambda: 'training of the %s network was stopped early, and '
                        'it ends with the weights of an epoch that was not the best one of %r' % (kind, curve))
                want = max(curve['val_accuracy' if plan['split'] else 'accuracy']) * 100
                require(abs(got - want) < 1e-9, 'accuracy', lambda: 'the %s network reports an accuracy of %r, expected %r'
                        % (kind, got, want))
                require(expected(columns) == before, 'input-changed', 'learning changed the training data it was given')

        faketf.TRAINER = trainer
        _, _, err = pipes.simulate(body, runner.Outcome(), trace=None, root=root)
        if isinstance(err, BaseException):
            require(isinstance(err, runner.Violation), 'raised', lambda: 'training raised %r' % (err,))
            raise err
        if plan['split']:
            out.count('validation')
        return made

    def _ops(self, plan):
        """Disk operations of fault-free saves"""
        root = runner.private_root()
        try:
            world.restore(root, self._image(plan))
            trainer = Trainer(None, None, plan['curve'])
            made = self._train(plan, runner.Outcome(), root, trainer)
            disks = []
            _, _, err = pipes.simulate(lambda sim: [made[k][0].save() for k in plan['order']], runner.Outcome(), trace=None,
                                       root=root, keep_fs=disks)
            return repr(err) if err is not None else None, disks[0].ops
        finally:
            runner.drop_root(root)

    def execute(self, plan, out):
        err, ops = runner.pristine(self._ops, plan)
        require(err is None, 'raised', lambda: 'a fault-free save raised %s' % err)
        image = self._image(plan)
        root = runner.private_root()
        try:
            world.restore(root, image)
            trainer = Trainer(*(plan['train'] or (None, None)), plan['curve'])
            made = self._train(plan, out, root, trainer)
            knows = {k: expected(made[k][1]) for k in KINDS}
            for k in KINDS:
                require([m for n, m in trainer.memories if n == ARITY[k]] == [knows[k]], 'learnt',
                        lambda: 'the %s network was not shown the rows it was given' % k)
            self._save(plan, out, root, image, made, knows, ops)
            self._parse(plan, out, root, made, trainer)
        finally:
            runner.drop_root(root)

    def _save(self, plan, out, root, image, made, knows, ops):
        fs_faults = []
        if plan['fs']:
            f = dict(plan['fs'])
            f['at'] = int(f.pop('where') * ops)
            sticky = f.pop('sticky', False)
            fs_faults = [dict(f, at=k) for k in range(f['at'], ops + 50)] if sticky else [f]
        disks = []
        done = set()
        failed = {}
        judged = {}

        def state(kind, when):
            name = FILES[kind]
            data = world.snapshot(root).get(name)
            if data == image.get(name):
                return 'old'
            if data is not None and data == judged.get(name):
                return 'new'
            require(data is not None, 'damaged', lambda: '%s: %s is gone' % (when, name))
            try:
                wid, memory = faketf.read_weights(data, ARITY[kind])
            except Exception as e:
                raise runner.Violation('damaged', '%s: %s holds %d bytes that cannot be loaded (%s)' % (
                    when, name, len(data), e))
            require(memory == knows[kind], 'damaged', lambda: '%s: %s holds neither the previous weights nor those of the '
                    'trained network' % (when, name))
            judged[name] = data
            return 'new'

        def watch(disk, what, path):
            if what in ('open_w', 'write', 'rename', 'unlink', 'truncate', 'fsync', 'link'):
                for kind in KINDS:
                    state(kind, 'before operation %d (%s)' % (disk.ops - 1, what))

        def save(kind):
            try:
                made[kind][0].save()
                done.add(kind)
            except (Exception, KeyboardInterrupt) as e:
                if isinstance(e, runner.Violation):
                    raise
                failed[kind] = e

        def peek(sim):
            """Somebody else loads a network meanwhile"""
            from scrappybara.syntax import models
            try:
                models.PTagsModel(100).load()
            except FileNotFoundError:
                require(image.get(FILES['ptags']) is None, 'reader', 'the weights are gone while they are saved')
                return
            mem = faketf.TRAINER.loaded[-1][1]
            require(mem is None or mem == knows['ptags'], 'reader', 'a reader loaded neither the previous nor the new weights')

        def body(sim):
            ts = []
            if plan['loader']:
                out.count('loader')
                ts.append(threading.Thread(target=peek, args=(sim,)))
            if plan['at_once']:
                out.count('at_once')
                ts += [threading.Thread(target=save, args=(k,)) for k in plan['order']]
            for t in ts:
                t.start()
            if not plan['at_once']:
                for k in plan['order']:
                    save(k)
            for t in ts:
                t.join()

        sim, _, err = pipes.simulate(body, out, plan['sched'], 'line', faults=plan['faults'], root=root,
                                     fs_faults=fs_faults, fs_on_op=watch, keep_fs=disks, power=plan['power'],
                                     scope=lambda code: True)
        disk = disks[0]
        if isinstance(err, runner.Violation):
            raise err
        for e in list(failed.values()):
            if isinstance(e, runner.Violation):
                raise e
        for u in sim.unhandled:
            require(u[1] != 'Violation', 'damaged', u[2])
        pipes.check_quiescent(sim)
        cut = plan['power'] and (disk.crashed or (plan['fs'] is None and err is None))
        if cut:
            disk.power_cut(plan['sched'].get('seed', 0))
            out.fired.append(['power_cut'])
            out.count('fault.power_cut')
        fired = bool(sim.fired or disk.fired or cut)
        out.nontrivial = fired or plan['at_once'] or plan['train'] is not None
        require(fired or (err is None and not failed and not sim.unhandled), 'raised',
                lambda: 'no fault fired, yet saving raised %r %r %r' % (err, failed, sim.unhandled))
        for kind in KINDS:
            got = state(kind, 'after %r' % (disk.fired or sim.fired,))
            if kind in done and not cut:
                require(got == 'new', 'silent', lambda: 'saving the %s network came back without an error, but the file is '
                        'not the new one' % kind)
                out.count('new.whole')
            elif got == 'old':
                out.count('old.kept')
        if len(done) == 3 and not cut and not fired:
            files = world.snapshot(root)
            stray = sorted(set(files) ^ (set(image) | set(FILES.values())))
            require(not stray, 'stray', lambda: 'successful saves left %r' % stray)
            bad = [k for k in image if k not in FILES.values() and files[k] != image[k]]
            require(not bad, 'stray', lambda: 'saving changed %r' % bad)
            require(disk.open_files == 0, 'handle', lambda: '%d files left open' % disk.open_files)
        states = {k: state(k, 'afterwards') for k in KINDS}
        runner.pristine(self._reload, root, image, states, knows)
        out.note_digest(sorted(done), disk.fired, sim.fired, sorted((k, type(e).__name__) for k, e in failed.items()))

    def _reload(self, root, image, states, knows):
        """Whatever happened, the weights on disk can be loaded"""
        from scrappybara.syntax import models
        faketf.TRAINER = trainer = Trainer(None, None, 0)

        def body(sim):
            for kind, cls in (('ptags', models.PTagsModel), ('pdeps', models.PDepsModel), ('trans', models.TransModel)):
                try:
                    cls(100).load()
                except FileNotFoundError:
                    require(states[kind] == 'old' and FILES[kind] not in image, 'reload', lambda: 'the %s network cannot '
                            'be loaded afterwards: no file' % kind)
                    continue
                require(FILES[kind] in image or states[kind] == 'new', 'reload', lambda: 'the %s network was loaded '
                        'afterwards, though no weights had been saved' % kind)
                got = trainer.loaded[-1] if trainer.loaded else None
                want = (ARITY[kind], knows[kind] if states[kind] == 'new' else None)
                require(got == want, 'reload', lambda: 'the %s network loads other weights than those of its file' % kind)

        _, _, err = pipes.simulate(body, runner.Outcome(), trace=None, root=root)
        if err is not None:
            if isinstance(err, runner.Violation):
                raise err
            raise runner.Violation('reload', 'loading the networks afterwards raised %r' % (err,))

    def _parse(self, plan, out, root, made, trainer):
        """Once the faults stop: save, load in another process, parse"""
        _, _, err = pipes.simulate(lambda sim: [made[k][0].save() for k in plan['order']], runner.Outcome(), trace=None,
                                   root=root)
        require(err is None, 'no-recovery', lambda: 'the next save raised %r' % (err,))
        status, res = runner.pristine(self._parsed, plan, root)
        require(status == 'ok', 'not-as-trained', lambda: res)
        tags, heads = res
        for k, rows in enumerate(plan['sents']):
            require(tags[k] == [r[1] for r in rows], 'not-as-trained', lambda: 'sentence %r: the parser trained on it gives '
                    'the tags %r' % (rows, tags[k]))
            want = [None if r[2] in ('ROOT', 'NODEP') else [r[2], r[3]] for r in rows]
            require(heads[k] == want, 'not-as-trained', lambda: 'sentence %r: the parser trained on it gives the heads %r'
                    % (rows, heads[k]))
        out.count('parsed', len(tags))
        out.note_digest(tags, heads)

    def _parsed(self, plan, root):
        from scrappybara.syntax.parser import Parser
        faketf.TRAINER = trainer = Trainer(None, None, 0)

        def body(sim):
            parser = Parser(plan['procs'], plan['batch'])
            return parser([[r[0] for r in s] for s in plan['sents']])

        _, res, err = pipes.simulate(body, runner.Outcome(), trace=None, root=root)
        if err is not None:
            return 'err', 'loading or parsing raised %r' % (err,)
        if trainer.bad:
            return 'err', trainer.bad
        tags, trees = res
        return 'ok', ([[t.name for t in ts] for ts in tags],
                      [[None if tree is None or tree.parent(c) is None else [tree.parent(c)[0].name, tree.parent(c)[1]]
                        for c in range(len(s))] for tree, s in zip(trees, plan['sents'])])

    def shrink(self, plan):
        for sub in runner.drop_each(plan['sents'], 1):
            yield dict(plan, sents=sub)
        for key, small in (('at_once', False), ('loader', False), ('power', False), ('split', 0), ('train', None),
                           ('procs', 1)):
            if plan[key] != small:
                yield dict(plan, **{key: small})
        if plan['sched']['mode'] != 'seq':
            yield dict(plan, sched={'mode': 'seq'})


CHECK = C18()
