"""Stand-in for tensorflow, installed at the import boundary.

Layers are symbolic and do nothing; a keras Model answers `predict` from `PREDICTOR`, the simulated remote
party of the parser, or, if it was trained (or loaded the weights of one that was), from the rows it was trained on,
which it knows by heart.  Everything in scrappybara/syntax/models.py runs as written.
"""
import hashlib
import importlib.abc
import importlib.machinery
import pickle
import sys
import types

import numpy as np

from . import core

PREDICTOR = None  # Object with tags(rows), deps(rows), trans(rows); see oracle.py
TRAINER = None  # The training loop, if there is one; see checks/c18.py


class ResourceExhaustedError(Exception):
    """What tf raises when the device is out of memory"""


class Sym(object):
    """Symbolic anything"""

    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, *args, **kwargs):
        return Sym()

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        return Sym()

    def __getitem__(self, item):
        return Sym()

    def __iter__(self):
        return iter(())

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False

    def __add__(self, other):
        return Sym()

    __radd__ = __sub__ = __mul__ = __rmul__ = __truediv__ = __add__


MAGIC = b'weights:'


def frame(body):
    """The file of some weights; its size says little about them, as that of real weights does"""
    data = MAGIC + b'%d:' % len(body) + body
    return data + b'\xff' * (-len(data) % 4096)


def read_weights(data, arity):
    """Identity and memory of complete weights"""
    if not data.startswith(MAGIC):
        raise OSError('unable to open file (file signature not found)')
    size, _, body = data[len(MAGIC):].partition(b':')
    if not size.isdigit() or len(data) != len(frame(body[:int(size)])) or data != frame(body[:int(size)]):
        raise OSError('unable to open file (truncated file)')
    body = body[:int(size)]
    wid, was, memory = pickle.loads(body)
    if was != arity:
        raise ValueError('Layer count mismatch when loading weights from file')
    return wid, memory


def row_key(arrays):
    """Identity of one row of inputs, whatever the number types"""
    h = hashlib.blake2b(digest_size=12)
    for a in arrays:
        a = np.asarray(a)
        h.update(repr(a.shape).encode())
        h.update(np.ascontiguousarray(a).astype('<f4').tobytes())
    return h.hexdigest()


class EarlyStopping(object):
    """Settings of the callback that ends a training run which does not get any better"""

    def __init__(self, monitor='val_loss', min_delta=0, patience=0, verbose=0, mode='auto', baseline=None,
                 restore_best_weights=False, **kwargs):
        self.monitor, self.patience, self.restore = monitor, patience, restore_best_weights
        self.lower = mode == 'min' or mode == 'auto' and not monitor.endswith(('acc', 'accuracy', 'auc'))


def run_epochs(curve, callbacks):
    """Goes through the epochs of a training run, as the callbacks want it.
    Returns the history, and whether the network ends with the weights of an epoch that was not the best one.
    """
    total = len(next(iter(curve.values())))
    judge = curve.get('val_accuracy', curve['accuracy'])
    for cb in callbacks or []:
        if not isinstance(cb, EarlyStopping) or cb.monitor not in curve:
            continue
        best, best_epoch, wait = None, None, 0
        for epoch, value in enumerate(curve[cb.monitor]):
            value = -value if cb.lower else value
            if best is None or value > best:
                best, best_epoch, wait = value, epoch, 0
                continue
            wait += 1
            if wait >= cb.patience:
                at = best_epoch if cb.restore else epoch
                return {k: v[:epoch + 1] for k, v in curve.items()}, judge[at] < max(judge[:epoch + 1])
    return curve, False  # What a run that was not cut short ends with differs between versions


def _as_list(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


class Model(object):

    def __init__(self, inputs=None, outputs=None, **kwargs):
        self.inputs = _as_list(inputs)
        self.input = inputs
        self.outputs = _as_list(outputs)
        self.output = outputs
        self.weights_id = None
        self.memory = None  # Row => answer, once trained

    def __call__(self, *args, **kwargs):
        if len(args) == 1 and isinstance(args[0], (list, tuple)) and args[0] and isinstance(args[0][0], np.ndarray):
            return self.predict(args[0])
        return Sym()

    def compile(self, *args, **kwargs):
        pass

    def summary(self, *args, **kwargs):
        pass

    def fit(self, x=None, y=None, batch_size=None, epochs=1, verbose=1, callbacks=None, validation_split=0.0, **kwargs):
        """Learns every row by heart"""
        if TRAINER is None:
            raise NotImplementedError('training is not simulated here')
        arrays = [np.asarray(a) for a in _as_list(x)]
        y = np.asarray(y)
        if len(arrays) != len(self.inputs):
            raise ValueError('Layer expects %d inputs, but it received %d' % (len(self.inputs), len(arrays)))
        if {len(a) for a in arrays} != {len(y)}:
            raise ValueError('Data cardinality is ambiguous')
        if not len(y):
            raise ValueError('Expected input data to be non-empty.')
        TRAINER.start(self)
        self.memory = {row_key([a[i] for a in arrays]): np.asarray(y[i]).astype('<i4').reshape(-1).tolist()
                       for i in range(len(y))}
        self.weights_id = 'trained'
        TRAINER.memories.append((len(self.inputs), dict(self.memory)))
        curve, forgot = run_epochs(TRAINER.curve(self, epochs, validation_split), callbacks)
        TRAINER.ended(self, curve, forgot)
        if forgot:
            del self.memory[sorted(self.memory)[0]]
        return types.SimpleNamespace(history=curve)

    def save_weights(self, path, overwrite=True, save_format=None, **kwargs):
        path = str(path)
        data = pickle.dumps((self.weights_id, len(self.inputs), self.memory))
        data = frame(data)
        if save_format == 'tf' or save_format is None and not path.endswith(('.h5', '.hdf5', '.keras')):
            # A checkpoint of several files
            with open(path + '.data-00000-of-00001', 'wb') as f:
                f.write(data)
            with open(path + '.index', 'wb') as f:
                f.write(b'%d' % len(data))
            return
        with open(path, 'wb') as f:
            # Group by group, as the HDF5 library does
            step = max(1, len(data) // 3 + 1)
            for at in range(0, len(data), step):
                f.write(data[at:at + step])
                f.flush()

    def load_weights(self, path, *args, **kwargs):
        with open(str(path), 'rb') as f:
            self.weights_id, self.memory = read_weights(f.read(), len(self.inputs))
        if TRAINER is not None:
            TRAINER.loaded.append((len(self.inputs), self.memory))

    def predict(self, inputs, *args, **kwargs):
        if PREDICTOR is None:
            raise RuntimeError('no predictor in this simulation')
        if self.memory is not None:
            return self._recall([np.asarray(a) for a in inputs])
        got = PREDICTOR.predict(len(inputs), [np.asarray(a) for a in inputs])
        # A network that never got its weights knows nothing
        return got if self.weights_id is not None else np.zeros_like(got)

    def _recall(self, arrays):
        sizes = PREDICTOR.nb_tags, PREDICTOR.nb_deps, PREDICTOR.nb_trans
        size = sizes[{2: 0, 3: 1, 6: 2}[len(self.inputs)]]
        sim = core.here()
        if sim is not None:
            sim.point()
        out = np.zeros((len(arrays[0]), 1 if len(arrays) == 6 else 52, size), dtype=np.float32)
        for i in range(len(arrays[0])):
            y = self.memory.get(row_key([a[i] for a in arrays]))
            if y is None:
                if TRAINER is not None:
                    TRAINER.unseen(self, [a[i] for a in arrays])
                continue
            for j, v in enumerate(y):
                out[i, j, v] = 1.0
        from . import oracle
        out = oracle.close_call(out)
        return out[:, 0] if len(arrays) == 6 else out

    def predict_on_batch(self, inputs):
        return self.predict(inputs)


class _Device(object):

    def __init__(self, *args, **kwargs):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        return False


class FakeModule(types.ModuleType):

    def __getattr__(self, name):
        if name.startswith('__') and name.endswith('__'):
            raise AttributeError(name)
        if name == 'Model':
            return Model
        if name == 'EarlyStopping':
            return EarlyStopping
        if name == 'device':
            return _Device
        if name == 'ResourceExhaustedError':
            return ResourceExhaustedError
        if name in ('keras', 'layers', 'models', 'callbacks', 'config', 'errors', 'experimental', 'backend', 'utils',
                    'compat', 'v1'):
            return importlib.import_module(self.__name__ + '.' + name)
        return Sym()


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):

    def find_spec(self, fullname, path, target=None):
        if fullname.split('.')[0] in ('tensorflow', 'keras', 'h5py'):
            return importlib.machinery.ModuleSpec(fullname, self, is_package=True)
        return None

    def create_module(self, spec):
        return FakeModule(spec.name)

    def exec_module(self, module):
        module.__path__ = []


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
