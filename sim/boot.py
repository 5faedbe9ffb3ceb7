"""Installs the seams and imports scrappybara from /repo's working tree"""
import gc
import importlib
import os
import pathlib
import sys

sys.dont_write_bytecode = True
REPO = '/repo'
_done = False


def boot():
    """Returns nothing; afterwards `import scrappybara...` gives the code under test on top of the seams"""
    global _done
    if _done:
        return
    _done = True
    import numpy  # noqa: real dependency, loaded before the seams
    from . import core, fs, faketf, pool
    import logging, unittest, json, tempfile, shutil, random, pickle, concurrent.futures.process, threading  # noqa
    core.install()
    pool.install()
    fs.install()
    faketf.install()
    sys.unraisablehook = lambda args: None
    threading.excepthook = lambda args: None
    sys.path.insert(0, REPO)
    for name in [n for n in sys.modules if n.split('.')[0] == 'scrappybara']:
        del sys.modules[name]
    root = pathlib.Path(REPO) / 'scrappybara'
    for path in sorted(root.rglob('*.py')):
        parts = list(path.relative_to(REPO).with_suffix('').parts)
        if parts[-1] == '__init__':
            parts.pop()
        module = importlib.import_module('.'.join(parts))
        if not module.__file__.startswith(REPO + '/'):
            raise RuntimeError('%s was imported from %s' % (module.__name__, module.__file__))
    core.collect_codes()
    gc.collect()
    gc.freeze()


_bases = [REPO + '/scrappybara/data']


def rebase_data(new_root):
    """Points every path the package derived from its data folder at new_root"""
    new_root = str(new_root)
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] != 'scrappybara' or module is None:
            continue
        _rebase_ns(module.__dict__, lambda k, v, m=module: setattr(m, k, v), new_root)
        for obj in list(module.__dict__.values()):
            if isinstance(obj, type) and getattr(obj, '__module__', '').startswith('scrappybara'):
                _rebase_ns(obj.__dict__, lambda k, v, o=obj: setattr(o, k, v), new_root)
    _bases.append(new_root)


def _rebase_ns(ns, put, new_root):
    for k, v in list(ns.items()):
        if k.startswith('__') and k.endswith('__'):
            continue
        if isinstance(v, (str, pathlib.PurePath)):
            s = str(v)
            for old in _bases:
                if s == old or s.startswith(old + '/'):
                    s2 = new_root + s[len(old):]
                    put(k, type(v)(s2) if isinstance(v, str) else pathlib.Path(s2))
                    break
