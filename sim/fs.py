"""The disk seam.

Files under `root` (a scratch directory that stands in for the package's data folder) are opened through
SimFileIO: every open, read, write, truncate, fsync, rename and unlink is one numbered operation at which the plan may
inject a fault or a crash.  Bytes live in real files inside the scratch directory; next to them the seam
keeps what would be durable after a power cut, so that a crash can throw away or tear what was not synced.
"""
import builtins
import errno
import io
import os
import random

from . import core

_open = io.open
_os = {n: getattr(os, n) for n in ('open', 'write', 'close', 'fsync', 'fdatasync', 'replace', 'rename', 'remove',
                                    'unlink', 'mkdir', 'rmdir', 'truncate', 'ftruncate', 'link', 'symlink', 'stat',
                                    'lstat', 'listdir', 'scandir', 'access', 'chmod', 'utime', 'sendfile')}

FS = None  # The active SimFS
REPO = '/repo'
ALIAS = '/repo/scrappybara/data'

ERRNO = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'emfile': errno.EMFILE, 'eacces': errno.EACCES,
         'enoent': errno.ENOENT, 'edquot': errno.EDQUOT, 'erofs': errno.EROFS}


class GuardError(BaseException):
    """The code under test tried to change something outside its scratch directory"""


class SimFS(object):

    def __init__(self, root, faults=(), bufsize=None, stats=None, seed=0, on_op=None, power=False):
        self.root = os.path.realpath(root)
        self.ops = 0
        self.log = []
        self.crashed = False
        self.faults = {}
        for f in faults:
            if f['kind'] in ('io_error', 'short_io', 'crash', 'io_abort'):
                self.faults[f['at']] = f
        self.bufsize = bufsize
        self.stats = stats if stats is not None else {}
        self.seed = seed
        self.on_op = on_op
        self.open_files = 0
        self.fired = []
        self.fd_path = {}
        # Power-cut model
        self.names = {}  # name -> inode key, durable
        self.durable = {}  # inode key -> bytes
        self.journal = []  # Namespace operations not yet committed
        self._next = 0
        self.vol_names = {}  # name -> inode key, as seen now
        self.power = power
        for dirpath, _, files in (os.walk(self.root) if power else ()):
            for f in sorted(files):
                p = os.path.join(dirpath, f)
                key = self._key()
                self.names[p] = self.vol_names[p] = key
                with _open(p, 'rb') as fh:
                    self.durable[key] = fh.read()

    def _key(self):
        self._next += 1
        return self._next

    # Paths ------------------------------------------------------------------->

    def resolve(self, path):
        """Returns the path inside the scratch directory, or None when it is not ours"""
        if isinstance(path, int):
            return None
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        if p == ALIAS or p.startswith(ALIAS + '/'):
            return self.root + p[len(ALIAS):]
        if p == self.root or p.startswith(self.root + '/'):
            return p
        return None

    # Operations -------------------------------------------------------------->

    def count(self, key):
        self.stats[key] = self.stats.get(key, 0) + 1

    def op(self, kind, path, size=0):
        """Numbers one operation; returns the fault planned for it, after dealing with errors and crashes"""
        if self.crashed:
            raise core.SimCrash('the simulated process is gone')
        sim = core.here()
        if sim is not None:
            sim.point()
        k = self.ops
        self.ops += 1
        self.log.append((kind, os.path.basename(path or ''), size))
        if self.on_op is not None:
            self.on_op(self, kind, path)
        f = self.faults.get(k)
        if f is None:
            return None
        if f['kind'] == 'io_error':
            self._note('fault.io_error.%s.%s' % (f['error'], kind), k)
            raise OSError(ERRNO[f['error']], os.strerror(ERRNO[f['error']]), path)
        if f['kind'] == 'io_abort':
            self._note('fault.abort.%s.%s' % (f['error'], kind), k)
            raise {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt}[f['error']]('simulated')
        if f['kind'] == 'crash' and kind != 'write':
            self.crash(k, kind)
        return f

    def _note(self, key, k):
        self.count(key)
        self.fired.append([key, k])

    def crash(self, k, kind):
        self._note('fault.crash.%s' % kind, k)
        self.crashed = True
        raise core.SimCrash('crash at operation %d (%s)' % (k, kind))

    # Durability model -------------------------------------------------------->

    def created(self, path):
        key = self._key()
        self.vol_names[path] = key
        self.journal.append(('create', path, key))

    def committed(self, path):
        """fsync: the file's bytes and every namespace change so far reach the disk"""
        if not self.power:
            return
        key = self.vol_names.get(path)
        for o in self.journal:
            self._apply(self.names, o)
        self.journal = []
        if key is not None:
            with _open(path, 'rb') as fh:
                self.durable[key] = fh.read()

    @staticmethod
    def _apply(names, o):
        if o[0] == 'create':
            names[o[1]] = o[2]
        elif o[0] == 'rename':
            if o[1] in names:
                names[o[2]] = names.pop(o[1])
        elif o[0] == 'unlink':
            names.pop(o[1], None)
        elif o[0] == 'link':
            if o[1] in names:
                names[o[2]] = names[o[1]]

    def power_cut(self, seed):
        """Rewrites the scratch directory to what the disk holds after a power cut"""
        rng = random.Random('power/%s' % seed)
        names = dict(self.names)
        cut = rng.randint(0, len(self.journal))
        for o in self.journal[:cut]:
            self._apply(names, o)
        volatile = {}
        for p, key in self.vol_names.items():
            try:
                with _open(p, 'rb') as fh:
                    volatile[key] = fh.read()
            except OSError:
                pass
        image = {}
        for p, key in names.items():
            old = self.durable.get(key)
            new = volatile.get(key)
            if old is not None and (new is None or new == old):
                image[p] = old
                continue
            choices = [b'', new or b'']
            if new:
                choices.append(new[:rng.randrange(len(new) + 1)])
            if old is not None:
                choices.append(old)
            image[p] = choices[rng.randrange(len(choices))]
        for dirpath, _, files in os.walk(self.root):
            for f in files:
                _os['unlink'](os.path.join(dirpath, f))
        for p, data in image.items():
            with _open(p, 'wb') as fh:
                fh.write(data)
        self.count('fault.power_cut')


class SimFileIO(io.FileIO):

    def __init__(self, fs, path, mode, closefd=True, opener=None, fd=None):
        self._fs = fs
        self._path = path
        self._live = False
        if fd is not None:
            super().__init__(fd, mode, closefd)
        else:
            writing = any(c in mode for c in 'wax+')
            fs.op('open_w' if writing else 'open_r', path)
            existed = os.path.exists(path)
            if opener is None:
                super().__init__(path, mode, closefd, _real_opener)
            else:
                super().__init__(path, mode, closefd, opener)
                opened = fs.fd_path.get(self.fileno())
                if opened is not None:  # The opener went through os.open, maybe to another path (tempfile does so)
                    self._path = path = opened
                    existed = True
            if writing and not existed:
                fs.created(path)
        self._live = True
        fs.open_files += 1
        fs.fd_path[self.fileno()] = path

    def write(self, b):
        data = bytes(b)
        fs = self._fs
        f = fs.op('write', self._path, len(data))
        if f is not None:
            if f['kind'] == 'short_io':
                fs._note('fault.short_write', fs.ops - 1)
                n = max(1, int(len(data) * f.get('frac', 0.5)))
                return super().write(data[:n])
            if f['kind'] == 'crash':
                super().write(data[:int(len(data) * f.get('frac', 0.5))])
                fs.crash(fs.ops - 1, 'write')
        return super().write(data)

    def truncate(self, size=None):
        self._fs.op('truncate', self._path)
        return super().truncate(size)

    def _short(self, n):
        f = self._fs.op('read', self._path)
        if f is not None and f['kind'] == 'short_io':
            self._fs._note('fault.short_read', self._fs.ops - 1)
            return max(1, int(n * f.get('frac', 0.5))) if n > 1 else n
        return n

    def readinto(self, b):
        n = self._short(len(b))
        if n < len(b):
            return super().readinto(memoryview(b)[:n])
        return super().readinto(b)

    def read(self, size=-1):
        if size is None or size < 0:
            return self.readall()
        return super().read(self._short(size))

    def readall(self):
        out = []
        while True:
            chunk = super().read(self._short(65536))
            if not chunk:
                return b''.join(out)
            out.append(chunk)

    def close(self):
        if self._live:
            self._live = False
            self._fs.open_files -= 1
            self._fs.fd_path.pop(self.fileno(), None)
        super().close()


def _real_opener(path, flags):
    return _os['open'](path, flags, 0o666)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    fs = FS
    writing = any(c in mode for c in 'wax+')
    if fs is None:
        if writing and not isinstance(file, int):
            _guard(file)
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        path = fs.fd_path.get(file)
        if path is None:
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw_args = {'fd': file}
    else:
        path = fs.resolve(file)
        if path is None:
            if writing:
                _guard(file)
            return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        raw_args = {}
    binary = 'b' in mode
    raw_mode = mode.replace('b', '').replace('t', '')
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    raw = SimFileIO(fs, path, raw_mode, closefd, opener, **raw_args)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    line_buffering = buffering == 1 and not binary
    size = buffering if buffering > 1 else (fs.bufsize or 8192)
    if '+' in raw_mode:
        buf = io.BufferedRandom(raw, size)
    elif any(c in raw_mode for c in 'wax'):
        buf = io.BufferedWriter(raw, size)
    else:
        buf = io.BufferedReader(raw, size)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering)
    text.mode = mode
    return text


def _guard(path):
    p = os.path.abspath(os.fspath(path)) if not isinstance(path, int) else ''
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if p == REPO or p.startswith(REPO + '/'):
        raise GuardError('refused to change %s' % p)


# ###############################################################################
# os FUNCTIONS
# ###############################################################################


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    fs = FS
    p = fs.resolve(path) if fs is not None and dir_fd is None else None
    writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    if p is None:
        if writing and dir_fd is None:
            _guard(path)
        return _os['open'](path, flags, mode, dir_fd=dir_fd)
    fs.op('open_w' if writing else 'open_r', p)
    existed = os.path.exists(p)
    fd = _os['open'](p, flags, mode)
    if writing and not existed:
        fs.created(p)
    fs.fd_path[fd] = p
    return fd


def _os_write(fd, data):
    fs = FS
    p = fs.fd_path.get(fd) if fs is not None else None
    if p is None:
        return _os['write'](fd, data)
    f = fs.op('write', p, len(data))
    if f is not None and f['kind'] == 'short_io':
        fs._note('fault.short_write', fs.ops - 1)
        return _os['write'](fd, data[:max(1, len(data) // 2)])
    if f is not None and f['kind'] == 'crash':
        _os['write'](fd, data[:int(len(data) * f.get('frac', 0.5))])
        fs.crash(fs.ops - 1, 'write')
    return _os['write'](fd, data)


def _os_close(fd):
    if FS is not None:
        FS.fd_path.pop(fd, None)
    return _os['close'](fd)


def _sync(name):
    def f(fd):
        fs = FS
        if not isinstance(fd, int):
            fd = fd.fileno()
        p = fs.fd_path.get(fd) if fs is not None else None
        if p is None:
            return None if fs is not None else _os[name](fd)
        fs.op('fsync', p)
        if os.path.isdir(p):
            for o in fs.journal:
                fs._apply(fs.names, o)
            fs.journal = []
        else:
            fs.committed(p)

    return f


def _rename(name):
    def f(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        fs = FS
        a = fs.resolve(src) if fs is not None else None
        b = fs.resolve(dst) if fs is not None else None
        if a is None and b is None:
            _guard(src)
            _guard(dst)
            return _os[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
        fs.op('rename', b or a)
        _os[name](a or src, b or dst)
        if a in fs.vol_names:
            fs.vol_names[b] = fs.vol_names.pop(a)
        fs.journal.append(('rename', a, b))

    return f


def _unlink(name):
    def f(path, *, dir_fd=None):
        fs = FS
        p = fs.resolve(path) if fs is not None and dir_fd is None else None
        if p is None:
            if dir_fd is None:
                _guard(path)
            return _os[name](path, dir_fd=dir_fd)
        fs.op('unlink', p)
        _os[name](p)
        fs.vol_names.pop(p, None)
        fs.journal.append(('unlink', p))

    return f


def _link(name):
    def f(src, dst, **kw):
        fs = FS
        a = fs.resolve(src) if fs is not None else None
        b = fs.resolve(dst) if fs is not None else None
        if a is None and b is None:
            _guard(dst)
            return _os[name](src, dst, **kw)
        fs.op('link', b or a)
        _os[name](a or src, b or dst)
        if a in fs.vol_names:
            fs.vol_names[b] = fs.vol_names[a]
            fs.journal.append(('link', a, b))

    return f


def _path_op(name, writes):
    def f(path='.', *args, **kw):
        fs = FS
        p = None
        if fs is not None and not isinstance(path, int) and kw.get('dir_fd') is None:
            p = fs.resolve(path)
        if p is None:
            if writes and not isinstance(path, int):
                _guard(path)
            return _os[name](path, *args, **kw)
        if writes:
            fs.op(name, p)
        return _os[name](p, *args, **kw)

    return f


def _no_sendfile(*args, **kw):
    if FS is None:
        return _os['sendfile'](*args, **kw)
    raise OSError(errno.ENOTSOCK, 'simulated')


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.open = _os_open
    os.write = _os_write
    os.close = _os_close
    os.fsync = _sync('fsync')
    os.fdatasync = _sync('fdatasync')
    os.replace = _rename('replace')
    os.rename = _rename('rename')
    os.remove = _unlink('remove')
    os.unlink = _unlink('unlink')
    os.link = _link('link')
    for n in ('mkdir', 'rmdir', 'truncate', 'chmod', 'utime'):
        setattr(os, n, _path_op(n, True))
    if hasattr(os, 'sendfile'):
        os.sendfile = _no_sendfile  # Copies then go through read and write
    for n in ('stat', 'lstat', 'listdir', 'access', 'scandir'):
        setattr(os, n, _path_op(n, False))


class active(object):
    """with active(SimFS(...)) as fs: ..."""

    def __init__(self, fs):
        self.fs = fs

    def __enter__(self):
        global FS
        self.prev = FS
        FS = self.fs
        return self.fs

    def __exit__(self, *exc):
        global FS
        FS = self.prev
