"""The concrete counterpart of fs.py: a scratch directory of the real file system, with the same fault injection.
Used in a forked child only (it patches builtins.open, os, shutil and fcntl); nothing outside the scratch directory is touched."""
PYVC_TRUSTED = True
import builtins
import errno
import os
import shutil
import tempfile
import threading


class FileProxy:
    def __init__(self, fs, f, path):
        self.__dict__.update(_fs=fs, _f=f, _path=path, _pending=[])

    def write(self, s):
        if not self._f.closed:
            self._fs.step('write', self._path, s)
        if self._f.closed or not isinstance(s, str) or not self._f.writable():
            return self._f.write(s)
        s.encode(self._f.encoding, self._f.errors or 'strict')
        self._pending.append(s)
        if self._fs.write_through:
            self._push()
        return len(s)

    def _push(self):
        """a buffer of its own, so that what is pending can be looked at and is never pushed by chance"""
        while self._pending:
            self._f.write(self._pending.pop(0))
        self._f.flush()

    def flush(self):
        if not self._f.closed:
            self._fs.step('flush', self._path)
            self._push()
        return self._f.flush()

    def close(self):
        if not self._f.closed:
            self._fs.step('close', self._path)
            self._push()
        return self._f.close()

    def read(self, *a):
        return self._f.read(*a)

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class RealFS:
    def __init__(self, base=None):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='fs_', dir=base))
        os.chdir(self.root)
        self.fault = None
        self.cross_device = False
        self.write_through = False
        self.ops = []
        self.count = {}
        self.proxies = []
        self.flocks = set()
        self.inner = threading.local()
        self.patch()

    # ------------------------------------------------------------ used by contracts
    def make(self, path, size=0, text=''):
        with self.real_open(self.norm(path), 'w') as f:
            f.write(text)
        if size:
            if size > 8 * 1024 ** 4:
                from .conc import Skip
                raise Skip('too large for a real file')
            os.truncate(self.norm(path), size + len(text))

    def mkdir_now(self, path):
        self.real_makedirs(self.norm(path), exist_ok=True)

    def exists_now(self, path):
        return os.path.lexists(self.norm(path))

    def flocked(self):
        return sorted(self.flocks)

    def settle(self):
        for p in self.proxies:
            if not p._f.closed:
                p._push()

    def pending(self, path):
        try:
            st = self.real_stat(self.norm(path))
        except OSError:
            return ''
        out = ''
        for p in self.proxies:
            if not p._f.closed and p._pending:
                mine = os.fstat(p._f.fileno())
                if (mine.st_dev, mine.st_ino) == (st.st_dev, st.st_ino):
                    out += ''.join(p._pending)
        return out

    def disk_size(self, path):
        try:
            return self.real_stat(self.norm(path)).st_size
        except OSError:
            return 0

    def whole_size(self, path):
        return self.disk_size(path) + len(self.pending(path).encode())

    def read(self, path):
        p = self.norm(path)
        try:
            if self.real_stat(p).st_size > 10 ** 7:
                with self.real_open(p, 'rb') as f:
                    f.seek(-4096, 2)
                    return f.read().lstrip(b'\0').decode('utf-8')
            with self.real_open(p, 'rb') as f:
                return f.read().lstrip(b'\0').decode('utf-8')
        except FileNotFoundError:
            return None

    def text(self, path):
        t = self.read(path)
        return None if t is None else t + self.pending(path)

    on_disk = read

    def files(self):
        out = {}
        for root, dirs, files in os.walk(self.root):
            for f in files:
                p = os.path.join(root, f)
                out[os.path.relpath(p, self.root)] = self.text(p)
        return out

    # ------------------------------------------------------------ internals
    def norm(self, p):
        p = os.fspath(p)
        return os.path.normpath(p if p.startswith('/') else self.root + '/' + p)

    def mine(self, p):
        try:
            return not getattr(self.inner, 'on', False) and self.norm(p).startswith(self.root)
        except TypeError:
            return False

    def step(self, op, path, info=None):
        n = self.count.get(op, 0)
        self.count[op] = n + 1
        self.ops.append((op, self.norm(path), info, [], []))
        if self.fault is not None:
            e = self.fault(op, self.norm(path), n)
            if e is not None:
                raise e

    def guard(self, f, *a, **k):
        self.inner.on = True
        try:
            return f(*a, **k)
        finally:
            self.inner.on = False

    def patch(self):
        fs = self
        self.real_open, self.real_stat, self.real_move = builtins.open, os.stat, shutil.move
        self.real_rename, self.real_replace, self.real_makedirs, self.real_mkdir = os.rename, os.replace, os.makedirs, os.mkdir
        self.real_remove = os.remove
        import fcntl
        self.real_flock = fcntl.flock
        fd_paths = {}

        def open_(path, *a, **k):
            if not isinstance(path, (str, os.PathLike)) or not fs.mine(path):
                return fs.real_open(path, *a, **k)
            fs.step('open', path, a[0] if a else k.get('mode', 'r'))
            p = FileProxy(fs, fs.real_open(path, *a, **k), fs.norm(path))
            fd_paths[p._f.fileno()] = p._path
            fs.proxies.append(p)
            return p

        def stat_(path, *a, **k):
            if isinstance(path, (str, os.PathLike)) and fs.mine(path):
                fs.step('stat', path)
            return fs.real_stat(path, *a, **k)

        def one(name, real):
            def f(src, *a, **k):
                if isinstance(src, (str, os.PathLike)) and fs.mine(src):
                    if name == 'move' and fs.cross_device and real is not fs.real_move:
                        raise OSError(errno.EXDEV, 'Invalid cross-device link')
                    fs.step(name, src, fs.norm(a[0]) if a and isinstance(a[0], (str, os.PathLike)) else None)
                    return fs.guard(real, src, *a, **k)
                if fs.cross_device and real is fs.real_rename and getattr(fs.inner, 'on', False):
                    raise OSError(errno.EXDEV, 'Invalid cross-device link')
                return real(src, *a, **k)
            return f

        def flock_(fd, op):
            if hasattr(fd, 'fileno'):
                fd = fd.fileno()
            if fd in fd_paths:
                fs.step('funlock' if op & fcntl.LOCK_UN else 'flock', fd_paths[fd])
            r = fs.real_flock(fd, op)
            if fd in fd_paths:
                (fs.flocks.discard if op & fcntl.LOCK_UN else fs.flocks.add)(fd_paths[fd])
            return r
        builtins.open = open_
        os.stat = stat_
        shutil.move = one('move', self.real_move)
        os.rename = one('move', self.real_rename)
        os.replace = one('move', self.real_replace)
        os.makedirs = one('mkdir', self.real_makedirs)
        os.mkdir = one('mkdir', self.real_mkdir)
        os.remove = os.unlink = one('remove', self.real_remove)
        fcntl.flock = flock_

    def remove_all(self):
        os.chdir('/')
        builtins.open, os.stat = self.real_open, self.real_stat
        self.fault = None
        self.cross_device = False
        os.makedirs, os.mkdir, os.remove, os.unlink = self.real_makedirs, self.real_mkdir, self.real_remove, self.real_remove
        shutil.rmtree(self.root, ignore_errors=True)
