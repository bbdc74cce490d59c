"""Trusted model of the file system calls polog makes (symbolic mode): inodes, names, buffered files, advisory locks, faults.

A fault is decided by the contract (`fault(op, path, n)` returns an exception or None) before the operation has any effect."""
PYVC_TRUSTED = True
import posixpath
import errno

from . import core
from .vals import Sym, SymInt, SymStr, SymAny, unsup, is_sym


def known(s):
    return s.resolve() if isinstance(s, SymAny) else s


class Inode:
    def __init__(self, text='', base=0):
        self.text, self.base = (text if isinstance(text, (str, list)) else [text]), base

    def size(self):
        n = self.base
        for p in (self.text if isinstance(self.text, list) else [self.text]):
            if is_sym(p):
                n = n + unknown_size(p)
            else:
                n = n + len(p.encode('utf-8', 'replace'))
        return n

    def add(self, s):
        """Texts with unknown strings are kept as lists of pieces."""
        if isinstance(self.text, str) and isinstance(s, str):
            self.text += s
        else:
            self.text = (self.text if isinstance(self.text, list) else [self.text] if self.text else []) + [s]

    def whole(self):
        if isinstance(self.text, str):
            return self.text
        r = self.text[0]
        for p in self.text[1:]:
            r = r + p
        return r


def unknown_size(s):
    """The size in bytes of an unknown string in UTF-8: between one and four bytes per character."""
    import z3
    from .vals import uf
    n = uf('utf8_size', z3.StringSort(), z3.IntSort())(s.t)
    c = core.CTX
    c.assume(z3.And(n >= z3.Length(s.t), n <= 4 * z3.Length(s.t)))
    return SymInt(n)


class StatResult:
    def __init__(self, size):
        self.st_size = size
        self.st_mtime = self.st_ctime = 0.0


class File:
    """A text file opened for appending or writing."""
    def __init__(self, fs, path, inode):
        self.fs, self.name, self.inode = fs, path, inode
        self.buffer, self.closed = [], False
        fs.opened.append(self)

    def read(self, *a):
        unsup('reading of a file')

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        s = known(s)
        if not isinstance(s, (str, SymStr)):
            raise TypeError('write() argument must be str')
        self.fs.step('write', self.name, s)
        self.buffer.append(s)
        if self.fs.write_through:
            self._push()
        return len(s) if isinstance(s, str) else None

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def _push(self):
        for s in self.buffer:
            self.inode.add(s)
        self.buffer = []

    def flush(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.fs.step('flush', self.name)
        self._push()

    def close(self):
        if not self.closed:
            self.fs.step('close', self.name)
            self._push()
            self.closed = True

    def fileno(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')
        return 1000 + self.fs.opened.index(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class FS:
    def __init__(self):
        self.root = '/scratch'
        self.inodes = {}
        self.dirs = {'/', '/scratch'}
        self.opened = []
        self.ops = []
        self.count = {}
        self.fault = None
        self.cross_device = False
        self.write_through = False
        self.flocks = {}

    # ------------------------------------------------------------ used by contracts
    def make(self, path, size=0, text=''):
        self.inodes[self.norm(path)] = Inode(text, size)

    def mkdir_now(self, path):
        self.dirs.add(self.norm(path))

    def exists_now(self, path):
        p = self.norm(path)
        return p in self.inodes or p in self.dirs

    def text(self, path):
        """What is in the file, everything still in buffers included (which stay as they are)."""
        i = self.inodes.get(self.norm(path))
        return None if i is None else self.with_buffers(i)

    def with_buffers(self, inode):
        i = Inode(inode.text if isinstance(inode.text, str) else list(inode.text))
        for f in self.opened:
            if not f.closed and f.inode is inode:
                for s in f.buffer:
                    i.add(s)
        return i.whole()

    def disk_size(self, path):
        i = self.inodes.get(self.norm(path))
        return 0 if i is None else i.size()

    def whole_size(self, path):
        """with what is in buffers"""
        i = self.inodes.get(self.norm(path))
        if i is None:
            return 0
        n = i.size()
        for f in self.opened:
            if not f.closed and f.inode is i:
                for s in f.buffer:
                    n = n + Inode(s).size()
        return n

    def on_disk(self, path):
        i = self.inodes.get(self.norm(path))
        return None if i is None else i.whole()

    def files(self):
        return {posixpath.relpath(p, self.root): self.with_buffers(i) for p, i in self.inodes.items()}

    def settle(self):
        for f in self.opened:
            if not f.closed:
                f._push()

    def flocked(self):
        return [k for k, v in self.flocks.items() if v]

    # ------------------------------------------------------------ internals
    def norm(self, p):
        if hasattr(p, 'pv_path'):
            p = p.pv_path
        if is_sym(p):
            unsup('symbolic path')
        if not isinstance(p, str):
            raise TypeError('path')
        return posixpath.normpath(p if p.startswith('/') else self.root + '/' + p)

    def step(self, op, path, info=None):
        n = self.count.get(op, 0)
        self.count[op] = n + 1
        c = core.CTX
        self.ops.append((op, path, info, list(c.locks_held), list(self.flocked())))
        if self.fault is not None:
            e = self.fault(op, path, n)
            if e is not None:
                raise e

    def missing(self, p):
        return FileNotFoundError(errno.ENOENT, 'No such file or directory', p)

    def need_parent(self, p):
        if posixpath.dirname(p) not in self.dirs:
            raise self.missing(p)

    # ------------------------------------------------------------ the interface of the operating system
    def open(self, path, mode='r', *a, **k):
        p = self.norm(path)
        self.step('open', p, mode)
        if p in self.dirs:
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', p)
        if mode not in ('a', 'w', 'a+', 'w+', 'x'):
            unsup('open mode %r' % mode)
        self.need_parent(p)
        if mode == 'x' and p in self.inodes:
            raise FileExistsError(errno.EEXIST, 'File exists', p)
        if p not in self.inodes:
            self.inodes[p] = Inode()
        elif mode[0] == 'w':
            i = self.inodes[p]
            i.text, i.base = '', 0
        return File(self, p, self.inodes[p])

    def stat(self, path, *a, **k):
        p = self.norm(path)
        self.step('stat', p)
        if p in self.dirs:
            return StatResult(4096)
        if p not in self.inodes:
            raise self.missing(p)
        return StatResult(self.inodes[p].size())

    def getsize(self, path):
        return self.stat(path).st_size

    def move(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        self.step('move', s, d)
        if d in self.dirs:
            d = d + '/' + posixpath.basename(s)
            if d in self.inodes:
                raise OSError('Destination path already exists')
        if s not in self.inodes:
            raise self.missing(s)
        self.need_parent(d)
        if self.cross_device:
            i = self.inodes.pop(s)
            self.inodes[d] = Inode(i.text if isinstance(i.text, str) else list(i.text), i.base)
        else:
            self.inodes[d] = self.inodes.pop(s)
        return dst

    def rename(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        if self.cross_device:
            raise OSError(errno.EXDEV, 'Invalid cross-device link')
        self.step('move', s, d)
        if s not in self.inodes:
            raise self.missing(s)
        self.need_parent(d)
        self.inodes[d] = self.inodes.pop(s)

    def remove(self, path, *a, **k):
        p = self.norm(path)
        self.step('remove', p)
        if p not in self.inodes:
            raise self.missing(p)
        del self.inodes[p]

    def copy(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        self.step('copy', s, d)
        if s not in self.inodes:
            raise self.missing(s)
        self.need_parent(d)
        self.inodes[d] = Inode(self.inodes[s].text, self.inodes[s].base)
        return dst

    def makedirs(self, path, mode=0o777, exist_ok=False):
        p = self.norm(path)
        self.step('mkdir', p)
        if p in self.inodes or (p in self.dirs and not exist_ok):
            raise FileExistsError(errno.EEXIST, 'File exists', p)
        while p not in self.dirs:
            if p in self.inodes:
                raise NotADirectoryError(errno.ENOTDIR, 'Not a directory', p)
            self.dirs.add(p)
            p = posixpath.dirname(p)

    def mkdir(self, path, mode=0o777):
        p = self.norm(path)
        if posixpath.dirname(p) not in self.dirs:
            raise self.missing(p)
        self.makedirs(p)

    def exists(self, path):
        return self.exists_now(path)

    def isfile(self, path):
        return self.norm(path) in self.inodes

    def isdir(self, path):
        return self.norm(path) in self.dirs

    def flock(self, fd, op):
        import fcntl
        fd = fd.fileno() if hasattr(fd, 'fileno') else fd
        if not 1000 <= fd < 1000 + len(self.opened):
            unsup('flock of an unknown file')
        f = self.opened[fd - 1000]
        if op & fcntl.LOCK_UN:
            self.step('funlock', f.name)
            self.flocks[f.name] = None
            return
        self.step('flock', f.name)
        holder = self.flocks.get(f.name)
        if holder is not None and holder is not f:
            core.CTX.prove('no deadlock on the lock file of the same process', False)
            core.CTX.end('deadlock')
        self.flocks[f.name] = f


def modules(fs, StubModule):
    """Stubs of os, os.path, shutil, pathlib, fcntl over the model; everything else of these modules is out of reach."""
    import os
    import fcntl

    def no(name):
        def f(*a, **k):
            unsup(name)
        return f

    class Limited(StubModule):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            real = self.__dict__['_src']
            v = getattr(real, name)
            if callable(v) and not isinstance(v, type):
                return no('%s.%s' % (self.__name__, name))
            return v

    def limited(name, real, **attrs):
        m = Limited(name, None, **attrs)
        m.__dict__['_src'] = real
        return m

    def join(a, *rest):
        return posixpath.join(*[getattr(x, 'pv_path', x) for x in (a,) + rest])
    path = limited('os.path', os.path, join=join, exists=fs.exists, isfile=fs.isfile, isdir=fs.isdir, getsize=fs.getsize, dirname=posixpath.dirname, basename=posixpath.basename,
                   splitext=posixpath.splitext, split=posixpath.split, normpath=posixpath.normpath, abspath=fs.norm, isabs=posixpath.isabs)
    os_ = limited('os', os, path=path, stat=fs.stat, rename=fs.rename, replace=fs.rename, remove=fs.remove, unlink=fs.remove, makedirs=fs.makedirs, mkdir=fs.mkdir,
                  getpid=lambda: 4242, fspath=lambda p: getattr(p, 'pv_path', p), cpu_count=os.cpu_count, fsync=lambda fd: None)
    import shutil
    sh = limited('shutil', shutil, move=fs.move, copy=fs.copy, copy2=fs.copy, copyfile=fs.copy)

    class Path:
        def __init__(self, *p):
            self.pv_path = join(*p) if p else '.'

        def __truediv__(self, o):
            return Path(self.pv_path, o)

        def __fspath__(self):
            return self.pv_path

        def __str__(self):
            return self.pv_path

        @property
        def parent(self):
            return Path(posixpath.dirname(self.pv_path) or '.')

        @property
        def name(self):
            return posixpath.basename(self.pv_path)

        def mkdir(self, mode=0o777, parents=False, exist_ok=False):
            if parents:
                return fs.makedirs(self.pv_path, exist_ok=exist_ok)
            if exist_ok and fs.isdir(self.pv_path):
                return None
            return fs.mkdir(self.pv_path)

        def exists(self):
            return fs.exists(self.pv_path)

        def is_file(self):
            return fs.isfile(self.pv_path)

        def is_dir(self):
            return fs.isdir(self.pv_path)

        def stat(self):
            return fs.stat(self.pv_path)

        def rename(self, o):
            fs.rename(self.pv_path, o)
            return Path(o)

        replace = rename

        def open(self, *a, **k):
            return fs.open(self.pv_path, *a, **k)

        def unlink(self):
            fs.remove(self.pv_path)
    import pathlib
    pl = limited('pathlib', pathlib, Path=Path, PurePath=Path)
    fc = limited('fcntl', fcntl, flock=fs.flock)
    return {'os': os_, 'os.path': path, 'shutil': sh, 'pathlib': pl, 'fcntl': fc}
