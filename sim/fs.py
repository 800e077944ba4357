"""
A simulated file system under /sim/: whole-file replacement, removal and truncation, short reads, and
faults at every open, read and close.  Files are real io objects over a simulated raw stream.
"""
import builtins
import contextlib
import errno
import io
import os
import stat as stat_module

from . import env as envs

ROOT = '/sim/'
REAL_OPEN, REAL_STAT = builtins.open, os.stat

#: kind -> error number of an operating system error
ERRNOS = {'EIO': errno.EIO, 'ENOENT': errno.ENOENT, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
          'ESTALE': errno.ESTALE, 'EINTR': errno.EINTR, 'ENOSPC': errno.ENOSPC}


class FsEnv(envs.Env):
    """Faults by error number too; counts what was opened."""

    def __init__(self, *args, **kwargs):
        super(FsEnv, self).__init__(*args, **kwargs)
        self.opened = []

    def exception(self, kind, site):
        if kind in ERRNOS:
            ex = OSError(ERRNOS[kind], os.strerror(ERRNOS[kind]), site)
            self.raised.append((ex, kind, site))
            return ex
        return super(FsEnv, self).exception(kind, site)

    def identify(self, ex):
        for r, kind, site in self.raised:
            if r is ex:
                return [kind, site]
        return [type(ex).__name__, None]


class Inode(object):

    def __init__(self, data, version, mtime):
        self.data, self.version, self.mtime = data, version, mtime


class Raw(io.RawIOBase):

    def __init__(self, fs, path, inode):
        super(Raw, self).__init__()
        self.fs, self.path, self.inode = fs, path, inode
        self.pos = 0
        self.shut = False
        self.broken = False

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, offset, whence=0):
        self.pos = max(0, offset + {0: 0, 1: self.pos, 2: len(self.inode.data)}[whence])
        return self.pos

    def tell(self):
        return self.pos

    def readinto(self, buf):
        envs.seam('f|{0}:read'.format(self.path))
        n = min(len(buf), self.fs.chunk())
        data = self.inode.data[self.pos:self.pos + n]
        buf[:len(data)] = data
        self.pos += len(data)
        return len(data)

    def close(self):
        if not self.shut:
            self.shut = True
            super(Raw, self).close()


class FS(object):

    def __init__(self, rng):
        self.rng = rng
        self.files = {}
        self.clock = 0
        self.handles = []
        self.stats = {'opened': 0, 'closed': 0}
        self.history = {}      # path -> [(tick, version or None)]

    def tick(self):
        self.clock += 1
        return self.clock

    def chunk(self):
        return self.rng.choice([1, 3, 8, 20, 64, 300, 8192])

    # what the operator does

    def write(self, path, data, version):
        """Replaces the file, as a rename does."""
        at = self.tick()
        # time stamps are coarse: files written one after the other may carry the same
        self.files[path] = Inode(data, version, 1000 + at // 50)
        self.history.setdefault(path, []).append((at, version))

    def truncate(self, path, version):
        inode = self.files.get(path)
        if inode is None:
            return
        if any(h.inode is inode and not h.shut for h in self.handles):
            # whoever reads it keeps the old file
            return self.write(path, b'', version)
        inode.data, inode.version = b'', version
        self.history[path].append((self.tick(), version))

    def remove(self, path):
        if self.files.pop(path, None) is not None:
            self.history[path].append((self.tick(), None))

    def during(self, path, start, end):
        """Versions the file had at some time from `start` to `end`."""
        out, last = [], None
        for at, version in self.history.get(path, []):
            if at <= start:
                last = version
            elif at <= end:
                out.append(version)
        return [last] + out

    # what the code under test sees

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        path = name_of(file)
        if path is None:
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        envs.seam('f|{0}:open'.format(path))
        if any(c in mode for c in 'wax+'):
            raise PermissionError(errno.EACCES, 'not for writing', path)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        raw = Raw(self, path, self.files[path])
        self.handles.append(raw)
        self.stats['opened'] += 1
        env = envs.current()
        if env is not None:
            env.opened.append(raw)
        if 'b' in mode:
            return raw if buffering == 0 else io.BufferedReader(raw)
        return io.TextIOWrapper(io.BufferedReader(raw), encoding or 'utf-8', errors, newline)

    def stat(self, file, *args, **kwargs):
        path = name_of(file)
        if path is None:
            return REAL_STAT(file, *args, **kwargs)
        if path not in self.files:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), path)
        inode = self.files[path]
        t = inode.mtime
        return os.stat_result((stat_module.S_IFREG | 0o644, 7, 1, 1, 0, 0, len(inode.data), t, t, t))


def name_of(file):
    try:
        path = os.fspath(file)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = path.decode('utf-8', 'replace')
    return path if path.startswith(ROOT) else None


@contextlib.contextmanager
def mounted(fs):
    saved = builtins.open, io.open, os.stat
    builtins.open = io.open = fs.open
    os.stat = fs.stat
    try:
        yield fs
    finally:
        builtins.open, io.open, os.stat = saved
