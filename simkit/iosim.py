"""Simulated process environment: files, temporary files and child processes.

While a World is active every file operation and every child process of the code
under test goes through it.  The bytes really live in a scratch directory, but
each operation is numbered and can be made to fail, to transfer less than asked,
to be interrupted, or to be the instant at which the process dies.  The fault
plan is data: a list of {'at': <selector>, 'do': <fault>}.

Selectors name the n-th operation of a kind: ['open', 3], or the n-th operation
of any kind: ['*', 17].
"""
import builtins
import errno
import io
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading

REAL_OPEN = io.open
REAL_POPEN = subprocess.Popen
REAL = {name: getattr(os, name) for name in
        ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'stat', 'open', 'rmdir', 'makedirs')}
IVERILOG = '/usr/bin/iverilog'

ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EMFILE': errno.EMFILE,
         'EACCES': errno.EACCES, 'ENOENT': errno.ENOENT, 'EROFS': errno.EROFS,
         'ENOMEM': errno.ENOMEM, 'EAGAIN': errno.EAGAIN, 'EPERM': errno.EPERM}


class SimCrash(BaseException):
    """The simulated process dies here; nothing after this point runs."""


def oserror(name, path=None):
    e = ERRNO[name]
    return OSError(e, os.strerror(e), path)


class SimRaw(io.RawIOBase):
    """Unbuffered file whose transfers the world decides."""

    def __init__(self, world, raw, path):
        io.RawIOBase.__init__(self)
        self.world, self.raw, self.path = world, raw, path
        self.mode = raw.mode

    @property
    def name(self):
        return self.raw.name

    def readable(self):
        return self.raw.readable()

    def writable(self):
        return self.raw.writable()

    def seekable(self):
        return self.raw.seekable()

    def fileno(self):
        return self.raw.fileno()

    def seek(self, *a):
        return self.raw.seek(*a)

    def tell(self):
        return self.raw.tell()

    def truncate(self, *a):
        return self.raw.truncate(*a)

    def isatty(self):
        return False

    def readinto(self, b):
        n = len(b)
        f = self.world.op('read', self.path)
        if f and f[0] == 'short' and n > 1:
            n = max(1, min(n - 1, int(n * f[1])))
            m = memoryview(b)[:n]
            return self.raw.readinto(m)
        return self.raw.readinto(b)

    def readall(self):
        out = []
        while True:
            b = bytearray(65536)
            n = self.readinto(b)
            if not n:
                break
            out.append(bytes(b[:n]))
        return b''.join(out)

    def write(self, b):
        data = bytes(b)
        f = self.world.op('write', self.path, pending=(self, data))
        if f and f[0] == 'short' and len(data) > 1:
            data = data[:max(1, min(len(data) - 1, int(len(data) * f[1])))]
        return self.raw.write(data)

    def close(self):
        if not self.closed:
            try:
                self.world.op('close', self.path)
            finally:
                io.RawIOBase.close(self)
                self.raw.close()


class SimPopen(object):
    """Child processes: only the Verilog preprocessor is known here.

    The real `iverilog -E` computes the output (once per command and contents);
    the world decides whether the child starts, how much of its output reaches
    the disk, and how it ends."""
    world = None

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None,
                 stderr=None, preexec_fn=None, close_fds=True, shell=False, cwd=None,
                 env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(),
                 user=None, group=None, extra_groups=None, encoding=None, errors=None,
                 text=None, umask=-1, pipesize=-1, process_group=None):
        w = self.world
        self.args = args
        self.returncode = None
        self.pid = 4242
        self._text = bool(text or universal_newlines or encoding or errors)
        self._pipes = (stdout == subprocess.PIPE, stderr == subprocess.PIPE)
        self.stdin = None
        self.stdout = self._mk(stdout)
        self.stderr = self._mk(stderr)
        argv = args.split() if isinstance(args, str) else list(args)
        if shell and not isinstance(args, str):
            argv = list(args)
        f = w.op('spawn', argv[0] if argv else '')
        if argv and argv[0] != 'iverilog' and os.path.basename(argv[0]) != 'iverilog':
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        code, out, target = w.iverilog(argv, cwd)
        w.spawned.append(argv)
        self._plan = f
        self._interrupt = False
        if f is None or f[0] not in ('exit', 'killed', 'diskfull', 'interrupt', 'noout'):
            if code != 0:
                w.child_failed = True
            w.child_write(target, out)
            self._rc = code
        else:
            w.child_failed = True
            kind = f[0]
            frac = f[1] if len(f) > 1 else 0.5
            if out is not None and kind != 'noout':
                cut = min(max(0, len(out) - 1), int(len(out) * frac))
                w.child_write(target, out[:cut])
            if kind == 'killed':
                self._rc = -(f[2] if len(f) > 2 else 9)
            elif kind == 'interrupt':
                self._rc = -2
                self._interrupt = True
            else:
                self._rc = f[2] if len(f) > 2 else 1

    def _mk(self, spec):
        if spec == subprocess.PIPE:
            return io.StringIO('') if self._text else io.BytesIO(b'')
        return None

    def _finish(self):
        self.world.op('wait', 'child')
        if self._interrupt:
            self._interrupt = False
            self.returncode = self._rc
            raise KeyboardInterrupt()
        self.returncode = self._rc
        return self.returncode

    def poll(self):
        if self.returncode is None:
            self.returncode = self._rc
        return self.returncode

    def wait(self, timeout=None):
        if self.returncode is None:
            self._finish()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self.wait()
        empty = '' if self._text else b''
        return (empty if self._pipes[0] else None, empty if self._pipes[1] else None)

    def send_signal(self, sig):
        pass

    def terminate(self):
        pass

    def kill(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()
        return False


_IV_CACHE = {}


class World(object):
    def __init__(self, root, plan=(), sched=None, extra_roots=(), outcome=None):
        self.root = os.path.realpath(root)
        self.roots = (self.root,) + tuple(os.path.realpath(r) for r in extra_roots)
        self.plan = {}
        for f in plan:
            self.plan[tuple(f['at'])] = tuple(f['do'])
        self.count = {}
        self.total = 0
        self.events = []
        self.fired = []
        self.sched = sched              # called at every operation (yield point)
        self.outcome = outcome
        self.enabled = True
        self.spawned = []
        self.child_failed = False
        self.created = []
        self.open_files = []
        self.names = None

    # ---------------------------------------------------------------- policy
    def mine(self, path):
        try:
            p = os.path.realpath(os.fspath(path))
        except (TypeError, ValueError):
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)

    def rel(self, path):
        p = str(path)
        for r in self.roots:
            if p.startswith(r):
                return os.path.basename(r) + p[len(r):]
        return p

    def op(self, kind, path, pending=None):
        """Account for one operation; apply the fault planned for it, if any."""
        if not self.enabled:
            return None
        if self.sched is not None:
            self.sched(kind)
        self.count[kind] = self.count.get(kind, 0) + 1
        self.total += 1
        f = self.plan.get((kind, self.count[kind])) or self.plan.get(('*', self.total))
        self.events.append('%s#%d %s%s' % (kind, self.count[kind], self.rel(path),
                                           ' !%s' % (f,) if f else ''))
        if not f:
            return None
        name = f[0]
        if name in ('short',) and kind not in ('read', 'write'):
            return None
        if name in ('exit', 'killed', 'diskfull', 'interrupt', 'noout') and kind != 'spawn':
            return None
        self.fired.append((kind, name, self.rel(path)))
        if self.outcome is not None:
            self.outcome.fault('%s:%s' % (kind, name))
        if name in ERRNO:
            if kind == 'write' and pending is not None and len(f) > 1:
                raw, data = pending
                raw.raw.write(data[:int(len(data) * f[1])])
            raise oserror(name, str(path))
        if name == 'crash':
            if kind == 'write' and pending is not None:
                raw, data = pending
                raw.raw.write(data[:int(len(data) * (f[1] if len(f) > 1 else 0.5))])
            raise SimCrash(kind)
        if name == 'sigint':
            raise KeyboardInterrupt()
        return f

    # ------------------------------------------------------------- children
    def child_write(self, target, data):
        if target is None or data is None:
            return
        with REAL_OPEN(target, 'wb') as f:
            f.write(data)

    def iverilog(self, argv, cwd):
        """Run the real preprocessor, cached on its command line and inputs."""
        cwd = cwd or os.getcwd()
        target, args, i = None, [], 1
        files = []
        while i < len(argv):
            a = argv[i]
            if a == '-o' and i + 1 < len(argv):
                target = os.path.join(cwd, argv[i + 1])
                i += 2
                continue
            args.append(a)
            if a in ('-I', '-D') and i + 1 < len(argv):
                args.append(argv[i + 1])
                i += 2
                continue
            if not a.startswith('-'):
                files.append(a)
            i += 1
        key = [cwd] + args
        for f in files:
            try:
                with REAL_OPEN(os.path.join(cwd, f), 'rb') as h:
                    key.append(h.read())
            except OSError:
                key.append(None)
        key = repr(key)
        if key not in _IV_CACHE or 'include' in key:
            tmp = os.path.join(self.root, '.child_out')
            p = REAL_POPEN([IVERILOG] + args + ['-o', tmp], cwd=cwd,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            rc = p.wait()
            data = None
            try:
                with REAL_OPEN(tmp, 'rb') as h:
                    data = h.read()
                REAL['remove'](tmp)
            except FileNotFoundError:
                pass
            if len(_IV_CACHE) > 512:
                _IV_CACHE.clear()
            _IV_CACHE[key] = (rc, data)
        rc, data = _IV_CACHE[key]
        if target is None:
            target = os.path.join(cwd, 'a.out')
        return rc, data, target

    # ----------------------------------------------------------------- files
    def _open(self, file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        path = file
        if isinstance(file, int):
            path = self.fdpath.get(file)
            if path is None:
                return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not self.mine(path):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if not isinstance(file, int):
            self.op('open', path)
        else:
            self.op('fdopen', path)
        binary = 'b' in mode
        rawmode = mode.replace('b', '').replace('t', '')
        raw = SimRaw(self, io.FileIO(file, rawmode, closefd, opener), path)
        if buffering == 0:
            return raw
        size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
        if '+' in rawmode:
            buf = io.BufferedRandom(raw, size)
        elif 'r' in rawmode:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if binary:
            return buf
        t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline,
                             line_buffering=(buffering == 1))
        t.mode = mode
        return t

    def _path_op(self, name):
        real = REAL[name]

        def f(path, *a, **k):
            if isinstance(path, int) or not self.mine(path):
                return real(path, *a, **k)
            kind = {'unlink': 'remove', 'replace': 'rename'}.get(name, name)
            self.op(kind, path)
            r = real(path, *a, **k)
            return r
        return f

    def _os_open(self, path, flags, mode=0o777, **k):
        if not self.mine(path):
            return REAL['open'](path, flags, mode, **k)
        self.op('create' if flags & os.O_CREAT else 'osopen', path)
        fd = REAL['open'](path, flags, mode, **k)
        self.fdpath[fd] = path
        return fd

    def _candidate_names(self):
        if self.names is None:
            self.names = iter('sim%05d' % i for i in range(100000))
        return self.names

    def __enter__(self):
        self.fdpath = {}
        self.saved = {
            'open': builtins.open, 'ioopen': io.open, 'popen': subprocess.Popen,
            'names': tempfile._get_candidate_names, 'tempdir': tempfile.tempdir,
            'fdopen': os.fdopen}
        builtins.open = self._open
        io.open = self._open
        for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'stat'):
            setattr(os, n, self._path_op(n))
        os.open = self._os_open
        world = self

        def _fdopen(fd, mode='r', buffering=-1, encoding=None, *a, **k):
            return world._open(fd, mode, buffering, encoding, *a, **k)
        os.fdopen = _fdopen
        self.tmp = os.path.join(self.root, 'tmp')
        os.path.isdir(self.tmp) or REAL['mkdir'](self.tmp)
        tempfile.tempdir = self.tmp
        tempfile._get_candidate_names = self._candidate_names
        sub = type('SimPopenBound', (SimPopen,), {'world': self})
        subprocess.Popen = sub
        return self

    def __exit__(self, *exc):
        s = self.saved
        builtins.open, io.open = s['open'], s['ioopen']
        subprocess.Popen = s['popen']
        tempfile._get_candidate_names = s['names']
        tempfile.tempdir = s['tempdir']
        os.fdopen = s['fdopen']
        for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'stat', 'open'):
            setattr(os, n, REAL[n])
        return False

    def quiescent(self):
        """Faults stop; accounting goes on."""
        self.plan = {}


def listing(root):
    """Everything below root: {relative path: bytes}."""
    ret = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            try:
                with REAL_OPEN(p, 'rb') as h:
                    ret[os.path.relpath(p, root)] = h.read()
            except OSError:
                ret[os.path.relpath(p, root)] = None
    return ret
