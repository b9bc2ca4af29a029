"""Fault injector: kill this process at its k-th change to the file system below a directory (a write may be cut in half)."""
import builtins
import io
import os
import pickle
import shutil
import signal
import sys
import traceback

MUTATING = ['unlink', 'remove', 'rmdir', 'mkdir', 'chmod', 'utime', 'link', 'symlink', 'truncate', 'rename', 'replace']
FAKE_PID = 4194999     # above the largest possible pid: to others, this process does not exist
EXIT = 77


class Injector:
    """Counts the changes; at number `at` the process ends, before the change ('before') or halfway through a write ('half')."""

    def __init__(self, watched, at=None, variant='before', log=None):
        self.watched, self.at, self.variant = watched, at, variant
        self.n = 0
        self.log = log if log is not None else []

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return p.startswith(self.watched)

    def point(self, label, halfway=None):
        self.log.append((label, halfway is not None))
        if self.n == self.at:
            if self.variant == 'half' and halfway:
                halfway()
            os._exit(EXIT)
        self.n += 1

    def install(self):
        inj = self
        for name in MUTATING:
            f = getattr(os, name)

            def g(path, *args, _f=f, _name=name, **kwargs):
                if inj.inside(path):
                    inj.point(f'{_name} {path}')
                return _f(path, *args, **kwargs)
            setattr(os, name, g)
        os_open = os.open

        def o(path, flags, *args, **kwargs):
            if flags & (os.O_CREAT | os.O_TRUNC) and inj.inside(path):
                inj.point(f'open {path}')
            return os_open(path, flags, *args, **kwargs)
        os.open = o
        io_open = io.open

        class Raw(io.FileIO):
            def write(self, b):
                b = bytes(b)
                inj.point(f'write {self.name}', lambda: super(Raw, self).write(b[:len(b) // 2]))
                return super().write(b)

        def fopen(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if isinstance(file, int) or not inj.inside(file) or not any(c in mode for c in 'wax+'):
                return io_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            assert '+' not in mode, mode
            inj.point(f'open {mode} {file}')
            raw = Raw(os.fspath(file), mode.replace('b', '').replace('t', ''))
            b = io.BufferedWriter(raw) if buffering != 0 else raw
            return b if 'b' in mode else io.TextIOWrapper(b, encoding=encoding, errors=errors, newline=newline, line_buffering=buffering == 1)
        io.open = fopen
        builtins.open = fopen


def in_child(body, timeout=30):
    """Run body() in a forked process. -> (exit status, value returned by body or None)"""
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            value = body()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(value, f)
            code = 0
        except BaseException:
            try:
                import atexit
                atexit._clear()
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(traceback.format_exc(), f)
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        d = os.read(r, 65536)
        if not d:
            break
        data += d
    os.close(r)
    _, st = os.waitpid(pid, 0)
    status = os.waitstatus_to_exitcode(st)
    try:
        value = pickle.loads(data) if data else None
    except Exception:
        value = None
    return status, value


def snapshot(src, dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst, symlinks=True)


def restore(src, dst):
    for e in os.listdir(dst):
        p = os.path.join(dst, e)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p)
        else:
            os.unlink(p)
    shutil.copytree(src, dst, symlinks=True, dirs_exist_ok=True)
