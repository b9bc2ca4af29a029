"""Controlled scheduler: real code of several "processes" (threads, each with its own pid), interleaved at file system operations.

A schedule is a list of decisions. At each decision point every live actor is stopped just before a file system operation
on one of the watched paths; the decision says which actor performs its operation (an index), or which is killed (('kill', index)).
"""
import builtins
import io
import os
import threading

from mc import rt


class Killed(BaseException):
    pass


class Abandoned(BaseException):
    pass


_current = threading.local()
_run = None
_orig = {}
PATH_OPS = ['stat', 'lstat', 'listdir', 'scandir', 'unlink', 'remove', 'rmdir', 'mkdir', 'chmod', 'utime', 'access', 'open', 'link', 'symlink', 'truncate', 'readlink']
PATH2_OPS = ['rename', 'replace']


def _hook(name, path):
    a = getattr(_current, 'actor', None)
    if a is None:
        return
    if a.killed or a.abandoned:
        raise (Killed if a.killed else Abandoned)()
    try:
        p = os.fspath(path)
    except TypeError:
        return
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    for w in a.run.watched:
        if p.startswith(w):
            a.stop(f'{name} {p[len(w):]}')
            return


def install():
    if _orig:
        return

    def wrap(mod, name):
        f = getattr(mod, name)
        _orig[(mod.__name__, name)] = f

        def g(path, *args, **kwargs):
            if getattr(_current, 'actor', None) is not None:
                _hook(name, path)
            return f(path, *args, **kwargs)
        g.__name__ = name
        setattr(mod, name, g)
    for n in PATH_OPS + PATH2_OPS:
        wrap(os, n)
    wrap(io, 'open')
    builtins.open = io.open
    getpid, getppid, kill = os.getpid, os.getppid, os.kill
    _orig['getpid'] = getpid

    def pid():
        a = getattr(_current, 'actor', None)
        return getpid() if a is None else a.pid

    def ppid():
        return getppid() if getattr(_current, 'actor', None) is None else 4099999

    def fake_kill(p, sig):
        a = getattr(_current, 'actor', None)
        if a is None:
            return kill(p, sig)
        assert sig == 0
        if a.scheduled:
            a.stop(f'process_exists {p}')
        if not a.run.exists(p):
            raise ProcessLookupError()
    os.getpid, os.getppid, os.kill = pid, ppid, fake_kill
    try:
        import psutil
        exists = psutil.pid_exists
        psutil.pid_exists = lambda p: exists(p) if getattr(_current, 'actor', None) is None else _current.actor.run.exists(p)
    except ImportError:
        pass


class Actor:
    scheduled = True

    def __init__(self, run, index, pid, body):
        self.run, self.index, self.pid, self.body = run, index, pid, body
        self.go = threading.Semaphore(0)
        self.pending = 'start'
        self.steps = 0
        self.finished = self.killed = self.abandoned = False
        self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def position(self):
        return (self.steps, 'killed' if self.killed else 'done' if self.finished else self.pending)

    def main(self):
        _current.actor = self
        try:
            self.go.acquire()
            if not self.killed and not self.abandoned:
                self.body()
        except (Killed, Abandoned):
            pass
        except BaseException as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.error = f'{type(e).__name__}: {e} at ' + ', '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-3:])
        finally:
            self.finished = True
            self.run.back.release()

    def stop(self, label):
        """In the actor: wait until scheduled to perform the operation."""
        self.pending = label
        self.run.back.release()
        self.go.acquire()
        if self.killed:
            raise Killed()
        if self.abandoned:
            raise Abandoned()
        self.steps += 1

    def resume(self):
        """In the scheduler"""
        self.go.release()
        self.run.back.acquire()


class Process:
    """Identity of the harness thread acting as one more process, not scheduled."""
    scheduled = killed = abandoned = False

    def __init__(self, run, pid):
        self.run, self.pid = run, pid

    def stop(self, label):
        pass


class Run:
    def __init__(self, bodies, watched, pids):
        install()
        self.watched = watched
        self.back = threading.Semaphore(0)
        self.actors = [Actor(self, i, pids[i], b) for i, b in enumerate(bodies)]
        self.extra = []
        self.trace = []

    def exists(self, pid):
        return pid in self.extra or any(a.pid == pid and not a.killed for a in self.actors)

    def as_process(self, pid):
        _current.actor = None if pid is None else Process(self, pid)
        self.extra = [pid] if pid else []

    def execute(self, schedule, allow_kill=False, on_state=None, on_kill=None, max_steps=2000):
        """-> decisions: [(chosen, {alternative: cost})], where cost counts preemptions; a kill costs 0 but only one is allowed."""
        decisions = []
        current = None
        killed_any = False
        for a in self.actors:
            a.thread.start()
        try:
            while True:
                live = [a for a in self.actors if not a.finished and not a.killed]
                if not live:
                    break
                if len(decisions) > max_steps:
                    raise rt.Hang()
                default = current if current in live else live[0]
                options = {}
                for a in live:
                    options[a.index] = 0 if (current not in live or a is current) else 1
                    if allow_kill and not killed_any:
                        options[('kill', a.index)] = 0
                k = len(decisions)
                choice = schedule[k] if k < len(schedule) else default.index
                if isinstance(choice, list):
                    choice = tuple(choice)
                assert choice in options, (choice, options, 'nondeterministic')
                decisions.append((choice, options))
                if isinstance(choice, tuple):
                    a = self.actors[choice[1]]
                    a.killed = True
                    killed_any = True
                    a.resume()
                    if on_kill:
                        on_kill(a.index)
                else:
                    a = self.actors[choice]
                    self.trace.append((a.index, a.pending))
                    a.resume()
                    current = a
                if on_state:
                    on_state()
        finally:
            for a in self.actors:
                if not a.finished:
                    a.abandoned = True
                    a.resume()
            for a in self.actors:
                a.thread.join(10)
        return decisions


def explore_schedules(run, bound):
    """run(schedule) -> decisions. Depth-first over all schedules with at most `bound` preemptions."""
    stack = [([], 0)]
    while stack:
        prefix, cost = stack.pop()
        decisions = run(prefix)
        used = cost
        for k in range(len(prefix), len(decisions)):
            choice, options = decisions[k]
            for alt, c in options.items():
                if alt != choice and used + c <= bound:
                    stack.append(([d[0] for d in decisions[:k]] + [alt], used + c))
            used += options[choice]
        assert used <= bound + len(decisions)
