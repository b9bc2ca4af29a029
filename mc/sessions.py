"""Real interactive marcel sessions in forked processes, driven through pipes."""
import atexit
import os
import select
import signal
import sys
import tempfile
import time

from mc import rt

MARK = "('MARCEL_VERSION', "


class SessionDied(Exception):
    pass


def preload():
    """Import, once, what every session would import when it starts."""
    import gc
    import importlib
    import pkgutil
    import marcel.op
    for m in pkgutil.iter_modules(marcel.op.__path__):
        importlib.import_module(f'marcel.op.{m.name}')
    import marcel.reader
    import prompt_toolkit.key_binding.defaults
    prompt_toolkit.key_binding.defaults.load_key_bindings()
    import pty                                                  # noqa: F401
    import prompt_toolkit.output.vt100, prompt_toolkit.input.vt100, prompt_toolkit.output.plain_text  # noqa: F401
    gc.collect()
    gc.freeze()


_preloaded = False


class Session:
    """main_interactive_run in a forked process. Only commands that run in the main process are supported."""

    parent_fds = set()      # our ends of the pipes of all sessions; must not be inherited by others

    def __init__(self, before=None, timeout=20, body=None, alarm=120):
        global _preloaded
        if not _preloaded:
            preload()
            _preloaded = True
        self.timeout = timeout
        r_in, self.w_in = os.pipe()
        self.r_out, w_out = os.pipe()
        self.err = tempfile.TemporaryFile(dir=rt.scratch_home())
        sys.stdout.flush(); sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(alarm)
                os.close(self.w_in); os.close(self.r_out)
                for fd in Session.parent_fds:
                    os.close(fd)
                atexit._clear()
                os.dup2(r_in, 0); os.dup2(w_out, 1); os.dup2(self.err.fileno(), 2)
                os.close(r_in); os.close(w_out)
                sys.stdin = os.fdopen(0, 'r', encoding='utf-8', errors='replace', closefd=False)
                sys.stdout = os.fdopen(1, 'w', encoding='utf-8', errors='replace', buffering=1, closefd=False)
                sys.stderr = os.fdopen(2, 'w', encoding='utf-8', errors='replace', buffering=1, closefd=False)
                sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
                sys.argv = ['marcel']
                rt.reset_default_workspace()
                import marcel.main, marcel.job
                marcel.job.JobControl.only = None
                marcel.job.JobControl.pid = os.getpid()
                if before:
                    before()
                (body or marcel.main.main_interactive_run)()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else 1
            except BaseException as e:
                import traceback
                traceback.print_exc()
                code = 99
            finally:
                try:
                    atexit._run_exitfuncs()
                    sys.stdout.flush(); sys.stderr.flush()
                except BaseException:
                    pass
                os._exit(code)
        os.close(r_in); os.close(w_out)
        Session.parent_fds |= {self.w_in, self.r_out}
        self.buf = b''
        self.err_pos = 0
        self.status = None

    def _line(self):
        end = time.time() + self.timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                raise rt.Hang()
            if select.select([self.r_out], [], [], left)[0]:
                data = os.read(self.r_out, 65536)
                if not data:
                    raise SessionDied(self.errors())
                self.buf += data
        line, _, self.buf = self.buf.partition(b'\n')
        return line.decode('utf-8', 'replace')

    def errors(self):
        """stderr since the last call"""
        self.err.flush()
        size = os.fstat(self.err.fileno()).st_size
        data = os.pread(self.err.fileno(), size - self.err_pos, self.err_pos)
        self.err_pos = size
        return data.decode('utf-8', 'replace')

    def send(self, command):
        os.write(self.w_in, (command + '\nenv MARCEL_VERSION\n').encode())

    def collect(self):
        out = []
        while True:
            line = self._line()
            if line.startswith(MARK):
                return out, self.errors()
            out.append(line)

    def run(self, command):
        """-> (lines of stdout, stderr)"""
        try:
            self.send(command)
        except BrokenPipeError:
            raise SessionDied(self.errors())
        return self.collect()

    def ready(self):
        """Wait until started. -> stderr of startup"""
        os.write(self.w_in, b'env MARCEL_VERSION\n')
        return self.collect()[1]

    def exit(self):
        if self.status is None:
            Session.parent_fds.discard(self.w_in)
            os.close(self.w_in)
            self._reap()
        return self.status

    def kill(self):
        if self.status is None:
            os.kill(self.pid, signal.SIGKILL)
            Session.parent_fds.discard(self.w_in)
            os.close(self.w_in)
            self._reap()

    def _reap(self):
        end = time.time() + self.timeout
        while True:
            pid, st = os.waitpid(self.pid, os.WNOHANG)
            if pid:
                break
            if time.time() > end:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                self.status = 'hang'
                break
            time.sleep(0.0005)
        else:
            pass
        if self.status is None:
            self.status = st
        Session.parent_fds.discard(self.r_out)
        os.close(self.r_out)
        self.last_errors = self.errors()
        self.err.close()
