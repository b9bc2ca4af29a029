"""Runs of the real program, (marcel.main run as __main__), in forked processes: scripts, piped and redirected stdin."""
import atexit
import importlib.util
import os
import signal
import sys
import tempfile
import time

from mc import rt, sessions

_code = None


def preload():
    global _code
    if _code is None:
        sessions.preload()
        rt.import_marcel()
        import marcel.main                                      # noqa: F401
        _code = importlib.util.find_spec('marcel.main').loader.get_code('marcel.main')


def run(script, mode='file', other='', timeout=20, name='script.m'):
    """Run script in the current directory, and with the current HOME. -> (exit status or 'hang', text of stdout and stderr in order)
    mode: file: marcel SCRIPT, stdin empty; both: marcel SCRIPT, other being piped to stdin; pipe: piped to stdin; typed: stdin is a file"""
    preload()
    scratch = rt.scratch_home()
    out = tempfile.TemporaryFile(dir=scratch)
    argv = ['marcel']
    if isinstance(script, str):
        script = script.encode()
    if mode in ('file', 'both'):
        path = os.path.join(scratch, name)
        with open(path, 'wb') as f:
            f.write(script)
        argv.append(path)
    r = w = None
    if mode in ('pipe', 'both'):
        r, w = os.pipe()
        os.write(w, script if mode == 'pipe' else other.encode())
        os.close(w)
    elif mode == 'typed':
        t = tempfile.TemporaryFile(dir=scratch)
        t.write(script); t.flush(); t.seek(0)
        r = os.dup(t.fileno())
    else:
        r = os.open('/dev/null', os.O_RDONLY)
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(int(timeout) + 5)
            atexit._clear()
            os.dup2(r, 0); os.dup2(out.fileno(), 1); os.dup2(out.fileno(), 2)
            os.close(r)
            sys.stdin = os.fdopen(0, 'r', encoding='utf-8', errors='replace', closefd=False)
            sys.stdout = os.fdopen(1, 'w', encoding='utf-8', errors='replace', buffering=1, closefd=False)
            sys.stderr = os.fdopen(2, 'w', encoding='utf-8', errors='replace', buffering=1, closefd=False)
            sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
            sys.argv = argv
            rt.reset_default_workspace()
            import multiprocessing.context
            multiprocessing.context._default_context._actual_context = None
            import marcel.job
            marcel.job.JobControl.only = None
            marcel.job.JobControl.pid = os.getpid()
            exec(_code, {'__name__': '__main__', '__builtins__': __builtins__})
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except BaseException:
            import traceback
            traceback.print_exc()
            code = 99
        finally:
            try:
                atexit._run_exitfuncs()
                sys.stdout.flush(); sys.stderr.flush()
            except BaseException:
                pass
            os._exit(code)
    os.close(r)
    end = time.time() + timeout
    wait = 0.0005
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            status = os.waitstatus_to_exitcode(st)
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            status = 'hang'
            break
        time.sleep(wait)
        wait = min(wait * 1.5, 0.01)
    out.seek(0)
    text = out.read().decode('utf-8', 'replace')
    out.close()
    return status, text
