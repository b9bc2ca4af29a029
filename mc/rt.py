"""Runtime: bind to /repo's working tree, run marcel in-process in a private scratch HOME."""
import builtins
import contextlib
import io
import os
import re
import shutil
import signal
import sys
import tempfile

REPO = os.environ.get('MC_REPO', '/repo')
sys.dont_write_bytecode = True
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

_home = None
# Distinguishes concurrent runs, (whose pids may be the same, in different pid namespaces). Inherited by shards.
RUN = os.urandom(6).hex()


def scratch_home():
    return _home


def init_process(tag='mc'):
    """Private HOME + storage layout, before marcel is used in this process. Idempotent per process."""
    global _home
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    _home = tempfile.mkdtemp(prefix=f'mcverif_{RUN}_{tag}_{os.getpid()}_', dir=base)
    fresh_home(os.path.join(_home, 'h0'))
    return _home


def remove_homes_of(pid):
    """Remove what process pid left behind, if it could not do it itself."""
    # The random end of another process's directory may contain _PID_
    mine = re.compile(f'mcverif_{RUN}_[^_]+_{pid}_')
    for base in ('/dev/shm', '/tmp'):
        for d in os.listdir(base):
            if mine.match(d):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)


def fresh_home(path):
    os.makedirs(path, exist_ok=True)
    os.environ['HOME'] = path
    for v in ('XDG_CONFIG_HOME', 'XDG_DATA_HOME'):
        os.environ.pop(v, None)
    os.environ['TMPDIR'] = tmpd = os.path.join(_home, 'tmp')
    os.makedirs(tmpd, exist_ok=True)
    tempfile.tempdir = None
    os.chdir(path)
    return path


def cleanup_process():
    global _home
    h = _home
    _home = None
    if h and ('/mcverif_' in h):
        try:
            os.chdir('/')
        except OSError:
            pass
        shutil.rmtree(h, ignore_errors=True)


def unprivileged():
    """From now on, file permissions matter to this process. (They have no effect on root.)"""
    from mc import sessions
    sessions.preload()
    if os.getuid() == 0:
        for d, dirs, files in os.walk(_home):
            os.chown(d, 65534, 65534)
            for f in files:
                os.chown(os.path.join(d, f), 65534, 65534, follow_symlinks=False)
        os.setgroups([])
        os.setresgid(65534, 65534, 0)
        os.setresuid(65534, 65534, 0)


def import_marcel():
    import marcel
    assert os.path.realpath(marcel.__file__).startswith(os.path.realpath(REPO) + os.sep), marcel.__file__
    return marcel


def ensure_layout(initial_config=''):
    import_marcel()
    import marcel.persistence.storagelayout as sl
    sl.ensure_current(testing=True, initial_config=initial_config)


def reset_default_workspace():
    import marcel.object.workspace as w
    w.Workspace.DEFAULT = None


def init_api(initial_config=''):
    ensure_layout(initial_config)
    import marcel.api as api
    return api


class Hang(BaseException):
    pass


@contextlib.contextmanager
def watchdog(seconds):
    def boom(*_):
        raise Hang()
    old = signal.signal(signal.SIGALRM, boom)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def captured():
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        yield out, err


class FdCapture:
    """Capture at file-descriptor level (for commands which start real child processes)."""

    def __enter__(self):
        sys.stdout.flush(); sys.stderr.flush()
        self.saved = os.dup(1), os.dup(2)
        self.files = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        os.dup2(self.files[0].fileno(), 1)
        os.dup2(self.files[1].fileno(), 2)
        self.py = sys.stdout, sys.stderr
        sys.stdout = os.fdopen(os.dup(1), 'w', encoding='utf-8', errors='replace')
        sys.stderr = os.fdopen(os.dup(2), 'w', encoding='utf-8', errors='replace')
        return self

    def __exit__(self, *_):
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush(); f.close()
            except Exception:
                pass
        sys.stdout, sys.stderr = self.py
        os.dup2(self.saved[0], 1); os.dup2(self.saved[1], 2)
        os.close(self.saved[0]); os.close(self.saved[1])
        res = []
        for f in self.files:
            f.seek(0)
            res.append(f.read().decode('utf-8', 'replace'))
            f.close()
        self.out, self.err = res


class CLI:
    """A marcel command-line session (script main) in this process, in the current HOME.

    Restarts on workspace switches exactly as the script main loop does."""

    def __init__(self, initial_config='', interactive=False, workspace=None):
        ensure_layout(initial_config)
        import marcel.env, marcel.main, marcel.object.workspace, marcel.exception
        reset_default_workspace()
        self.m_env, self.m_main, self.m_ex = marcel.env, marcel.main, marcel.exception
        self.interactive = interactive
        self.main = None
        self._open(workspace or marcel.object.workspace.Workspace.default())

    def _open(self, workspace):
        if self.interactive:
            env = self.m_env.EnvironmentInteractive.create(workspace=workspace)
            with captured():    # a warning that stdin is not a terminal
                self.main = self.m_main.MainInteractive(self.main, env, testing=True)
        else:
            env = self.m_env.Environment.create(workspace=workspace)
            self.main = self.m_main.MainScript(env, testing=True)
        self.env = env

    def raw(self, text):
        try:
            self.main.parse_and_run_command(text)
        except self.m_ex.ReconfigureException as e:
            self.main.shutdown(restart=True)
            self._open(e.workspace_to_open)

    def run(self, text):
        """-> (stdout, stderr, exception-name or None)"""
        exc = None
        with captured() as (o, e):
            try:
                self.raw(text)
            except Hang:
                raise
            except BaseException as x:
                exc = f'{type(x).__name__}: {x}'
        return o.getvalue(), e.getvalue(), exc

    def close(self):
        with captured():
            self.main.shutdown()
