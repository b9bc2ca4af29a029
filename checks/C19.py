"""Job control: real interactive sessions with real jobs and signals, and signals at every line of job control code."""
import collections
import os
import queue
import select
import signal
import sys
import time
import types

from mc import rt, sessions

ID = 'C19'
LEVEL = 'model_checking'
RULE = ('(a) all reachable states of (jobs, their order, states, what has been released), every transition executed in a real interactive session with real job processes blocked in user code, and all sequences to a depth; '
        '(b) creating, waiting for, resuming and listing jobs, with ctrl-C or ctrl-Z handled, and jobs ending, at every line of the job control code; state = job lists, transition = command or signal')
BOUNDS = {'quick': '(a) 2 jobs, all reachable states, all sequences of 6, of 3 with processes started by spawn; (b) up to 2 other jobs, 2 events (signals, ends of jobs), or 1 with 2 other jobs',
          'thorough': '(a) 3 jobs, all sequences of 7, of 4 with spawn; (b) 3 events, or 2 with 2 other jobs'}
ASSUMPTIONS = ['Jobs are marcel pipelines (the process started by bash is in a session of its own)',
               'Ctrl-C and ctrl-Z reach all processes of the session, jobs before the shell; not while the shell is between starting to create a process, and having done so']
PROP = dict(
    title='Jobs are paused, resumed, killed and listed as commanded; the shell survives',
    statement='While a job runs in the foreground there is no prompt, until it finishes, is paused by ctrl-Z or killed by ctrl-C; neither key ends the shell or affects any other job, at whatever moment it is typed. '
              'The bg and fg commands resume the specified job in the background or foreground, and jobs lists exactly the jobs that have not ended, with their states. '
              'What a job assigns to variables is visible to commands following its completion, and to no one if it is killed; exit leaves no job behind.',
    over=['sequences of commands, keys and completions', 'moments at which signals arrive'],
    text='all reachable states with up to 3 jobs; all sequences up to depth 6 or 7; signals and job completions at all lines of the job control code',
    why='No test exercises job control, which requires a terminal, signals, and particular timing.',
    files=['marcel/job.py', 'marcel/main.py', 'marcel/op/fg.py', 'marcel/op/bg.py', 'marcel/op/jobs.py', 'marcel/op/jobop.py'],
    mechanism=[('jobs and signals', 'marcel/job.py: Job, JobControl'), ('changes from jobs', 'marcel/job.py: ChildListener; marcel/main.py: update_namespace')],
    observe=['prompts', 'states of job processes', 'output of jobs', 'variables', 'surviving processes'],
    technique='exhaustive exploration of a job control state machine on real sessions, and of signal delivery points under a controlled scheduler',
    level_note='All cases within the bounds on the real code; (b) replaces processes by stand-ins that record signals.')

FG, BG, PAUSED = '*', '+', '-'
NAMES = 'abc'
SYMBOL = {BG: '(+)', PAUSED: '(-)'}

# ---------------------------------------------------------------- (a) model
# state: (jobs, vars, started); jobs = tuple of (name, state, released)


def fg_of(state):
    return next((j for j in state[0] if j[1] == FG), None)


def letters(state, n):
    jobs, vars_, started = state
    out = []
    idle = fg_of(state) is None
    if idle:
        if started < n:
            out.append(('start',))
        for i in range(len(jobs)):
            out += [('bg', i), ('fg', i)]
    for j in jobs:
        if not j[2]:
            out.append(('release', j[0]))
    out += [('ctrl-Z',), ('ctrl-C',)]
    return out


def step(state, letter):
    jobs, vars_, started = list(state[0]), state[1], state[2]
    what = letter[0]
    if what == 'start':
        jobs.append((NAMES[started], FG, False))
        started += 1
    elif what == 'ctrl-Z':
        jobs = [(n, PAUSED if s == FG else s, r) for n, s, r in jobs]
    elif what == 'ctrl-C':
        jobs = [j for j in jobs if j[1] != FG]
    elif what in ('bg', 'fg'):
        n, s, r = jobs[letter[1]]
        jobs[letter[1]] = (n, BG if what == 'bg' else FG, r)
    elif what == 'release':
        jobs = [(n, s, r or n == letter[1]) for n, s, r in jobs]
    done = [n for n, s, r in jobs if r and s != PAUSED]
    jobs = [j for j in jobs if j[0] not in done]
    return tuple(jobs), vars_ | frozenset(done), started


START = ((), frozenset(), 0)


def plans(tier):
    """Sequences: a shortest one to each transition of the reachable states, and all to a depth. Prefixes are dropped."""
    n, depth = (2, 6) if tier == 'quick' else (3, 7)
    seqs = set()
    todo = collections.deque([(START, ())])
    seen = {START}
    while todo:
        state, path = todo.popleft()
        for l in letters(state, n):
            nxt = step(state, l)
            seqs.add(path + (l,))
            if nxt not in seen:
                seen.add(nxt)
                todo.append((nxt, path + (l,)))
    states = len(seen)

    def extend(state, path):
        if len(path) == depth:
            seqs.add(path)
            return
        for l in letters(state, 2):
            # Two keys in a row when nothing is in the foreground: one will do.
            if l[0].startswith('ctrl') and fg_of(state) is None and path and path[-1][0].startswith('ctrl'):
                continue
            extend(step(state, l), path + (l,))
    extend(START, ())
    prefixes = {s[:i] for s in seqs for i in range(len(s))}
    return sorted(s for s in seqs if s not in prefixes), states


STARTUP = '''
def gate(n):
    import os
    d = {home!r}
    with open(d + '/' + n + '.tmp', 'w') as f:
        f.write(str(os.getpid()))
    os.rename(d + '/' + n + '.tmp', d + '/' + n + '.pid')
    with open(d + '/' + n + '.fifo') as f:
        f.readline()
    return n
'''


def proc_state(pid):
    try:
        with open(f'/proc/{pid}/stat') as f:
            return f.read().rpartition(')')[2].split()[0]
    except (FileNotFoundError, ProcessLookupError):
        return 'X'


def await_state(pid, states, seconds=5):
    end = time.time() + seconds
    while True:
        s = proc_state(pid)
        if s in states or time.time() > end:
            return s
        time.sleep(0.0005)


class Wrong(Exception):
    pass


class Driver:
    serial = 0

    def __init__(self, start_method='fork'):
        Driver.serial += 1
        self.home = rt.fresh_home(os.path.join(rt.scratch_home(), f'j{Driver.serial}'))
        rt.reset_default_workspace()
        rt.ensure_layout()
        with open(os.path.join(self.home, '.config/marcel/workspace/__DEFAULT__/startup.py'), 'a') as f:
            f.write(STARTUP.format(home=self.home))
        for n in NAMES:
            os.mkfifo(f'{self.home}/{n}.fifo')
        self.pids = {}
        self.fds = []
        self.start_method = start_method

        def before():
            os.setpgid(0, 0)
            signal.signal(signal.SIGTSTP, signal.SIG_DFL)
            import multiprocessing
            multiprocessing.set_start_method(start_method, force=True)
        self.s = sessions.Session(before=before)
        try:
            self.s.ready()
            self.s.errors()
        except BaseException:
            self.close()
            raise
        self.busy = False

    def close(self):
        try:
            self.s.kill()
        finally:
            for fd in self.fds:
                os.close(fd)
            for pid in self.pids.values():
                if proc_state(pid) not in 'XZ':
                    try:
                        os.kill(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass

    def prompt(self):
        """Output before the prompt that follows what was last typed."""
        out, err = self.s.collect()
        self.busy = False
        if err:
            raise Wrong(f'error: {err}')
        return [x for x in out if x]

    def run(self, command):
        out, err = self.s.run(command)
        if err:
            raise Wrong(f'{command}: error: {err}')
        return [x for x in out if x]

    def key(self, sig):
        # As a terminal does: to all processes. Jobs ignore ctrl-C.
        if sig == signal.SIGTSTP:
            for pid in self.pids.values():
                if proc_state(pid) not in 'XZT':
                    os.kill(pid, sig)
                    # Continued by the shell, if it should run.
                    await_state(pid, 'TXZ')
        os.kill(self.s.pid, sig)

    def apply(self, letter, old, new):
        what = letter[0]
        if what == 'start':
            name = NAMES[old[2]]
            self.s.send(f"gen 1 | map (x: gate('{name}')) >$ v{name}")
            self.busy = True
            end = time.time() + 15
            while not os.path.exists(f'{self.home}/{name}.pid'):
                if time.time() > end:
                    raise Wrong(f'job {name} does not start: {self.s.errors()}')
                time.sleep(0.0005)
            with open(f'{self.home}/{name}.pid') as f:
                self.pids[name] = int(f.read())
        elif what == 'ctrl-Z':
            self.key(signal.SIGTSTP)
        elif what == 'ctrl-C':
            self.key(signal.SIGINT)
        elif what == 'bg':
            out = self.run(f'bg {letter[1]}')
            if out:
                raise Wrong(f'bg: output {out}')
        elif what == 'fg':
            self.s.send(f'fg {letter[1]}')
            self.busy = True
        elif what == 'release':
            self.fds.append(os.open(f'{self.home}/{letter[1]}.fifo', os.O_RDWR))
            os.write(self.fds[-1], b'go\n')
        self.compare(letter, new)

    def compare(self, letter, new):
        jobs, vars_, started = new
        expected = {n: 'X' for n in self.pids}
        expected.update({n: ('T' if s == PAUSED else 'S') for n, s, r in jobs})
        for n, e in expected.items():
            ok = {'X': 'XZ', 'T': 'T', 'S': 'SRD'}[e]
            got = await_state(self.pids[n], ok)
            if got not in ok:
                raise Wrong(f'process of job {n} is {got}, expected {e}')
        if fg_of(new):
            # No prompt.
            if self.busy and select.select([self.s.r_out], [], [], 0.11)[0]:
                raise Wrong(f'while {fg_of(new)[0]} is in the foreground: output {os.read(self.s.r_out, 999)!r}, errors {self.s.errors()!r}')
            return
        if self.busy:
            out = self.prompt()
            if out:
                raise Wrong(f'output {out}')
        out = self.run('jobs')
        e = [f"{i}{SYMBOL[s]}: {self.pids[n]}  gen 1 | map (x: gate('{n}')) >$ v{n}" for i, (n, s, r) in enumerate(jobs)]
        if out != e:
            raise Wrong(f'jobs: {out}, expected {e}')
        for n in self.pids:
            o, err = self.s.run(f'env v{n}')
            if (n in vars_) != bool(o) or (n not in vars_ and 'undefined' not in err):
                raise Wrong(f'variable assigned by job {n}: {o}, {err}; finished: {sorted(vars_)}')
            if n in vars_ and letter == ('release', n):
                o = self.run(f'v{n} <$ map (x: x)')
                if o != [n]:
                    raise Wrong(f'value assigned by job {n}: {o}')

    def end(self, state):
        if fg_of(state):
            self.key(signal.SIGTSTP)
            self.prompt()
        st = self.s.exit()
        if st != 0 or 'Traceback' in self.s.last_errors:
            raise Wrong(f'exit: status {st}, {self.s.last_errors}')
        for n, pid in self.pids.items():
            if await_state(pid, 'XZ') not in 'XZ':
                raise Wrong(f'exit: job {n} still exists, {proc_state(pid)}')


def run_plan(case):
    what, seq = case[1], case[2]
    d = Driver(what)
    state = START
    try:
        for i, l in enumerate(seq):
            new = step(state, l)
            try:
                d.apply(l, state, new)
            except sessions.SessionDied as e:
                return f'after {seq[:i + 1]}: the session ended: {e} {d.s.errors()}'
            except rt.Hang:
                return f'after {seq[:i + 1]}: no prompt; errors: {d.s.errors()}'
            except Wrong as e:
                return f'after {seq[:i + 1]}: {e}'
            state = new
        try:
            d.end(state)
        except Wrong as e:
            return f'after {seq}: {e}'
        except rt.Hang:
            return f'after {seq}: no prompt after ctrl-Z'
    finally:
        d.close()
        import shutil
        shutil.rmtree(d.home, ignore_errors=True)
    return None


# ---------------------------------------------------------------- (b)


class World:
    """Processes that do as the explorer says."""

    def __init__(self, choices):
        self.choices, self.pos, self.trail = choices, 0, []
        self.procs = []
        self.next_pid = 5_000_001
        self.active = False
        self.events = []        # that were chosen
        self.violations = []
        self.budget = 0
        self.idle = 0
        self.in_flight = False

    def choose(self, options):
        """0 is: nothing happens."""
        i = self.choices[self.pos] if self.pos < len(self.choices) else 0
        self.pos += 1
        self.trail.append((i, len(options)))
        return options[i] if i < len(options) else options[0]

    def point(self, where):
        """Something may happen here."""
        if not self.active or self.budget == 0:
            return
        options = [None]
        options += [('end', p) for p in self.procs if p.state == 'running']
        if signal.getsignal(signal.SIGINT) not in (signal.SIG_IGN, signal.SIG_DFL):
            options.append(('key', signal.SIGINT))
        if signal.getsignal(signal.SIGTSTP) not in (signal.SIG_IGN, signal.SIG_DFL):
            options.append(('key', signal.SIGTSTP))
        if len(options) == 1:
            return
        c = self.choose(options)
        if c is None:
            return
        self.budget -= 1
        if c[0] == 'end':
            self.events.append(('end', c[1].name, where))
            c[1].state = 'zombie'
        else:
            fg = [p.name for p in self.procs if p.foreground and p.state != 'zombie' and p.state != 'reaped']
            self.events.append((c[1].name, fg, where))
            if c[1] == signal.SIGTSTP:
                for p in self.procs:
                    if p.state == 'running':
                        p.state = 'stopped'
            signal.raise_signal(c[1])

    def kill(self, pid, sig):
        for p in self.procs:
            if p.pid == pid:
                p.signals.append(sig)
                if p.state == 'reaped':
                    raise ProcessLookupError(3, 'No such process')
                if p.state == 'zombie' or sig == 0:
                    return
                if sig == signal.SIGKILL or (sig == signal.SIGTERM and p.obeys):
                    p.state = 'zombie' if sig == signal.SIGKILL or p.state == 'running' else p.state
                    p.killed = True
                elif sig == signal.SIGCONT:
                    p.state = 'zombie' if p.killed and p.obeys else 'running'
                elif sig in (signal.SIGTSTP, signal.SIGSTOP):
                    p.state = 'stopped'
                return
        raise AssertionError(f'kill({pid}, {sig})')


world = None


class FakeProcess:

    def __init__(self, group=None, target=None, name=None, args=(), kwargs={}, daemon=None):
        self.command = args[1]
        self.name = self.command.source
        self.obeys = not self.name.startswith('resist')
        self.daemon = daemon
        self.pid = None
        self.state = None
        self.foreground = True
        self.killed = False
        self.signals = []

    def start(self):
        self.pid = world.next_pid
        world.next_pid += 1
        self.state = 'running'
        world.procs.append(self)

    def is_alive(self):
        if self.state == 'zombie':
            self.state = 'reaped'
        return self.state in ('running', 'stopped')

    @property
    def exitcode(self):
        return None if self.is_alive() else 0

    def join(self, timeout=None):
        if self.state == 'zombie':
            self.state = 'reaped'
        if self.state == 'reaped':
            return
        world.idle += 1
        if world.idle > 3 and world.active and self.state == 'running' and not self.killed:
            # Nothing happened for long enough.
            self.state = 'zombie'
        if world.idle > 30:
            raise rt.Hang()
        world.point('join')

    def terminate(self):
        world.kill(self.pid, signal.SIGTERM)

    def kill(self):
        world.kill(self.pid, signal.SIGKILL)


class FakeListener:

    def __init__(self):
        self.received = queue.SimpleQueue()

    def add_listener(self, listener, eof=None):
        listener.close()
        if eof is not None:
            eof.set()

    def start(self):
        pass

    def stop_listening(self):
        pass


class Rig:
    """Job control with fake processes, in this process."""

    def __init__(self):
        rt.fresh_home(os.path.join(rt.scratch_home(), 'b'))
        rt.reset_default_workspace()
        rt.ensure_layout()
        import marcel.job, marcel.main
        self.job = marcel.job
        marcel.job.JobControl.only = None
        self.job.ChildListener = FakeListener
        real_mp, real_os = marcel.job.mp, os
        marcel.job.mp = types.SimpleNamespace(Pipe=real_mp.Pipe, Process=FakeProcess, current_process=real_mp.current_process)
        fake_os = types.ModuleType('os')
        fake_os.__dict__.update(real_os.__dict__)
        fake_os.kill = lambda pid, sig: world.kill(pid, sig)
        marcel.job.os = fake_os
        self.job.JobControl.pid = os.getpid()
        self.cli = rt.CLI(interactive=True)
        self.dir = os.path.dirname(marcel.job.__file__)

    def execute(self, setup, focus, choices, budget):
        """-> (trail, message)"""
        global world
        job = self.job
        world = World(choices)
        job.JobControl.only = None
        jc = job.JobControl.start(self.cli.env, lambda changes: None)
        self.cli.main.job_control = jc
        names = []
        files = (os.path.join(self.dir, 'job.py'), os.path.join(self.dir, 'op', 'jobop.py'), os.path.join(self.dir, 'op', 'fg.py'), os.path.join(self.dir, 'op', 'bg.py'), os.path.join(self.dir, 'op', 'jobs.py'))

        def tracer(frame, event, arg):
            if frame.f_code.co_filename not in files:
                return None
            if frame.f_code.co_name in ('debug', '__repr__', 'state_symbol'):
                return None
            if event == 'line':
                world.point(f'{os.path.basename(frame.f_code.co_filename)}:{frame.f_code.co_name}')
            return tracer

        with rt.captured() as (o, e):
            for i, s in enumerate(setup):
                jc.create_job(types.SimpleNamespace(source=f'other{i}'))
                p = world.procs[-1]
                signal.raise_signal(signal.SIGTSTP)
                p.foreground = False
                if s == BG:
                    self.command(f'bg {i}')
            setup_procs = list(world.procs)
            before = {p.name: p.state for p in setup_procs}
            if before != {f'other{i}': {BG: 'running', PAUSED: 'stopped'}[s] for i, s in enumerate(setup)}:
                return world.trail, f'states of processes: {before}'
            world.budget = budget
            world.active = True
            sys.settrace(tracer)
            message = None
            try:
                if focus[0] == 'create':
                    jc.create_job(types.SimpleNamespace(source=focus[1]))
                elif focus[0] == 'fg':
                    setup_procs[focus[1]].foreground = True
                    self.command(f'fg {focus[1]}')
                else:
                    self.command(' '.join(str(x) for x in focus))
                jc.wait_for_idle_foreground()
            except rt.Hang:
                message = 'no prompt'
            except Exception as ex:
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                message = f'uncaught {type(ex).__name__}: {ex} (in {tb.name}: {tb.line})'
            finally:
                sys.settrace(None)
                world.active = False
            if message is None:
                message = self.judge(setup, focus, jc, e.getvalue())
        return world.trail, message and f'{message}; events: {world.events}'

    def command(self, text):
        out, err, exc = self.cli_run(text)
        if exc and 'There is no job' not in exc and 'Cannot foreground' not in exc:
            raise Wrong(f'{text}: {exc}')

    def cli_run(self, text):
        import marcel.exception
        try:
            self.cli.main.parse_and_run_command(text)
        except marcel.exception.KillCommandException as e:
            return '', '', str(e)
        return '', '', None

    def judge(self, setup, focus, jc, err):
        if world.violations:
            return world.violations[0]
        if err and not all('There is no job' in l or 'Cannot foreground' in l for l in err.splitlines()):
            return f'error: {err}'
        ended = {n for k, n, *_ in world.events if k == 'end'}
        keys = [(k, fg) for k, fg, *_ in world.events if k != 'end']
        listed = {}
        for i, j in enumerate(jc.jobs()):
            listed[j.process.pid] = j.state_symbol()
        for p in world.procs:
            alive = p.state in ('running', 'stopped')
            want = {'running': BG, 'stopped': PAUSED}.get(p.state)
            if listed.get(p.pid) != want:
                return f'job {p.name} is {p.state}, listed as {listed.get(p.pid)}'
            if not alive and not (p.name in ended or p.killed or p.foreground or (focus[0] == 'fg' and ended)):
                return f'job {p.name} is {p.state}'
            if p.killed and not p.foreground:
                return f'job {p.name} killed'
        # Jobs not concerned
        for i, s in enumerate(setup):
            p = world.procs[i]
            if p.foreground or p.name in ended:
                continue
            if focus[0] in ('bg', 'fg') and ended:
                continue    # Job numbers may have changed before the command was carried out
            s = BG if focus == ('bg', i) else s
            if p.state != {BG: 'running', PAUSED: 'stopped'}[s]:
                return f'job {p.name} should be {s}, is {p.state}'
        fg = next((p for p in world.procs if p.foreground), None)
        if fg and fg.name not in ended:
            effective = [k for k, names in keys if fg.name in names]
            if len(effective) == 1:
                if effective == ['SIGINT'] and fg.state in ('running', 'stopped') and focus[0] == 'create':
                    return f'ctrl-C: {fg.name} is {fg.state}'
                if effective == ['SIGTSTP'] and fg.state != 'stopped' and focus[0] == 'create':
                    return f'ctrl-Z: {fg.name} is {fg.state}'
            if not keys and fg.killed:
                return f'{fg.name} killed'
        return None


def b_cases(tier):
    setups = [(), (BG,), (PAUSED,), (BG, PAUSED), (PAUSED, BG)]
    for s in setups:
        for c in ('job', 'resistant'):
            yield s, ('create', c)
        for i in range(len(s)):
            yield s, ('fg', i)
            yield s, ('bg', i)
        yield s, ('jobs',)


def explore_b(rec, rig, setup, focus, budget):
    stack = [()]
    while stack:
        choices = stack.pop()
        result = {}

        def body():
            trail, message = rig.execute(setup, focus, choices, budget)
            result['trail'] = trail
            return message
        rec.check(('b', setup, focus, choices, budget), body, timeout=20, key=repr((setup, focus, budget)))
        rec.transition()
        rec.state((setup, focus, tuple(repr(x) for x in world.events)))
        trail = result.get('trail', ())
        base = tuple(c for c, n in trail)
        for i in range(len(choices), len(trail)):
            for alt in range(1, trail[i][1]):
                stack.append(base[:i] + (alt,))


# ---------------------------------------------------------------- check


def shards(tier):
    seqs, states = plans(tier)
    k = 48 if tier == 'quick' else 160
    out = [('b', s, f) for s, f in b_cases(tier)]
    out += [('a', 'fork', i, k) for i in range(k)]
    out += [('a', 'spawn', i, 16) for i in range(16)]
    return out


def explore(rec, shard, tier):
    if shard[0] == 'b':
        n = len(shard[1])
        explore_b(rec, Rig(), shard[1], shard[2], (1 if n == 2 else 2) if tier == 'quick' else (2 if n == 2 else 3))
        return
    _, method, i, k = shard
    seqs, states = plans(tier)
    if method == 'spawn':
        seqs = sorted({s[:3 if tier == 'quick' else 4] for s in seqs})
    for s in seqs[i::k]:
        rec.check(('a', method, s), lambda: run_plan(('a', method, s)), timeout=120)
        state = START
        for l in s:
            rec.state(state)
            state = step(state, l)
            rec.transition()


def replay(rec, case):
    if case[0] == 'b':
        rig = Rig()
        rec.check(case, lambda: rig.execute(case[1], case[2], case[3], case[4])[1], timeout=60)
    else:
        rec.check(case, lambda: run_plan(case), timeout=120)
