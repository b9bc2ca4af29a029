"""Overlapping operations on one workspace: every interleaving of file system operations, with processes killed at any of them."""
import os
import shutil
from mc import rt
from mc.interleave import Run, explore_schedules

ID = 'C13'
LEVEL = 'model_checking'
RULE = ('every scenario (2 or 3 processes, each running a script of open / close / delete / startup validation of the same workspace, initially free or left locked by a dead process) '
        'under every schedule of their file system operations up to the preemption bound, with at most one process killed at any point; '
        'state = (files of the workspace, position of each process), transition = file system operation')
BOUNDS = {'quick': '2 processes: up to 2 preemptions without kill, 1 with; 3 processes: up to 1 preemption, 0 with kill; scripts of up to 4 operations',
          'thorough': '2 processes: up to 3 preemptions without kill, 2 with; 3 processes: up to 2 preemptions, 1 with kill'}
ASSUMPTIONS = ['File system operations are atomic (listing a directory, too)', 'Creating and deleting a workspace do not overlap other sessions starting up',
               'Process ids are not reused']
PROP = dict(
    title='A workspace is open in at most one live session, under every interleaving',
    statement='However the operations of several sessions overlap, at most one live session has a workspace open at any time, and of the sessions opening a free workspace at the same time exactly one succeeds while the others are told that it is in use or, if it is being deleted, that there is no such workspace. '
              'A session killed at any moment does not keep the others from opening it. '
              'Afterwards the workspace is intact, with the variables saved by the last session that closed it.',
    over=['interleavings', 'crashes'],
    text='all interleavings of the file system operations of concurrently opening, closing, deleting and starting sessions, and kills at any point',
    why='Tests are sequential. The lock is a file renamed by processes; every window between looking and renaming matters.',
    files=['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/persistence/persistence.py', 'marcel/locations.py'],
    mechanism=[('locking', 'marcel/object/workspace.py: lock_workspace, unlock_workspace, owner_pids, release_abandoned_marker'), ('startup', 'marcel/persistence/persistence.py: validate_all')],
    observe=['result of each operation, files of the workspace, variables in the reopened workspace'],
    technique='stateless model checking: controlled scheduler over the file system operations of the real code, preemption-bounded exhaustive search',
    level_note='All schedules within the preemption bound, on the real code with real files. Processes are threads with separate process ids.')

# o: open, c: close (only if the open succeeded), d: delete, v: startup (validation of all workspaces)
PAIRS = [('oc', 'oc'), ('o', 'o'), ('oc', 'o'), ('ococ', 'oc'), ('o', 'v'), ('oc', 'v'), ('vo', 'vo'), ('vo', 'oc'), ('d', 'o'), ('d', 'oc'), ('d', 'd'), ('ocd', 'oc'), ('v', 'v'), ('voc', 'vo')]
TRIPLES = [('o', 'o', 'o'), ('oc', 'o', 'o'), ('o', 'v', 'o'), ('oc', 'v', 'o'), ('v', 'v', 'o'), ('d', 'o', 'o'), ('oc', 'oc', 'o')]
STARTS = ['free', 'dead']
DEAD = 4100000
PIDS = [4100001, 4100002, 4100003]


def shards(tier):
    out = []
    for scripts in PAIRS + TRIPLES:
        for start in STARTS:
            for kill in (False, True):
                out.append((scripts, start, kill))
    # the largest first
    out.sort(key=lambda s: -(len(s[0]) * 10 + sum(map(len, s[0])) + 5 * s[2]))
    return out


def bound(shard, tier):
    scripts, _, kill = shard
    b = 2 if len(scripts) == 2 else 1
    return b - (1 if kill else 0) + (1 if tier == 'thorough' else 0)


class World:
    """One fresh workspace; scripts of operations on it, run by the actors of Run."""

    def __init__(self, template, home, scripts, start):
        shutil.rmtree(home, ignore_errors=True)
        shutil.copytree(template, home)
        os.environ['HOME'] = home
        self.home = home
        self.config = os.path.join(home, '.config/marcel/workspace/w1')
        self.data = os.path.join(home, '.local/share/marcel/workspace/w1')
        if start == 'dead':
            os.rename(os.path.join(self.config, '.WORKSPACE'), os.path.join(self.config, f'.WORKSPACE.{DEAD}'))
        self.value = 0              # the value of v in the workspace, as of the last close
        self.closing = None         # (actor, value before) while closing
        self.holder = {}            # actor -> value it will save
        self.busy = set()           # actors inside an operation
        self.deleted = False
        self.deleting = set()
        self.problem = None
        self.opens = 0
        self.refusals = []
        self.contended = {}
        self.env = ENV
        self.run = Run([self.script(i, s) for i, s in enumerate(scripts)], [self.config, self.data], PIDS[:len(scripts)])

    def fail(self, text):
        if self.problem is None:
            self.problem = text

    def expected(self):
        """Possible values of v: if a process was killed while closing the workspace, also the one before."""
        if self.closing and self.run.actors[self.closing[0]].killed:
            return [self.value, self.closing[1]]
        return [self.value]

    def live_holders(self):
        return [i for i in self.holder if not self.run.actors[i].killed]

    def killed(self, i):
        """In the scheduler, when an actor has been killed"""
        self.busy.discard(i)

    def begin(self, i):
        # Was somebody else in an operation, or had the workspace open, during this one?
        self.contended[i] = bool(self.busy) or bool(self.live_holders())
        for j in self.busy:
            self.contended[j] = True
        self.busy.add(i)

    def end(self, i):
        self.busy.discard(i)

    def script(self, i, ops):
        def body():
            import marcel.exception as ex
            import marcel.object.workspace as w
            import marcel.op.ws
            import marcel.persistence.persistence as p
            ws = None
            for k, op in enumerate(ops):
                self.begin(i)
                try:
                    if op == 'o':
                        o = marcel.op.ws.Ws()
                        o.open = 'w1'
                        impl = marcel.op.ws.WsOpen(o)
                        try:
                            impl.setup(self.env)
                            impl.run(self.env)
                            self.fail(f'{i}: ws -o did nothing')
                        except ex.ReconfigureException as e:
                            ws = e.workspace_to_open
                            ws.open(self.env)
                            others = self.live_holders()
                            if others:
                                self.fail(f'process {i} opened the workspace, which process {others[0]} has open')
                            if self.deleted:
                                self.fail(f'process {i} opened a deleted workspace')
                            v = ws.getvar('v')
                            if v not in self.expected():
                                self.fail(f'process {i}: v is {v}, expected {self.expected()}')
                            self.value, self.closing = v, None
                            self.opens += 1
                            self.holder[i] = 10 * (i + 1) + k
                            ws.setvar('v', self.holder[i])
                        except ex.KillCommandException as e:
                            ws = None
                            self.refused(i, str(e), 'open')
                    elif op == 'c':
                        if ws is not None:
                            self.closing = (i, self.value)
                            self.value = self.holder.pop(i)
                            ws.close(self.env, False)
                            if self.closing and self.closing[0] == i:
                                self.closing = None
                            ws = None
                    elif op == 'd':
                        self.deleting.add(i)
                        try:
                            d = w.Workspace('w1')
                            d.delete(self.env)
                            if self.live_holders():
                                self.fail(f'process {i} deleted the workspace, which process {self.live_holders()[0]} has open')
                            if self.deleted:
                                self.fail('deleted twice')
                            self.deleted = True
                        except ex.KillCommandException as e:
                            self.refused(i, str(e), 'delete')
                        self.deleting.discard(i)
                    elif op == 'v':
                        errors = p.validate_all(lambda names, errors: None)
                        if errors:
                            self.fail(f'process {i}: startup found damage: {errors}')
                except (AssertionError, OSError, EOFError) as e:
                    import traceback
                    self.fail(f'process {i}: {op}: {type(e).__name__}: {e} at {traceback.extract_tb(e.__traceback__)[-1].lineno}')
                    return
                finally:
                    self.end(i)
        return body

    def refused(self, i, message, what):
        self.refusals.append((i, what))
        if 'no workspace' in message:
            if not self.deleted and not any(j != i for j in self.deleting):
                self.fail(f'process {i}: {message}')
        elif 'in use' in message:
            if not self.contended.get(i):
                self.fail(f'process {i}: {message}, but nobody else was using it')
        else:
            self.fail(f'process {i}: {message}')

    def finish(self, scripts, start):
        """After all actors finished or were killed."""
        if self.problem:
            return self.problem
        for a in self.run.actors:
            if a.error:
                return f'process {a.index}: {a.error}'
        killed = [a.index for a in self.run.actors if a.killed]
        holders = self.live_holders()
        if self.deleted:
            left = [d for d in (self.config, self.data) if os.path.exists(d)]
            return f'left after deletion: {left}' if left else None
        if not killed and self.opens == 0 and any('o' in x for x in scripts) and not any('d' in x for x in scripts):
            return 'no process could open the workspace'
        if any('d' in scripts[i] for i in killed):
            return None             # killed while deleting: what is left is not specified here
        files = sorted(os.listdir(self.config))
        if len(files) != 2 or 'startup.py' not in files:
            return f'files left: {files}'
        if holders and files[0] != f'.WORKSPACE.{PIDS[holders[0]]}':
            return f'open in {PIDS[holders[0]]}, but lock file is {files[0]}'
        if not holders and not killed and start == 'free' and files[0] != '.WORKSPACE':
            return f'not open, but lock file is {files[0]}'
        return None

    def reopen(self):
        """A new process opens it"""
        import marcel.exception as ex
        import marcel.object.workspace as w
        holders = self.live_holders()
        ws = w.Workspace('w1')
        try:
            ws.open(self.env)
        except ex.KillCommandException as e:
            return None if holders else f'afterwards: {e}'
        if holders:
            return f'afterwards: opened by another process, although open in process {holders[0]}'
        v = ws.getvar('v')
        return None if v in self.expected() else f'afterwards: v is {v}, expected {self.expected()}'


ENV = None
TEMPLATE = None


def prepare():
    global ENV, TEMPLATE
    TEMPLATE = os.path.join(rt.scratch_home(), 't')
    rt.fresh_home(TEMPLATE)
    c = rt.CLI()
    ENV = c.env
    import marcel.object.workspace as w
    ws = w.Workspace('w1')
    ws.create()
    ws.open(ENV)
    ws.setvar('v', 0)
    ws.close(ENV, False)
    os.chdir(rt.scratch_home())


def one(rec, shard, schedule):
    """Run one schedule. -> (message, decisions)"""
    scripts, start, kill = shard
    world = World(TEMPLATE, os.path.join(rt.scratch_home(), 'h'), scripts, start)
    run = world.run

    def on_state():
        try:
            files = tuple(sorted(os.listdir(world.config)))
        except OSError:
            files = ()
        rec.state((shard[:2], files, tuple(a.position() for a in run.actors)))
        rec.transition()

    decisions = run.execute(schedule, allow_kill=kill, on_state=on_state, on_kill=world.killed)
    m = world.finish(scripts, start)
    if m is None and not world.deleted and not any('d' in scripts[a.index] for a in run.actors if a.killed):
        run.as_process(4100009)
        try:
            m = world.reopen()
        finally:
            run.as_process(None)
    return m, decisions, (world.opens, world.deleted, tuple(world.holder), world.value, tuple(world.refusals))


def explore(rec, shard, tier):
    prepare()

    def run(schedule):
        res = {}

        def body():
            m, res['d'], res['o'] = one(rec, shard, schedule)
            return m if m else (res['o'], res['o'])
        rec.check((*shard, list(schedule)), body, timeout=30)
        return res['d']

    explore_schedules(run, bound(shard, tier))


def replay(rec, case):
    prepare()
    *shard, schedule = case
    rec.check(case, lambda: one(rec, tuple(shard), schedule)[0], timeout=30)
