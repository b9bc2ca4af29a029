"""A crash at any point of any command that changes saved state."""
import os
import re
import shutil
from mc import crash, rt

ID = 'C14'
LEVEL = 'model_checking'
RULE = ('for each saved state and each command that changes saved files: the process is killed before each of its file system changes, and halfway through each of its writes; then a new session starts and '
        'examines everything saved; state = files left behind, transition = file system change; double crashes: the session recovering is killed at each of its changes as well')
BOUNDS = {'quick': 'all crash points of every command in every history; crashes of the recovering session at every point, after every crash point of workspace creation, deletion, saving and first startup',
          'thorough': 'all pairs of crash points (command, recovery)'}
ASSUMPTIONS = ['The process is killed; the system is not (what was written before is kept, in order)', 'Streams are stored directly in their files: a crash while storing may cut a stream short',
               'A workspace being created or deleted at the time of the crash may be set aside as damaged']
PROP = dict(
    title='A crash at any moment loses at most the changes since the last save',
    statement='If marcel is killed at any moment, the next session starts normally, and every workspace opens with either all of its variables from before the interrupted save, or all from after it; '
              'other workspaces are unaffected. '
              'A workspace that was being created or deleted is complete, absent, or set aside as damaged, so that its name can be used again; a stream being stored may be cut short, but still loads up to the cut.',
    over=['crash points', 'torn writes', 'histories'],
    text='all crash points and cut writes of every command that changes saved state, and of the session recovering from the crash',
    why='Tests never kill marcel between two file system operations.',
    files=['marcel/object/workspace.py', 'marcel/main.py', 'marcel/op/ws.py', 'marcel/op/store.py', 'marcel/picklefile.py', 'marcel/reservoir.py', 'marcel/persistence/persistence.py', 'marcel/persistence/storagelayout.py', 'marcel/locations.py'],
    mechanism=[('saving', 'marcel/object/workspace.py: close, write_file, create_on_disk, delete'), ('recovery', 'marcel/persistence/persistence.py: validate_all; marcel/object/workspace.py: WorkspaceValidater')],
    observe=['startup messages, workspaces and variables seen by a session started after the crash'],
    technique='exhaustive enumeration of crash points (and cut writes) of the real code under a fault injector, with a recovering session after each',
    level_note='Every crash point of the explored commands, on real files. Trusts the injector to see every change (os and open functions of Python).')

BIG = "'" + 'x' * 20000 + "'"
OLD = ['a = (1)', 'f = (lambda x: (x, a))', 'gen 2 7 >$ s', f'big = ({BIG})', "d = ('deleted later')"]
CHANGES = ['a = (2)', 'b = (3)', 'f = (lambda x: (x, x))', 'env -d d', f'big = ({BIG} * 2)']
PROBES = ['env a', 'env b', 'env d', '(f(5))', '(big.count("x"))']
V_OLD = ["('a', 1)", 'undefined', "('d', 'deleted later')", '(5, 1)', '20000']
V_NEW = ["('a', 2)", "('b', 3)", 'undefined', '(5, 5)', '40000']
V_NONE = ['undefined'] * 3
DAMAGE = re.compile(r'Damaged workspaces have been detected: (\[.*?\])')


def start(workspace=None):
    """As bin/marcel does."""
    import marcel.persistence.storagelayout as sl
    rt.reset_default_workspace()
    sl.ensure_current(testing=False)
    return rt.CLI(workspace=workspace)


class Scenario:
    def __init__(self, name, history, command, w1=('old',), s=('old',), fragile=(), w2=('w2',)):
        self.name, self.history, self.command = name, history, command
        self.w1, self.s, self.fragile, self.w2 = w1, s, fragile, w2


BASE = ['ws -n w2', "z = ('w2')", 'ws -c', 'ws -n w1', *OLD, 'ws -c']
OPEN = BASE + ['ws -o w1']
CHANGED = OPEN + CHANGES
BOTH = ('old', 'new')
SCENARIOS = [
    Scenario('first startup', None, 'START', w1=('absent',), w2=('absent',)),
    Scenario('startup', BASE, 'START'),
    Scenario('create', BASE, 'ws -n w3', fragile=('w3',)),
    Scenario('create, leaving a workspace', CHANGED, 'ws -n w3', w1=BOTH, fragile=('w3',)),
    Scenario('first workspace', [], 'ws -n w3', w1=('absent',), w2=('absent',), fragile=('w3',)),
    Scenario('open', BASE, 'ws -o w1'),
    Scenario('close', CHANGED, 'ws -c', w1=BOTH),
    Scenario('close unchanged', OPEN, 'ws -c'),
    Scenario('switch', CHANGED, 'ws -o w2', w1=BOTH),
    Scenario('exit', CHANGED, 'EXIT', w1=BOTH),
    Scenario('exit default', BASE + ['q = (1)', 'gen 3 >$ r'], 'EXIT'),
    Scenario('restart', CHANGED, 'RESTART', w1=BOTH),
    Scenario('delete other', OPEN, 'ws -d w2', fragile=('w2',), w2=('w2', 'absent')),
    Scenario('delete', BASE, 'ws -d w1', fragile=('w1',), w1=('old', 'absent')),
    Scenario('home', CHANGED, 'ws -h /tmp'),
    Scenario('store', OPEN, 'gen 3 >$ s', s=('old', 'prefix')),
    Scenario('append', OPEN, 'gen 3 >>$ s', s=('old', 'append')),
    Scenario('store variable', OPEN, 'gen 3 >$ t'),
    Scenario('replace stream', OPEN, 's = (5)', s=('old', 'gone')),
    Scenario('delete stream', OPEN, 'env -d s', s=('old', 'gone')),
    Scenario('assign', OPEN, 'a = (2)'),
    Scenario('delete variable', OPEN, 'env -d d'),
    Scenario('delete broken', 'broken', 'ws -b'),
    Scenario('quarantine', 'damage', 'START', fragile=('w3',)),
    Scenario('abandoned', 'abandoned', 'START'),
]


def build(sc):
    """Saved state, and a session in this process (with a pid that does not exist)."""
    os.getpid = lambda: crash.FAKE_PID
    if sc.history is None:
        return None
    c = start()
    steps = sc.history
    if sc.history in ('broken', 'damage', 'abandoned'):
        steps = BASE + ['ws -n w3', "y = ('w3')", 'ws -c']
    if sc.history == 'abandoned':
        # A session that was killed while it owned a workspace, and had stored streams.
        steps = BASE + ['gen 3 >$ r', 'ws -o w1', 'gen 3 >$ t']
    for x in steps:
        o, e, ex = c.run(x)
        assert not e and not ex, (sc.name, x, e, ex)
    if sc.history in ('broken', 'damage'):
        home = os.environ['HOME']
        shutil.rmtree(f'{home}/.local/share/marcel/workspace/w3/reservoirs')
    if sc.history == 'broken':
        with rt.captured():
            c.close()
            c = start()
    return c


def perform(sc, c):
    if sc.command == 'START':
        with rt.captured():
            start()
    elif sc.command == 'EXIT':
        c.close()
    elif sc.command == 'RESTART':
        with rt.captured():
            c.main.shutdown(restart=True)
            c._open(c.env.workspace)
    else:
        c.run(sc.command)


class Bad(Exception):
    pass


def recover(sc):
    """A new session, after the crash. Raises Bad. -> what was found"""
    found = []

    def session(fragile):
        with rt.captured() as (o, e):
            try:
                c = start()
            except BaseException as x:
                raise Bad(f'marcel does not start: {type(x).__name__}: {x}')
        for names in DAMAGE.findall(e.getvalue()):
            for n in eval(names):
                if n not in fragile:
                    raise Bad(f'reported as damaged: {n or "default workspace"}: {e.getvalue()[-300:]}')
                found.append(f'damaged {n}')
        if e.getvalue() and not DAMAGE.search(e.getvalue()):
            raise Bad(f'startup message: {e.getvalue()}')
        return c

    def run(c, cmd):
        o, e, x = c.run(cmd)
        if x:
            raise Bad(f'{cmd}: {x}')
        return o, e

    def value(c, cmd):
        o, e = run(c, cmd)
        if 'is undefined' in e:
            return 'undefined'
        if e:
            raise Bad(f'{cmd}: {e}')
        return o.strip()

    c = session(sc.fragile)
    o, e = run(c, 'ws -l')
    names = [x[10:-1].split(' @ ')[0] for x in o.split('\n') if x.startswith('Workspace(')]
    if e or '' not in names:
        raise Bad(f'ws -l: {o} {e}')
    found.append(sorted(names))
    for w, allowed in (('w1', sc.w1), ('w2', sc.w2)):
        if w not in names:
            if 'absent' not in allowed and w not in sc.fragile:
                raise Bad(f'{w} is missing')
            continue
        o, e = run(c, f'ws -o {w}')
        if e or not o.startswith(f'Workspace({w}'):
            raise Bad(f'{w} cannot be opened: {o} {e}')
        if w == 'w2':
            if value(c, 'env z') != "('z', 'w2')":
                raise Bad(f'z in w2: {value(c, "env z")}')
        else:
            got = [value(c, p) for p in PROBES]
            which = 'old' if got == V_OLD else 'new' if got == V_NEW else None
            if which not in allowed:
                raise Bad(f'w1 has {got}, expected {allowed}')
            found.append(which)
            o, e = run(c, 'load s')
            got = o.split()
            items = [x for x in got if x.isdigit()]
            error = e or [x for x in o.split('\n') if x.startswith('Error')]
            ok = {'old': items == ['7', '8'] and not error,
                  'prefix': items == ['0', '1', '2'][:len(items)],
                  'append': items == ['7', '8', '0', '1', '2'][:len(items)] and len(items) >= 2,
                  'gone': not items}
            if not any(ok[s] for s in sc.s):
                raise Bad(f'load s: {o} {e}, expected {sc.s}')
            found.append((items, bool(error)))
            # The name of a stream that was lost is free.
            if value(c, 'env t') == 'undefined':
                run(c, 'gen 1 5 >>$ t')
                if run(c, 'load t') != ('5\n', ''):
                    raise Bad(f'stream stored in a new variable: {run(c, "load t")}')
                run(c, 'env -d t')
            o, e = run(c, 'gen 2 3 >$ s')
            if e or run(c, 'load s') != ('3\n4\n', ''):
                raise Bad(f'storing to s after the crash: {e} {run(c, "load s")}')
        o, e = run(c, 'ws -c')
        if e:
            raise Bad(f'closing {w}: {e}')
    if 'w3' in sc.fragile or sc.name == 'first startup':
        o, e = run(c, 'ws -n w3')
        if 'w3' in names:
            if 'already exists' not in e:
                raise Bad(f'ws -n w3, which exists: {o} {e}')
            o, e = run(c, 'ws -o w3')
        if e or not o.startswith('Workspace(w3'):
            raise Bad(f'w3 cannot be created or opened: {o} {e}')
        run(c, 'ws -c')
    for w in sc.fragile:
        if w != 'w3' and w not in names:
            o, e = run(c, f'ws -n {w}')
            if e or not o.startswith(f'Workspace({w}'):
                raise Bad(f'{w} cannot be created again: {o} {e}')
            run(c, 'ws -c')
    c.close()
    c = session(())        # Whatever was damaged has been dealt with.
    c.close()
    left = []
    for d, dirs, files in os.walk(os.environ['HOME']):
        if '/broken' in d:
            continue
        left += [f for f in files if str(crash.FAKE_PID) in f or f.endswith('.new')]
    if left:
        raise Bad(f'left behind: {left}')
    return found


def run_case(rec, sc, c, snap, home, at, variant, at2, variant2):
    def body():
        crash.restore(snap, home)

        def victim():
            crash.Injector(home, at, variant).install()
            perform(sc, c)
            os._exit(crash.EXIT)
        status, value = crash.in_child(victim)
        if status != crash.EXIT:
            return f'the command failed, exit status {status}: {value}'
        if at2 is not None:
            def second():
                crash.Injector(home, at2, variant2).install()
                os.getpid = lambda: crash.FAKE_PID
                with rt.captured():
                    c2 = start()
                    if sc.w1 != ('absent',) and 'w1' not in sc.fragile:
                        c2.run('ws -o w1')
                        c2.run('ws -c')
                os._exit(crash.EXIT)
            status, value = crash.in_child(second)
            if status != crash.EXIT:
                return f'recovery failed, exit status {status}: {value}'

        def survivor():
            os.getpid = REAL
            try:
                return 'ok', recover(sc)
            except Bad as e:
                return 'bad', str(e)
        status, value = crash.in_child(survivor)
        if status != 0:
            return f'recovery failed, exit status {status}: {value}'
        if value[0] == 'bad':
            return value[1]
        return (repr((sc.name, value[1])),) * 2
    rec.check((sc.name, at, variant, at2, variant2), body)


REAL = os.getpid


def crash_points(sc, c, snap, home):
    """-> [(number, variant, label)] of the command, without a crash at the end"""
    crash.restore(snap, home)

    def victim():
        i = crash.Injector(home)
        i.install()
        perform(sc, c)
        return i.log
    status, log = crash.in_child(victim)
    if status != 0:
        raise RuntimeError(f'{sc.name}: {status} {log}')
    return points(log)


def points(log):
    out = []
    for n, (label, is_write) in enumerate(log):
        out.append((n, 'before', label))
        if is_write:
            out.append((n, 'half', label))
    return out


def second_points(sc, c, snap, home, at, variant):
    crash.restore(snap, home)

    def victim():
        crash.Injector(home, at, variant).install()
        perform(sc, c)
        os._exit(crash.EXIT)
    crash.in_child(victim)

    def second():
        i = crash.Injector(home)
        i.install()
        os.getpid = lambda: crash.FAKE_PID
        with rt.captured():
            try:
                c2 = start()
                if sc.w1 != ('absent',) and 'w1' not in sc.fragile:
                    c2.run('ws -o w1')
                    c2.run('ws -c')
            except BaseException:
                pass     # reported by the single crash
        return i.log
    status, log = crash.in_child(second)
    return points(log) if status == 0 else []


DOUBLE = ['first startup', 'create', 'close', 'delete other', 'quarantine', 'abandoned']


def prepare(sc):
    home = os.path.join(rt.scratch_home(), 'h')
    shutil.rmtree(home, ignore_errors=True)
    rt.fresh_home(home)
    c = build(sc)
    snap = os.path.join(rt.scratch_home(), 'snap')
    crash.snapshot(home, snap)
    return c, snap, home


def shards(tier):
    out = []
    for sc in SCENARIOS:
        out.append((sc.name, 0, 1, False))
    for sc in SCENARIOS:
        if tier != 'quick' or sc.name in DOUBLE:
            out += [(sc.name, i, 8, True) for i in range(8)]
    return out


def explore(rec, shard, tier):
    name, i, n, double = shard
    sc = next(s for s in SCENARIOS if s.name == name)
    c, snap, home = prepare(sc)
    pts = crash_points(sc, c, snap, home)
    if not double:
        for at, variant, label in pts + [(None, 'before', 'end')]:
            rec.state((name, at, variant))
            rec.transition()
            run_case(rec, sc, c, snap, home, at, variant, None, None)
        return
    for k, (at, variant, label) in enumerate(pts):
        if k % n != i:
            continue
        for at2, variant2, label2 in second_points(sc, c, snap, home, at, variant):
            rec.state((name, at, variant, at2, variant2))
            rec.transition()
            run_case(rec, sc, c, snap, home, at, variant, at2, variant2)


def replay(rec, case):
    name, at, variant, at2, variant2 = case
    sc = next(s for s in SCENARIOS if s.name == name)
    c, snap, home = prepare(sc)
    run_case(rec, sc, c, snap, home, at, variant, at2, variant2)
