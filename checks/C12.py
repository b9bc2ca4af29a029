"""Workspace life cycle with two concurrent sessions, one of which may be killed."""
import itertools
import os
import shutil
from mc import rt
from mc.sessions import Session, SessionDied

ID = 'C12'
LEVEL = 'model_checking'
RULE = ('every sequence of workspace operations by two real interactive sessions (separate processes; create, open, close, delete, assign, clean restart, kill -9) up to the bound, '
        'modulo swapping sessions and names; after every operation the result, and at the end current workspace, list of workspaces and variables of both sessions are compared '
        'to the model, and the lock files on disk; state = model state, transition = operation')
BOUNDS = {'quick': '24 operations (12 per session) over 2 names, sequences up to length 3 (modulo symmetry), and length 4, 5 from each distinct model state by one shortest history',
          'thorough': 'sequences up to length 4 (modulo symmetry); from each distinct model state every operation, up to length 7'}
ASSUMPTIONS = ['Operations of the two sessions do not overlap in time (see C13 for overlapping ones)']
PROP = dict(
    title='Workspaces: create, open, close and delete behave as documented across sessions',
    statement='A workspace exists from its creation until its deletion, is listed exactly once meanwhile, and keeps its own variables as of its last close, whichever session opens it. '
              'Creating an existing workspace, opening or deleting a missing one, deleting the current one, and opening or deleting one that is open in another live session, are refused with a message and change nothing. '
              'A session ended in any way, including being killed, does not prevent others from opening or deleting the workspace it had open.',
    over=['histories', 'processes', 'crashes'],
    text='all interleavings of workspace operations by several sessions, with sessions killed at any point between operations',
    why='Tests use one process. Locking matters only with several, and recovery only after a crash.',
    files=['marcel/object/workspace.py', 'marcel/op/ws.py', 'marcel/main.py', 'marcel/locations.py', 'marcel/persistence/persistence.py'],
    mechanism=[('locking', 'marcel/object/workspace.py: lock_workspace, unlock_workspace, owner, Marker'), ('life cycle', 'marcel/object/workspace.py: create, open, close, delete'),
               ('switching', 'marcel/main.py: main_interactive_run')],
    observe=['output and messages of ws, env; files of the workspaces'],
    technique='bounded-exhaustive exploration of operation sequences of two real processes against a model of workspaces',
    level_note='All sequences within the bounds (modulo symmetry) run as real processes. Trusts the model.')

NAMES = ['w1', 'w2']
OPS = [('new', 'w1'), ('new', 'w2'), ('open', 'w1'), ('open', 'w2'), ('close',), ('delete', 'w1'), ('delete', 'w2'), ('set', '1'), ('set', '2'), ('unset',), ('restart',), ('kill',)]
LETTERS = [(s, *op) for s in 'AB' for op in OPS]


def initial():
    return {'ws': {}, 'cur': {'A': '', 'B': ''}, 'live': {'A': None, 'B': None}, 'dflt': {'A': None, 'B': None}, 'down': ''}


def key(m):
    return repr(m)


def step(m, letter):
    """-> (new state, expected outcome)"""
    import copy
    m = copy.deepcopy(m)
    s, op, *arg = letter
    other = 'B' if s == 'A' else 'A'
    cur = m['cur'][s]
    m['down'] = m['down'].replace(s, '')

    def leave():
        if cur:
            m['ws'][cur] = m['live'][s]
        else:
            m['dflt'][s] = m['live'][s]

    def enter(n):
        m['cur'][s] = n
        m['live'][s] = m['ws'][n] if n else m['dflt'][s]
    if op == 'new':
        n = arg[0]
        if n in m['ws']:
            return m, ('err', 'already exists')
        leave(); m['ws'][n] = None; enter(n)
        return m, ('out', f'Workspace({n})')
    if op == 'open':
        n = arg[0]
        if n not in m['ws']:
            return m, ('err', 'There is no workspace')
        if n == cur:
            return m, ('out', None)
        if m['cur'][other] == n:
            return m, ('err', 'in use by another process')
        leave(); enter(n)
        return m, ('out', f'Workspace({n})')
    if op == 'close':
        if not cur:
            return m, ('out', None)
        leave(); enter('')
        return m, ('out', 'Workspace()')
    if op == 'delete':
        n = arg[0]
        if n == cur:
            return m, ('err', 'cannot be deleted')
        if n not in m['ws']:
            return m, ('err', 'There is no workspace')
        if m['cur'][other] == n:
            return m, ('err', 'in use by another process')
        del m['ws'][n]
        return m, ('out', None)
    if op == 'set':
        m['live'][s] = arg[0]
        return m, ('out', None)
    if op == 'unset':
        v = m['live'][s]
        m['live'][s] = None
        return m, ('out', f"('v', {v})" if v else None)
    if op in ('restart', 'kill'):
        if op == 'restart':
            leave()
        m['dflt'][s] = None
        m['cur'][s] = ''
        m['live'][s] = None
        if op == 'kill':
            # The next session starts when it has something to do. Until then, nothing cleans up.
            m['down'] = ''.join(sorted(m['down'] + s))
        return m, ('start', None)
    assert False


def command(letter):
    s, op, *arg = letter
    return {'new': 'ws -n {}', 'open': 'ws -o {}', 'close': 'ws -c', 'delete': 'ws -d {}', 'set': 'v = ({})', 'unset': 'env -d v'}[op].format(*arg)


def canonical(seq):
    """Least of the images under swapping sessions / names / values"""
    def img(seq, f):
        return tuple((f.get(x[0], x[0]), x[1], *(f.get(a, a) for a in x[2:])) for x in seq)
    maps = []
    for a, b, c in itertools.product((0, 1), repeat=3):
        f = {}
        if a:
            f.update({'A': 'B', 'B': 'A'})
        if b:
            f.update({'w1': 'w2', 'w2': 'w1'})
        if c:
            f.update({'1': '2', '2': '1'})
        maps.append(f)
    return min(img(seq, f) for f in maps) == tuple(seq)


def disk(m, pids):
    """Expected lock files"""
    out = {}
    for n in m['ws']:
        owner = [s for s in 'AB' if m['cur'][s] == n]
        out[n] = {'startup.py', '.WORKSPACE' + (f'.{pids[owner[0]]}' if owner else '')}
    return out


def execute(rec, seq):
    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        rt.ensure_layout()
        ss = {}
        dead = []
        try:
            for s in 'AB':
                ss[s] = Session()
            for s in 'AB':
                ss[s].ready()
            m = initial()
            for i, x in enumerate(seq):
                rec.transition()
                m, (kind, text) = step(m, x)
                s, op = x[:2]
                if s not in ss:
                    ss[s] = Session()
                    err = ss[s].ready()
                    if 'Damaged' in err or 'Error' in err:
                        return f'step {i}: startup: {err!r}'
                if kind == 'start':
                    if op == 'kill':
                        dead.append(str(ss[s].pid))
                        ss.pop(s).kill()
                        continue
                    st = ss[s].exit()
                    if st != 0 or ss[s].last_errors.strip():
                        return f'step {i}: exit status {st}, {ss[s].last_errors!r}'
                    ss[s] = Session()
                    err = ss[s].ready()
                    if 'Damaged' in err or 'Error' in err:
                        return f'step {i}: startup: {err!r}'
                    continue
                out, err = ss[s].run(command(x))
                err = err.replace('Warning: Input is not a terminal (fd=0).\n', '').strip()
                if kind == 'err':
                    if out or text not in err:
                        return f'step {i}: {x}: output {out}, message {err!r}, expected message: {text}'
                elif (out, err) != ([text] if text else [], ''):
                    return f'step {i}: {x}: output {out}, message {err!r}, expected {text}'
            for s in 'AB':
                if s not in ss:
                    ss[s] = Session()
                    err = ss[s].ready()
                    if 'Damaged' in err or 'Error' in err:
                        return f'finally: startup: {err!r}'
                cur = m['cur'][s]
                out, err = ss[s].run('ws')
                if out != [f'Workspace({cur})']:
                    return f'session {s}: current workspace is {out}, expected {cur}'
                out, err = ss[s].run('ws -l')
                exp = ['Workspace()'] + [f'Workspace({n})' for n in sorted(m['ws'])]
                if out != exp:
                    return f'session {s}: workspaces are {out}, expected {exp}'
                out, err = ss[s].run('env v')
                v = m['live'][s]
                if (out != [f"('v', {v})"]) if v else (out or 'undefined' not in err):
                    return f'session {s}: v is {out} {err!r}, expected {v}'
            base = os.path.join(home, '.config/marcel/workspace')
            found = {n: set(os.listdir(os.path.join(base, n))) for n in os.listdir(base) if n != '__DEFAULT__'}
            # A lock of a process that was killed may remain until the workspace is used.
            for f in found.values():
                for d in dead:
                    if f'.WORKSPACE.{d}' in f:
                        f.remove(f'.WORKSPACE.{d}'); f.add('.WORKSPACE')
            exp = disk(m, {s: ss[s].pid for s in 'AB'})
            if found != exp:
                return f'files of workspaces: {found}, expected {exp}'
            data = os.path.join(home, '.local/share/marcel/workspace')
            if set(os.listdir(data)) != set(exp) | {'__DEFAULT__'}:
                return f'data directories: {os.listdir(data)}, expected {sorted(exp)}'
            # Both exit, then everything is as saved.
            for s in 'AB':
                if m['cur'][s]:
                    m['ws'][m['cur'][s]] = m['live'][s]
                if ss[s].exit() != 0 or ss[s].last_errors.strip():
                    return f'session {s}: exit: {ss[s].status}, {ss[s].last_errors!r}'
            ss = {'C': Session()}
            err = ss['C'].ready()
            for n, v in sorted(m['ws'].items()):
                o1 = ss['C'].run(f'ws -o {n}')
                o2 = ss['C'].run('env v')
                if o1[0] != [f'Workspace({n})'] or ((o2[0] != [f"('v', {v})"]) if v else (o2[0] or 'undefined' not in o2[1])):
                    return f'finally: {n} has {o1} {o2}, expected {v}'
            return key(m), key(m)
        except SessionDied as e:
            return f'session terminated: {str(e)[-400:]}'
        finally:
            for s in ss.values():
                s.kill()
            os.chdir(rt.scratch_home())
            shutil.rmtree(home, ignore_errors=True)
    rec.check([list(x) for x in seq], body, timeout=60)


def states(depth):
    """shortest history of each model state up to depth -> {key: history}"""
    m0 = initial()
    seen = {key(m0): ()}
    frontier = [(m0, ())]
    for _ in range(depth):
        nxt = []
        for m, h in frontier:
            for x in LETTERS:
                n, _o = step(m, x)
                if key(n) not in seen:
                    seen[key(n)] = h + (x,)
                    nxt.append((n, h + (x,)))
        frontier = nxt
    return seen


def sequences(tier):
    full, deep = (3, 4) if tier == 'quick' else (4, 6)
    seen = set()
    for n in range(1, full + 1):
        for s in itertools.product(LETTERS, repeat=n):
            if canonical(s):
                # Only the maximal ones need to be run for their steps, but the final checks differ.
                yield s
    for h in states(deep).values():
        if len(h) >= full:
            for x in LETTERS:
                s = h + (x,)
                if canonical(s):
                    yield s


# Names and home directories: one session, many names

LEGAL = ['w1', 'a b', '.x', '-w', 'é*', '...', '#', '__default__', 'n' * 255]
ILLEGAL = ['', '.', '..', '__DEFAULT__', 'w/1', 'w1/', '/w', '../w1', '../__DEFAULT__', './w1', 'n' * 256, 'é' * 128]
HOMES = [('x', '{home}/x'), ('/a/b', '/a/b'), ('~/y', '{home}/y'), ("'c d'", '{home}/c d'), ("(HOME + '/z')", '{home}/z'), ('~', '{home}')]


def quote(name, form):
    return "'" + name + "'" if form == 'quoted' else '(' + repr(name) + ')'


def name_command(x):
    op, *arg = x
    if op in ('new', 'open', 'bare', 'delete'):
        name, form = arg
        flag = {'new': '--new', 'open': '-o', 'bare': '', 'delete': '-d'}[op]
        return f'ws {flag} {quote(name, form)}'
    return {'close': 'ws -c', 'home': 'ws -h {}', 'set': 'v = ({})'}[op].format(*arg)


def name_sequences(tier):
    forms = ['quoted', 'expression']
    depth = 3 if tier == 'quick' else 4
    for name in LEGAL:
        for form in forms if tier != 'quick' or name in ('a b', '-w') else forms[:1]:
            letters = [('new', name, form), ('open', name, form), ('bare', name, form), ('delete', name, form), ('close',), ('restart',), ('set', '1'), ('home', 'x')]
            if name == '-w' and form == 'quoted':
                letters = [x for x in letters if x[0] != 'bare']
            for n in range(1, depth + 1):
                for s in itertools.product(letters, repeat=n):
                    if n == depth and (s[0][0] != 'new' or any(s[i] == s[i + 1] for i in range(n - 1))):
                        continue
                    yield s
    contexts = [(), (('new', 'w1', 'quoted'),), (('new', 'w1', 'quoted'), ('set', '1'), ('close',))]
    bad = [(op, name, form) for op in ('new', 'open', 'bare', 'delete') for name in ILLEGAL for form in forms]
    for c in contexts:
        for x in bad:
            yield c + (x,)
    homes = [('home', h) for h, _ in HOMES]
    for h in homes:
        for after in [(), (('close',), ('open', 'w1', 'quoted')), (('restart',), ('open', 'w1', 'quoted')), (('restart',),), (('new', 'w2', 'quoted'), homes[1]), (homes[0],)]:
            yield (('new', 'w1', 'quoted'), h) + after
            yield (h,) + after[:1]


def name_step(m, x, home):
    ws, cur = m['ws'], m['cur']
    op, *arg = x

    def shown(n):
        h = ws[n]['home'] if n else None
        return f'Workspace({n} @ {h})' if h else f'Workspace({n})'

    def enter(n):
        if cur:
            ws[cur]['saved'] = m['live']
        else:
            m['dflt'] = m['live']
        m['cur'] = n
        m['live'] = ws[n]['saved'] if n else m['dflt']
    if op == 'new':
        n = arg[0]
        if n in ILLEGAL:
            return ('err', 'must be usable as a legal filename')
        if n in ws:
            return ('err', 'already exists')
        ws[n] = {'home': None, 'saved': None}
        enter(n)
        return ('out', shown(n))
    if op in ('open', 'bare'):
        n = arg[0]
        if n not in ws:
            return ('err', 'There is no workspace named')
        if n == cur:
            return ('out', None)
        enter(n)
        return ('out', f'Workspace({n})')       # the home directory isn't known yet
    if op == 'close':
        if not cur:
            return ('out', None)
        enter('')
        return ('out', 'Workspace()')
    if op == 'delete':
        n = arg[0]
        if n == cur:
            return ('err', 'cannot be deleted')
        if n not in ws:
            return ('err', 'There is no workspace named')
        del ws[n]
        return ('out', None)
    if op == 'home':
        if not cur:
            return ('err', 'does not have a home directory')
        ws[cur]['home'] = dict(HOMES)[arg[0]].format(home=home)
        return ('out', shown(cur))
    if op == 'set':
        m['live'] = arg[0]
        return ('out', None)
    if op == 'restart':
        enter('')
        m['live'] = m['dflt'] = None
        return ('start', None)
    assert False, x


def execute_names(rec, seq):
    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        rt.ensure_layout()
        os.chdir(home)
        config, data = (os.path.join(home, d, 'marcel') for d in ('.config', '.local/share'))
        top = [set(os.listdir(d)) for d in (home, config, data)]
        m = {'ws': {}, 'cur': '', 'live': None, 'dflt': None}
        s = None
        try:
            s = Session()
            s.ready()
            for i, x in enumerate(seq):
                rec.transition()
                kind, text = name_step(m, x, home)
                if kind == 'start':
                    st = s.exit()
                    if st != 0 or s.last_errors.strip():
                        return f'step {i}: exit status {st}, {s.last_errors!r}'
                    s = Session()
                    err = s.ready()
                    if 'Damaged' in err or 'Error' in err:
                        return f'step {i}: startup: {err!r}'
                else:
                    out, err = s.run(name_command(x))
                    err = err.replace('Warning: Input is not a terminal (fd=0).\n', '').strip()
                    if kind == 'err':
                        # An empty name of the default workspace
                        if out or not (text in err or 'cannot be deleted' in err and x[1] == '' == m['cur']):
                            return f'step {i}: {x}: output {out}, message {err!r}, expected message: {text}'
                    elif (out, err) != ([text] if text else [], ''):
                        return f'step {i}: {x}: output {out}, message {err!r}, expected {text}'
            cur = m['cur']
            shown = [f"Workspace({n} @ {w['home']})" if w['home'] else f'Workspace({n})' for n, w in sorted(m['ws'].items())]
            got = [s.run('ws')[0], s.run('ws -l')[0], s.run('env v')[0], s.run('env WORKSPACE')[0]]
            exp = [[x for n, x in zip([''] + sorted(m['ws']), ['Workspace()'] + shown) if n == cur], ['Workspace()'] + shown,
                   [f"('v', {m['live']})"] if m['live'] else [], [f"('WORKSPACE', {cur!r})"]]
            if got != exp:
                return f'finally: ws, ws -l, env v, env WORKSPACE print {got}, expected {exp}'
            if s.exit() != 0 or s.last_errors.strip():
                return f'exit: {s.status}, {s.last_errors!r}'
            for d in (config, data):
                found = set(os.listdir(os.path.join(d, 'workspace')))
                if found != set(m['ws']) | {'__DEFAULT__'}:
                    return f'{d}: workspaces {found}, expected {set(m["ws"])}'
            if [set(os.listdir(d)) for d in (home, config, data)] != top:
                return f'other files: {[set(os.listdir(d)) for d in (home, config, data)]}, expected {top}'
            if not os.path.exists(os.path.join(config, 'workspace', '__DEFAULT__', 'startup.py')):
                return 'the default workspace is gone'
            return repr(m), repr(m)
        except SessionDied as e:
            return f'session terminated: {str(e)[-400:]}'
        finally:
            if s:
                s.kill()
            os.chdir(rt.scratch_home())
            shutil.rmtree(home, ignore_errors=True)
    rec.check(['names'] + [list(x) for x in seq], body, timeout=60)


def shards(tier):
    n = 24 if tier == 'quick' else 96
    k = 8 if tier == 'quick' else 32
    return [('names', i, k) for i in range(k)] + [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    if shard[0] == 'names':
        _, i, n = shard
        for k, seq in enumerate(name_sequences(tier)):
            if k % n == i:
                rec.state(repr(seq))
                execute_names(rec, seq)
        return
    i, n = shard
    for k, seq in enumerate(sequences(tier)):
        if k % n == i:
            m = initial()
            for x in seq:
                m, _ = step(m, x)
            rec.state(key(m))
            execute(rec, seq)


def replay(rec, case):
    if case[0] == 'names':
        execute_names(rec, tuple(tuple(x) for x in case[1:]))
    else:
        execute(rec, tuple(tuple(x) for x in case))
