"""The current directory and the directory stack: explicit-state exploration."""
import collections
import os
import shutil

from mc import rt

ID = 'C22'
LEVEL = 'model_checking'
RULE = ('all reachable states (directory stack, existing directories) up to a depth, each transition (cd, pushd, popd, dirs, pwd with all kinds of argument; directories deleted, recreated and made inaccessible meanwhile) '
        'executed on the real session from a shortest history, and all histories to a lesser depth, compared with a model; with ordinary user permissions')
BOUNDS = {'quick': '51 commands, all states within 4 commands, all histories of 3', 'thorough': 'all states within 6 commands, all histories of 4'}
ASSUMPTIONS = ['After the current directory itself has been deleted, only consistency is required']
PROP = dict(
    title='The current directory and the directory stack behave as documented',
    statement='cd, pushd and popd change to exactly the directory specified (absolute, relative, home, through links and patterns), and dirs lists the stack, top first, with the current directory at the top; pushing, popping, swapping and clearing have stack semantics. '
              'A command that is refused (missing, ambiguous or inaccessible directory) changes nothing. Directories that have become inaccessible are removed from the stack, with a message, and the others are kept in order; external programs and relative file names always see the same current directory as marcel does.',
    over=['histories of commands', 'changes of directories'],
    text='all states reachable by 4 (or 6) commands, all histories of 3 (or 4)',
    why='Tests run one fixed history of each command, with directories that always exist.',
    files=['marcel/directorystate.py', 'marcel/op/cd.py', 'marcel/op/pushd.py', 'marcel/op/popd.py', 'marcel/op/dirs.py', 'marcel/op/pwd.py', 'marcel/op/filenames.py'],
    mechanism=[('directory stack', 'marcel/directorystate.py: DirectoryState'), ('arguments', 'marcel/op/filenames.py: Filenames')],
    observe=['output of dirs and pwd', 'current directory of the process', 'error output'],
    technique='explicit-state exploration of the real commands against a reference model',
    level_note='All states and histories within the bounds on the real code and real directories.')

# Directories below the home directory; link -> a; nox has no execute permission
TREE = ['a', 'a/s', 'b', 'nox', 'd e']
ARGS = ['a', 'b', 's', '..', '.', '~', '~/b', 'link', 'missing', 'file', '?', 'a*', 'nox', 'nox/x', 'a/s/..', "'d e'", '{home}/a/s', './a/../b', "(HOME + '/b')"]
LETTERS = ([('cd',)] + [('cd', x) for x in ARGS] + [('pushd',)] + [('pushd', x) for x in ARGS] +
           [('popd',), ('dirs',), ('dirs', '-c'), ('pwd',), ('rm', 'a'), ('rm', 's'), ('rm', 'b'), ('new',), ('lock', 'b'), ('unlock', 'b')])
# state: (stack relative to home, bottom first; existing directories; locked)
START = (('',), frozenset(TREE), frozenset(['nox']))


class Unspec(Exception):
    pass


def exists(state, d):
    return d == '' or d in state[1]


def accessible(state, d):
    return exists(state, d) and d not in state[2]


def resolve(cwd, arg, dirs):
    """-> list of matches, relative to home, or None if outside of it"""
    names = sorted(set(d.split('/')[0] for d in dirs) | {'link', 'file'})
    if arg in ('~',):
        return ['']
    if arg in ('~/b', "(HOME + '/b')"):
        return ['b'] if 'b' in dirs else []
    if arg == '{home}/a/s':
        return ['a/s'] if 'a/s' in dirs else []
    if arg == '.':
        return [cwd]
    if arg == '..':
        return [None] if cwd == '' else [os.path.dirname(cwd)]
    if arg == 'nox/x':
        return []
    if arg == 'a/s/..':
        return [os.path.join(cwd, 'a')] if cwd == '' and 'a' in dirs else []
    arg = {'./a/../b': 'b', "'d e'": 'd e'}.get(arg, arg)
    def children(d):
        if d == '':
            return names
        return [x[len(d) + 1:] for x in dirs if os.path.dirname(x) == d]
    if arg in ('?', 'a*'):
        return [os.path.join(cwd, n) for n in children(cwd) if (len(n) == 1 if arg == '?' else n.startswith('a'))]
    if arg in children(cwd):
        if arg == 'link':
            return ['a'] if 'a' in dirs else []
        return [os.path.join(cwd, arg)]
    return []


def clean(state):
    stack = tuple(d for d in state[0] if accessible(state, d))
    return (stack, state[1], state[2]), len(stack) != len(state[0])


def step(state, letter):
    """-> (new state, output or None, refused, removed)"""
    stack, dirs, locked = state
    what = letter[0]
    if what == 'rm':
        if letter[1] == 's':
            return (stack, dirs - {'a/s'}, locked), None, False, False
        return (stack, frozenset(d for d in dirs if d != letter[1] and not d.startswith(letter[1] + '/')), locked - {letter[1]}), None, False, False
    if what == 'new':
        if not exists(state, stack[-1]):
            raise Unspec()
        return (stack, frozenset(TREE), locked), None, False, False
    if what == 'lock':
        return (stack, dirs, locked | {letter[1]} if letter[1] in dirs else locked), None, False, False
    if what == 'unlock':
        return (stack, dirs, locked - {letter[1]}), None, False, False
    if not accessible(state, stack[-1]):
        raise Unspec()
    state, removed = clean(state)
    stack = state[0]
    if what in ('dirs', 'pwd'):
        if what == 'pwd':
            return state, [stack[-1]], False, removed
        if len(letter) > 1:
            state = ((stack[-1],), dirs, locked)
        return state, list(reversed(state[0])), False, removed
    if what == 'popd':
        if len(stack) > 1:
            state = (stack[:-1], dirs, locked)
        return state, list(reversed(state[0])), False, removed
    if what == 'pushd' and len(letter) == 1:
        if len(stack) > 1:
            state = (stack[:-2] + (stack[-1], stack[-2]), dirs, locked)
        return state, list(reversed(state[0])), False, removed
    matches = resolve(stack[-1], letter[1], dirs) if len(letter) > 1 else ['']
    if len(matches) != 1 or matches[0] == 'file':
        return state, [], True, removed
    d = matches[0]
    if d is None:
        raise Unspec()          # Above the home directory
    d = 'a' if d == 'link' else d
    if not accessible(state, d):
        return state, [], True, removed
    if what == 'cd':
        return (stack[:-1] + (d,), dirs, locked), [], False, removed
    state = (stack + (d,), dirs, locked)
    return state, list(reversed(state[0])), False, removed


class Rig:

    def __init__(self):
        rt.fresh_home(os.path.join(rt.scratch_home(), 'h'))
        self.home = os.path.realpath(os.environ['HOME'])
        self.work = os.path.join(self.home, 'w')
        self.cli = None

    def reset(self):
        """Initial state. Commands run in a home directory of their own"""
        if self.cli is None:
            self.cli = rt.CLI()
        os.chdir(self.home)
        if os.path.exists(self.work):
            for d in ('nox', 'b'):
                if os.path.exists(f'{self.work}/{d}'):
                    os.chmod(f'{self.work}/{d}', 0o700)
            shutil.rmtree(self.work)
        os.mkdir(self.work)
        for d in TREE:
            os.mkdir(f'{self.work}/{d}')
        os.symlink('a', f'{self.work}/link')
        open(f'{self.work}/file', 'w').close()
        os.chmod(f'{self.work}/nox', 0o600)
        os.environ['HOME'] = self.work
        self.cli.env.setvar('HOME', self.work)
        os.chdir(self.work)
        self.cli.env.assign_permanent('PWD', self.work)
        self.cli.env.assign_permanent('DIRS', [self.work])

    def text(self, letter):
        return ' '.join(letter).replace('{home}', self.work)

    def full(self, d):
        return self.work + '/' + d if d else self.work

    def apply(self, letter, new, old):
        """-> (output, error) of a command"""
        what = letter[0]
        if what == 'rm':
            for d in ([letter[1]] if letter[1] != 's' else ['a/s']):
                p = self.full(d)
                if os.path.exists(p):
                    os.chmod(p, 0o700)
                    shutil.rmtree(p)
        elif what == 'new':
            for d in TREE:
                if not os.path.exists(self.full(d)):
                    os.mkdir(self.full(d), 0o600 if d in new[2] else 0o700)
        elif what in ('lock', 'unlock'):
            if os.path.exists(self.full(letter[1])):
                os.chmod(self.full(letter[1]), 0o600 if what == 'lock' else 0o700)
        else:
            return self.cli.run(self.text(letter))
        return None

    def observe(self):
        cwd = os.getcwd()
        return cwd

    def judge(self, letter, old, expected, got):
        new, output, refused, removed = expected
        if output is None:
            return None
        out, err, exc = got
        if exc:
            return f'ends the session: {exc}'
        if letter == ('dirs', '-c'):
            removed = bool(err)         # All are removed, on request
        if (refused or removed) != bool(err):
            return f'error output {err!r}, expected {"a message" if refused or removed else "none"}'
        if removed:
            gone = {self.full(d) for d in old[0] if not accessible(old, d)}
            listed = set(err.split('accessible:')[-1].split('\n')) if 'accessible:' in err else set()
            if 'accessible:' not in err or not gone <= listed:
                return f'removed {gone}: message {err!r}'
        got_out = [x[x.find(self.work):] if self.work in x else x for x in out.splitlines()]         # Without file modes etc.
        if letter[0] in ('pwd', 'dirs', 'pushd', 'popd') and not refused:
            if sorted(got_out) and got_out != [self.shown(d) for d in output]:
                return f'output {got_out}, expected {output}'
            if len(got_out) != len(output):
                return f'output {got_out}, expected {output}'
        elif got_out:
            return f'output {got_out}'
        # All consistent?
        try:
            os.getcwd()
        except OSError as e:
            return f'current directory of the process: {e}, expected {self.full(new[0][-1])}'
        if os.getcwd() != self.full(new[0][-1]):
            return f'current directory of the process: {os.getcwd()}, expected {self.full(new[0][-1])}'
        if str(self.cli.env.getvar('PWD')) != self.full(new[0][-1]):
            return f'PWD is {self.cli.env.getvar("PWD")}, expected {self.full(new[0][-1])}'
        return None

    def shown(self, d):
        return self.full(d)

    def listing(self, state):
        """The stack, after the last command"""
        if not accessible(state, state[0][-1]):
            # Anything, but no crash, and things work again after cd
            for c in ('dirs', 'pwd', 'cd ~', 'pwd', 'dirs'):
                o, e, x = self.cli.run(c)
                if x:
                    return f'current directory deleted, then {c} ends the session: {x}'
            if os.getcwd() != self.work or not o.splitlines()[0].endswith(self.work):
                return f'current directory deleted, then cd, dirs: {o, e}, process in {os.getcwd()}'
            return None
        expected = step(state, ('dirs',))
        got = self.cli.run('dirs')
        return self.judge(('dirs',), state, expected, got)


def run_history(rig, history):
    rig.reset()
    state = START
    for i, l in enumerate(history):
        try:
            expected = step(state, l)
        except Unspec:
            got = rig.apply(l, state, state)
            if got and got[2]:
                return f'after {history[:i]}: {l}: ends the session: {got[2]}', None
            return None, None
        got = rig.apply(l, expected[0], state)
        m = rig.judge(l, state, expected, got)
        if m:
            return f'{" ; ".join(" ".join(x) for x in history[:i + 1])}: {m}', None
        state = expected[0]
    m = rig.listing(state)
    return (m and f'{" ; ".join(" ".join(x) for x in history)} ; dirs: {m}'), state


def outcome(rig, history):
    m, state = run_history(rig, history)
    return m or (state, state)


def all_states(depth):
    """state -> shortest history"""
    seen = {START: ()}
    todo = collections.deque([START])
    while todo:
        s = todo.popleft()
        if len(seen[s]) == depth:
            continue
        for l in LETTERS:
            try:
                new = step(s, l)[0]
            except Unspec:
                continue
            if new not in seen:
                seen[new] = seen[s] + (l,)
                todo.append(new)
    return seen


def shards(tier):
    return [('s', i, 24) for i in range(24)] + [('h', i) for i in range(len(LETTERS))]


def explore(rec, shard, tier):
    rt.unprivileged()
    rig = Rig()
    if shard[0] == 's':
        states = all_states(3 if tier == 'quick' else 5)
        for j, (s, history) in enumerate(states.items()):
            if j % shard[2] == shard[1]:
                rec.state(s)
                for l in LETTERS:
                    rec.transition()
                    rec.check(('h', history + (l,)), lambda: outcome(rig, history + (l,)))
        return
    depth = 3 if tier == 'quick' else 4

    def extend(history, state):
        for l in LETTERS:
            h = history + (l,)
            try:
                new = step(state, l)[0]
            except Unspec:
                continue
            if len(h) == depth:
                rec.check(('h', h), lambda: outcome(rig, h))
                rec.transition(depth)
            elif new != state or l[0] != 'cd':
                extend(h, new)
    try:
        extend((LETTERS[shard[1]],), step(START, LETTERS[shard[1]])[0])
    except Unspec:
        pass


def replay(rec, case):
    rt.unprivileged()
    rig = Rig()
    rec.check(case, lambda: outcome(rig, tuple(tuple(x) for x in case[1])))
