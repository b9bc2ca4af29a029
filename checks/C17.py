"""Streams stored in variables: store, append, load."""
import itertools
import os
import shutil
from mc import rt

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('every sequence of the letters (streams of tricky values stored to or appended to a variable, copied between variables, loaded partially, refused or failing commands, deletion, '
        'assignment of another value, reopening the workspace) up to the bound; after it both variables are loaded twice, again in the reopened workspace, and then overwritten; '
        'state = model contents of the variables, transition = letter')
BOUNDS = {'quick': '30 letters; all sequences up to length 2; length 3 over a 20 letter core',
          'thorough': 'all sequences up to length 3; length 4 over a 12 letter core'}
ASSUMPTIONS = ['A variable holding a stream is not copied by assignment to another variable']
PROP = dict(
    title='A stream stored in a variable is loaded exactly as it was stored',
    statement='After any history of commands, loading a variable yields exactly the tuples stored since it was last overwritten, in order of storing and appending, with the values they had when they were stored, as often as it is loaded and also after reopening the workspace. '
              'Tuples that cannot be stored are reported as errors and the other ones are stored. '
              'Commands that are refused (storing into a stream being read, appending to another kind of value) or that fail leave the stored streams, and the ability to store and load, as they were.',
    over=['histories', 'values', 'restarts'],
    text='all histories of storing, appending, loading, deleting streams, for streams of any values',
    why='Tests store integers once or twice. Corruption depends on references between values across several appends, and on what earlier commands left open.',
    files=['marcel/picklefile.py', 'marcel/reservoir.py', 'marcel/op/store.py', 'marcel/op/load.py', 'marcel/object/workspace.py'],
    mechanism=[('stream files', 'marcel/picklefile.py: PickleFile, Reader, Writer'), ('operators', 'marcel/op/store.py, marcel/op/load.py'), ('deletion', 'marcel/object/workspace.py: setvar, delvar')],
    observe=['output of load after each history'],
    technique='bounded-exhaustive exploration of command histories of the real session against a model mapping variables to lists',
    level_note='All histories within the bounds run on the real code and real files. Trusts the list model.')

STARTUP = '''
from marcel.builtin import *
import collections
P = collections.namedtuple('P', ['x', 'y'])
def stream(k):
    s = ''.join(['x', 'y', str(k)])
    t = ''.join(['z', 'z', str(k)])
    acc = []
    d = {'n': 0}
    if k == 0:
        return
    elif k == 1:
        yield from [0, 1, 2]
    elif k == 2:
        yield from [(s, s), (s, [s, t]), (t, t)]
    elif k == 3:
        for i in range(3):
            acc.append(i)
            d['n'] = i
            yield acc, d
    elif k == 4:
        l = []
        yield from [None, ({'k': (1, [2.5, l]), 'l': l},), "it's", (), True, b'\\x00\\xff', 10 ** 30, ('', ''), (float('inf'), -0.0)]
    elif k == 5:
        yield from ['before', (x for x in []), 'after', (s, s)]
    elif k == 6:
        yield from [(s, t, s), (s, t, s)]
    elif k == 7:
        for i in range(40):
            yield (s, i, str(i) * i)
    elif k == 8:
        yield from [{1, 2}, frozenset([s]), (s, (s, (s, [s]))), 'ü\\n\\udc80']
    elif k == 9:
        yield from [s, t, s, t]
def show(*x):
    return repr(x)
'''
GEN = '(stream({})) | expand'


def values(k):
    """Tuples stored"""
    ns = {}
    exec(STARTUP.replace('from marcel.builtin import *', ''), ns)
    out = []
    for v in ns['stream'](k):
        if k == 5 and not isinstance(v, (str, tuple)):
            continue
        out.append(repr(v if isinstance(v, tuple) else (v,)))
    return out


VALUES = {k: values(k) for k in range(10)}


def put(v, k, append):
    def f(m):
        x = m.get(v)
        if append and x is not None and type(x) is not list:
            return True
        m[v] = (list(x) if append and x else []) + VALUES[k]
        return k == 5 and 'out'
    return f


def copy(a, b, append, n=None):
    def f(m):
        x = m.get(a)
        if type(x) is not list:
            return True
        if b is None:
            return
        y = m.get(b)
        if append and y is not None and type(y) is not list:
            return True
        m[b] = (list(y) if append and y else []) + x[:n]
    return f


def refuse(m):
    return True


def delete(v):
    def f(m):
        m.pop(v, None)
        return 'any'
    return f


def setval(v):
    def f(m):
        m[v] = 5
    return f


def args_append(m):
    if type(m.get('s')) not in (list, type(None)):
        return True
    m['s'] = (m.get('s') or []) + ['(1,)', '(2,)', '(2, 2)'][:2] * 1
    return


LETTERS = {}
for _k in range(10):
    LETTERS[GEN.format(_k) + ' >$ s'] = put('s', _k, False)
    LETTERS[GEN.format(_k) + ' >>$ s'] = put('s', _k, True)
LETTERS.update({
    GEN.format(1) + ' >>$ t': put('t', 1, True),
    GEN.format(2) + ' >$ t': put('t', 2, False),
    's <$ map (*x: x) >$ t': copy('s', 't', False),
    's <$ map (*x: x) >>$ t': copy('s', 't', True),
    't <$ map (*x: x) >>$ s': copy('t', 's', True),
    's <$ head 1 >>$ t': copy('s', 't', True, 1),
    's <$ map (*x: x) >$ s': refuse,
    's <$ map (*x: x) >>$ s': refuse,
    's <$ map (*x: 1) | args (| x: env -d s |)': 'unless_empty',
    's <$ join (| nosuchvar <$ |)': 'unless_empty',
    's <$ map (*x: x) | nosuchop': refuse,
    'gen 2 1 | args (| i: gen 1 (i) >>$ s |)': args_append,
    'env -d s': delete('s'),
    's = (5)': setval('s'),
    'REOPEN': None,
})
CORE = [GEN.format(0) + ' >$ s', GEN.format(2) + ' >$ s', GEN.format(2) + ' >>$ s', GEN.format(3) + ' >$ s', GEN.format(3) + ' >>$ s', GEN.format(4) + ' >>$ s', GEN.format(5) + ' >>$ s',
        GEN.format(6) + ' >>$ s', GEN.format(9) + ' >>$ s', GEN.format(2) + ' >$ t', 's <$ map (*x: x) >$ t', 's <$ map (*x: x) >>$ t', 't <$ map (*x: x) >>$ s', 's <$ map (*x: x) >$ s',
        's <$ map (*x: 1) | args (| x: env -d s |)', 's <$ join (| nosuchvar <$ |)', 's <$ map (*x: x) | nosuchop', 'gen 2 1 | args (| i: gen 1 (i) >>$ s |)', 'env -d s', 's = (5)', 'REOPEN']
CORE4 = [CORE[i] for i in (1, 2, 4, 6, 8, 10, 11, 12, 13, 15, 18, 20)]


class World:
    def __init__(self):
        home = os.path.join(rt.scratch_home(), 'h')
        shutil.rmtree(home, ignore_errors=True)
        rt.fresh_home(home)
        self.c = rt.CLI(initial_config=STARTUP)
        self.run('ws -n w')

    def run(self, cmd):
        o, e, x = self.c.run(cmd)
        if x:
            raise RuntimeError(f'{cmd}: session ended by {x}')
        return o, e

    def reopen(self):
        import marcel.object.workspace
        self.c.main.shutdown(restart=True)
        rt.reset_default_workspace()
        self.c._open(marcel.object.workspace.Workspace('w'))

    def observe(self):
        out = []
        for v in 'st':
            o, e = self.run(f'{v} <$ map (*x: show(*x))')
            out.append((v, o.splitlines(), bool(e)))
        return out

    def close(self):
        with rt.captured():
            self.c.main.shutdown()


def expected(m):
    return [(v, m[v] if type(m.get(v)) is list else [], type(m.get(v)) is not list) for v in 'st']


def execute(rec, seq):
    def body():
        w = World()
        m = {}
        try:
            for i, x in enumerate(seq):
                rec.transition()
                if x == 'REOPEN':
                    w.reopen()
                    continue
                f = LETTERS[x]
                if f == 'unless_empty':
                    s = m.get('s')
                    f = (lambda m: None) if type(s) is list and not s else refuse
                err = f(m)
                o, e = w.run(x)
                if err == 'any':
                    continue
                # A failing tuple is reported in the output, a failing command by a message.
                if (err == 'out') != ('Error: ' in o) or (err is True) != bool(e):
                    return f'step {i}: {x}: output {o!r}, message {e!r}, error expected: {err}'
            rec.state(repr(m))
            exp = expected(m)
            for k in range(2):
                if w.observe() != exp:
                    return f'loaded ({k}): {w.observe()}, expected {exp}'
            w.reopen()
            if w.observe() != exp:
                return f'loaded in reopened workspace: {w.observe()}, expected {exp}'
            for v in 'st':
                o, e = w.run(f'{GEN.format(6)} >$ {v}')
                if e or o:
                    return f'cannot be stored: {v}: {o} {e}'
            obs = w.observe()
            if obs != [(v, VALUES[6], False) for v in 'st']:
                return f'overwritten: {obs}'
            return (repr(exp),) * 2
        except RuntimeError as e:
            return str(e)
        finally:
            w.close()
    rec.check(list(seq), body)


def sequences(tier):
    full, core_n, core = (2, 3, CORE) if tier == 'quick' else (3, 4, CORE4)
    for n in range(1, full + 1):
        yield from itertools.product(LETTERS, repeat=n)
    if tier == 'thorough':
        pass
    yield from itertools.product(core, repeat=core_n)


def shards(tier):
    return [(i, 48) for i in range(48)]


def explore(rec, shard, tier):
    i, n = shard
    for k, seq in enumerate(sequences(tier)):
        if k % n == i:
            execute(rec, seq)


def replay(rec, case):
    execute(rec, tuple(case))
