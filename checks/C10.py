"""Variables over histories of assignments, deletions, uses and reopenings."""
import copy
import itertools
import os
import shutil
from mc import rt

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('every sequence of the letters (assignments of each kind of value, redirections, deletions, imports, close/reopen, restart, visits to another workspace) '
        'up to the bound, run as commands in a named workspace; after it all variables are probed by env, calls, pipeline execution and load; '
        'state = model environment reached, transition = letter')
BOUNDS = {'quick': '31 letters, all sequences up to length 2, and all of length 3 ending in a reopening or over a 18 letter core; 2 further reopenings at the end of every sequence',
          'thorough': 'all sequences up to length 3; length 4 over a 14 letter core'}
ASSUMPTIONS = ['Variables holding streams are not copied to other variables', 'A captured value of another variable is not changed before the workspace is reopened']
PROP = dict(
    title='Variables keep their latest values, in the session and in a reopened workspace',
    statement='Over any history of commands, each variable has the value most recently assigned (data, function, pipeline, imported symbol, or stream stored by redirection), and a deleted or never assigned variable is undefined; '
              'a failed assignment changes nothing. '
              'Closing and reopening a named workspace, or restarting marcel, any number of times changes no variable of that workspace: deleted variables stay deleted, and functions and pipelines still compute the same results, '
              'and commands in other workspaces do not affect it.',
    over=['histories', 'values', 'restarts'],
    text='all command histories over variables, with workspaces closed and reopened at any point',
    why='Tests assign a variable and look at it once; deletions, copies of functions, order of definition and repeated reopening interact only in sequences.',
    files=['marcel/nestednamespace.py', 'marcel/object/workspace.py', 'marcel/env.py', 'marcel/op/assign.py', 'marcel/op/env.py', 'marcel/op/store.py', 'marcel/op/load.py', 'marcel/op/import.py', 'marcel/reservoir.py', 'marcel/picklefile.py'],
    mechanism=[('variable storage', 'marcel/nestednamespace.py: NestedNamespace, Scope, EnvValue'), ('saving and restoring', 'marcel/object/workspace.py: open, close, read_environment, write_environment'),
               ('variable access', 'marcel/object/workspace.py: VarHandler')],
    observe=['env, function calls, pipeline output, load, after each history'],
    technique='bounded-exhaustive exploration of command histories (with reopenings and restarts) of the real session against a dictionary model',
    level_note='All histories within the bounds run on the real code, with real workspace files. Trusts the dictionary model.')

ERR = 'ERR'


class Stream(list):
    pass


class Fn:
    def __init__(self, call):
        self.call = call


class Pipe:
    def __init__(self, param, call):
        self.param, self.call = param, call


class Module:
    pass


class Fail(Exception):
    pass


def need(m, v):
    if v not in m:
        raise Fail()
    return m[v]


def assign(var, value):
    def f(m):
        m[var] = value(m) if callable(value) else copy.deepcopy(value)
    return f


def copyvar(src, dst):
    def f(m):
        x = need(m, src)
        if type(x) is Stream:
            return False
        m[dst] = x
    return f


def append(m):
    x = need(m, 'a')
    if type(x) is not list:
        raise Fail()
    x.append(7)


def delete(v):
    def f(m):
        m.pop(v, None)
    return f


def store(v, items, app):
    def f(m):
        x = m.get(v)
        if app and type(x) is not Stream:
            if x is not None:
                raise Fail()
            x = None
        m[v] = Stream((list(x) if app and x else []) + items)
    return f


def use_math(m):
    need(m, 'math')
    m['a'] = 2


def redefine(m):
    m['f'] = Fn(lambda e, x: (x, x))


PAIR = lambda e, x: (x, need(e, 'a'))


def by_name(e, arg):
    p = need(e, 'p')
    if type(p) is not Pipe:
        raise Fail()
    return p.call(e, None)


def captured(m):
    f = need(m, 'f')
    p = Pipe(False, lambda e, arg: call(e, f, 0))
    p.captured = f
    return p


LETTERS = {
    'a = (5)': assign('a', 5),
    'a = x': assign('a', 'x'),
    'a = "it\'s x"': assign('a', "it's x"),
    'a = (None)': assign('a', None),
    'a = (0)': assign('a', 0),
    'a = ([1, 2])': assign('a', [1, 2]),
    'a = ({"k": (1, [2.5])})': assign('a', {'k': (1, [2.5])}),
    'a = (a)': copyvar('a', 'a'),
    'a = (1 // 0)': lambda m: None,
    'b = (a)': copyvar('a', 'b'),
    '(a.append(7))': append,
    'f = (lambda x: (x, a))': assign('f', lambda m: Fn(PAIR)),
    'f = (lambda x: (x, x))': redefine,
    'f = ((lambda n: lambda x: (x, n))(3))': assign('f', lambda m: Fn(lambda e, x: (x, 3))),
    'g = (f)': copyvar('f', 'g'),
    'h = (lambda x: g(f(x)[0]))': assign('h', lambda m: Fn(lambda e, x: call(e, need(e, 'g'), call(e, need(e, 'f'), x)[0]))),
    'p = (| map (x: (x, a)) |)': assign('p', lambda m: Pipe(False, lambda e, arg: PAIR(e, 0))),
    'p = (| a: map (x: (x, a)) |)': assign('p', lambda m: Pipe(True, lambda e, arg: (0, arg))),
    'q = (| gen 1 | p |)': assign('q', lambda m: Pipe(False, by_name)),
    'r = (| map f |)': lambda m: m.__setitem__('r', captured(m)),
    's = (p)': copyvar('p', 's'),
    'env -d a': delete('a'),
    'env -d f': delete('f'),
    'env -d p': delete('p'),
    'gen 2 >$ a': store('a', [0, 1], False),
    'gen 1 5 >>$ a': store('a', [5], True),
    'import math': assign('math', lambda m: Module()),
    'a = (math.floor(2.5))': use_math,
    'REOPEN': 'reopen',
    'RESTART': 'reopen',
    'ELSEWHERE': 'reopen',
}
CORE = ['a = (5)', 'a = ([1, 2])', 'b = (a)', '(a.append(7))', 'f = (lambda x: (x, a))', 'f = (lambda x: (x, x))', 'g = (f)', 'p = (| map (x: (x, a)) |)',
        'p = (| a: map (x: (x, a)) |)', 'env -d a', 'env -d f', 'gen 2 >$ a', 'gen 1 5 >>$ a', 'h = (lambda x: g(f(x)[0]))', 'q = (| gen 1 | p |)', 'r = (| map f |)', 's = (p)', 'REOPEN']
CORE4 = ['a = (5)', 'f = (lambda x: (x, a))', 'f = (lambda x: (x, x))', 'g = (f)', 'p = (| a: map (x: (x, a)) |)', 'env -d a', 'env -d f', 'gen 2 >$ a', 'gen 1 5 >>$ a', 'b = (a)', 'q = (| gen 1 | p |)', 'r = (| map f |)', 'REOPEN', 'ELSEWHERE']
OPENS = ['REOPEN', 'RESTART', 'ELSEWHERE']
VARS = ['a', 'b', 'f', 'g', 'h', 'math', 'p', 'q', 'r', 's']
UNSPECIFIED = object()


def call(m, f, x):
    if type(f) is not Fn:
        raise Fail()
    return f.call(m, x)


def attempt(fn):
    try:
        return fn()
    except Fail:
        return ERR


def model(seq):
    """-> final model environment or None if the sequence is not applicable"""
    m = {}
    for x in seq:
        op = LETTERS[x]
        if op == 'reopen':
            lose_captured(m)
            m = {k: (v if isinstance(v, (Fn, Pipe, Module, Stream)) else copy.deepcopy(v)) for k, v in m.items()}
            continue
        try:
            if op(m) is False:
                return None
        except Fail:
            pass
    lose_captured(m)
    return m


def lose_captured(m):
    if 'r' in m and m['r'] is not UNSPECIFIED and m['r'].captured is not m.get('f'):
        m['r'] = UNSPECIFIED


def render(x):
    return 'Stream' if type(x) is Stream else 'Fn' if type(x) is Fn else 'Pipe' if type(x) is Pipe else 'Module' if type(x) is Module else repr(x)


def rtuple(t):
    return ERR if t is ERR else f'({render(t[0])}, {render(t[1])})'


def expected(m):
    out = {'names': [v for v in VARS if v in m and m[v] is not UNSPECIFIED]}
    for v in VARS:
        if m.get(v) is UNSPECIFIED:
            continue
        out[v] = render(m[v]) if v in m else 'undefined'
    for v in ('f', 'g', 'h'):
        out[v + '(1)'] = rtuple(attempt(lambda: call(m, need(m, v), 1)))
    for v in ('p', 's'):
        if type(m.get(v)) is Pipe:
            out[v + '()'] = rtuple(attempt(lambda: m[v].call(m, 9)))
    out['files'] = [f'{v}.pickle' for v in VARS if type(m.get(v)) is Stream]
    for v in ('q', 'r'):
        if type(m.get(v)) is Pipe:
            out[v + '()'] = rtuple(attempt(lambda: m[v].call(m, None)))
    if type(m.get('a')) is Stream:
        out['load a'] = list(m['a'])
    return out


def norm(s):
    """Render values the way the model does."""
    import re
    s = re.sub(r'Reservoir\([^)]*\)', 'Stream', s)
    s = re.sub(r'<function .* at 0x[0-9a-f]+>', 'Fn', s)
    s = re.sub(r"<module '[^>]*>", 'Module', s)
    return s


def observed(c, m):
    out = {}
    so, se, ex = c.run('env | select (v, x: v in ["a", "b", "f", "g", "h", "math", "p", "q", "r", "s"]) | map (v, x: v)')
    out['names'] = [v for v in so.split() if m.get(v) is not UNSPECIFIED] if not (se or ex) else (so, se, ex)
    for v in VARS:
        if m.get(v) is UNSPECIFIED:
            continue
        so, se, ex = c.run(f'env {v}')
        if ex or (so and se):
            out[v] = (so, se, ex)
        elif 'is undefined' in se:
            out[v] = 'undefined'
        elif so.startswith(f"('{v}', ") and so.endswith(')\n'):
            s = norm(so[len(v) + 5:-2])
            out[v] = 'Pipe' if s.startswith('(|') or s.startswith('PipelineMarcel') else s
        else:
            out[v] = (so, se, ex)
    for v in ('f', 'g', 'h'):
        out[v + '(1)'] = result(c.run(f'({v}(1))'))
    for v in ('p', 's'):
        if type(m.get(v)) is Pipe:
            out[v + '()'] = result(c.run(f'gen 1 | {v}' + (' (9)' if m[v].param else '')))
    out['files'] = sorted(os.listdir(os.path.join(os.environ['HOME'], '.local/share/marcel/workspace/w/reservoirs')))
    for v in ('q', 'r'):
        if type(m.get(v)) is Pipe:
            so, se, ex = c.run(v if v == 'q' else 'gen 1 | r')
            out[v + '()'] = ERR if se and not so and not ex else result((so, se, ex))
    if type(m.get('a')) is Stream:
        so, se, ex = c.run('load a')
        out['load a'] = [int(x) for x in so.split()] if not (se or ex) else (so, se, ex)
    return out


def result(o):
    so, se, ex = o
    if ex or se:
        return o
    return ERR if so.startswith('Error') else norm(so[:-1])


def visit(c, x):
    """-> session to continue with"""
    if x == 'RESTART':
        c.close()
        c = rt.CLI()
    else:
        c.run('ws -c')
        if x == 'ELSEWHERE':
            for y in ('a = (99)', 'f = (98)', 'p = (97)', 'gen 3 >$ b', 'env -d g', 'gen 4 100 >$ a'):
                c.run(y)
    so, se, ex = c.run('ws -o w')
    # r may depend on something that is gone. Its value is looked at if it doesn't.
    se = '\n'.join(x for x in se.splitlines() if not x.startswith('Unable to restore the value of r:'))
    if (so, se, ex) != ('Workspace(w)\n', '', None):
        raise AssertionError(so, se, ex)
    return c


def execute(rec, seq):
    m = model(seq)
    if m is None:
        return

    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        c = rt.CLI()
        try:
            o = c.run('ws -n w')
            if o != ('Workspace(w)\n', '', None):
                return f'cannot create workspace: {o}'
            for x in seq:
                rec.transition()
                if LETTERS[x] == 'reopen':
                    c = visit(c, x)
                else:
                    so, se, ex = c.run(x)
                    if ex:
                        return f'{x!r} raised {ex}'
            obs, exp = observed(c, m), expected(m)
            if obs != exp:
                return diff('', obs, exp)
            for x in ('RESTART', 'ELSEWHERE'):
                c = visit(c, x)
                obs = observed(c, m)
                if obs != exp:
                    return diff(f'after reopening ({x}): ', obs, exp)
            return obs, exp
        except AssertionError as e:
            return f'cannot open workspace: {e}'
        finally:
            try:
                c.close()
            finally:
                os.chdir(rt.scratch_home())
                shutil.rmtree(home, ignore_errors=True)
    rec.state(repr(sorted(expected(m).items(), key=str)))
    rec.check(list(seq), body, nontrivial=len(seq) > 1)


def diff(label, obs, exp):
    return label + ', '.join(f'{k} is {obs.get(k)!r}, expected {exp.get(k)!r}' for k in exp if obs.get(k) != exp[k])


def sequences(tier):
    L = list(LETTERS)
    for n in range(3):
        yield from itertools.product(L, repeat=n)
    if tier == 'quick':
        seen = set()
        for s in itertools.chain(itertools.product(CORE, repeat=3), ((x, y, z) for x in L for y in L for z in ('REOPEN',) )):
            if s not in seen:
                seen.add(s)
                yield s
    else:
        yield from itertools.product(L, repeat=3)
        yield from itertools.product(CORE4, repeat=4)


def shards(tier):
    n = 16 if tier == 'quick' else 64
    return [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    i, n = shard
    for k, seq in enumerate(sequences(tier)):
        if k % n == i:
            execute(rec, seq)


def replay(rec, case):
    execute(rec, tuple(case))
