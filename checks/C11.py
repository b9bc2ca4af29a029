"""Every kind of value of a variable survives saving and restoring a workspace."""
import itertools
import os
import shutil
from mc import rt

ID = 'C11'
LEVEL = 'model_checking'
RULE = ('every value expression, function definition and pipeline of a grammar up to the bound is assigned to a variable between two others, in a named workspace which is then '
        'closed and reopened in the same and in a restarted session; state = definition, transition = save and restore')
BOUNDS = {'quick': '38 leaf values, all containers (list, tuple, dict value, set, structure) of one leaf, all lists and tuples of two; functions: 6 parameter lists x 17 bodies x 4 forms; pipelines: 17 expressions x 12 shapes; 14 values that cannot be saved',
          'thorough': 'also dicts, and containers of containers (4 x 4 x 38); pairs of values that cannot be saved'}
ASSUMPTIONS = ['Functions and pipelines are compared by what they compute on sample arguments']
PROP = dict(
    title='Saving and restoring a workspace preserves every value exactly',
    statement='A variable of a named workspace, holding any data (numbers, text with arbitrary characters, dates, paths, nested collections), function or pipeline written in any way, has an equal value of the same type '
              '(or computes the same results) after the workspace has been closed and reopened, any number of times. A variable whose value cannot be saved is lost with a message, without affecting any other variable or the workspace.',
    over=['values', 'restarts'],
    text='all values of variables and all function and pipeline texts',
    why='Tests use a few simple values. Functions and pipelines are saved as source text, which depends on quoting, nesting and layout.',
    files=['marcel/nestednamespace.py', 'marcel/object/workspace.py', 'marcel/parser.py', 'marcel/op/assign.py', 'marcel/function.py', 'marcel/stringliteral.py'],
    mechanism=[('representation of saved values', 'marcel/nestednamespace.py: EnvValue and subclasses'), ('source text of functions and pipelines', 'marcel/parser.py: assignment, parse_function, parse_pipeline')],
    observe=['value and type of the variable, or function and pipeline results, before and after reopening'],
    technique='bounded-exhaustive enumeration of a grammar of definitions, executed on the real session with real save and restore',
    level_note='Everything within the bounds is executed on the real code.')

SETUP = ['import datetime', 'import pathlib', 'import decimal', 'import fractions', 'import re', 'import collections', 'import math', 'import os', 'import functools', 'import uuid']
LEAVES = ['0', '-1', '10**30', '1.5', "float('inf')", "float('nan')", '1e-300', 'True', 'None', "''", "'x'", '"it\'s"', "'\"'", "'\\n\\t'", "'\\\\'", "'\\x00\\x7f'", "'\\u20ac\\U0001f600'",
          "' '", "'$HOME ~ * | ;#'", "b''", "b'\\xff\\x00'", '()', '[]', '{}', 'set()', 'frozenset({1})', 'range(3)', '1j', 'datetime.date(2020, 2, 29)', 'datetime.datetime(2020, 1, 1, 2, 3, 4, 5)',
          "pathlib.Path('/a b')", "decimal.Decimal('1.10')", 'fractions.Fraction(1, 3)', "o(x=1, y='q')", 'int', 'ValueError(3)', "re.compile('a+')", 'slice(1, 2)', 'Color(1, 2, 3)', "File('/tmp')",
          "(x for x in 'a').__class__", 'collections.OrderedDict(b=1, a=2)', 'bytearray(b"q")']
CONT = ['[{}]', '({},)', "{{'k': {}}}", '[[{}]]', 'o(f={})']
CONT2 = ['[{}, {}]', '({}, {})']
UNSAVABLE = ['[lambda x: x]', '(x for x in range(3))', "open('/dev/null')", '{"f": (lambda: a)}', 'o(f=lambda: 1)', 'os.scandir("/dev")', '[open("/dev/null")]', '((lambda: 1), 2)',
             '[(y for y in [1])]', 'memoryview(b"a")', '{"k": {"l": lambda q: before}}', 'os.environ.__class__.__dict__', 'functools.partial(lambda a, b: a, 1)', '[pos]']
PARAMS = ['x', '*x', 'x, y=3', 'x, *, k=")"', 'x=(1, 2)', '**x', 'x, y=lambda: 1', 'x, /']
BODIES = ['x', "('(', x)", '(")", x)', "('|)', x, '(|')", "[y for y in [x]]", '(lambda q: (q, x))(2)', "{'k': x}", "f'{x}'", '(x if x else None)', "'''t'''", "('#', x)", "'\\\\'", "'\\''", '"\\""',
          '(x, before, after)', '(math.pi, x)', "[x][0]"]
FORMS = ['(lambda {p}: {b})', '( lambda {p} : {b} )', '((lambda: lambda {p}: {b})())', '((lambda {p}: {b}))', '({p}: {b})']
ARGS = ['()', '(5)', "('a', 7)", '(k=1)']
PEXPR = ['x'] + BODIES[1:]
SHAPES = ['(| gen 2 | map (x: {e}) |)', '(|gen 2|map (x:{e})|)', '(| gen 2 | select (x: {e}) |)', '(| gen 1 | args (| x: map (: {e}) |) |)', '(| gen 2 | case (x: True) (| map (x: {e}) |) |)',
          '(| gen 1 | map (x: {e}) | write -f "<{{}}|)>" |)', "(| gen 1 | map (x: {e}) | union (| gen 1 | map (x: ('u', {e})) |) |)", '(| x: map (: {e}) |)', '(|  x  :  map (: {e})  |)', '(| x, y: map (: (y, {e})) |)',
          "(| gen 1 | map (x: {e}) | bash cat |)", '(| map (x: {e}) (| |)']
SHAPES.pop()
SHAPES.append('(| gen 2 | window -o 2 | map (*x: {e}) |)')


def cases(tier):
    for v in LEAVES:
        yield ('value', v)
    for c in CONT:
        for v in LEAVES:
            yield ('value', c.format(v))
    for c in CONT2:
        for v, w in itertools.product(LEAVES, repeat=2):
            if tier != 'quick' or (LEAVES.index(v) + LEAVES.index(w)) % 3 == 0:
                yield ('value', c.format(v, w))
    if tier != 'quick':
        for c, d in itertools.product(CONT[:4], repeat=2):
            for v in LEAVES:
                yield ('value', c.format(d.format(v)))
        for v, w in itertools.product(LEAVES, repeat=2):
            yield ('value', "{{'a': {}, 'b': {}}}".format(v, w))
        for v, w in itertools.product(LEAVES[:22], repeat=2):
            if v != w:
                yield ('value', f'{{{v}: {w}}}' if v not in ('[]',) else f'({v}, {w})')
    for v in UNSAVABLE:
        yield ('unsavable', v)
    if tier != 'quick':
        for v, w in itertools.permutations(UNSAVABLE, 2):
            yield ('unsavable', v, w)
    for f, p, b in itertools.product(FORMS, PARAMS, BODIES):
        yield ('function', f.format(p=p, b=b))
    for s, e in itertools.product(SHAPES, PEXPR):
        yield ('pipeline', s.format(e=e))
    # Text, not in parentheses
    for t in ['x', 'a.b', '"two words"', "'single'", '"it\'s"', "'say \"x\"'", '"(lambda x: x)"', '"(| ls |)"', '"5"', '7', '-3', '/a/b', '~', '*.py', 'a\\ b', '"$HOME"', '""', 'True', 'None', '\u20ac', '"#"', '"a=b"']:
        yield ('text', t)


def probes(case):
    kind = case[0]
    if kind in ('value', 'text'):
        return ['((type(v), repr(v), repr(v) == repr(v)))', '(type(v[0]) if type(v) in (list, tuple) and len(v) > 0 else None)']
    if kind == 'function':
        return [f'(repr(v{a}))' for a in ARGS]
    if kind == 'pipeline':
        return ['v', 'v 5', 'v 5 6']
    return []


def run_probe(c, cmd):
    so, se, ex = c.run(cmd)
    import re
    return tuple(re.sub(r'0x[0-9a-f]+', '0x', str(t)) for t in (so, se, ex))


def execute(rec, case):
    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        c = rt.CLI()
        rec.first, rec.lost = True, []
        try:
            c.run('ws -n w')
            for s in SETUP:
                c.run(s)
            c.run("before = ('B')")
            kind = case[0]
            names = ['v', 'v2'][:len(case) - 1]
            for n, text in zip(names, case[1:]):
                so, se, ex = c.run(f'{n} = {text}' if kind in ('text', 'pipeline', 'function') else f'{n} = ({text})')
                if se or ex or so:
                    return f'assignment of {text} failed: {so!r} {se!r} {ex}'
            c.run('after = ([3])')
            extra = ['((before, after))', '(math.floor(2.5))']
            cmds = probes(case) + extra
            base = [run_probe(c, p) for p in cmds]
            if base[-2:] != [("('B', [3])\n", '', 'None'), ('2\n', '', 'None')]:
                return f'before saving: {base[-2:]}'
            for how in ('reopen', 'restart', 'reopen'):
                rec.transition()
                if how == 'restart':
                    with rt.captured() as (o, e):
                        c.main.shutdown()
                    msg = e.getvalue()
                    c = rt.CLI()
                else:
                    so, msg, ex = c.run('ws -c')
                    if ex:
                        return f'close raised {ex}'
                if kind == 'unsavable':
                    if how == 'reopen' and rec.first:
                        rec.lost = [n for n in names if f'Unable to save the value of {n}.' in msg]
                        rec.first = False
                elif msg:
                    return f'message on closing: {msg!r}'
                so, se, ex = c.run('ws -o w')
                if (so, se, ex) != ('Workspace(w)\n', '', None):
                    return f'{how}: cannot be opened: {so!r} {se!r} {ex}'
                if kind == 'unsavable':
                    for n in names:
                        undef = 'is undefined' in c.run(f'env {n}')[1]
                        if undef != (n in rec.lost):
                            return f'{n} is {"un" if undef else ""}defined, messages on closing about {rec.lost}'
                again = [run_probe(c, p) for p in cmds]
                if again != base:
                    return '; '.join(f'{how}: {p} gives {a}, was {b}' for p, a, b in zip(cmds, again, base) if a != b)
            return repr(base), repr(base)
        finally:
            try:
                c.close()
            finally:
                os.chdir(rt.scratch_home())
                shutil.rmtree(home, ignore_errors=True)
    rec.state(case)
    rec.check(case, body)


def shards(tier):
    n = 16 if tier == 'quick' else 48
    return [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    i, n = shard
    for k, case in enumerate(cases(tier)):
        if k % n == i:
            execute(rec, case)


def replay(rec, case):
    execute(rec, case)
