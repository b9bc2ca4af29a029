"""Variables defined by marcel or the startup script: every way of changing them is refused."""
import itertools
import os
import shutil
from mc import rt, scripts

ID = 'C31'
LEVEL = 'bounded_exhaustive'
RULE = ('every protected variable, every way of changing or deleting it, up to two attempts in a row, in every context (new, named, reopened workspace, after leaving one, after a failed command), in a script and interactively; '
        'each attempt must be refused with a message naming the variable, and leave its value as it was; the same attempts on other variables must succeed; startup scripts assigning each fixed variable; state = (variable, context)')
BOUNDS = {'quick': '18 protected and 2 other variables, 8 ways of changing them, sequences of up to 2 attempts (all pairs in the default workspace), 6 contexts, 2 ways of running',
          'thorough': 'sequences of up to 3 attempts in the default workspace, up to 2 elsewhere'}
ASSUMPTIONS = ['A parameter of a pipeline may have the same name as a protected variable']
PROP = dict(
    title='Commands cannot change variables defined by marcel or by the startup script',
    statement='A command that would assign, delete, import or redirect to a variable defined by marcel (such as USER or PROMPT) or by the startup script is refused with a message naming the variable, and the variable keeps its value, '
              'in every workspace, whether the command is part of a script or interactive, and whatever was run before. '
              'Other variables can be changed in these ways. A startup script that assigns one of the variables fixed by marcel is refused with a message.',
    over=['inputs', 'histories', 'configurations'],
    text='all protected variables, ways of changing them, and contexts',
    why='Tests turn the protection on themselves, and try it on two variables; whether the program does, in each way it can be run and after each change of workspace, is not looked at.',
    files=['marcel/object/workspace.py', 'marcel/env.py', 'marcel/main.py', 'marcel/configscript.py', 'marcel/op/assign.py', 'marcel/op/env.py', 'marcel/op/store.py', 'marcel/op/import.py'],
    mechanism=[('protection', 'marcel/object/workspace.py: VarHandler.check_mutability, add_immutable_vars'), ('turning it on', 'marcel/main.py: main_script_run, main_interactive_run'), ('startup', 'marcel/configscript.py: ConfigScript.run')],
    observe=['messages, and values shown by env'],
    technique='bounded-exhaustive enumeration of attempts to change protected variables, on the real program, in all contexts',
    level_note='All cases within the bounds are run by the real program (main module), in forked processes.')

MARCEL = ['BOLD', 'COLOR_SCHEME', 'Color', 'DIRS', 'HOME', 'HOST', 'ITALIC', 'MARCEL_VERSION', 'pos', 'PROMPT', 'PWD', 'USER', 'WORKSPACE']
STARTUP = {'y': "y = 'why'\n", 'f': 'def f(x):\n    return x\n', 'math': 'import math\n', 'sep': 'from os.path import sep\n', 'p': 'p = None\n'}
OTHER = ['v', 'w']
FIXED = ['MARCEL_VERSION', 'HOME', 'USER', 'HOST', 'WORKSPACE']
CONFIG = ''.join(STARTUP.values())
WAYS = {
    'value': '{} = 1', 'expression': '{} = (2)', 'pipeline': '{} = (| gen 1 |)', 'same': '{0} = ({0})', 'delete': 'env -d {}', 'store': 'gen 2 >$ {}', 'append': 'gen 2 >>$ {}', 'import': 'import m {0}',
}
SELF = ['value', 'expression', 'pipeline', 'delete', 'store']
CONTEXTS = {
    'default': ['nothing'],
    'new': ['ws -n w1'],
    'reopened': ['ws -n w1', 'ws -c', 'ws w1'],
    'left': ['ws -n w1', 'ws -c'],
    'failed': ['{} = 1', 'env -d {}', '(1 // 0)', 'gen 1 |'],
    'other': ['ws -n w2', 'ws w1'],
}
PROTECTED = 'was defined by marcel, or in your startup script, so it cannot be modified or deleted'
TYPED = ['value', 'expression', 'same', 'delete', 'pipeline', 'import']


def commands(context, v, attempts):
    out = [c.format(v) for c in CONTEXTS[context] if c != 'nothing']
    return out + ['env WORKSPACE', f'env {v}'] + [x for a in attempts for x in (WAYS[a].format(v), f'env {v}')]


def strip(text):
    import re
    text = re.sub('\x1b\\[[0-9;]*m', '', text)
    return [x for x in text.split('\n') if x not in ('', 'Warning: Input is not a terminal (fd=0).')]


def execute(rec, mode, context, v, attempts):
    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        try:
            c = os.path.join(home, '.config/marcel/workspace/__DEFAULT__')
            os.makedirs(c)
            with open(os.path.join(c, 'startup.py'), 'w') as f:
                f.write(CONFIG)
            if context == 'other':
                scripts.run('ws -n w1\n')
            names = MARCEL + list(STARTUP) + OTHER
            with open(os.path.join(home, 'm.py'), 'w') as f:
                f.write(''.join(f'{n} = "imported"\n' for n in names))
            rec.transition()
            import sys
            sys.path.insert(0, home)
            try:
                status, text = scripts.run('\n'.join(commands(context, v, attempts)) + '\n', mode)
            finally:
                sys.path.remove(home)
            lines = strip(text)
            start = next((i for i, x in enumerate(lines) if x.startswith("('WORKSPACE', ")), None)
            if status != 0 or start is None or 'Traceback' in text:
                return f'exit status {status}, output {text!r}'
            lines = lines[start + 1:]
            if v in OTHER:
                return judge_other(v, attempts, lines)
            if v != 'p':        # None is like not being defined
                initial = lines.pop(0) if lines else ''
                if not initial.startswith(f"('{v}', "):
                    return f'env {v} prints {initial!r}'
            else:
                initial = lines.pop(0) if lines else ''
            for a in attempts:
                got, lines = lines[:2], lines[2:]
                if len(got) != 2 or PROTECTED not in got[0] or not got[0].startswith(f'{v} '):
                    if not (a == 'append' and len(got) == 2 and f'A stream cannot be appended to {v} ' in got[0]):
                        return f'{WAYS[a].format(v)}: {got}, expected it to be refused'
                if got[1] != initial:
                    return f'{v} was {initial!r}, and became {got[1]!r}, after {WAYS[a].format(v)}'
            if lines:
                return f'unexpected output: {lines}'
            return attempts, attempts
        finally:
            os.chdir(rt.scratch_home())
            shutil.rmtree(home, ignore_errors=True)
    rec.check([mode, context, v, list(attempts)], body, timeout=60)


def judge_other(v, attempts, lines):
    kind = None
    expected = [f'{v} is undefined']
    for a in attempts:
        if a == 'value':
            kind = "1"
            expected.append(f"('{v}', '1')")
        elif a == 'expression':
            expected.append(f"('{v}', 2)")
        elif a == 'pipeline':
            expected.append((f"('{v}', Pipeline",))
        elif a == 'import':
            expected.append(f"('{v}', 'imported')")
        elif a == 'store':
            expected.append((f"('{v}', Reservoir",))
        elif a == 'delete':
            last = expected[-1]
            if last != f'{v} is undefined':
                expected.append(last)
            expected.append(f'{v} is undefined')
        else:
            assert False
    if len(lines) != len(expected) or not all(x == e if type(e) is str else e[0] in x for x, e in zip(lines, expected)):
        return f'output {lines}, expected {expected}'
    return lines, lines


def fixed(rec, v, ws):
    def body():
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        try:
            scripts.run('ws -n w1\n')
            path = os.path.join(home, '.config/marcel/workspace', 'w1' if ws else '__DEFAULT__', 'startup.py')
            os.chmod(path, 0o600)
            with open(path, 'w') as f:
                f.write(f'z = 1\n{v} = "changed"\n')
            for mode in ('file', 'typed'):
                status, text = scripts.run(f'ws w1\n(z)\nenv {v}\n' if ws else f'(z)\nenv {v}\n', mode)
                lines = strip(text)
                if not any('must not modify' in x and x.rstrip('.').endswith(v) for x in lines) or 'Traceback' in text or 'changed' in text or '1' in lines:
                    return f'{mode}: exit status {status}, output {lines}'
            return v, v
        finally:
            os.chdir(rt.scratch_home())
            shutil.rmtree(home, ignore_errors=True)
    rec.check(['fixed', v, ws], body, timeout=60)


def cases(tier):
    deep = tier != 'quick'
    for v in MARCEL + list(STARTUP):
        for context in CONTEXTS:
            for n in range(1, 3 + deep if context == 'default' else 2 + deep):
                for attempts in itertools.product(WAYS, repeat=n):
                    yield 'file', context, v, attempts
                    if all(a in TYPED for a in attempts) and (n == 1 or deep):
                        yield 'typed', context, v, attempts
    for v in OTHER:
        for context in CONTEXTS:
            if context == 'failed':
                continue
            for n in range(1, 4 if deep else 3):
                for attempts in itertools.product(SELF + ['import'], repeat=n):
                    yield 'file', context, v, attempts


def shards(tier):
    n = 16 if tier == 'quick' else 64
    return [('fixed', 0, 1)] + [('all', i, n) for i in range(n)]


def explore(rec, shard, tier):
    kind, i, n = shard
    if kind == 'fixed':
        for v in FIXED:
            for ws in (False, True):
                fixed(rec, v, ws)
        return
    for k, c in enumerate(cases(tier)):
        if k % n == i:
            rec.state(repr(c[1:3]))
            execute(rec, *c)


def replay(rec, case):
    if case[0] == 'fixed':
        fixed(rec, *case[1:])
    else:
        mode, context, v, attempts = case
        execute(rec, mode, context, v, tuple(attempts))
