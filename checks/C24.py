"""Scripts: the real program run on scripts, given in each way, under several startup configurations."""
import itertools
import os
import shutil
from mc import rt, scripts

ID = 'C24'
LEVEL = 'model_checking'
RULE = ('every script made of the letters up to the bound, under each startup configuration, run by the real program in a forked process in each way of providing commands (script argument, piped stdin, '
        'both, stdin redirected from a file), and every layout of short scripts (blank and comment lines, continuation lines, spaces, line ends); exit status, all output in order, variables saved and lock files '
        'are compared to a reference interpreter; state = (configuration, interpreter state), transition = command')
BOUNDS = {'quick': '6 startup configurations; scripts up to length 2 over 22 letters in 4 ways, length 3 over 13 letters as a script; 15 layouts of scripts up to length 2 over 8 letters',
          'thorough': 'scripts up to length 3 over 22 letters in 4 ways; length 4 over 12 letters; 15 layouts of scripts up to length 3'}
ASSUMPTIONS = ['When commands come from stdin which is a file, commands are limited to those not run by another process']
PROP = dict(
    title='Scripts run each command once, in order, after the startup script',
    statement='A script, given as an argument or piped to standard input, runs exactly its commands, each once, in order, whatever its layout (blank lines, comments, continuation lines); a failing command '
              'prints one message or Error and the script continues, until it ends or exits, and variables, workspace and current directory carry over from command to command. '
              'Whenever a workspace is opened, the variables of its startup script are available, and the commands registered by the startup script run once, in order, before anything else; a broken startup script is reported. '
              'A script argument takes precedence over standard input.',
    over=['histories', 'inputs', 'configurations'],
    text='all scripts over the commands, with any layout and startup configuration, and any workspace switches in the middle',
    why='Tests do not run the program on scripts: they call its functions one command at a time. Switching workspaces in a script rebuilds everything in the middle of it.',
    files=['marcel/main.py', 'marcel/util.py', 'marcel/configscript.py', 'marcel/builtin.py', 'marcel/env.py', 'marcel/object/workspace.py', 'marcel/op/exit.py', 'marcel/op/ws.py'],
    mechanism=[('running scripts', 'marcel/main.py: main_script_run, commands_in_script'), ('startup', 'marcel/configscript.py: read_config; marcel/main.py: run_startup_scripts'), ('input source', 'marcel/util.py: InputSource')],
    observe=['exit status and output of the program, variables of workspaces as seen by a later run'],
    technique='bounded-exhaustive exploration of scripts, layouts, input sources and startup configurations of the real program against a reference interpreter',
    level_note='All scripts within the bounds are run by the real program (main module), in forked processes. Trusts the reference interpreter.')

PROTECTED = 'cannot be modified or deleted programmatically'
STARTUP_F = 'def f(v):\n    return (v, y)\n'

# name -> (default's startup.py, w2's startup.py)
CONFIGS = {
    'empty': ('', ''),
    'vars': ('y = 7\n' + STARTUP_F, 'y = 8\n'),
    'commands': ('run_on_startup("x = (1)\\n(x)")\n', 'from marcel.builtin import *\nrun_on_startup("""\nx = (2)\n\n(x)\n# c\n""")\n'),
    'several': ('y = 7\nrun_on_startup("head 0 0")\nrun_on_startup("(y + 10)")\n' + STARTUP_F, 'run_on_startup("(\'w2\')")'),
    'switch': ('run_on_startup("ws w2")\nrun_on_startup("(\'never\')")\n', 'y = 9\nrun_on_startup("(y)")'),
    'broken': ('', 'y = 1\n1 // 0\n'),
}
# what the startup scripts mean: (variables, commands)
MEANING = {
    'empty': (({}, []), ({}, [])),
    'vars': (({'y': 7, 'f': 'f'}, []), ({'y': 8}, [])),
    'commands': (({}, ['set1', 'get']), ({}, ['set2', 'get'])),
    'several': (({'y': 7, 'f': 'f'}, ['fail', 'y10']), ({}, ['w2'])),
    'switch': (({}, ['openw2', 'never']), ({'y': 9}, ['gety'])),
    'broken': (({}, []), None),
}

TEXT = {
    'mark': '(1 + 1)', 'set5': 'x = (5)', 'set6': 'x = six', 'get': '(x)', 'fail': 'head 0 0', 'syntax': 'gen 3 |', 'undef': 'nosuch 1', 'err': '(1 // 0)', 'gen': 'gen 2 | map (z: (z, -z))',
    'new1': 'ws -n w1', 'open1': 'ws w1', 'openw2': 'ws -o w2', 'close': 'ws -c', 'del1': 'ws -d w1', 'ws': 'ws', 'exit': 'exit', 'cd': 'cd d', 'pwd': "(PWD.split('/')[-1])",
    'sety': 'y = (3)', 'gety': '(y)', 'delx': 'env -d x', 'pipe': 'p = (| ((x, 0)) |)', 'callp': 'p', 'callf': '(f(4))',
    # in startup scripts
    'set1': 'x = (1)', 'set2': 'x = (2)', 'y10': '(y + 10)', 'w2': "('w2')", 'never': "('never')",
}
LETTERS = ['mark', 'set5', 'set6', 'get', 'fail', 'syntax', 'undef', 'err', 'gen', 'new1', 'open1', 'openw2', 'close', 'del1', 'ws', 'exit', 'cd', 'pwd', 'sety', 'gety', 'delx', 'callf']
CORE = ['set5', 'get', 'fail', 'new1', 'open1', 'openw2', 'close', 'del1', 'exit', 'sety', 'gety', 'pipe', 'callp']
LAYOUT_LETTERS = ['mark', 'set6', 'get', 'fail', 'gen', 'new1', 'exit', 'pipe']


class Exit(Exception):
    pass


class Broken(Exception):
    pass


class Interpreter:
    """Reference semantics -> self.out: list of expected lines, (str: exact, tuple: substrings)"""

    def __init__(self, config, mode):
        self.typed = mode == 'typed'
        self.meaning = MEANING[config]
        self.out = []
        self.saved = {'': {}, 'w2': {}}
        self.startup = {'': self.meaning[0], 'w2': self.meaning[1]}
        self.cwd = 'h'

    def run(self, script):
        commands = list(script)
        status = 0
        try:
            self.open('')
            for c in commands:
                self.command(c)
        except Exit:
            pass
        except Broken:
            status = 1
        self.leave()
        return status

    def leave(self):
        self.saved[self.cur] = self.vars

    def open(self, name):
        while name is not None:
            self.cur = name
            if self.startup[name] is None:
                self.vars = self.saved[name]
                self.out += [('Caught ', 'ZeroDivisionError'), ('File "',), ('exec(',), ('File "<string>", line 2',), ('Error during execution of startup script of Workspace(w2)', 'by zero')]
                if not self.typed:
                    raise Broken()
                self.out += [('Trying default workspace',)]
                name = ''
                continue
            constants, commands = self.startup[name]
            self.constants = constants
            self.vars = dict(self.saved[name])
            self.protect = False
            name = None
            for c in commands:
                if (target := self.step(c)) is not None:
                    self.leave()
                    name = target
                    break
            self.protect = True

    def command(self, c):
        target = self.step(c)
        if target is not None:
            self.leave()
            self.open(target)

    def value(self, v):
        return self.vars[v] if v in self.vars else self.constants.get(v)

    def show(self, v, name):
        if v is None:
            self.out.append(('Error: ', 'NameError', f"'{name}' is not defined"))
        else:
            self.out.append(str(v))

    def step(self, c):
        """-> name of workspace to change to, or None"""
        out, cur = self.out.append, self.cur
        if c == 'mark':
            out('2')
        elif c in ('set5', 'set6', 'set1', 'set2'):
            self.vars['x'] = {'set5': 5, 'set6': 'six', 'set1': 1, 'set2': 2}[c]
        elif c == 'get':
            self.show(self.value('x'), 'x')
        elif c == 'gety':
            self.show(self.value('y'), 'y')
        elif c == 'y10':
            out(str(self.value('y') + 10))
        elif c in ('w2', 'never'):
            out(c)
        elif c == 'sety':
            if 'y' in self.constants and self.protect:
                out(('y was defined', PROTECTED))
            else:
                self.vars['y'] = 3
        elif c == 'delx':
            x = self.vars.pop('x', None)
            if x is not None:
                out(f"('x', {x!r})")
        elif c == 'callf':
            if 'f' in self.constants:
                out(f"(4, {self.value('y')})")
            else:
                out(('Error: ', 'NameError', "'f' is not defined"))
        elif c == 'pipe':
            self.vars['p'] = 'p'
        elif c == 'callp':
            if 'p' not in self.vars:
                out(('not executable',))
            else:
                x = self.value('x')
                if x is None:
                    out(('Error: ', 'NameError'))
                else:
                    out(str((x, 0)))
        elif c == 'gen':
            self.out += ['(0, 0)', '(1, -1)']
        elif c == 'fail':
            out(('Too many anonymous args',))
        elif c == 'syntax':
            out(('Parsing error', 'Premature end of input'))
        elif c == 'undef':
            out(('nosuch', 'not executable'))
        elif c == 'err':
            out(('Error: ', 'ZeroDivisionError'))
        elif c == 'exit':
            raise Exit()
        elif c == 'cd':
            if self.cwd == 'h':
                self.cwd = 'd'
            else:
                out(('No qualifying path',))
        elif c == 'pwd':
            out(self.cwd)
        elif c == 'ws':
            out(f'Workspace({cur})')
        elif c == 'close':
            if cur:
                out('Workspace()')
                return ''
        elif c in ('open1', 'openw2'):
            name = 'w1' if c == 'open1' else 'w2'
            if name not in self.saved:
                out((f'There is no workspace named {name}',))
            elif name != cur:
                out(f'Workspace({name})')
                return name
        elif c == 'new1':
            if 'w1' in self.saved:
                out(('already exists',))
            else:
                self.saved['w1'] = {}
                self.startup['w1'] = self.startup['']
                out('Workspace(w1)')
                return 'w1'
        elif c == 'del1':
            if cur == 'w1':
                out(('cannot be deleted while it is in use',))
            elif 'w1' not in self.saved:
                out(('There is no workspace named w1',))
            else:
                del self.saved['w1'], self.startup['w1']
        else:
            assert False, c
        return None


# layout: name -> function of list of command texts
def continued(sep):
    def f(cs):
        c = cs[0]
        i = c.find(' ', c.find(' ') + 1) if sep == 2 else c.find(' ')
        return '\n'.join([c[:i] + ' \\\n' + c[i + 1:] if i > 0 else c] + cs[1:]) + '\n'
    return f


LAYOUTS = {
    'plain': lambda cs: ''.join(c + '\n' for c in cs),
    'no final newline': lambda cs: '\n'.join(cs),
    'blank lines': lambda cs: '\n\n' + '\n\n\n'.join(cs) + '\n\n',
    'white lines': lambda cs: '   \n' + '\n \t \n'.join(cs) + '\n  \n  ',
    'indented': lambda cs: ''.join('    ' + c + '\n' for c in cs),
    'tabs': lambda cs: ''.join('\t' + c + '\t\n' for c in cs),
    'trailing spaces': lambda cs: ''.join(c + '   \n' for c in cs),
    'comment lines': lambda cs: '#!/usr/bin/env marcel\n' + ''.join('# (99)\n' + c + '\n#\n' for c in cs) + '# (99)',
    'trailing comments': lambda cs: ''.join(c + ' # (99) | x\n' for c in cs),
    'CRLF': lambda cs: ''.join(c + '\r\n' for c in cs),
    'continued 1': continued(1),
    'continued 2': continued(2),
    'continued at the end': lambda cs: '\n'.join(cs) + ' \\',
    'continued over a blank line': lambda cs: '\n'.join([cs[0].replace(' ', ' \\\n\n', 1)] + cs[1:]),
    'continued twice': lambda cs: '\n'.join(' \\\n'.join(c.split(' ')) if "'" not in c else c for c in cs) + '\n',
}
# A line of a file which is typed is a command.
TYPED_LAYOUTS = ['plain', 'no final newline', 'blank lines', 'white lines', 'indented', 'tabs', 'trailing spaces', 'comment lines', 'trailing comments', 'CRLF']
MAIN_ONLY = ['mark', 'set5', 'set6', 'get', 'fail', 'syntax', 'undef', 'err', 'new1', 'open1', 'openw2', 'close', 'del1', 'ws', 'exit', 'cd', 'pwd', 'sety', 'gety', 'delx', 'callf']


def match(lines, expected):
    if len(lines) != len(expected):
        return False
    return all(x == e if type(e) is str else all(p in x for p in e) and 'Traceback' not in x for x, e in zip(lines, expected))


def strip(text):
    import re
    text = re.sub('\x1b\\[[0-9;]*m', '', text)
    return [x for x in text.split('\n') if x not in ('', 'Warning: Input is not a terminal (fd=0).')]


def setup(config):
    home = os.path.join(rt.scratch_home(), 'h')
    rt.fresh_home(home)
    os.mkdir('d')
    for name, startup in zip(('__DEFAULT__', 'w2'), CONFIGS[config]):
        c = os.path.join(home, '.config/marcel/workspace', name)
        d = os.path.join(home, '.local/share/marcel/workspace', name)
        os.makedirs(c)
        os.makedirs(d)
        with open(os.path.join(c, 'startup.py'), 'w') as f:
            f.write(startup)
        if name == 'w2':
            for t, e in template().items():
                shutil.copy(e, os.path.join(d, t)) if t != '.WORKSPACE' else open(os.path.join(c, t), 'w').close()
            os.mkdir(os.path.join(d, 'reservoirs'))
    return home


_template = None


def template():
    """Files of a new workspace"""
    global _template
    if _template is None:
        home = os.path.join(rt.scratch_home(), 'template')
        rt.fresh_home(home)
        status, text = scripts.run('ws -n w2\n')
        if status != 0 or strip(text) != ['Workspace(w2)']:
            raise AssertionError(f'cannot create workspace: {status}, {text!r}')
        d = os.path.join(home, '.local/share/marcel/workspace/w2')
        _template = {x: os.path.join(d, x) for x in os.listdir(d) if x != 'reservoirs'}
        _template['.WORKSPACE'] = None
        rt.fresh_home(os.path.join(rt.scratch_home(), 'h'))
    return _template


def execute(rec, config, mode, layout, script):
    def body():
        template()
        home = setup(config)
        try:
            m = Interpreter(config, mode)
            status = m.run(script)
            text = LAYOUTS[layout]([TEXT[c] for c in script])
            for _ in script:
                rec.transition()
            other = '(999)\n'
            got, out = scripts.run(text, mode, other)
            lines = strip(out)
            if got != status or not match(lines, m.out):
                return f'exit status {got}, output {lines}; expected {status}, {m.out}'
            # What was saved, and what is left
            for base, expected in (('.config/marcel/workspace', {'startup.py', '.WORKSPACE'}), ('.local/share/marcel/workspace', {'env.pickle', 'properties.pickle', 'history', 'reservoirs'})):
                found = {n: set(os.listdir(os.path.join(home, base, n))) for n in os.listdir(os.path.join(home, base))}
                default = found.pop('__DEFAULT__')
                if status != 0:
                    # Removed when another session starts
                    default = {x for x in default if not x.endswith('.env.pickle')}
                if found != {n: expected for n in m.saved if n} or not default <= {'startup.py', '.WORKSPACE', 'history', 'reservoirs'}:
                    return f'files in {base}: {found}, default: {default}'
            for name in m.saved:
                if name and m.startup[name] is not None and config != 'switch':
                    c = Interpreter(config, 'file')
                    c.saved, c.startup, c.cwd = {**m.saved, '': {}}, m.startup, 'h'
                    check = ['open1' if name == 'w1' else 'openw2', 'get', 'gety', 'callp']
                    status = c.run(check)
                    got, out = scripts.run(LAYOUTS['plain']([TEXT[x] for x in check]))
                    if got != status or not match(strip(out), c.out):
                        return f'later: workspace {name}: exit status {got}, output {strip(out)}, expected {status}, {c.out}'
            return repr(m.out), repr(m.out)
        finally:
            os.chdir(rt.scratch_home())
            shutil.rmtree(home, ignore_errors=True)
    rec.check([config, mode, layout, list(script)], body, timeout=60)


def cases(tier):
    modes = ['file', 'pipe', 'both', 'typed']
    n = 2 if tier == 'quick' else 3
    for config in CONFIGS:
        for k in range(0, n + 1):
            for s in itertools.product(LETTERS, repeat=k):
                for mode in modes:
                    if (mode == 'typed' and not all(c in MAIN_ONLY for c in s)) or (mode == 'both' and k > 1):
                        continue
                    yield config, mode, 'plain', s
        for k in range(n + 1, n + 2):
            for s in itertools.product(CORE if tier == 'quick' else CORE[:12], repeat=k):
                # Nothing happens after exit. A script which ends with an assignment is part of one which looks at it.
                if 'exit' in s[:-1] or s[-1] in ('set5', 'pipe') or tier == 'quick' and config in ('broken', 'switch') and 'openw2' not in s:
                    continue
                yield config, 'file', 'plain', s
    for config in ('several',):
        for k in range(0, n + 1):
            for s in itertools.product(LAYOUT_LETTERS, repeat=k):
                if k == 0:
                    continue
                for layout in LAYOUTS:
                    for mode in ('file', 'pipe', 'typed'):
                        if layout == 'plain' or mode == 'typed' and not (layout in TYPED_LAYOUTS and all(c in MAIN_ONLY for c in s)):
                            continue
                        yield config, mode, layout, s


def shards(tier):
    n = 24 if tier == 'quick' else 96
    return [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    i, n = shard
    for k, (config, mode, layout, s) in enumerate(cases(tier)):
        if k % n == i:
            m = Interpreter(config, mode)
            m.run(s)
            rec.state(f'{config} {m.saved} {m.cur} {m.cwd}')
            execute(rec, config, mode, layout, s)


def replay(rec, case):
    config, mode, layout, s = case
    execute(rec, config, mode, layout, tuple(s))
