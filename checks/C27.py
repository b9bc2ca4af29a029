"""Whatever the arguments and the input, a command yields output or messages, and the session goes on; an argument means the same however it is given."""
import itertools
import os
import re
import shutil

from mc import rt

ID = 'C27'
LEVEL = 'bounded_exhaustive'
RULE = ('every operator, every one of its flags (without and with a value), and up to two arguments, all taken from a set of arguments of every kind (words, numbers, None, collections, functions of various arities, failing expressions, '
        'literal, bound and undefined pipelines, files, an empty string), on every one of 7 kinds of input: executed, in one session after another; and every way of giving the same argument, compared; state = (input, operator, flag, argument)')
BOUNDS = {'quick': '41 operators; at most one flag with one value or one argument on 7 kinds of input; two arguments without flags on 4 kinds of input; 88 combinations of operator and flag x 5 or 6 ways of giving a value',
          'thorough': 'also pairs of flags with values, and two arguments with flags'}
ASSUMPTIONS = ['Operators whose effects are outside of the session (bash, sudo, remote, fork, timer, bg, fg, editors) are decided elsewhere (C19 to C21)',
               'Unbounded generators are left out']
PROP = dict(
    title='Wrong arguments or input are reported, and never end the session',
    statement='A command given arguments or input of the wrong kind, type or number reports that, in a message or in Errors in its output, and the session can go on; no command fails with an internal error. '
              'A number, name or text given as an argument means the same whether it is written as is, quoted, given by an expression, or by a variable; and flags mean the same in their short and long forms.',
    over=['inputs', 'configurations'],
    text='all operators with all of their flags, a set of arguments of all kinds, and 7 kinds of input',
    why='Tests give operators the arguments they are meant to have, with a few exceptions for each operator.',
    files=['marcel/argsparser.py', 'marcel/core.py', 'marcel/op/*.py'],
    mechanism=[('checking of arguments', 'marcel/argsparser.py: ArgsParser.parse, check_*'), ('evaluation of arguments', 'marcel/core.py: eval_function'), ('reporting of errors', 'marcel/core.py, marcel/pipeline.py')],
    observe=['output and messages of commands'],
    technique='bounded-exhaustive enumeration of commands on the real command line; for ways of giving arguments, of pairs of commands',
    level_note='All commands in the product are executed. Only whether the session goes on, and equality between forms, is decided; what operators compute is decided by C01 to C05.')

# operator -> flags without value, flags with value
OPS = {
    'args': (['-a'], []), 'case': ([], []), 'cast': ([], []), 'cd': ([], []), 'difference': ([], []), 'dirs': (['-c'], []), 'env': (['-b', '-o'], ['-d', '-p']), 'expand': ([], []),
    'filter': (['-k', '-d'], ['-c']), 'gen': ([], ['-p']), 'head': ([], []), 'help': ([], []), 'history': ([], []), 'import': ([], ['-a']), 'intersect': ([], []), 'join': (['-k'], []),
    'jobs': ([], []), 'load': ([], []), 'ls': (['-0', '-1', '-r', '-f', '-d', '-s'], []), 'map': ([], []), 'popd': ([], []), 'ps': (['-u', '-g'], ['-u', '-g', '-p', '-c']), 'pushd': ([], []), 'pwd': ([], []),
    'read': (['-0', '-1', '-r', '-c', '-t', '-h', '-s', '-p', '-j', '-l', '-c -h', '-c -s', '-t -h -l'], []), 'red': (['-i'], []), 'reverse': ([], []), 'run': ([], []), 'select': ([], []), 'sort': ([], []), 'sql': (['-a', '-u'], ['-d', '-c']),
    'squish': ([], []), 'store': (['-a'], []), 'tail': ([], []), 'trace': (['-0', '-1'], ['-f']), 'union': ([], []), 'unique': (['-c'], []), 'version': ([], []), 'window': ([], ['-o', '-d']), 'write': (['-c', '-t', '-p', '-a'], ['-f']),
    'edit': (['-s'], ['-s']),
}
POOL = ['a', '0', '2', '-1', 'f', 's', '""', '+', '*', '(0)', '(2)', '(-1)', '(1.5)', '(None)', '("a")', '([1])', '({})', '(x: x)', '(x, y: x)', '(lambda: (1, 2))', '(lambda *a: a)', '(1/0)', '(x: 1/0)', '(fn)', '(int)', '(X)', '(File("f"))',
        '(| map (x: x) |)', '(| x: map (y: y) |)', '(| gen 2 |)', '(| gen 2 | head (1/0) |)', '(| zz |)', 'q', '(q)', 'st', 'n']
INPUTS = ['', 'gen 2 | ', '(X) | expand | ', 'gen 3 | (i: X[i:i+2]) | ', 'ls | ', 'gen 3 | (i: 1/i) | ', 'gen 2 | select (x: False) | ']
SETUP = ['fn = (lambda a: lambda x: x)', 'X = ([0, None, "a", (1, "b"), [1], {}, 1.5, b"x", int])', 'q = (| x: map (y: x) |)', 'n = (2)', 'gen 3 >$ st']
PAIRS = ['', 'gen 2 | ', '(X) | expand | ', 'ls | ']
BLOCK = 200


def unbounded(op, args):
    """A generator without a limit."""
    return op == 'gen' and (not args or args[0] in ('0', '(0)', '-1', '(-1)', '-p') or args[0].startswith('-p'))


def commands(tier):
    for op, (plain, valued) in OPS.items():
        flags = [''] + [f + ' ' for f in plain] + [f'{f} {v} ' for f in valued for v in POOL] + [f + ' ' for f in valued]
        out = []
        for i in INPUTS:
            for f in flags:
                for a in [''] + POOL:
                    if not unbounded(op, (f + a).split()):
                        out.append((i, op, f, a))
        for i in PAIRS:
            for f in [''] if tier == 'quick' else [''] + [x + ' ' for x in plain]:
                for a in POOL:
                    for b in POOL:
                        if not unbounded(op, (f + a).split()):
                            out.append((i, op, f, f'{a} {b}'))
        if tier != 'quick':
            for i in PAIRS:
                for f, g in itertools.permutations([x + ' ' for x in plain] + [f'{x} {v} ' for x in valued for v in POOL], 2):
                    for a in ('', 'f', '(2)', '(| gen 2 |)'):
                        if not unbounded(op, (f + g + a).split()):
                            out.append((i, op, f + g, a))
        for k in range(0, len(out), BLOCK):
            yield [i + op + ' ' + f + a for i, op, f, a in out[k:k + BLOCK]]


class Rig:

    def __init__(self):
        os.environ['PATH'] = os.path.join(rt.scratch_home(), 'bin')
        os.makedirs(os.environ['PATH'], exist_ok=True)
        # Run by edit
        os.environ['EDITOR'] = 'true'
        self.home = rt.fresh_home(os.path.join(rt.scratch_home(), 'c'))
        self.dir = os.path.join(rt.scratch_home(), 'cwd')
        self.cli = None

    def fresh(self):
        if self.cli:
            self.cli.close()
        os.chdir(rt.scratch_home())
        shutil.rmtree(self.home, ignore_errors=True)
        rt.fresh_home(self.home)
        self.cli = rt.CLI()
        self.files()
        for c in SETUP:
            r = self.cli.run(c)
            assert r == ('', '', None), (c, r)

    def files(self):
        os.chdir(rt.scratch_home())
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(os.path.join(self.dir, 's'))
        os.chdir(self.dir)
        for name, text in (('f', 'a,1\nb,2\n'), ('2', 'two\n'), ('s/g', 'in s\n')):
            with open(name, 'w') as f:
                f.write(text)
        os.symlink('nowhere', 'l')
        self.cli.run(f'cd {self.dir}')

    def run(self, command):
        o, e, x = self.cli.run(command)
        if x:
            return f'{command!r} ends the session: {x}'
        if 'Traceback' in e or 'Traceback' in o:
            return f'{command!r}: {e} {o}'[:600]
        return None

    def sentinel(self):
        for c, expected in (('cd ' + self.dir, ''), ('trace -0', ''), ('zzz = (3)', ''), ('gen 2 | (x: x + zzz)', '3\n4\n'), ('env -d zzz', "('zzz', 3)\n"), ('env zzz', None)):
            o, e, x = self.cli.run(c)
            if x or expected is None and not e or expected is not None and (o, e) != (expected, ''):
                return f'{c} then yields {o, e, x}'
        return None

    def close(self):
        self.cli.close()
        os.chdir(rt.scratch_home())


def run_block(rec, rig, block):
    rig.fresh()
    for i, c in enumerate(block):
        rec.state(c)
        rec.transition()
        rec.check(['any', c, block[:i]], lambda: rig.run(c), timeout=10, key=c)
    rec.check(['sentinel', block[-1], block], rig.sentinel, timeout=10)


# command, value (text), its type
FORMS = [
    ('gen {} | (x: x)', '3', int), ('gen 2 {}', '5', int), ('gen -p {} 3 1', '9', int), ('gen 9 | head {}', '4', int), ('gen 9 | tail {}', '4', int), ('gen 4 | map (x: (x, [x, x], x)) | expand {}', '1', int), ('gen 4 | window -o {}', '2', int),
    ('gen 4 | window -d {}', '3', int), ('gen 4 | window --overlap {}', '2', int), ('gen 4 | window --disjoint {}', '3', int),
    ('ls {}', 'f', str), ('ls -f {} s', 'f', str), ('ls {} f', 's', str), ('ls -r {}', 's', str), ('ls {}', '?', str), ('read {}', 'f', str), ('read --csv {}', 'f', str), ('read -l {} | (f, x: x)', '?', str), ('cd {}', 's', str), ('pushd {}', 's', str),
    ('gen 2 | write {}', 'o', str), ('gen 2 | write --append {}', 'f', str), ('gen 2 | (x: (x, x)) | write -f {}', '"{}-{}"', str), ('gen 2 | (x: (x, x)) | write --format {}', '"{}-{}"', str), ('env {}', 'n', str), ('env -p {}', 'WORK', str), ('env --pattern {}', 'WORK', str), ('env -d {}', 'n', str),
    ('env --delete {}', 'n', str), ('env -o {}', 'EDITOR', str), ('import {}', 'math', str), ('import math {}', 'pi', str), ('import --as {} math pi', 'pp', str), ('import -a {} math', 'mm', str), ('import {} sqrt', 'math', str),
    ('ps -p {} | (p: p.pid)', '1', int), ('ps --pid {} | (p: p.pid)', '1', int), ('help {}', 'gen', str), ('filter {} (| gen 2 |)', None, None), ('trace -f {}', 't', str), ('trace --file {}', 't', str), ('w {}', 'x y', str), ('w --a {}', 'x', str), ('w -a {}', 'x', str),
    ('gen 3 | {}', 'r', 'pipe'), ('gen 3 | args {}', 'r2', 'pipe'), ('gen 3 | union {}', 'g', 'pipe'), ('gen 3 | difference {}', 'g', 'pipe'), ('gen 3 | intersect {}', 'g', 'pipe'), ('gen 3 | join {}', 'g', 'pipe'), ('gen 3 | filter {}', 'g', 'pipe'), ('gen 3 | filter -d {}', 'g', 'pipe'),
    ('gen 3 | case (x: x > 0) {}', 'r', 'pipe'), ('gen 3 | args -a {}', 'r2', 'pipe'), ('run2 {}', 'r', 'pipe'),
    ('gen 5 | map {}', 'plus', 'function'), ('gen 5 | select {}', 'even', 'function'), ('gen 5 | sort {}', 'minus', 'function'), ('gen 5 | red {}', 'add', 'function'), ('gen 5 | red -i {}', 'add', 'function'), ('gen 5 | window {}', 'even', 'function'), ('gen 3 | filter -c {} (| gen 1 |)', 'minus', 'function'),
    ('gen 5 | case {} (| map (x: -x) |)', 'even', 'function'),
]
PIPES = {'r': '(| reverse |)', 'r2': '(| x: gen 2 | map (y: x) |)', 'g': '(| gen 2 |)'}
FUNCTIONS = {'plus': '(x: x + 1)', 'even': '(x: x % 2 == 0)', 'minus': '(x: -x)', 'add': '(x, y: y if x is None else x + y)'}
LONG = {'-a': '--all', '-k': '--keep', '-d': '--discard', '-c': '--compare'}
LONG_OPS = [('gen 3 | args -a (| x: gen 1 | (y: x) |)', 'gen 3 | args --all (| x: gen 1 | (y: x) |)'), ('gen 3 | (x: (x, x)) | filter -k (| gen 2 | (x: (x, x)) |)', 'gen 3 | (x: (x, x)) | filter --keep (| gen 2 | (x: (x, x)) |)'), ('gen 3 | filter -d (| gen 2 |)', 'gen 3 | filter --discard (| gen 2 |)'),
            ('gen 3 | filter -c (x: x + 1) (| gen 2 |)', 'gen 3 | filter --compare (x: x + 1) (| gen 2 |)'), ('gen 3 | (x: (x, x)) | join -k (| gen 2 | (x: (x, 9)) |)', 'gen 3 | (x: (x, x)) | join --keep (| gen 2 | (x: (x, 9)) |)'), ('gen 4 | (x: x // 2) | unique -c', 'gen 4 | (x: x // 2) | unique --consecutive'),
            ('ls -r', 'ls --recursive'), ('ls -f', 'ls --file'), ('ls -d', 'ls --dir'), ('ls -s', 'ls --symlink'), ('gen 3 | red -i +', 'gen 3 | red --incremental +'), ('read -c f', 'read --csv f'), ('read -t f', 'read --tsv f'), ('read -c -h f', 'read --csv --headings f'), ('read -c -s f', 'read --csv --skip-headings f'),
            ('read -l f | (f, x: x)', 'read --label f | (f, x: x)'), ('read -r s', 'read --recursive s'), ('gen 2 | (x: (x, x)) | write -c', 'gen 2 | (x: (x, x)) | write --csv'), ('gen 2 | (x: (x, x)) | write -t', 'gen 2 | (x: (x, x)) | write --tsv'), ('gen 2 | write -a f', 'gen 2 | write --append f'), ('gen 2 | write -p o', 'gen 2 | write --pickle o'),
            ('gen 2 | store -a st', 'gen 2 | store --append st'), ('env -o', 'env --os'), ('dirs -c', 'dirs --clear'), ('gen -p 5 3 1', 'gen --pad 5 3 1')]


def forms(command, value, kind):
    """-> setup, [commands]"""
    if kind in (int, str):
        text = value.strip('"')
        literal = repr(int(text) if kind is int else text)
        quoted = f"'{text}'"
        plain = value if ' ' not in value else quoted
        return [f'v = ({literal})', f'u = (lambda k: {literal})'], [plain, quoted, f'"{text}"', f'({literal})', '(v)', f'(lambda: {literal})', '(u(0))', f'((lambda: {literal})())']
    if kind == 'pipe':
        return [f'{value} = {PIPES[value]}', f'{value}_ = ({value})'], ([value, f'{value}_'] if command.endswith('| {}') else [PIPES[value], f'({value})', f'({value}_)'] if command.startswith('run2') else [PIPES[value], value, f'{value}_', repr(value)])
    f = FUNCTIONS[value]
    return [f'{value} = {f}'], [f, '(lambda ' + f[1:], f'(*a: {value}(*a))'] + ([value] if 'case' not in command else [])


def form_case(rig, command, value, kind):
    results = []
    setup, values = forms(command, value, kind)
    for v in values:
        rig.fresh()
        for c in setup + ['w = (| a: gen 1 | (i: repr(a)) |)', 'run2 = (| p: gen 3 | p |)']:
            r = rig.cli.run(c)
            if r != ('', '', None):
                return f'{c}: {r}'
        results.append(observe(rig, command.format(v) if command.count('{}') else command))
    for v, r in zip(values, results):
        if r[0][2] is not None or r[0][1]:
            return f'{command.replace("{}", v)} yields {r[0]}'
        for x, y in zip(r, results[0]):
            if x != y:
                return f'{command.replace("{}", v)} yields {x}, but {command.replace("{}", values[0])} yields {y}'
    return results[0], results[0]


# The time at which the files of the rig were created isn't of interest.
def undated(r):
    return tuple(x if x is None else re.sub(r'\d{4} \w{3} \d\d \d\d:\d\d:\d\d', 'DATE', str(x)) for x in r)


def observe(rig, c):
    r = undated(rig.cli.run(c))
    files = {}
    for d, _, names in os.walk(rig.dir):
        for n in names:
            p = os.path.join(d, n)
            if not os.path.islink(p):
                with open(p, 'rb') as f:
                    files[os.path.relpath(p, rig.dir)] = f.read()
    rig.cli.run('trace -0')
    names = sorted(n for n in rig.cli.env.vars().keys() if n not in ('v', 'u'))
    return r, files, os.getcwd(), names, undated(rig.cli.run('dirs')), rig.cli.run('st <$')


def long_case(rig, a, b):
    out = []
    for c in (a, b):
        rig.fresh()
        out.append(observe(rig, c))
    if out[0][0][1] or out[0][0][2]:
        return f'{a}: {out[0]}'
    for x, y in zip(*out):
        if x != y:
            return f'{a} yields {x}, but {b} yields {y}'
    return out[0], out[0]


def shards(tier):
    n = 48 if tier == 'quick' else 128
    return [('forms', 0, 1), ('long', 0, 1)] + [('any', i, n) for i in range(n)]


def explore(rec, shard, tier):
    kind, i, n = shard
    rig = Rig()
    if kind == 'forms':
        for f in FORMS:
            if f[1] is not None:
                rec.state(f[:2])
                rec.transition(6)
                rec.check(['form', f[0], f[1], getattr(f[2], '__name__', f[2])], lambda: form_case(rig, *f), timeout=30)
    elif kind == 'long':
        for a, b in LONG_OPS:
            rec.state(a)
            rec.transition(2)
            rec.check(['long', a, b], lambda: long_case(rig, a, b), timeout=20)
    else:
        for k, b in enumerate(commands(tier)):
            if k % n == i:
                run_block(rec, rig, b)
    rig.close()


def replay(rec, case):
    rig = Rig()
    rig.fresh()
    if case[0] == 'form':
        rec.check(case, lambda: form_case(rig, case[1], case[2], {'int': int, 'str': str}.get(case[3], case[3])), timeout=30)
    elif case[0] == 'long':
        rec.check(case, lambda: long_case(rig, case[1], case[2]), timeout=30)
    else:
        for c in case[2]:
            rig.run(c)
        rec.check(case, (lambda: rig.run(case[1])) if case[0] == 'any' else rig.sentinel, timeout=10)
    rig.close()
