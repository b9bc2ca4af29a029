"""Command lines: every sequence of tokens is parsed as the grammar says, or rejected; functions mean what the notation says."""
import itertools
import os
import shutil

from mc import rt

ID = 'C25'
LEVEL = 'model_checking'
RULE = ('all sequences of up to N tokens from an alphabet with every kind of token (operators, words, a pipeline variable, a stream variable, expressions, and all symbols), with and without spaces around symbols, '
        'and all sentences of the grammar up to a length with all one-token changes, executed, and compared with an independent parser and evaluator of the documented grammar; all combinations of function notation, body and context')
BOUNDS = {'quick': '22 tokens, sequences of up to 4; sentences of up to 7 tokens with one-token changes of those up to 5', 'thorough': 'sequences of up to 5; sentences of up to 9, one-token changes of those up to 7'}
ASSUMPTIONS = ['Pipelines beginning with an operator that needs input have no defined meaning, and only have to be handled without crashing']
PROP = dict(
    title='A command line means what the grammar says, or is rejected without effect',
    statement='Any line of text is either executed as the documented grammar prescribes (pipelines and nesting, redirection, assignment, parameters, implied map, comments, spaces being optional around symbols), '
              'or rejected with a message, printing nothing else and changing nothing. No input ends or disables the session. '
              'Functions written in each of the notations compute what the equivalent Python lambda computes, in arguments, as operators and in assignments.',
    over=['sequences of tokens', 'sentences and their one-token changes', 'function notations'],
    text='all token sequences up to 4 or 5, all sentences up to 7 or 9 tokens',
    why='Tests parse a few dozen well-formed commands, and no arbitrary sequences.',
    files=['marcel/parser.py', 'marcel/function_args_parser.py', 'marcel/argsparser.py', 'marcel/op/assign.py'],
    mechanism=[('lexer and parser', 'marcel/parser.py: Lexer, Parser'), ('function notation', 'marcel/parser.py: Expression.value; marcel/function_args_parser.py')],
    observe=['output, error output, variables and files after each command'],
    technique='bounded exhaustive enumeration of inputs, compared with an independent reference parser and evaluator',
    level_note='All inputs within the bounds through the real command line. Trusts the reference grammar.')

# kinds: w word, e expression, s symbol
WORDS = ['gen', 'head', 'reverse', 'union', '2', 'v', 'p', 'zz']
EXPRS = ['(x: x + 1)', '(7)']
SYMBOLS = ['|', '(|', '|)', '>$', '>>$', '<$', '>', '>>', '<', '=', ',', ':']
TOKENS = WORDS + EXPRS + SYMBOLS
FILES = {'v': 'a\nb\n', 'p': '5\n'}     # in the current directory
STREAM = [5, 6]                          # v
NULLARY, UNARY = '(7)', '(x: x + 1)'


class Reject(Exception):
    pass


class Unspec(Exception):
    pass


def kind(t):
    return 'w' if t in WORDS else 'e' if t in EXPRS else 's'


LT, GT = ('<', '<$'), ('>', '>>', '>$', '>>$')


class Ref:
    """Parser of the documented grammar. Pipeline: ('pipe', params, [op]); op: (name, args)."""

    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    def peek(self, n=0):
        return self.t[self.i + n] if self.i + n < len(self.t) else None

    def next(self):
        x = self.peek()
        if x is None:
            raise Reject()
        self.i += 1
        return x

    def is_word(self, x):
        return x is not None and kind(x) == 'w'

    def word(self):
        x = self.next()
        if not self.is_word(x):
            raise Reject()
        return x

    def command(self):
        if self.is_word(self.peek()) and self.peek(1) == '=':
            var = self.next()
            self.next()
            a = self.arg()
            if a is None:
                raise Reject()
            c = ('assign', var, a)
        else:
            c = self.pipeline()
            if c[1]:
                raise Reject()
        if self.peek() is not None:
            raise Reject()
        return c

    def pipeline(self):
        params = None
        if self.is_word(self.peek()) and self.peek(1) in (',', ':'):
            params = [self.word()]
            while self.peek() == ',':
                self.next()
                params.append(self.word())
            if self.next() != ':':
                raise Reject()
        ops = []
        if self.is_word(self.peek()) and self.peek(1) in LT:
            source, lt = self.next(), self.next()
            ops.append(('load' if lt == '<$' else 'read', [source]))
            if self.peek() in GT:
                ops.append(self.out())
            elif self.peek() is not None and self.peek() != '|)':
                ops += self.sequence()
        elif self.peek() in GT:
            ops.append(self.out())
        else:
            ops += self.sequence()
        return ('pipe', params, ops)

    def out(self):
        gt = self.next()
        return ('store' if '$' in gt else 'write', [self.word(), '>>' in gt])

    def sequence(self):
        ops = [self.op_args()]
        while self.peek() == '|':
            self.next()
            ops.append(self.op_args())
        if self.peek() in GT:
            ops.append(self.out())
        return ops

    def op_args(self):
        x = self.peek()
        if x is not None and kind(x) == 'e':
            return ('map', [self.next()])
        name = self.word()
        args = []
        while True:
            a = self.arg()
            if a is None:
                return (name, args)
            args.append(a)

    def arg(self):
        x = self.peek()
        if x == '(|':
            self.next()
            p = self.pipeline()
            if self.next() != '|)':
                raise Reject()
            return p
        if x is not None and kind(x) in 'we':
            return self.next()
        return None


def is_pipe(x):
    return isinstance(x, tuple) and x[0] == 'pipe'


P_PIPE = ('pipe', None, [('reverse', [])])


def check_args(p):
    """Arguments are checked before anything is executed."""
    for name, args in p[2]:
        for a in args:
            if is_pipe(a):
                check_args(a)
    for name, args in p[2]:
        if name == 'gen':
            if len(args) > 2 or any(is_pipe(a) for a in args):
                raise Reject()
            if any(kind(a) == 'w' and a != '2' for a in args):
                raise Reject()
        elif name == 'head':
            if len(args) != 1 or is_pipe(args[0]) or (kind(args[0]) == 'w' and args[0] != '2'):
                raise Reject()
        elif name == 'reverse':
            if args:
                raise Reject()
        elif name == 'union':
            for a in args:
                if is_pipe(a):
                    continue
                if kind(a) == 'e':
                    raise Unspec()
                if a != 'p':
                    raise Unspec()      # A variable that is not bound to a pipeline
        elif name == 'map' and kind(args[0]) == 'w':
            raise AssertionError()


def number(a):
    if a == '2':
        return 2
    if a == '(7)':
        return 7
    raise Unspec()


class Eval:

    def __init__(self):
        self.vars = {}
        self.files = {}

    def run(self, p, stream, top):
        """stream None: first in the pipeline"""
        params, ops = p[1], p[2]
        hidden = set(params or ())
        out = stream
        for i, (name, args) in enumerate(ops):
            first = out is None
            if name in hidden:
                raise Unspec()
            if name == 'p':
                if args:
                    raise Unspec()
                if first:
                    raise Unspec()
                out = out[::-1]
            elif name in ('v', '2', 'zz'):
                raise Unspec()
            elif name in ('gen', 'load', 'read'):
                if not first:
                    raise Unspec()
                if name == 'gen':
                    if not args:
                        raise Unspec()      # unbounded
                    n = number(args[0])
                    start = number(args[1]) if len(args) > 1 else 0
                    out = list(range(start, start + n))
                elif name == 'load':
                    if args[0] != 'v' or 'v' in hidden:
                        raise Unspec()
                    out = list(STREAM)
                else:
                    if args[0] not in FILES:
                        raise Unspec()
                    out = FILES[args[0]].splitlines()
            elif name == 'map':
                if args[0] == '(7)':
                    if not first:
                        raise Unspec()
                    out = [7]
                else:
                    if first or any(isinstance(x, str) for x in out):
                        raise Unspec()
                    out = [x + 1 for x in out]
            elif name in ('store', 'write'):
                if first or not top or i != len(ops) - 1:
                    raise Unspec()
                target, append = args
                if name == 'store':
                    if target == 'v' and any(n == 'load' for n, _ in ops):
                        raise Unspec()      # being read
                    if append and target == 'p':
                        raise Unspec()      # refused
                    if not target.isidentifier():
                        raise Unspec()      # refused
                    self.vars[target] = (list(STREAM) if append and target == 'v' else []) + out
                else:
                    if any(n == 'read' and a[0] == target for n, a in ops):
                        raise Unspec()
                    self.files[target] = (FILES.get(target, '') if append else '') + ''.join(f'{x}\n' for x in out)
                out = []
            else:
                if first:
                    raise Unspec()
                if name == 'head':
                    out = out[:number(args[0])]
                elif name == 'reverse':
                    out = out[::-1]
                elif name == 'union':
                    for a in args:
                        out = out + self.run(P_PIPE if a == 'p' else a, None, False)
                else:
                    raise AssertionError(name)
        return out


def reference(tokens):
    """-> ('ok', output, variables, files) | ('assign', var, value) | ('reject',) | ('unspec',)"""
    if not tokens:
        return ('ok', [], {}, {})
    try:
        c = Ref(tokens).command()
    except Reject:
        return ('reject',)
    e = Eval()
    try:
        if c[0] == 'assign':
            var, value = c[1], c[2]
            if is_pipe(value):
                check_args(value)
                try:
                    out = e.run(value, None, False) if not value[1] else None
                except Unspec:
                    out = None
                return ('assign', var, ('pipe', out))
            return ('assign', var, {'(7)': 7, UNARY: ('function',)}.get(value, value))
        check_args(c)
        out = e.run(c, None, True)
        return ('ok', [str(x) for x in out], e.vars, e.files)
    except Unspec:
        return ('unspec',)
    except Reject:
        return ('reject',)


# ---------------------------------------------------------------- the real thing

class Rig:
    # Assigned to by some commands
    NAMES = [w for w in WORDS]

    def __init__(self):
        import marcel.pipeline, marcel.reservoir
        self.pipeline, self.reservoir = marcel.pipeline, marcel.reservoir
        os.environ['PATH'] = os.path.join(rt.scratch_home(), 'bin')
        os.makedirs(os.environ['PATH'], exist_ok=True)
        self.home = rt.fresh_home(os.path.join(rt.scratch_home(), 'c'))
        self.dir = os.path.join(rt.scratch_home(), 'cwd')
        self.cli = None
        self.renew()

    def renew(self):
        if self.cli:
            self.cli.close()
        shutil.rmtree(self.home, ignore_errors=True)
        rt.fresh_home(self.home)
        self.cli = rt.CLI()
        self.reset_files()
        os.chdir(self.dir)
        self.cli.run(f'cd {self.dir}')
        for c in ('p = (| reverse |)', f'gen 2 5 >$ v'):
            o, e, x = self.cli.run(c)
            assert not o and not e and not x, (c, o, e, x)
        self.before = self.vars()
        self.names = set(self.cli.env.vars().keys())

    def reset_files(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        for n, t in FILES.items():
            with open(os.path.join(self.dir, n), 'w') as f:
                f.write(t)
        os.chdir(self.dir)

    def value(self, x):
        if isinstance(x, self.reservoir.Reservoir):
            r, out = iter(x), []
            try:
                while True:
                    out.append(un(next(r)))
            except StopIteration:
                return out
            finally:
                r.close()
        if isinstance(x, self.pipeline.Pipeline):
            return ('pipe',)
        if callable(x):
            return ('function',)
        return x

    def vars(self):
        return {n: self.value(self.cli.env.getvar(n)) for n in self.NAMES}

    def files(self):
        out = {}
        for n in os.listdir(self.dir):
            with open(os.path.join(self.dir, n)) as f:
                out[n] = f.read()
        return out

    def execute(self, text, expected):
        out, err, exc = self.cli.run(text)
        if exc:
            self.renew()
            return f'the command ends the session: {exc}'
        vars_, files = self.vars(), self.files()
        names = set(self.cli.env.vars().keys())
        changed = vars_ != self.before or files != FILES
        message = self.judge(expected, out.splitlines(), err, vars_, files, names)
        if changed or names != self.names:
            self.renew()
        return message

    def judge(self, expected, out, err, vars_, files, names):
        what = expected[0]
        if what == 'unspec':
            return None
        ev, ef = dict(self.before), dict(FILES)
        en = set(self.names)
        if what == 'reject':
            if not err.strip():
                return f'not rejected: output {out}, variables {self.diff(vars_)}, files {files}'
            if out:
                return f'rejected, with output {out}'
        elif what == 'ok':
            if err:
                return f'rejected: {err.strip()}, expected {expected}'
            if out != expected[1]:
                return f'output {out}, expected {expected[1]}'
            ev.update(expected[2])
            en |= set(expected[2])
            ef.update(expected[3])
        else:
            if err or out:
                return f'assignment: {out}, {err}'
            value = expected[2]
            ev[expected[1]] = ('pipe',) if isinstance(value, tuple) and value[0] == 'pipe' else value
            en.add(expected[1])
        if vars_ != ev:
            return f'variables changed: {self.diff(vars_)}, expected {expected}'
        if names != en:
            return f'variables changed: {names ^ en}'
        if files != ef:
            return f'files {files}, expected {ef}'
        if what == 'assign':
            value = expected[2]
            if value == ('function',) and self.cli.env.getvar(expected[1])(41) != 42:
                return 'function computes something else'
            if isinstance(value, tuple) and value[0] == 'pipe' and value[1] is not None and expected[1].isidentifier():
                o, e, x = self.cli.run(expected[1])
                if (o.splitlines(), e, x) != ([str(y) for y in value[1]], '', None):
                    return f'pipeline assigned: running it yields {o, e, x}, expected {value[1]}'
        return None

    def diff(self, vars_):
        return {n: x for n, x in vars_.items() if x != self.before[n]}


def un(t):
    return t[0] if isinstance(t, tuple) and len(t) == 1 else t


def spaced(tokens):
    return ' '.join(tokens)


def squeezed(tokens):
    """Spaces only where they separate words and expressions."""
    out = ''
    for i, t in enumerate(tokens):
        if i and kind(tokens[i - 1]) != 's' and kind(t) != 's':
            out += ' '
        # What would be read as another symbol
        elif i and tokens[i - 1] + t[0] in ('>>', '>$', '>>$', '<$', '|)', '(|', '<|', '>|'):
            out += ' '
        out += t
    return out


def sentences(n):
    """All sentences of the grammar with exactly n tokens, top-level; words restricted to what makes sense."""
    memo = {}

    def seq(k):         # op_sequence
        if ('s', k) not in memo:
            out = set(op(k))
            for i in range(1, k - 1):
                for a in op(i):
                    for b in seq(k - i - 1):
                        out.add(a + ('|',) + b)
            memo['s', k] = out
        return memo['s', k]

    def op(k):
        if ('o', k) not in memo:
            out = set()
            if k == 1:
                out |= {('reverse',), ('p',), (UNARY,), (NULLARY,)}
            if k == 2:
                out |= {('gen', '2'), ('head', '2')}
            if k == 3:
                out |= {('gen', '2', NULLARY)}
            if k >= 4:
                for b in pipe(k - 3):
                    out.add(('union', '(|') + b + ('|)',))
            memo['o', k] = out
        return memo['o', k]

    def pipe(k):
        if ('p', k) not in memo:
            out = set(seq(k))
            if k >= 2:
                out |= {('v', '<$') + b for b in (seq(k - 2) if k > 2 else {()})}
            if k >= 4:
                out |= {('zz', ':') + b for b in seq(k - 2)}
            if k >= 6:
                out |= {('zz', ',', 'v', ':') + b for b in seq(k - 4)}
            memo['p', k] = out
        return memo['p', k]

    out = set(pipe(n))
    if n > 2:
        for b in pipe(n - 2):
            if b[-1] not in ('zz',):
                for g in ('>', '>>$'):
                    out.add(b + (g, 'zz'))
    if n > 4:
        out |= {('zz', '=', '(|') + b + ('|)',) for b in pipe(n - 4)}
    return out


def changes(s):
    for i in range(len(s) + 1):
        if i < len(s):
            yield s[:i] + s[i + 1:]
        for t in TOKENS:
            yield s[:i] + (t,) + s[i:]
            if i < len(s):
                yield s[:i] + (t,) + s[i + 1:]


# ---------------------------------------------------------------- functions

ARGS = [None, '', 'x', 'x, y', '*a', 'x, y=5', 'x, d={1: 2}', "x, s=':'"]
BODIES = ['3', 'x', '(x)', '[x, x][0:1]', "{'a': x}['a']", '(lambda q: q)(x)', '(lambda: x)()', "'a)b'", '"(" + str(x)', "'\\''", 'x if x else 0', '[i for i in (x,)]', "f'{x}'", "{x: 1}", "x # c", "'''a'b'''",
          'a[0]', 'x + y', 'x and (y, )', "'|)'", "'#'", 'x < 1', 'x > 1 | 2', 'x == 2', "'a' 'b'", "'>$'", "max(x, 1)", "x,", "not x", "-x", "s + str(x)", "d[1] + x"]


def function_cases():
    for a in ARGS:
        for b in BODIES:
            for form in (('{b}',) if a is None else (': {b}', 'lambda: {b}', 'lambda : {b}') if a == '' else ('{a}: {b}', 'lambda {a}: {b}', ' {a} : {b} ')):
                for context in ('map', 'op', 'assign', 'arg', 'head'):
                    yield a, b, form, context


def function_case(cli, a, b, form, context):
    """-> message or None"""
    text = '(' + form.format(a=a, b=b) + ')'
    if '#' in text and text.endswith('c)'):
        text = text.replace('# c', '')          # A Python comment hides the closing parenthesis
    args = a or ''
    variables = {'x': 4, 'y': 6}
    body = b.replace('# c', '')
    try:
        python = eval(f'lambda {args}: {body}', dict(variables))
        if not callable(python):
            python = None
    except SyntaxError:
        python = None

    def expect(*inputs):
        try:
            return ('value', python(*inputs))
        except Exception:
            return ('error',)

    n_required = 0 if python is None else python.__code__.co_argcount - len(python.__defaults__ or ())
    anything = python is not None and bool(python.__code__.co_flags & 4)
    for name, value in variables.items():
        cli.env.setvar(name, value)
    cli.env.vars().pop('g', None)
    if context in ('map', 'op'):
        if python is None:
            e = ('error',)
        elif n_required == 0 and not anything:
            return None         # A function without parameters, given input
        else:
            e = expect(*([1, 2] if n_required == 2 else [1]))
        src = 'gen 1 1' + (' | (x: (x, 2))' if n_required == 2 else '')
        o, err, exc = cli.run(f'{src} | {"map " if context == "map" else ""}{text} | (*r: repr(r if len(r) != 1 else r[0]))')
        if exc:
            return f'{text}: {exc}'
        if e[0] == 'value':
            v = e[1]
            v = v[0] if isinstance(v, (tuple, list)) and len(v) == 1 else v
            # What an operator is given is a tuple
            v = tuple(v) if isinstance(v, list) else v
            if v is None:
                return None
            if o != repr(v) + '\n' or err:
                return f'{text} as {context}: {o, err}, expected {v!r}'
        elif not err and 'Error' not in o:
            return f'{text} as {context}: {o!r}, expected an error'
        return None
    if context == 'assign':
        o, err, exc = cli.run(f'g = {text}')
        if exc:
            return f'{text}: {exc}'
        g = cli.env.getvar('g')
        if python is None:
            return None if err else f'{text} assigned: no error'
        if a:
            if err or not callable(g):
                return f'{text} assigned: {g!r} {err}, expected a function'
            for inputs in ([], [1], [1, 2], ['a', 'b']):
                try:
                    v = ('value', g(*inputs))
                except Exception:
                    v = ('error',)
                if v != expect(*inputs):
                    return f'{text} assigned: value for {inputs} is {v}, expected {expect(*inputs)}'
        else:
            e = expect()
            if e[0] == 'value':
                if (type(g), g) != (type(e[1]), e[1]) or err:
                    return f'{text} assigned: {g!r} {err}, expected {e[1]!r}'
            elif not err and 'Error' not in o:
                return f'{text} assigned: {g!r}, expected an error'
        return None
    if context == 'arg':        # argument of a pipeline: the value if there are no parameters
        if a:
            return None
        o, err, exc = cli.run(f'show {text}')
        if exc:
            return f'{text}: {exc}'
        e = expect() if python else ('error',)
        if e[0] == 'value':
            if o != repr(e[1]) + '\n' or err:
                return f'{text} as argument: {o, err}, expected {e[1]!r}'
        elif not err and 'Error' not in o:
            return f'{text} as argument: {o!r}, expected an error'
        return None
    if context == 'head':       # argument of an operator, to be evaluated
        if a:
            return None
        o, err, exc = cli.run(f'gen 9 | head {text}')
        if exc:
            return f'{text}: {exc}'
        e = expect() if python else ('error',)
        if e[0] == 'value' and type(e[1]) is int and e[1] > 0:
            if o.split() != [str(i) for i in range(min(9, e[1]))] or err:
                return f'head {text}: {o, err}'
        elif e[0] == 'error' and not err and 'Error' not in o:
            return f'head {text}: {o!r}, expected an error'
    return None


# ---------------------------------------------------------------- check


def shards(tier):
    out = [('fn', i) for i in range(8)]
    n, full, changed = (4, 7, 5) if tier == 'quick' else (5, 9, 7)
    for k in range(0, n + 1):
        out += [('seq', k, i, m) for m in [(1 if k < 3 else 22 if k < 5 else 88)] for i in range(m)]
    for k in range(1, full + 1):
        m = 1 if k < 5 else 16
        out += [('sent', k, k <= changed, i, m) for i in range(m)]
    return out


_rig = None


def endless(tokens, expected):
    if any(t == '<' and tokens[i + 1:i + 2] == ('>>',) and tokens[i - 1:i] == tokens[i + 2:i + 3] for i, t in enumerate(tokens)):
        return True     # A file being read is appended to
    return expected[0] in ('ok', 'unspec') and any(t == 'gen' and (tokens[i + 1:i + 2] == () or kind(tokens[i + 1]) == 's') for i, t in enumerate(tokens))


def run(rec, what, tokens):
    expected = reference(tokens)
    if endless(tokens, expected):
        return
    # The grammar can't tell, (words are not adjacent in what follows)
    for style, f in (('spaced', spaced), ('squeezed', squeezed)):
        text = f(tokens)
        if style == 'squeezed' and text == spaced(tokens):
            continue
        rec.check((what, style, tokens), lambda: _rig.execute(text, expected), nontrivial=expected[0] in ('ok', 'assign'), key=text)
        rec.transition(len(tokens))
    rec.state(expected)
    rec.count(expected[0])


def comments(rec, tokens):
    """A comment, and blanks, change nothing."""
    expected = reference(tokens)
    if expected[0] != 'unspec' and not endless(tokens, expected):
        for text in (spaced(tokens) + ' # | ( \'', '  ' + '  '.join(tokens) + '  ', '\t' + '\t'.join(tokens) + '#'):
            rec.check(('comment', text, tokens), lambda: _rig.execute(text, expected), key=text)


def explore(rec, shard, tier):
    global _rig
    if shard[0] == 'fn':
        cli = fn_cli()
        for i, c in enumerate(function_cases()):
            if i % 8 == shard[1]:
                rec.check(('fn',) + c, lambda: function_case(cli, *c))
                rec.state(c[:2])
                rec.transition()
        return
    _rig = Rig()
    if shard[0] == 'seq':
        _, k, i, m = shard
        for j, tokens in enumerate(itertools.product(TOKENS, repeat=k)):
            if j % m == i:
                run(rec, 'seq', tokens)
                if k <= 3:
                    comments(rec, tokens)
        return
    _, k, changed, i, m = shard
    seen = set()
    for j, s in enumerate(sorted(sentences(k))):
        if j % m == i:
            run(rec, 'sent', s)
            comments(rec, s)
            if changed:
                for c in changes(s):
                    if c not in seen and len(c) > 4:
                        seen.add(c)
                        run(rec, 'sent', c)


def fn_cli():
    rt.fresh_home(os.path.join(rt.scratch_home(), 'f'))
    cli = rt.CLI()
    o, e, x = cli.run('show = (| z: (repr(z)) |)')
    assert not (o or e or x), (o, e, x)
    return cli


def replay(rec, case):
    global _rig
    if case[0] == 'fn':
        cli = fn_cli()
        rec.check(case, lambda: function_case(cli, *case[1:]))
        return
    _rig = Rig()
    tokens = tuple(case[2])
    text = case[1] if case[0] == 'comment' else (spaced if case[1] == 'spaced' else squeezed)(tokens)
    rec.check(case, lambda: _rig.execute(text, reference(tokens)))
