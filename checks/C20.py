"""Commands run as jobs, and pipelines run by fork, behave as in the shell's own process: enumeration of commands."""
import itertools
import os
import re

from mc import rt, sessions

ID = 'C20'
LEVEL = 'model_checking'
RULE = ('all commands: (operators with each kind of argument: literal, variable, pipeline parameter) x (contexts: at the top, in each operator that runs pipelines, in a pipeline variable, in fork), contexts nested to a depth; '
        'each executed by a real interactive session in a real job process (or in fork workers, of the shell or of a job), and compared with the same command (with args instead of fork) run in the process of a script')
BOUNDS = {'quick': '76 commands, 14 contexts, nested to depth 2 (of the pairs with fork, every 6th)', 'thorough': 'all pairs of contexts; contexts nested to depth 3 (a selection); jobs started by spawn too'}
ASSUMPTIONS = ['Values of variables can be sent to another process (a list of functions, for example, cannot)', 'What the commands compute is decided by other checks, in the process of a script']
PROP = dict(
    title='A command means the same in a job, in a fork, and in the shell itself',
    statement='Typed at the prompt, a command runs in a process of its own; its output, its error messages and the variables it assigns are the same as if the same command had been run by a script, whatever its operators and arguments (literals, expressions with variables, functions, pipeline parameters, pipelines, nested pipelines) are. '
              'fork runs its pipeline once for each thread id, with the id bound to its parameter, in the same way; all output of all of them, and all of their errors, are in its output (variables assigned there are local to that run).',
    over=['all operators and kinds of arguments', 'nesting of pipelines'],
    text='76 commands in 14 contexts, nested to depth 2 (or 3)',
    why='Tests run every command in the process of the test; nothing runs commands the way an interactive session does.',
    files=['marcel/job.py', 'marcel/core.py', 'marcel/pipeline.py', 'marcel/function.py', 'marcel/env.py', 'marcel/nestednamespace.py', 'marcel/op/fork.py', 'marcel/op/forkmanager.py', 'marcel/op/runpipeline.py'],
    mechanism=[('jobs', 'marcel/job.py: Job, run_command_in_child'), ('transmission of commands', 'marcel/function.py: SourceFunction; marcel/core.py: ensure_functions_compiled'), ('fork', 'marcel/op/forkmanager.py: ForkManager')],
    observe=['standard output', 'standard error', 'variables afterwards'],
    technique='exhaustive enumeration of commands and contexts, differential against execution in the process of a script',
    level_note='All commands within the bounds on the real code, with real job processes.')

STARTUP = '''
def fn(x):
    return x + 10

class Pt:
    def __init__(self, x):
        self.x = x
    def __repr__(self):
        return f'Pt({self.x})'
'''

SETUP = ['n = (2)', "s = 'st'", 'f = (x: x + 1)', 'g = (x, y: x * y)', 'p0 = (|gen 2|)', 'p = (|a: gen 2 (a)|)', 'pm = (|b: map (x: (x, b))|)',
         'pn = (|b: args (|x: gen 2 (x + b)|)|)', 'pp = (|b: p (b)|)', 'pq = (|b, c: (b + c)|)', 'import math', 'import math sqrt', 'd = ({"k": [1, "a"]})',
         'gen 3 >$ r', 'pr = (|p, a: p (a)|)', 'pf = (|p, a: fork ([a]) (|t: p (t)|)|)']

# E: an expression whose value is 2
FIRST = [
    'gen (E)', 'gen 2 (E)', 'gen -p (E) 2', 'gen (E) (E)', 'gen (E) | (x: x + E)', '((E, E + 1))', '(fn(E))', '(f(E))', '(math.sqrt(E * 2))', '(sqrt(E * 2))', '(d["k"][E - 2])', '(s * E)',
    '(Pt(E))', '([h(E) for h in [fn, f]])', 'p0', 'p (E)', 'p --a (E)', 'pp (E)', 'pq (E) (1)', 'pq --c (E) --b (3)', 'pr (p) (E)', 'pf (p) (E)', 'fork ([p]) (|t: t (E)|)', '(E) | args (|x: pr (pq) (x)|)',  'load r', 'r <$ map (x: x + E)', 'r <$', 'read (f"file{E}")', 'read file2', 'ls -f -r ("d" * (E - 1)) | (q: q.name)',
    'bash echo (E) x', 'bash "echo (E)"', 'echo (E)', "env n", 'union (|gen (E)|)', '(5 // (E - 2))', 'nonexistent (E)', 'gen (nonexistent)', 'p (E) (E)', 'ls /nonexistent | (q: q.path)',
    '(lambda: E)', 'fork (E) (|t: (t * 2)|) | red +', 'fork ([E]) (|t: gen 2 (t)|)', 'fork ([E]) p', 'fork ([E]) p0', 'fork ([1]) (|t: gen (E)|)', 'fork ([E]) (|t: gen 3 | (x: x // (x - t + 1))|)',
    'fork ([E]) (|t: head "x"|)', 'fork ([E]) (|t: load r | (x: (x, t))|)',
]
STAGES = [
    'map (x: x + E)', 'map f', 'map fn', 'select (x: x > E)', 'select f', 'head (E)', 'tail (E)', 'sort (x: -x * E)', 'sort fn', 'red (x, y: x + y * E)', 'red +', 'red g', 'red -i +', '(x: (x // E, x)) | red . +',
    '(x: (x, E)) | squish (x, y: x * y)', '(x: (x, E)) | squish +', 'window (x: x % E == 0)', 'window -o (E)', 'window -d (E)', '(x: [x, E]) | expand', '(x: (x, [E, 1])) | expand (E - 1)', 'cast str',
    'args (|x: gen (x + 1) (E)|)', 'args --all (|x: (len(x) + E)|)', 'case (x: x < E) (|(x: (x, E))|) (|(x: (-x, E))|)', 'case (x: x < E) p0 (|map f|)', 'union (|gen 2 (E)|) (|p (E)|)',
    'difference (|gen (E)|)', 'intersect (|gen (E)|)', 'filter -k (|gen (E)|)', 'filter -c (x: x + E) (|gen (E) 3|)', 'filter p0', '(x: (x, 1)) | join (|gen 3 | (x: (x, x * E))|)', 'join -k p0', 'pm (E)', 'pn (E)', '(x: 6 // (x - E))',
    'write -f "<{}>"', 'unique | reverse', '(x: x + E) >$ v', 'store w', '(x: E) >>$ y',
]
COMMANDS = FIRST + ['gen 4 | ' + s for s in STAGES]
STREAMS = {'>$ v': 'v', 'store w': 'w', '>>$ y': 'y'}

# Contexts: (command as a function of E, E, level) -> (command, definitions). None: fork is replaced, for reference
CONTEXTS = {
    'top': lambda c, e, i, ref: (c(e), []),
    'var': lambda c, e, i, ref: (c('n'), []),
    'args': lambda c, e, i, ref: (f'({e}) | args (|a: {c("a")}|)', []),
    'args-all': lambda c, e, i, ref: (f'({e}) | args --all (|a: (a[0]) | args (|a: {c("a")}|)|)', []),
    'fork': lambda c, e, i, ref: ((f'(*x: {e}) | args' if ref else f'fork ([{e}])') + f' (|a: {c("a")}|)', []),
    'fork-var': lambda c, e, i, ref: ((f'(*x: {e}) | args z{i}' if ref else f'fork ([{e}]) z{i}'), [f'z{i} = (|a: {c("a")}|)']),
    'union': lambda c, e, i, ref: (f'gen 1 | union (|{c(e)}|)', []),
    'difference': lambda c, e, i, ref: (f'gen 3 | difference (|{c(e)}|)', []),
    'intersect': lambda c, e, i, ref: (f'gen 3 | intersect (|{c(e)}|)', []),
    'filter': lambda c, e, i, ref: (f'gen 3 | filter (|{c(e)}|)', []),
    'join': lambda c, e, i, ref: (f'gen 3 | join (|{c(e)}|)', []),
    'case': lambda c, e, i, ref: (f'gen 2 | case (x: x < 1) (|{c(e)}|)', []),
    'pipeline': lambda c, e, i, ref: (f'z{i} ({e})', [f'z{i} = (|a: {c("a")}|)']),
    'named': lambda c, e, i, ref: (f'z{i} --a ({e})', [f'z{i} = (|a: {c("a")}|)']),
}
INNER = [x for x in CONTEXTS if x not in ('top', 'var')]
ANSI = re.compile(r'\x1b\[[0-9;]*m|(?<= at )0x[0-9a-f]+')


def build(command, contexts, ref):
    """-> (definitions, command)"""
    defs = []

    def at(i, e):
        if i == len(contexts):
            return re.sub(r'\bE\b', e, command)
        text, more = CONTEXTS[contexts[i]](lambda e2: at(i + 1, e2), e, i, ref)
        defs.extend(more)
        return text
    text = at(0, '2')
    return defs, text


class Rig:

    def __init__(self, start_method):
        self.start_method = start_method
        self.home = rt.fresh_home(os.path.join(rt.scratch_home(), 'h'))
        rt.reset_default_workspace()
        rt.ensure_layout()
        with open(os.path.join(self.home, '.config/marcel/workspace/__DEFAULT__/startup.py'), 'a') as f:
            f.write(STARTUP)
        with open('file2', 'w') as f:
            f.write('one\ntwo\n')
        os.mkdir('d')
        open('d/x', 'w').close()
        self.cli = rt.CLI()
        for c in SETUP:
            o, e, x = self.cli.run(c)
            assert not o and not e and not x, (c, o, e, x)
        self.reference = {}
        self.session = None

    def close(self):
        if self.session:
            self.session.kill()

    def ensure_session(self):
        if self.session is None:
            def before():
                import multiprocessing
                os.environ['PYTHONPATH'] = rt.REPO
                os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
                multiprocessing.set_start_method(self.start_method, force=True)
                multiprocessing.set_forkserver_preload(['marcel.main', 'marcel.parser', 'marcel.reader', 'marcel.api'] +
                                                       [f'marcel.op.{x[:-3]}' for x in os.listdir(os.path.join(rt.REPO, 'marcel/op')) if x.endswith('.py') and x != '__init__.py'])
            self.session = sessions.Session(before=before, alarm=3600)
            err = self.session.ready()
            for c in SETUP:
                o, e = self.session.run(c)
                assert not any(o) and not e, (c, o, e)

    def expected(self, defs, command):
        key = (tuple(defs), command)
        if key not in self.reference:
            for d in defs:
                o, e, x = self.cli.run(d)
                if o or e or x:
                    self.reference[key] = None      # not a command
                    return None
            c = rt.FdCapture()
            exc = None
            with c:
                try:
                    self.cli.raw(command)
                except rt.Hang:
                    raise
                except BaseException as x:
                    exc = f'{type(x).__name__}: {x}'
            more = self.streams(repr(key), lambda x: self.cli.run(x)[:2])
            self.reference[key] = (c.out.splitlines(), c.err.splitlines(), exc, more)
        return self.reference[key]

    def streams(self, command, run):
        # command: With definitions
        out = []
        for text, v in STREAMS.items():
            if text in command:
                o, e = run(f'{v} <$ (*x: x)')
                out.append((o.splitlines() if isinstance(o, str) else [x for x in o if x], e))
                run(f'env -d {v}')
        return out

    def observed(self, defs, command):
        self.ensure_session()
        try:
            for d in defs:
                o, e = self.session.run(d)
                if any(o) or e:
                    return f'{d}: {o} {e}'
            o, e = self.session.run(command)
            more = self.streams(repr((defs, command)), self.session.run)
        except sessions.SessionDied as e:
            self.session = None
            return f'the session ended: {e}'
        clean = lambda lines: [ANSI.sub('', x) for x in lines]
        return clean(x for x in o if x), clean(x for x in e.splitlines() if x), None, more


def execute(rig, case):
    what, command, contexts = case
    defs, text = build(command, contexts, False)
    rdefs, rtext = build(command, contexts, True)
    expected = rig.expected(rdefs, rtext)
    if expected is None:
        return None
    observed = rig.observed(defs, text)
    if isinstance(observed, str):
        return f'{defs} {text}: {observed}'
    expected = ([ANSI.sub('', x) for x in expected[0] if x], [ANSI.sub('', x) for x in expected[1] if x], *expected[2:])
    if any('fork' in x for x in (command, *contexts)):
        # What ends a worker is an Error in the output of fork
        # Variables assigned by a worker are its own
        killed = expected[1]
        observed, expected = [(sorted(x[7:] if x.startswith('Error: ') else x for x in out + err), exc) for out, err, exc, more in (observed, expected)]
        if killed and set(expected[0]) <= set(observed[0]):
            # Only a worker ended
            expected = observed
    if observed != expected:
        return f'{defs} {text}: job: {observed}, script: {expected}'
    return (repr(observed),) * 2


FORKS = ('fork', 'fork-var')


def cases(tier):
    for i, c in enumerate(COMMANDS):
        for k in CONTEXTS:
            yield c, (k,)
        for j, k in enumerate(itertools.product(INNER, INNER)):
            forks = sum(x in FORKS for x in k) + ('fork' in c)
            # Forks are slow
            if tier == 'thorough' or forks == 0 or forks == 1 and (i + j) % 6 == 0 or forks > 1 and (i + j) % 12 == 0:
                yield c, k
    if tier == 'thorough':
        for i, c in enumerate(COMMANDS):
            for j, k in enumerate(itertools.product(INNER, INNER, INNER)):
                if (i + j) % 30 == 0 and not any(x in FORKS for x in k):
                    yield c, k


def shards(tier):
    n = 32 if tier == 'quick' else 64
    return [('forkserver', i, n) for i in range(n)] + ([('spawn', i, 8) for i in range(8)] if tier == 'thorough' else [])


def explore(rec, shard, tier):
    what, i, n = shard
    rig = Rig(what)
    try:
        for j, (c, contexts) in enumerate(cases(tier)):
            if j % n == i and (what == 'forkserver' or len(contexts) == 1 and contexts[0] in ('top', 'args', 'fork')):
                rec.state((c, contexts))
                rec.transition()
                case = (what, c, contexts)
                rec.check(case, lambda: execute(rig, case))
    finally:
        rig.close()


def replay(rec, case):
    rig = Rig(case[0])
    try:
        rec.check(case, lambda: execute(rig, (case[0], case[1], tuple(case[2]))))
    finally:
        rig.close()
