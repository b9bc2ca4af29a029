"""Text of commands: quotes and escapes yield what they stand for, symbols mean the same whatever variables exist, and no text at all ends the session."""
import itertools
import os
import re
import shutil

from mc import rt

ID = 'C26'
LEVEL = 'bounded_exhaustive'
RULE = ('all texts up to a length over alphabets of characters with special meaning, in several places of a command: each is executed or rejected with the session intact; '
        'all words made of quotes, escapes, spaces, letters and one other special character: the value must be what an independent reader of quotes and escapes yields, in each place a string can be used; '
        'symbols and implied operators with variables named like the operators; state = (place, text)')
BOUNDS = {'quick': 'texts of up to 4 characters (5 as a whole command), 5 alphabets of 10 to 12 characters, 8 places; words of up to 5 characters from 6 (6 in an assignment) and 4 (5) including one of 12 special characters, 4 places',
          'thorough': 'texts of up to 5 (6) characters; words of up to 6 (7) and 5 (6)'}
ASSUMPTIONS = ['\\" inside double quotes does not end the string; the value keeps both characters']
PROP = dict(
    title='Quotes and escapes denote what they say, and no text can end the session',
    statement='A word of a command stands for its characters, with quotes removed and escaped characters taken literally, so that any string can be given as an argument, assigned, or used as a filename; missing quotes and characters to be escaped are reported. '
              'Symbols and expressions keep their meaning no matter which variables are defined. '
              'Whatever the text of a command is, it is executed or rejected with a message, and the session goes on.',
    over=['inputs'],
    text='all texts up to 4 to 6 characters from the special characters, and all quoted or escaped words',
    why='Tests use a handful of quoted strings, all well-formed, and no arbitrary text.',
    files=['marcel/parser.py', 'marcel/stringliteral.py', 'marcel/argsparser.py'],
    mechanism=[('words', 'marcel/parser.py: String.scan; marcel/stringliteral.py: StringLiteral.compute_unadorned'), ('symbols', 'marcel/parser.py: ConstructedString')],
    observe=['values of variables, output, names of files, messages'],
    technique='bounded-exhaustive enumeration of texts, executed by the real command line, compared with an independent reader of words',
    level_note='All texts within the bounds through the real command line. Trusts the reference reader.')

PLACES = ['{}', 'gen 1 | head {}', 'a = {}', 'ls {}', 'gen 1 | (x: {})', '(| {} |)', 'gen 1 | map (1){}', '! {}']
ALPHABETS = ["a'\"\\ ()|>#\n", "a'\"\\(){}:\n", "!@0a-$>|=,:<", "~a0*?[]/.'\"", "a(|): \\'=,>"]
SPECIAL = '()|>#,:=<!@$'
WORD = "ab'\"\\ "
BLOCK = 300


def reader(text):
    """-> ('value', v), ('reject',), or None if text isn't exactly one word"""
    out, i, n = '', 0, len(text)
    if n == 0:
        return None
    while i < n:
        c = text[i]
        i += 1
        if c == "'":
            j = text.find("'", i)
            if j < 0:
                return ('reject',)
            out += text[i:j]
            i = j + 1
        elif c == '"':
            while True:
                if i >= n:
                    return ('reject',)
                c = text[i]
                i += 1
                if c == '"':
                    break
                if c == '\\':
                    if i >= n:
                        return ('reject',)
                    out += '\\' if text[i] == '\\' else '\\' + text[i]
                    i += 1
                else:
                    out += c
        elif c == '\\':
            if i >= n:
                return ('reject',)
            out += text[i]
            i += 1
        elif c in ' \n()|>#,:=<' or (c in '!@' and i == 1):
            return None
        else:
            out += c
    return ('value', out)


def texts(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            t = ''.join(t)
            # Stay within the current directory.
            if not re.search(r"(^|[^a0*?\]])/|\.\.|~/", t):
                yield t


def words(n_plain, n_special):
    for t in texts(WORD, n_plain):
        yield t
    for s in SPECIAL:
        for t in texts("a'\"\\" + s, n_special):
            if s in t:
                yield t


class Rig:

    def __init__(self):
        os.environ['PATH'] = os.path.join(rt.scratch_home(), 'bin')
        os.makedirs(os.environ['PATH'], exist_ok=True)
        self.home = rt.fresh_home(os.path.join(rt.scratch_home(), 'c'))
        self.dir = os.path.join(rt.scratch_home(), 'cwd')
        self.cli = None

    def fresh(self):
        if self.cli:
            self.cli.close()
        shutil.rmtree(self.home, ignore_errors=True)
        rt.fresh_home(self.home)
        self.cli = rt.CLI()
        self.empty()
        self.cli.run('q = (| x: gen 1 | (i: repr(x)) |)')

    def empty(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.chdir(self.dir)
        self.cli.run(f'cd {self.dir}')

    def close(self):
        self.cli.close()
        os.chdir(rt.scratch_home())

    # any text

    def any(self, place, text):
        command = place.replace('{}', text)
        o, e, x = self.cli.run(command)
        if x:
            return f'{command!r} ends the session: {x}'
        if 'Traceback' in e or 'Traceback' in o:
            return f'{command!r}: {e}'
        return None

    def sentinel(self):
        for command, expected in (('gen 2 | (x: x + 1)', '1\n2\n'), ("q 'a b'", "'a b'\n")):
            r = self.cli.run(command)
            if r != (expected, '', None):
                return f'{command} then yields {r}'
        return None

    # words

    def word(self, place, text):
        expected = reader(text)
        if expected is None:
            return None
        cli = self.cli
        if place == 'write':
            if expected[0] == 'value' and ('/' in expected[1] or expected[1] in ('', '.', '..')):
                return None
            o, e, x = cli.run(f'gen 1 | write {text}')
            files = sorted(os.listdir(self.dir))
            for f in files:
                os.remove(os.path.join(self.dir, f))
            observed = ('reject',) if e and not files and not o else ('value', files[0]) if len(files) == 1 and not e and not o else (files, o, e, x)
        elif place == 'assign':
            cli.env.vars().pop('s', None)
            o, e, x = cli.run(f's = {text}')
            v = cli.env.getvar('s')
            observed = ('reject',) if e and v is None and not o else ('value', str(v)) if isinstance(v, str) and not o and not e else (v, o, e, x)
        else:
            o, e, x = cli.run(f'q {text}' if place == 'argument' else f'q --x {text}')
            if expected[0] == 'value' and expected[1].startswith('-'):
                return None
            observed = ('reject',) if e and not o else ('value', eval(o)) if o and not e else (o, e, x)
        if x:
            return f'{place} {text!r} ends the session: {x}'
        return observed, expected


WORD_PLACES = ['assign', 'argument', 'named', 'write']
NAMES = ['map', 'read', 'write', 'load', 'store', 'assign', 'runpipeline', 'run', 'remote', 'bash', 'case', 'v', 'f']
VALUES = ['5', '(5)', '(| reverse |)', '(| x: reverse |)', '(x: x)', '(None)', "('')", '([1])']
# command, output, rejected if there is already a variable with a different kind of value
SYMBOLS = [('gen 2 | (x: x + 1)', '1\n2\n'), ('(3)', '3\n'), ('gen 2 > out', ''), ('out <', '0\n1\n'), ('gen 1 >> out', ''), ('out < (x: int(x))', '0\n1\n0\n'), ('gen 2 5 >$ stream', ''), ('stream <$', '5\n6\n'),
           ('gen 1 >>$ stream', ''), ('stream <$ (x: x * 2)', '10\n12\n0\n'), ('w = 3', ''), ('(w)', '3\n'), ('gen 3 | args (| n: (1) |) | (x: -x)', '-1\n-1\n-1\n'), ('out < > out2', ''), ('out2 <', '0\n1\n0\n')]


def names(rig, name, value):
    o, e, x = rig.cli.run(f'{name} = {value}')
    if e or x:
        return f'{name} = {value}: {e, x}'
    for command, expected in SYMBOLS:
        r = rig.cli.run(command)
        if r != (expected, '', None):
            return f'with {name} = {value}, {command} yields {r}, expected {expected!r}'
    return None


def blocks(items):
    block = []
    for x in items:
        block.append(x)
        if len(block) == BLOCK:
            yield block
            block = []
    if block:
        yield block


def cases(tier):
    """Blocks of cases that are run in one session."""
    n = 4 if tier == 'quick' else 5
    for place in PLACES:
        for alphabet in ALPHABETS:
            for b in blocks(texts(alphabet, n + 1 if place == '{}' else n)):
                yield [('any', place, t) for t in b]
    for place in WORD_PLACES:
        for b in blocks(words(n + 1, n) if place != 'assign' else words(n + 2, n + 1)):
            yield [('word', place, t) for t in b]


def run_block(rec, rig, block):
    rig.fresh()
    for i, (kind, place, text) in enumerate(block):
        if reader(text) is None and kind == 'word':
            continue
        # The session is the history of this case.
        case = [kind, place, text, [t for _, _, t in block[:i]]]
        rec.state((kind, place, text))
        rec.transition()
        rec.check(case, lambda: (rig.any if kind == 'any' else rig.word)(place, text), timeout=10, key=f'{kind} {place} {text!r}')
    rec.check(['sentinel', block[-1][1], '', [t for _, _, t in block]], rig.sentinel, timeout=10)


def shards(tier):
    n = 32 if tier == 'quick' else 96
    return [('names', 0, 1)] + [('text', i, n) for i in range(n)]


def explore(rec, shard, tier):
    kind, i, n = shard
    rig = Rig()
    if kind == 'names':
        for name in NAMES:
            for value in VALUES:
                rig.fresh()
                rec.state((name, value))
                rec.transition(len(SYMBOLS))
                rec.check(['names', name, value], lambda: names(rig, name, value), timeout=20)
        rig.close()
        return
    for k, b in enumerate(cases(tier)):
        if k % n == i:
            run_block(rec, rig, b)
    rig.close()


def replay(rec, case):
    rig = Rig()
    rig.fresh()
    if case[0] == 'names':
        rec.check(case, lambda: names(rig, case[1], case[2]), timeout=20)
    else:
        kind, place, text, before = case
        for t in before:
            if kind == 'any' or kind == 'sentinel' and place in PLACES:
                rig.any(place, t)
            elif reader(t) is not None:
                rig.word(place, t)
        rec.check(case, lambda: rig.sentinel() if kind == 'sentinel' else (rig.any if kind == 'any' else rig.word)(place, text), timeout=20)
    rig.close()
