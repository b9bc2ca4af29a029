"""Writing streams to files and reading files."""
import csv
import io
import itertools
import json
import os
import shutil
from mc import rt

ID = 'C18'
LEVEL = 'bounded_exhaustive'
RULE = ('round trips: every stream of rows over the value alphabet, written in every format, replacing or appending to what earlier writes left, then read with every set of options; '
        'foreign files: every text over the character alphabet up to the bound, read in every format; several files, any of which may be damaged; '
        'an execution is one write/read history, judged against the list of rows written or against the format definition')
BOUNDS = {'quick': 'rows of 1-2 values out of 16, streams up to 2 rows, histories of up to 2 writes; texts up to length 5 over 6 characters (for JSON: 6 others); pickle files of up to 2 values out of 12; up to 3 files',
          'thorough': 'rows of 1-3 values, streams up to 2 rows, histories of up to 3 writes; texts up to length 7 over 6 characters; up to 4 files'}
ASSUMPTIONS = ['Text without carriage returns can be read back; without line ends when the file is not CSV or pickle', "Python's csv and json modules define the formats", 'Files are UTF-8 encoded']
PROP = dict(
    title='What write puts in a file is what read gets out of it',
    statement='A stream written to a file (replacing it, or appending) is read back in the same order: as the printed lines with no format, with fields having the same text as the values for CSV and TSV, and with equal values for pickle; write also passes its input through unchanged. '
              'Reading any text, CSV, TSV or JSON file yields exactly its lines, rows (named by the headings, padded, and labelled with the file, if requested) or value. '
              'Several files are read one after the other, and a file that cannot be read is reported as an error, not affecting the others.',
    over=['inputs', 'histories'],
    text='all streams, formats, options, file contents, and histories of writing and appending',
    why='Tests write and read a few simple rows. Quotes, delimiters, line ends and empty values inside fields, appends, and state kept between files matter only in combinations.',
    files=['marcel/op/read.py', 'marcel/op/write.py', 'marcel/picklefile.py', 'marcel/jsonutil.py', 'marcel/op/redirect.py', 'marcel/op/filenamesop.py'],
    mechanism=[('reading', 'marcel/op/read.py: Read.read_file, TextReader, CSVReader, PickleReader, JSONReader'), ('writing', 'marcel/op/write.py: DefaultWriter, CSVWriter, PythonWriter, PickleWriter')],
    observe=['output of read, contents of files'],
    technique='bounded-exhaustive enumeration of write/read histories and of file contents on the real operators',
    level_note='All cases within the bounds run on the real code and real files. Trusts the csv and json modules of Python.')

STARTUP = '''
from marcel.builtin import *
V = ['a', '', ' ', 'b c', 'x,y', 'p\\tq', '"', 'say "hi"', "it's", 'two\\nlines', 'ü€', 7, -2.5, None, True, (1, 'n')]
def rows(*indexes):
    yield from [tuple(V[i] for i in row) for row in indexes]
def show(*x):
    if len(x) == 1 and hasattr(x[0], '_fields'):
        # A named tuple is the one value of its row.
        x = x[0]
    return repr([str(y) if type(y).__name__ == 'File' else y for y in x])
'''
ns = {}
exec(STARTUP.replace('from marcel.builtin import *', ''), ns)
V = ns['V']
N = len(V)

_world = None


class World:
    def __init__(self):
        home = os.path.join(rt.scratch_home(), 'h')
        shutil.rmtree(home, ignore_errors=True)
        rt.fresh_home(home)
        self.c = rt.CLI(initial_config=STARTUP)
        self.dir = os.path.join(home, 'd')
        os.mkdir(self.dir)
        self.run(f'cd {self.dir}')

    def run(self, cmd):
        o, e, x = self.c.run(cmd)
        if x:
            raise RuntimeError(f'{cmd}: session ended by {x}')
        return o, e


def world():
    global _world
    if _world is None:
        _world = World()
    for f in os.listdir(_world.dir):
        path = os.path.join(_world.dir, f)
        if os.path.isdir(path) and not os.path.islink(path):
            shutil.rmtree(path)
        else:
            os.unlink(path)
    return _world


# ---------------------------------------------------------------- round trips

def text(v):
    return '' if v is None else str(v)


FORMATS = {'': '', 'csv': '--csv', 'tsv': '--tsv', 'pickle': '--pickle'}


def line_of(row):
    """default rendering"""
    return str(row[0]) if len(row) == 1 else str(row)


def expected_read(fmt, rows):
    if fmt == 'pickle':
        return [repr(list(r)) for r in rows]
    if fmt in ('csv', 'tsv'):
        return [repr([text(v) for v in r]) for r in rows]
    return [repr([line_of(r)]) for r in rows]


def writable(fmt, rows):
    """Can the rows be told apart in this format?"""
    return fmt or not any('\n' in line_of(r) for r in rows)


def round_trip(rec, fmt, writes):
    """writes: [(append, via, [row of indexes])]"""
    def body():
        w = world()
        rows = []
        for append, indexes in writes:
            new = [tuple(V[i] for i in r) for r in indexes]
            rows = (rows if append else []) + new
            src = f'(rows({", ".join(map(repr, indexes))})) | expand'
            cmd = f'{src} | write {FORMATS[fmt]} {"--append" if append else ""} f | map (*x: show(*x))'
            o, e = w.run(cmd)
            if e or o.splitlines() != [repr(list(r)) for r in new]:
                return f'{cmd}: passed on {o!r} {e!r}'
        out = []
        exp = expected_read(fmt, rows)
        for opts, f in (('', lambda x: x), ('--label', lambda x: "['f', " + x[1:])):
            o, e = w.run(f'read {FORMATS[fmt]} {opts} f | map (*x: show(*x))')
            if e or o.splitlines() != [f(x) for x in exp]:
                return f'read {fmt} {opts}: {o!r} {e!r}, expected {[f(x) for x in exp]}'
        if fmt in ('csv', 'tsv'):
            o, e = w.run(f'read {FORMATS[fmt]} --skip-headings f | map (*x: show(*x))')
            if e or o.splitlines() != exp[1:]:
                return f'read {fmt} -s: {o!r} {e!r}, expected {exp[1:]}'
        if fmt == 'pickle':
            pass
        else:
            with open(os.path.join(w.dir, 'f'), newline='') as f:
                got = f.read()
            if not fmt and got != ''.join(line_of(r) + '\n' for r in rows):
                return f'file contents {got!r}'
            if fmt and [r for r in csv.reader(io.StringIO(got, newline=''), delimiter={'csv': ',', 'tsv': '\t'}[fmt]) if r] != [[text(v) for v in r] for r in rows]:
                return f'file contents {got!r}'
        return (repr(exp),) * 2
    rec.check(('write', fmt, writes), body)


def python_format(rec, indexes):
    """--format, and redirection"""
    def body():
        w = world()
        rows = [tuple(V[i] for i in r) for r in indexes]
        src = f'(rows({", ".join(map(repr, indexes))})) | expand'
        w.run(f"{src} | write --format '<{{}}|{{}}>' f")
        with open(os.path.join(w.dir, 'f'), newline='') as f:
            got = f.read()
        exp = ''.join('<{}|{}>'.format(*r) + '\n' for r in rows if len(r) >= 2)
        if got != exp:
            return f'write --format: {got!r}, expected {exp!r}'
        w.run(f'{src} > g')
        w.run(f'{src} >> g')
        o, e = w.run('read g | map (*x: show(*x))')
        lines = ''.join(line_of(r) + '\n' for r in rows * 2).splitlines()
        exp = [repr([x]) for x in ''.join(line_of(r) + '\n' for r in rows * 2).split('\n')[:-1]]
        if e or o.splitlines() != exp:
            return f'> and >>: {o!r} {e!r}, expected {exp}'
        return ('ok',) * 2
    rec.check(('format', indexes), body)


def rows(width):
    for k in range(1, width + 1):
        yield from itertools.product(range(N), repeat=k)


# ---------------------------------------------------------------- foreign files

CHARS = ['a', 'b', ',', '"', '\n', '\r\n']
HEAD = ['x,y\n', 'a b,z-1\n', 'x,x\n', '1,y\n']


def ref_lines(t):
    t = t.replace('\r\n', '\n').replace('\r', '\n')
    parts = t.split('\n')
    if parts[-1] == '':
        parts.pop()
    return parts


def ref_rows(t, delimiter=','):
    return [tuple(r) for r in csv.reader(io.StringIO(t, newline=''), delimiter=delimiter) if r]


def ref_headed(t, label):
    """-> (field names or None, [('row', values) | 'error'])"""
    rs = ref_rows(t)
    if not rs:
        return []
    head = []
    for h in rs[0]:
        h = h.strip()
        if not h.isidentifier():
            h = ''.join(c if c.isascii() and (c.isalnum() or c == '_') else '_' for c in h)
        head.append(h)
    import keyword
    ok = all(h.isidentifier() and not keyword.iskeyword(h) and not h.startswith('_') for h in head) and len(set(head)) == len(head)
    if label:
        head = ['LABEL'] + head
    out = [] if ok else ['error']
    for r in rs[1:]:
        v = (('f',) if label else ()) + r
        if ok:
            if len(v) > len(head):
                out.append('error')
                continue
            v = v + (None,) * (len(head) - len(v))
        out.append(repr((list(v), tuple(head) if ok else None)))
    return out


def foreign(rec, t):
    def body():
        w = world()
        with open(os.path.join(w.dir, 'f'), 'w', newline='') as f:
            f.write(t)
        o, e = w.run('read f | map (*x: show(*x))')
        exp = [repr([x]) for x in ref_lines(t)]
        if e or o.splitlines() != exp:
            return f'read: {o!r} {e!r}, expected {exp}'
        for opt, d in (('--csv', ','), ('--tsv', '\t')):
            exp = [repr(list(r)) for r in ref_rows(t, d)]
            o, e = w.run(f'read {opt} f | map (*x: show(*x))')
            if e or o.splitlines() != exp:
                return f'read {opt}: {o!r} {e!r}, expected {exp}'
        return (repr(exp),) * 2
    rec.check(('foreign', t), body)


def headed(rec, head, t):
    """Named tuples: through the API, where they can be seen."""
    def body():
        api = api_world()
        with open('f', 'w', newline='') as f:
            f.write(head + t)
        for label in (False, True):
            exp = ref_headed(head + t, label)
            errors = []
            out = api.gather(api.read('f', csv=True, headings=True, label=label), unwrap_singleton=False, errors=errors)
            # A named tuple is the one value of its row.
            out = [x[0] if len(x) == 1 and hasattr(x[0], '_fields') else x for x in out]
            got = [repr(([str(y) if type(y).__name__ == 'File' else y for y in x], getattr(x, '_fields', None))) for x in out]
            if len(errors) != exp.count('error') or got != [x for x in exp if x != 'error']:
                return f'label={label}: {got}, {errors}, expected {exp}'
        return (repr(exp),) * 2
    rec.check(('headed', head, t), body)


_api = None


def api_world():
    global _api
    if _api is None:
        home = os.path.join(rt.scratch_home(), 'h')
        rt.fresh_home(home)
        os.mkdir('d')
        os.chdir('d')
        _api = rt.init_api()
    return _api


JSONS = [0, -1.5, 'x', '', None, True, [], {}, [1, [2, 'a']], {'a': 1}, {'a b': {'c': [None, {'d': 'ü'}]}}, [{'a': 1}, {'a': 2}], 'line\nend', '"q"']


def json_file(rec, v, indent):
    def body():
        w = world()
        with open(os.path.join(w.dir, 'f'), 'w') as f:
            json.dump(v, f, indent=indent)
        # A list becomes a tuple; show() gets its elements.
        o, e = w.run('read --json --label f | map (*x: show(*x))')
        exp = repr(['f', v])
        if e or o != exp + '\n':
            return f'read --json --label: {o!r} {e!r}, expected {exp}'
        o, e = w.run('read --json f | map (*x: show(*x))')
        exp = repr(v if isinstance(v, list) else [v])
        if e or o != exp + '\n':
            return f'read --json: {o!r} {e!r}, expected {exp}'
        return (exp,) * 2
    rec.check(('json', v, indent), body)


JSON_CHARS = ['1', '[', ']', ',', '\n', ' ']


def json_text(rec, t):
    def body():
        w = world()
        with open(os.path.join(w.dir, 'f'), 'w') as f:
            f.write(t)
        try:
            v = json.loads(t)
        except ValueError:
            v = ValueError
        for cmd, exp in (('read --json f', v if isinstance(v, list) else [v]), ('read --json --label f', ['f', v])):
            o, e = w.run(cmd + ' | map (*x: show(*x))')
            if v is ValueError:
                if e or not o.startswith('Error: ') or 'Unable to read' not in o or o.count('\n') != 1:
                    return f'{cmd}: {o!r} {e!r}, expected an Error'
            elif e or o != repr(exp) + '\n':
                return f'{cmd}: {o!r} {e!r}, expected {exp}'
        return (repr(v),) * 2
    rec.check(('jsontext', t), body)


PICKLED = ['1', '"s"', 'None', '()', '(1,)', '(1, [2])', '[]', '[1]', '[1, (2,)]', '[None, "s"]', '{"k": 1}', '{1}']


def pickle_file(rec, vs):
    def body():
        import dill
        w = world()
        with open(os.path.join(w.dir, 'f'), 'wb') as f:
            for v in vs:
                f.write(dill.dumps(eval(v)))
        values = [eval(v) for v in vs]
        for cmd, label in (('read --pickle f', []), ('read --pickle --label f', ['f'])):
            o, e = w.run(cmd + ' | map (*x: show(*x))')
            exp = [label + (list(v) if isinstance(v, (tuple, list)) else [v]) for v in values]
            if e or o != ''.join(repr(x) + '\n' for x in exp):
                return f'{cmd}: {o!r} {e!r}, expected {exp}'
        return (repr(values),) * 2
    rec.check(('pickle', list(vs)), body)


# ---------------------------------------------------------------- several files

GOOD = {'': 'p\nq\n', '--csv': 'p,q\nr,s\n', '--csv --headings': 'h1,h2\nr,s\n', '--csv --skip-headings': 'h1,h2\nr,s\n', '--json': '[1, 2]', '--pickle': None}
KINDS = ['good', 'empty', 'damaged', 'other', 'dir', 'unfinished']


def several(rec, opts, kinds):
    def body():
        w = world()
        import dill
        names = []
        exp = []
        errors = 0
        for i, k in enumerate(kinds):
            n = f'f{i}'
            p = os.path.join(w.dir, n)
            names.append(n)
            if k == 'dir':
                # A directory: nothing is read from it.
                os.makedirs(p)
                continue
            good = {'good': GOOD[opts], 'other': {'': 'z', '--csv': '"z"', '--csv --headings': 'h3\nt', '--csv --skip-headings': 'h3\nt', '--json': '"z"', '--pickle': None}[opts], 'empty': ''}.get(k)
            if opts == '--pickle':
                data = {'good': dill.dumps((1, 2)) + dill.dumps((3,)), 'other': dill.dumps(('z',)), 'empty': b'', 'damaged': b'\x00junk', 'unfinished': dill.dumps((1, 2)) + dill.dumps((3,))[:-2]}[k]
            elif good is not None:
                data = good.encode()
            elif k == 'damaged':
                data = b'\xff\xfe\n'
            else:
                data = {'': b'p', '--csv': b'"p,q', '--csv --headings': b'"p,q', '--csv --skip-headings': b'"p,q', '--json': b'[1, '}[opts]
            with open(p, 'wb') as f:
                f.write(data)
            t = data.decode('utf-8', 'replace')
            if k == 'damaged':
                errors += 1
            elif opts == '':
                exp += [[n, x] for x in ref_lines(t)]
            elif opts == '--csv':
                exp += [[n, *r] for r in ref_rows(t)]
            elif opts in ('--csv --headings', '--csv --skip-headings'):
                exp += [[n, *r] for r in ref_rows(t)[1:]]
            elif opts == '--json':
                if k in ('empty', 'unfinished'):
                    errors += 1
                else:
                    exp.append([n, json.loads(t)])
            else:
                if k == 'good':
                    exp += [[n, 1, 2], [n, 3]]
                elif k == 'other':
                    exp += [[n, 'z']]
                elif k == 'unfinished':
                    exp += [[n, 1, 2]]
                    errors += 1
        out = []
        for cmd in (f'read {opts} --label {" ".join(names)}', f'ls -f {" ".join(names)} | read {opts} --label'):
            o, e = w.run(cmd + ' | map (*x: show(*x))')
            got = [x for x in o.splitlines() if not x.startswith('Error: ')]
            nerr = sum(x.startswith('Error: ') for x in o.splitlines())
            if got != [repr(x) for x in exp] or nerr < errors or (not errors and nerr and 'unfinished' not in kinds):
                return f'{cmd}: {o!r} {e!r}, expected {exp} and {errors} errors'
            out.append(got)
        return (repr(out),) * 2
    rec.check(('several', opts, kinds), body)


# ---------------------------------------------------------------- enumeration

def cases(tier):
    deep = tier == 'thorough'
    one = [(i,) for i in range(N)]
    pairs = list(itertools.product(range(N), repeat=2))
    for fmt in FORMATS:
        def ok(*rws):
            return writable(fmt, [tuple(V[i] for i in r) for r in rws])
        for r in rows(3 if deep else 2):
            if ok(r):
                yield round_trip, fmt, [(False, [r])]
        for r, s in itertools.product(one + (pairs[::7] if not deep else pairs), one + pairs[::5]):
            if ok(r, s):
                yield round_trip, fmt, [(False, [r, s])]
        streams = [[], [(0,)], [(9, 6)], [(1,)], [(13, 4), (5, 2)]]
        for n in range(1, 4 if deep else 3):
            for apps in itertools.product((False, True), repeat=n):
                for ss in itertools.product(streams, repeat=n):
                    if ok(*[r for s in ss for r in s]):
                        yield round_trip, fmt, list(zip(apps, ss))
    for r, s in itertools.product(one + pairs[::3], one[::3] + pairs[::11]):
        yield python_format, [r, s]
    for n in range(0, 8 if deep else 6):
        for t in itertools.product(CHARS, repeat=n):
            yield foreign, ''.join(t)
    for head in HEAD:
        for n in range(0, 6 if deep else 5):
            for t in itertools.product(CHARS, repeat=n):
                yield headed, head, ''.join(t)
    for v in JSONS:
        for indent in (None, 1):
            yield json_file, v, indent
    for n in range(0, 7 if deep else 6):
        for t in itertools.product(JSON_CHARS, repeat=n):
            yield json_text, ''.join(t)
    for n in range(1, 4 if deep else 3):
        for vs in itertools.product(PICKLED, repeat=n):
            yield pickle_file, vs
    for opts in GOOD:
        for n in range(1, 5 if deep else 4):
            for kinds in itertools.product(KINDS, repeat=n):
                if kinds.count('dir') < n:
                    yield several, opts, kinds


def shards(tier):
    return [(kind, i, 24) for kind in ('api', 'cli') for i in range(24)]


def explore(rec, shard, tier):
    kind, i, n = shard
    for k, (f, *args) in enumerate(c for c in cases(tier) if (c[0] is headed) == (kind == 'api')):
        if k % n == i:
            f(rec, *args)


def replay(rec, case):
    kind, *args = case
    {'write': round_trip, 'format': python_format, 'foreign': foreign, 'headed': headed, 'json': json_file, 'jsontext': json_text, 'pickle': pickle_file, 'several': several}[kind](rec, *args)
