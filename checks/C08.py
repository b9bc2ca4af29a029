"""Pipeline parameters: binding, nesting, shadowing, restoration, recursion, after success and after failure."""
import ast
import itertools
from mc import opsem as S

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('every program of a small grammar of nested parameterised pipelines (args, calls of named pipelines, union and case branches) '
        'over the names x, y with globals of the same names, run as command text; the values of all names are observed at every level and '
        'after the command; state = (program, observation point), transition = one observed item')
BOUNDS = {'quick': 'nesting depth 2, parameter lists (x), (y), (x,y), (y,x), 14 named-pipeline calls, programs of 1 stage + probes; recursion depth 0..5; all choices and orders of <= 4 named and positional arguments; '
                   'each program run between failing variants of itself',
          'thorough': 'nesting depth 3 for single-parameter lists, 2 stages in sequence'}
ASSUMPTIONS = ['free variables of a named pipeline are only global names that no caller uses as a parameter']
PROP = dict(
    title='Pipeline parameters are bound for exactly the pipeline that declares them',
    statement='Inside a parameterised pipeline each parameter has the value of its argument (positional, by name, or None if not given), innermost binding first, however '
              'pipelines are nested, repeated or recursive. Operators outside the pipeline, including those that receive its output, see their own '
              'variables. When the command ends, normally, with errors or because it was killed, every variable has the value it had before and later commands work.',
    over=['programs', 'histories'],
    text='all nestings of parameterised pipelines with all combinations of equal and different parameter and variable names, all ways to give arguments',
    why='Tests bind one or two parameters with fresh names; shadowing, repeated and recursive calls, downstream visibility and failures inside a scope are not enumerated.',
    files=['marcel/nestednamespace.py', 'marcel/pipeline.py', 'marcel/op/runpipeline.py', 'marcel/op/args.py', 'marcel/op/redirect.py', 'marcel/argsparser.py'],
    mechanism=[('scopes', 'marcel/nestednamespace.py: push_scope, pop_scope'), ('argument binding', 'marcel/op/runpipeline.py: bindings')],
    observe=['command output', 'values of variables after the command'],
    technique='bounded-exhaustive exploration of parameter-passing programs on the real interpreter against an environment-passing reference',
    level_note='All programs of the grammar within the bounds run on the real code. Trusts the reference evaluator in the check.')

GLOBALS = {'x': 'gx', 'y': 'gy', 'g': 'gg'}
PROBE = ('probe',)


def text(stages):
    return ' | '.join(stext(s) for s in stages)


def stext(s):
    k = s[0]
    if k == 'gen':
        return f'gen {s[1]}'
    if k == 'probe':
        return 'map (*v: (v, x, y))'
    if k == 'args':
        return f'args (| {", ".join(s[1])}: {text(s[2])} |)'
    if k == 'union':
        return f'union (| {text(s[1])} |)'
    if k == 'case':
        return f'case (*v: True) (| {text(s[1])} |)'
    if k == 'call':
        return s[1]
    if k == 'raw':
        return s[1]
    raise KeyError(k)


class Fail(Exception):
    pass


def ev(stages, env, inp):
    cur = inp
    for s in stages:
        k = s[0]
        if k == 'gen':
            cur = [(i,) for i in range(s[1])]
        elif k == 'probe':
            cur = [(t, env['x'], env['y']) for t in cur]
        elif k == 'args':
            vals = [S.un(t) for t in cur]
            out = []
            n = len(s[1])
            for i in range(0, len(vals), n):
                chunk = (vals[i:i + n] + [None] * n)[:n]
                out += ev(s[2], {**env, **dict(zip(s[1], chunk))}, None)
            cur = out
        elif k == 'union':
            cur = cur + ev(s[1], env, None)
        elif k == 'case':
            cur = ev(s[1], env, cur)
        elif k == 'call':
            fname, argf = s[2], s[3]
            params, body = DEFS[fname]
            kw = argf(env)
            cur = ev(body, {**GLOBALS, **{p: kw.get(p) for p in params}}, cur)
        elif k == 'raw':
            cur = s[2](env, cur)
        else:
            raise KeyError(k)
    return cur


def raw(txt, fn):
    return ('raw', txt, fn)


def pmap(names):
    return raw(f'map (*v: (v, {", ".join(names)}))', lambda env, cur: [(t,) + tuple(env[n] for n in names) for t in cur])


# Named pipelines. Those starting with gen are 'sources', the others 'filters'.
DEFS = {
    's1': (['x'], [('gen', 2), pmap(['x', 'g'])]),
    's2': (['x', 'y'], [('gen', 1), pmap(['x', 'y', 'g'])]),
    's3': (['x'], [('gen', 2), ('args', ['x'], [('gen', 1), pmap(['x', 'g'])]), pmap(['x'])]),
    's4': (['y'], [('call', 's2 (y) 7', 's2', lambda e: {'x': e['y'], 'y': '7'}), pmap(['y'])]),
    's5': (['x', 'y'], [('gen', 1), ('union', [('call', 's1 (y)', 's1', lambda e: {'x': e['y']})]), pmap(['x', 'y'])]),
    'f1': (['x'], [pmap(['x', 'g'])]),
    'f2': (['y', 'x'], [raw('reverse', lambda e, c: c[::-1]), pmap(['x', 'y'])]),
    'f3': (['x'], [('call', 'f1 (x)', 'f1', lambda e: {'x': e['x']}), pmap(['x'])]),
    'f4': (['x'], [('case', [('call', 'f1 (x)', 'f1', lambda e: {'x': e['x']})]), pmap(['x'])]),
}


def call(txt, f, argf):
    return ('call', txt, f, argf)


SOURCES = [
    call('s1 (x)', 's1', lambda e: {'x': e['x']}),
    call('s1', 's1', lambda e: {}),
    call('s1 -x (y)', 's1', lambda e: {'x': e['y']}),
    call('s2 (y) (x)', 's2', lambda e: {'x': e['y'], 'y': e['x']}),
    call('s2 -y (x) abc', 's2', lambda e: {'x': 'abc', 'y': e['x']}),
    call('s2 --y (x)', 's2', lambda e: {'y': e['x']}),
    call('s3 (y)', 's3', lambda e: {'x': e['y']}),
    call('s4 (x)', 's4', lambda e: {'y': e['x']}),
    call('s5 (x) (y)', 's5', lambda e: {'x': e['x'], 'y': e['y']}),
]
FILTERS = [
    call('f1 (y)', 'f1', lambda e: {'x': e['y']}),
    call('f1', 'f1', lambda e: {}),
    call('f2 (x) (y)', 'f2', lambda e: {'y': e['x'], 'x': e['y']}),
    call('f2 -x (x)', 'f2', lambda e: {'x': e['x']}),
    call('f3 (y)', 'f3', lambda e: {'x': e['y']}),
    call('f4 (y)', 'f4', lambda e: {'x': e['y']}),
]
PARAMS = [['x'], ['y'], ['x', 'y'], ['y', 'x']]


def filters(d, params=PARAMS):
    """stages that take input"""
    yield PROBE
    yield from FILTERS
    if d > 0:
        for p in params:
            for b in bodies(d - 1, params):
                yield ('args', p, b)
        for b in bodies(d - 1, params):
            yield ('union', b)
        for s in filters(d - 1, params):
            if s[0] != 'union':
                yield ('case', [s, PROBE])


def bodies(d, params=PARAMS):
    """pipelines that need no input"""
    for s in SOURCES:
        yield [s, PROBE]
    for s in filters(d, params):
        yield [('gen', 2), s, PROBE]


def programs(tier):
    if tier == 'quick':
        yield from bodies(2, [['x'], ['y', 'x']])
    else:
        yield from bodies(2)
        for s1 in filters(1):
            for s2 in filters(1):
                yield [('gen', 3), s1, s2, PROBE]


FAILS = ['gen 2 | args (| x: gen 1 | map (y: 1 // 0) |) | map (v: (v, x))',
         'gen 2 | args (| x: gen 1 | head (0) |)',
         'gen 3 | args (| x, y: map (: [[x]]) | unique |)',
         's1 1 2 3',
         's1 -x 1 2',
         's1 -zz 1',
         's1 (| gen 2 |) (nope)',
         's1 (nope)',
         'f1',
         'gen 1 | case (v: nope) (| f1 (x) |)',
         'gen 1 | args (| x: s1 (| gen 1 |) (| gen 1 |) |)',
         'gen 1 | args (| x: s1 (1 // 0) |)']


def shards(tier):
    return [('prog', i, 16) for i in range(16)] + [('fail', i) for i in range(len(FAILS))] + [('recursion',)] + [('bind', n) for n in range(6)] + [('pipe', n) for n in range(len(SITES))]


class Session:
    def __init__(self):
        self.r = S.CliRunner()
        for n, v in GLOBALS.items():
            self.ok(f'{n} = ({v!r})')
        for n, (params, body) in DEFS.items():
            self.ok(f'{n} = (| {", ".join(params)}: {text(body)} |)')

    def ok(self, t):
        res = self.r.cli.run(t)
        assert not any(res), (t, res)

    def observe(self, t):
        out, err, exc = self.r.stream(t)
        return exc or err or out

    def globals(self):
        return self.observe('map (: (x, y, g))')


GOK = [('gx', 'gy', 'gg')]


def detuple(o):
    return [tuple(t) for t in o]


def check_program(rec, sess, prog):
    t = text(prog)

    def body():
        want = ev(prog, GLOBALS, None)
        for i, w in enumerate(want):
            rec.state((t, i)); rec.transition()
        return (sess.observe(t), sess.globals()), (detuple(want), GOK)
    return rec.check(('prog', t), body)


def explore(rec, shard, tier):
    sess = Session()
    if shard[0] == 'prog':
        for n, prog in enumerate(programs(tier)):
            if n % shard[2] == shard[1]:
                if not check_program(rec, sess, prog):
                    sess = Session()
    elif shard[0] == 'fail':
        one_fail(rec, shard[1])
    elif shard[0] == 'bind':
        bind(rec, sess, shard[1], tier)
    elif shard[0] == 'pipe':
        pipes(rec, shard[1])
    else:
        recursion(rec)


def one_fail(rec, i):
    """After a command that fails (once, twice), the session behaves as a new one."""
    for times in (1, 2):
        for prog in bodies(1):
            if prog[-2][0] == 'call' or prog[-2][0] == 'args':
                sess_key = (i, times)
                if rec.state(sess_key):
                    sess = Session()
                for _ in range(times):
                    o, e, x = sess.r.cli.run(FAILS[i])
                t = text(prog)

                def body():
                    rec.transition()
                    want = ev(prog, GLOBALS, None)
                    return (x, sess.globals(), sess.observe(t), sess.globals()), (None, GOK, detuple(want), GOK)
                if not rec.check(('fail', FAILS[i], times, t), body):
                    sess = Session()


def recursion(rec):
    sess = Session()
    defs = {
        'ra': ('(| n: gen 1 | map (v: int(n)) | case (k: k > 0) (| args (| k: ra (k - 1) | map (*v: (k,) + v) |) |) (| map (k: ("end",)) |) |)',
               lambda n: [tuple(range(n, 0, -1)) + ('end',)]),
        'rb': ('(| n: gen (1) (int(n)) | case (k: k > 0) (| args (| k: rb (k - 1) | map (*v: v + (n,)) |) |) (| map (k: ("end", n)) |) |)',
               lambda n: [('end',) + tuple(range(0, n + 1))]),
        'rc': ('(| n, acc: gen 1 | map (v: n) | case (k: k > 0) (| args (| k: rc (k - 1) (acc + [k]) | union (| rc (0) (["leaf", k]) |) |) |) (| map (k: tuple(acc)) |) |)',
               lambda n: rc(n, [])),
    }
    for name, (d, ref) in defs.items():
        sess.ok(f'{name} = {d}')
        for n in range(6):
            call_ = f'{name} ({n})' + (' ([])' if name == 'rc' else '')
            for t, want in ((call_, ref(n)), (f'gen 2 | args (| x: {call_} |)', ref(n) * 2),
                            (f'{call_} | map (*v: (v, x, y))', [(w, 'gx', 'gy') for w in ref(n)])):
                def body():
                    rec.state((name, n)); rec.transition()
                    return (sess.observe(t), sess.globals()), (detuple(want), GOK)
                rec.check(('recursion', name, d, t, want), body)


def rc(n, acc):
    if n == 0:
        return [tuple(acc)]
    return rc(n - 1, acc + [n]) + rc(0, ['leaf', n])


# Binding of arguments: every choice and order of named arguments, in both notations, and every number of positional ones.
NAMES = ['a', 'bb', 'y', 'x']
ARGS = [('1', '1'), ('(0)', 0), ("''", ''), ('(None)', None), ('([1, 2])', [1, 2]), ('(x)', 'gx'), ('(y + g)', 'gygg'), ('"b c"', 'b c'), ('(False)', False), ("'-a'", '-a'), ('b\\ c', 'b c'), ('-1', '-1'), ('x', 'x')]
BODY = {'source': 'gen 1 | map (*z: ({p}))', 'filter': 'map (*z: ({p}))', 'nested': 'args (| q: map (: ({p})) |)', 'union': 'gen 1 | union (| gen 1 | map (*z: ({p})) |) | tail 1'}


def bindings(n, tier):
    for k in range(n + 1):
        for named in itertools.permutations(range(n), k):
            for dup in ((), named[:1]) if k and n < 4 else ((),):
                for npos in range(n + 2 if n < 4 or tier == 'thorough' else n + 1 - k):
                    for style in (('-', '--') if n < 4 or tier == 'thorough' else ('--',)):
                        for off in ((0, 3, 6, 9) if n < 4 else (1,)):
                            yield named + dup, npos, style, off


def bind(rec, sess, i, tier, only=None):
    j = 0
    for n in range(1, 5):
        for kind, body in BODY.items():
            names = NAMES[:n]
            name = f'p{n}{kind}'
            p = ', '.join(names) + ','
            sess.ok(f'{name} = (| {", ".join(names)}: {body.format(p=p)} |)')
            if n == 4 and kind not in ('source', 'filter') and tier == 'quick':
                continue
            for named, npos, style, off in bindings(n, tier):
                j += 1
                if only is None and j % 6 != i:
                    continue
                t, args = name, {}
                for k, m in enumerate(named):
                    txt, val = ARGS[(off + k) % len(ARGS)]
                    t += f' {style}{names[m]} {txt}'
                    args[names[m]] = val
                for k in range(npos):
                    txt, val = ARGS[(off + len(named) + k) % len(ARGS)]
                    t += f' {txt}'
                    if k < n and k not in named:
                        args[names[k]] = val
                refused = len(set(named)) < len(named) or npos > n or any(m < npos for m in named)
                out = tuple(args.get(x) for x in names)
                t = ('' if kind in ('source', 'union') else 'gen 1 | ') + t
                if only is not None and only[0] != t:
                    continue

                def body():
                    rec.state((t,)); rec.transition()
                    got = sess.observe(t)
                    return ('refused' if type(got) is str and got else got, sess.globals()), ('refused' if refused else [S.wrap(S.un(out))], GOK)
                rec.check(('bind', t), body)


# Pipelines as arguments: the pipeline that is the value of a parameter is used, wherever the parameter is used.
SITES = ['gen 3 | {p}', 'gen 3 | {p} | {p}', 'gen 2 | union {p}', 'gen 4 | difference {p}', 'gen 4 | intersect {p}', 'gen 3 | map (x: (x,)) | join {p}', 'gen 3 | map (x: (x, -x)) | join -k {p}', 'gen 4 | filter {p}', 'gen 4 | filter -d {p}',
         'gen 4 | case (x: x % 2 == 0) {p}', 'gen 4 | case (x: x % 2 == 0) {p} (x: x > 2) (| map (x: (x, x)) |) {p}', 'gen 2 | union {p} {p}', 'gen 2 | union {p} | intersect {p}', 'gen 2 | args (| z: gen (z + 1) | union {p} |)', 'gen 2 | args (| z: {p} | map (y: (y, z)) |)',
         'gen 2 | union (| gen 1 9 | union {p} |)', 'gen 1 | union (| gen 3 | case (x: x > 0) {p} |)', '{p}', '{p} | map (x: (x, 0)) | join {p}', 'gen 3 | args (| z: gen 2 | difference {p} | map (y: (z, y)) |)']
LITERALS = ['(| gen 2 |)', '(| map (x: x + 1) |)', '(| gen 3 | select (x: x != 1) |)', '(| gen 2 | args (| p: gen (p + 1) |) |)', '(| union (| gen 1 5 |) |)']


def pipes(rec, n, only=None):
    site = SITES[n]
    for lit in LITERALS:
        for bound in (None, '(| gen 1 77 |)', '(7)'):
            site_p = site.replace('{p}', 'p').replace('{r}', 'r')
            if only is not None and list(only) != [site, lit, bound]:
                continue

            def body():
                sess = Session()
                sess.ok(f'q = {lit}')
                sess.ok(f'L = (| {site.replace("{p}", "q")} |)')
                want = sess.observe('L')
                sess = Session()
                for c in (f'q = {lit}', f'h = (| p: {site_p} |)', 'h1 = (| p: h (p) |)', 'h2 = (| a, p, b: h (p) |)', 'h3 = (| r: h (r) |)', 'h4 = (| p: gen 1 | args (| z: h (p) |) |)', 'h5 = (| p: gen 1 | args (| z: h1 --p (p) |) |)', f'h6 = (| x, p: {site_p} |)') + ((f'p = {bound}',) if bound else ()):
                    sess.ok(c)
                calls = [f'h {lit}', 'h (q)', 'h --p (q)', f'h1 {lit}', 'h1 (q)', f'h2 (| gen 1 8 |) {lit} (3)', f'h2 -p {lit} (p)' if bound else f'h2 -p {lit}', f'h3 {lit}', f'h4 {lit}', 'h5 (q)', f'h6 (1) {lit}', f'h6 -x (p) -p (q)' if bound else 'h6 -p (q)']
                got = []
                for c in calls:
                    rec.state((site, lit, bound, c)); rec.transition()
                    got.append((c, sess.observe(c)))
                got.append(('p', sess.observe('gen 1 | map (x: p)' if bound == '(7)' else 'p')))
                wants = [(c, want) for c in calls]
                wants.append(('p', [(7,)] if bound == '(7)' else [(77,)] if bound else got[-1][1]))
                return got, wants
            rec.check(('pipe', site, lit, bound), body)


def replay(rec, case):
    if case[0] == 'pipe':
        pipes(rec, SITES.index(case[1]), only=case[1:])
        return
    if case[0] == 'bind':
        bind(rec, Session(), 0, 'thorough', only=case[1:])
        return
    if case[0] == 'prog':
        for prog in programs('thorough'):
            if text(prog) == case[1]:
                check_program(rec, Session(), prog)
                return
        for prog in programs('quick'):
            if text(prog) == case[1]:
                check_program(rec, Session(), prog)
                return
    elif case[0] == 'fail':
        one_fail(rec, FAILS.index(case[1]))
    else:
        recursion(rec)
