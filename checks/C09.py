"""Failures of user functions are isolated to the failing input; a killed command leaves the session usable."""
import itertools
import pathlib

import marcel.object.file

from mc import opsem as S, ops, rt
from mc.opsem import Spec, ERR

ID = 'C09'
LEVEL = 'model_checking'
RULE = ('every (failing operator, position: top level / union / args / case / named pipeline, operators after it, stream) up to the bound, '
        'run through the API and as command text, plus every sequence of commands that get killed; state = (failing stage, context, stream), '
        'transition = one operator applied to it')
BOUNDS = {'quick': '32 failing stages x 29 downstream operators x streams <= 3 items over {ok, failing, ok}; 12 contexts; pairs of failing stages; 30 killed commands, all ordered pairs',
          'thorough': 'streams <= 4; two downstream operators; all ordered triples over 12 killed commands'}
ASSUMPTIONS = ['Where an Error from a pipeline that is an argument of difference, intersect, filter or join goes, relative to the items, is unspecified']
PROP = dict(
    title='A failing input yields one Error and does not disturb anything else',
    statement='When a user-supplied function fails for some inputs of an operator, each of those inputs yields exactly one Error (in its place, for operators working item by item), '
              'all other inputs are processed as if the failing ones were absent, Errors pass through all later operators and out of nested pipelines unchanged, and are printed even if the '
              'output is formatted. A command that cannot be executed prints a message, raises nothing out of the session, and later commands work. gather, first and iteration in the API show the same outputs and Errors.',
    over=['programs', 'inputs', 'histories'],
    text='all operators taking functions, at any position of any pipeline, on all streams containing failing inputs',
    why='Tests have one or two failing inputs directly before the output; failing inputs in nested pipelines, before stateful operators, and several failures per command are not sampled.',
    files=['marcel/core.py', 'marcel/pipeline.py', 'marcel/api.py', 'marcel/op/apiop.py', 'marcel/op/write.py', 'marcel/op/redirect.py', 'marcel/op/expand.py', 'marcel/main.py', 'marcel/exception.py'],
    mechanism=[('conversion of exceptions to Errors', 'marcel/core.py: Op.call, fatal_error, receive_input'), ('propagation', 'marcel/core.py: send_error, receive_error'),
               ('command failure', 'marcel/main.py: parse_and_run_command')],
    observe=['marcel.api.gather, first, iteration', 'command output, stderr'],
    technique='bounded-exhaustive exploration of failing programs and command histories on the real code against list semantics with Error items',
    level_note='All combinations within the bounds run on the real code. Trusts the list references.')

BAD = (1,)


def lift(ref):
    """An operator holding items: Errors overtake."""
    def f(s):
        good = [t for t in s if t != ERR]
        return [ERR] * (len(s) - len(good)) + ref(good)
    return f


def elem(ref):
    """An item by item operator."""
    def f(s):
        out = []
        for t in s:
            out += [ERR] if t == ERR else ref([t])
        return out
    return f


FAILS = {  # expression failing
    'zerodiv': ('1 // 0', lambda: 1 // 0),
    'index': ('[][0]', lambda: [][0]),
    'key': ('{}[3]', lambda: {}[3]),
    'value': ('int("q")', lambda: int('q')),
    'stop': ('next(iter(()))', lambda: next(iter(()))),
    'recursion': ('(lambda f: f(f))(lambda f: f(f))', lambda: (lambda f: f(f))(lambda f: f(f))),
    'name': ('no_such_name', lambda: no_such_name),   # noqa
    'type': ('1 + ""', lambda: 1 + ''),
    'attr': ('(5).qq', lambda: (5).qq),
    'file': ('''__import__("marcel.object.file").object.file.File(__import__("pathlib").Path("/no/such")).size''', lambda: marcel.object.file.File(pathlib.Path('/no/such')).size),
}


def fail_if(fn, val=lambda *x: x):
    return lambda *x: fn() if x == BAD else val(*x)


def stages():
    """-> [(Spec, streaming)]"""
    out = []

    def add(name, cli, api, ref, streaming=True, first=False):
        sp = Spec(name, cli, api, (elem if streaming and not first else lift)(ref))
        sp.streaming = streaming
        sp.first = first
        out.append(sp)
    for k, (txt, fn) in FAILS.items():
        f = fail_if(fn)
        add(f'map {k}', f'map (*x: {txt} if x == (1,) else x)', lambda m, f=f: m.map(f), S.fmap(fail_if(FAILS['zerodiv'][1])))
    z = FAILS['zerodiv'][1]
    f2 = lambda x, y: x
    add('map arity', 'map (x, y: x)', lambda m: m.map(f2), S.fmap(f2))
    add('map noarg', 'map (*x: (lambda: 3)(*x))', lambda m: m.map(lambda *x: (lambda: 3)(*x)), S.fmap(lambda *x: (lambda: 3)(*x)))
    p = fail_if(z, lambda *x: True)
    add('select', 'select (*x: 1 // 0 if x == (1,) else True)', lambda m: m.select(p), S.select(p))
    ps = fail_if(FAILS['stop'][1], lambda *x: x == (0,))
    add('select 2', 'select (*x: next(iter(())) if x == (1,) else x == (0,))', lambda m: m.select(ps), S.select(ps))
    sq = lambda a, b: 1 // (b - 1)
    add('squish', 'map (*x: (5,) + x) | squish (a, b: 1 // (b - 1))', lambda m: m.map(lambda *x: (5,) + x) | m.squish(sq),
        lambda s: [t for r in [[(5,) + t for t in s]] for t in safe_squish(sq)(r)])
    add('cast', "map (*x: 'q' if x == (1,) else x) | cast int", lambda m: m.map(lambda *x: 'q' if x == BAD else x) | m.cast(int),
        lambda s: safe_cast([(('q',) if t == BAD else t) for t in s]))
    add('expand gen', 'map (*x: (y // (0 if y == 1 and x == (1,) else 1) for y in range(3))) | expand',
        lambda m: m.map(lambda *x: (y // (0 if y == 1 and x == BAD else 1) for y in range(3))) | m.expand(),
        lambda s: [v for t in s for v in ([(0,), ERR] if t == BAD else [(0,), (1,), (2,)])])
    add('expand 0 gen', 'map (*x: ((y // (0 if y == 1 and x == (1,) else 1) for y in range(3)), 7)) | expand 0',
        lambda m: m.map(lambda *x: ((y // (0 if y == 1 and x == BAD else 1) for y in range(3)), 7)) | m.expand(0),
        lambda s: [v for t in s for v in ([(0, 7), ERR] if t == BAD else [(0, 7), (1, 7), (2, 7)])])
    k = fail_if(z, lambda *x: -len(x))
    add('sort', 'sort (*x: 1 // 0 if x == (1,) else -len(x))', lambda m: m.sort(k),
        lambda s: [ERR] * s.count(BAD) + sorted((t for t in s if t != BAD), key=lambda t: -len(t)), False)
    w = fail_if(z, lambda *x: x == (0,))
    add('window', 'window (*x: 1 // 0 if x == (1,) else x == (0,))', lambda m: m.window(w),
        lambda s: [ERR] * s.count(BAD) + S.w_pred(w)([t for t in s if t != BAD]), False)
    r = lambda a, b: a + ('x' if b == 'BAD' else b)
    name = lambda *x: (7, 'BAD' if x == BAD else len(x), 1)
    for g, inc in itertools.product((False, True), (False, True)):
        fns = (S.GROUP if g else (lambda a, b: a + b), r, 'count')
        add(f'red {"." if g else ""} {"-i" if inc else ""}',
            f'map (*x: (7, "BAD" if x == (1,) else len(x), 1)) | select (a, b, c: True) | red {"-i " if inc else ""}{"." if g else "+"} (a, b: b if a is None else a + ("x" if b == "BAD" else b)) count',
            lambda m, g=g, inc=inc: m.map(name) | m.select(lambda a, b, c: True) |
            m.red(None if g else m.r_plus, lambda a, b: b if a is None else a + ('x' if b == 'BAD' else b), m.r_count, incremental=inc),
            lambda s, fns=fns, inc=inc: order(S.red(*[red0(f) for f in fns], incremental=inc)([name(*t) for t in s])), False)
    fc = fail_if(z, lambda *x: x[:1])
    add('filter -c', 'filter -c (*x: 1 // 0 if x == (1,) else x[:1]) (| gen 3 |)', lambda m: m.filt(m.gen(3), compare=fc),
        lambda s: [ERR if t == BAD else t for t in s if t == BAD or t[:1] in ((0,), (1,), (2,))])
    cp = fail_if(z, lambda *x: x == (0,))
    add('case', 'case (*x: 1 // 0 if x == (1,) else x == (0,)) (| map (*x: ("c",) + x) |) (| map (*x: ("d",) + x) |)',
        lambda m: m.case(cp, m.map(lambda *x: ('c',) + x), m.map(lambda *x: ('d',) + x)),
        lambda s: [ERR if t == BAD else ('c',) + t if t == (0,) else ('d',) + t for t in s])
    bf = fail_if(z)
    add('args', 'args (| a: map (: a) | map (*x: 1 // 0 if x == (1,) else x) |)',
        lambda m: m.args(lambda a: m.map(lambda: a) | m.map(bf)), S.fmap(bf))
    add('2 fail', 'map (*x: 1 // 0 if x == (0,) else x) | select (*x: 1 // 0 if x == (1,) else True)',
        lambda m: m.map(lambda *x: 1 // 0 if x == (0,) else x) | m.select(p),
        lambda s: [ERR if t in ((0,), BAD) else t for t in s])
    # Failing without input
    add('first map', '(1 // 0)', lambda m: m.map(z), lambda s: [ERR], first=True)
    add('first union', '(1 // 0) | union (| (1 // 0) |) (| (1 // 0) | (x: x) |)', lambda m: m.map(z) | m.union(m.map(z), m.map(z) | m.map(lambda x: x)), lambda s: [ERR] * 3, first=True)
    add('first case', 'gen 1 | case (x: True) (| (*x: 1 // 0) |) | union (| (3) |)', lambda m: m.gen(1) | m.case(lambda x: True, m.map(lambda *x: 1 // 0)) | m.union(m.map(lambda: 3)), lambda s: [ERR, (3,)], first=True)
    return out


def red0(f):
    # the reduction functions above start from None themselves
    return f


def order(s):
    e = [t for t in s if t == ERR]
    return e + [t for t in s if t != ERR]


def safe_squish(fn):
    def f(s):
        out = []
        for t in s:
            try:
                acc = t[0]
                for x in t[1:]:
                    acc = fn(acc, x)
                out.append(S.wrap(acc))
            except Exception:
                out.append(ERR)
        return out
    return f


def safe_cast(s):
    out = []
    for t in s:
        try:
            out.append((int(t[0]),) + tuple(t[1:]))
        except Exception:
            out.append(ERR)
    return out


E = S.cli_source(())
CONTEXTS = ['top', 'union', 'args', 'case', 'named', 'nested', 'union 3', 'filter', 'filter -d', 'difference', 'intersect', 'join']
VALUES = [(0,), (1,), (2,)]


def in_context(ctx, sp, stream, m=None, runner=None):
    """-> (source+stage as OpList | text, reference list, streaming)"""
    api = m is not None
    if ctx == 'named':
        return ('pv = (| ' + sp.cli + ' |)', 'pv' if sp.first else f'{S.cli_source(stream)} | pv'), sp.ref(list(stream)), sp.streaming
    ref = sp.ref(list(stream))
    if ctx == 'case':
        src = runner.source(stream) if api else S.cli_source(stream)
        st = sp.api(m) if api else sp.cli
    elif sp.first:
        text = None if api else sp.cli
        full = (lambda: sp.api(m)) if api else None
    else:
        text = None if api else f'{S.cli_source(stream)} | {sp.cli}'
        full = (lambda: runner.source(stream) | sp.api(m)) if api else None
    G = [(8,), (9,)]
    if ctx == 'top':
        return (full() if api else text), ref, sp.streaming
    if ctx == 'union':
        g = runner.source(G) if api else S.cli_source(G)
        return (g | m.union(full()) if api else f'{g} | union (| {text} |)'), G + ref, sp.streaming
    if ctx == 'args':
        ref = [v for a in (0, 1) for v in sp.ref(list(stream))]
        if api:
            return m.gen(2) | m.args(lambda a: full()), ref, sp.streaming
        return f'gen 2 | args (| a: {text} |)', ref, sp.streaming
    if ctx == 'case':
        p = lambda *x: x == (2,)
        nref = lambda s: [v for t in s for v in ([('two', 2)] if t == (2,) else sp.ref([t]))]
        if sp.streaming:
            ref = nref(stream)
        else:
            ref = [('two', 2)] * stream.count((2,)) + sp.ref([t for t in stream if t != (2,)])
        return (src | m.case(p, m.map(lambda *x: ('two',) + x), st) if api else
                f'{src} | case (*x: x == (2,)) (| map (*x: ("two",) + x) |) (| {st} |)'), ref, sp.streaming
    if ctx == 'nested':
        ref = [v for a in (0,) for v in sp.ref(list(stream))]
        if api:
            return m.gen(1) | m.args(lambda a: runner.source(()) | m.union(runner.source(()) | m.union(full()))), ref, sp.streaming
        return f'gen 1 | args (| a: {E} | union (| {E} | union (| {text} |) |) |)', ref, sp.streaming
    if ctx == 'union 3':
        return (runner.source(()) | m.union(full(), runner.source(G), full()) if api else
                f'{E} | union (| {text} |) (| {S.cli_source(G)} |) (| {text} |)'), ref + G + ref, sp.streaming
    # The pipeline's output is not passed on, except for the Errors
    good = [t for t in ref if t != ERR]
    errors = [ERR] * (len(ref) - len(good))
    left = [(0,), (2,), (2,), (7,), (8, 1)] if ctx == 'join' else [(0,), (2,), (2,), (8,)] + good[-1:]
    g = runner.source(left) if api else S.cli_source(left)
    op, ref = {
        'filter': (lambda: m.filt(full()), [t for t in left if t in good]),
        'filter -d': (lambda: m.filt(full(), discard=True), [t for t in left if t not in good]),
        'difference': (lambda: m.difference(full()), subtract(left, good)),
        'intersect': (lambda: m.intersect(full()), [t for t in sorted(set(left), key=repr) for _ in range(min(left.count(t), good.count(t)))]),
        'join': (lambda: m.join(full()), [t + u[1:] for t in left for u in good if u[:1] == t[:1]]),
    }.get(ctx)
    return (g | op() if api else f'{g} | {ctx} (| {text} |)'), errors + sorted(ref, key=repr), ctx
    raise KeyError(ctx)


def subtract(left, right):
    right = list(right)
    out = []
    for t in left:
        if t in right:
            right.remove(t)
        else:
            out.append(t)
    return out


def judge(out, ref, exact):
    out = [tuple(x) for x in out]
    ref = [tuple(x) for x in ref]
    if exact is True:
        return out, ref
    if exact:
        # Right-hand pipeline: as a bag
        return sorted(out, key=repr), sorted(ref, key=repr)
    key = lambda s: ([t for t in s if t != ERR], sum(t == ERR for t in s))
    return key(out), key(ref)


def api_case(rec, r, ctx, sp, down, stream):
    def body():
        m = r.m
        p, ref, exact = in_context(ctx, sp, stream, m, r)
        for d in down:
            p = p | d.api(m)
            ref = lift(d.ref)(ref)
        exact = False if down else exact
        out, err = r.run(p)
        if err:
            return f'message: {err[:200]}'
        a, b = judge(out, ref, exact)
        if a != b or down:
            return a, b
        # The other ways to get at the output
        with rt.captured() as (o, e):
            errs = []
            sep = [S.norm_item(x, r.Error) for x in m.gather(p, unwrap_singleton=False, errors=errs)]
            it = [S.norm_item(x, r.Error) for x in p]
            try:
                f = S.norm_item(m.first(p, unwrap_singleton=False), r.Error)
            except Exception:
                f = ERR
            if not any(x == ERR for x in out):
                f2 = m.first(p)
                f2 = None if f2 is None else S.norm_item(f2, r.Error)
                if (f2 or (None,)) != (S.norm_item(S.un(out[0]), r.Error) if out else (None,)):
                    return f'first: {f2} of {out}'
        if e.getvalue():
            return f'message: {e.getvalue()[:200]}'
        exp_sep = ([t for t in out if t != ERR], sum(t == ERR for t in out))
        if (sep, len(errs)) != exp_sep:
            return ('separate', sep, len(errs)), ('separate',) + exp_sep
        if [tuple(S.wrap(x)) for x in it] != [S.norm_item(S.un(t), r.Error) if t != ERR else ERR for t in out]:
            return ('iterate', it), ('iterate', out)
        if f != (out[0] if out else (None,)):
            return ('first', f), ('first', out[:1])
        return a, b
    rec.check(('api', ctx, sp.name, tuple(d.name for d in down), stream), body)


def cli_case(rec, r, ctx, sp, down, stream):
    def body():
        t, ref, exact = in_context(ctx, sp, stream)
        if ctx == 'named':
            pre = r.cli.run(t[0])
            if any(pre):
                return f'definition: {pre}'
            t = t[1]
        for d in down:
            t = f'{t} | {d.cli}'
            ref = lift(d.ref)(ref)
        out, err, exc = r.stream(t)
        if err or exc:
            return f'stderr {err[:300]!r}, raised {exc}'
        a, b = judge(out, ref, False if down else exact)
        if a != b or down:
            return a, b
        # formatted output
        n = len([x for x in ref if x != ERR])
        for fmt in ("-f '{0}'", '-c', '-t'):
            o, e, x = r.cli.run(f'{t} | write {fmt}')
            lines = o.splitlines()
            if e or x or len(lines) != len(ref) or sum(l.startswith('Error') for l in lines) != len(ref) - n:
                return f'write {fmt}: {lines} {e[:200]} {x}, expected {n} lines and {len(ref) - n} Errors'
            if exact is True and [l.startswith('Error') for l in lines] != [t == ERR for t in ref]:
                return f'write {fmt}: Errors not in place: {lines}'
        return a, b
    rec.check(('cli', ctx, sp.name, tuple(d.name for d in down), stream), body)


# ---- commands that are killed
KILLED = [
    'gen 3 | map (x: [x]) | window -d 2 | map (*x: [list(x)]) | unique',
    'map (: [1, "a"]) | expand | sort',
    'gen 3 | head 0', 'gen 3 | tail (0)', 'gen (1 // 0)', 'gen 3 | head (1 // 0)', 'gen 3 | args (| gen 3 |)', 'gen 3 | args (| x: gen (1 // 0) |)',
    'gen 3 | args -a (| x, y: gen 1 |)', 'no_such_pipeline', 'gen 3 | no_such_pipeline', 'gen x', 'gen 1 2 3 4', 'gen -z 3', 'gen 3 |', '| gen 3', 'gen 3 | gen 3',
    'gen 3 | map', 'gen 3 | map (', 'gen 3 | map (x: )', 'gen 3 | map (x: 1 +)', 'x =', "bash 'abc", 'ls /no/such/dir', 'read /no/such/file', 'cd /no/such/dir',
    'gen 3 > /no/such/dir/file', 'gen 3 | write /no/such/dir/file', 'gen 3 | write -p /no/such/dir/file', 'gen 3 | args (| x: gen 1 | head 0 |)',
    'gen 3 | union (| gen 2 | head 0 |)', 'gen 3 | case (x: True) (| head 0 |)', 'gen 3 | difference (| map (: [1]) | map (x: ([x],)) | map (*x: [list(x)]) |)',
    'gen 3 | window -o ("a")', 'gen 3 | expand (-1)', 'gen 3 | join (| sort (1 // 0) |)', 'sudo', 'gen 3 | upload', 'gen 3 | sql', 'help no_such_topic', 'edit a b', 'env -d', 'fork 3', 'bg 99', 'fg x', 'bg (0 - 1)', 'bg -1', 'fg -p 99999999', 'jobs', 'bg -j',
    'ws -o no_such_workspace', 'pushd /no/such/dir', 'popd', 'gen 3 | store', 'gen 3 | load nosuch', 'map (1 // 0)', 'gen 2 | cast nosuch', 'gen 3 | red (1 // 0)', 'gen 1 | import nosuchmodule', 'import nosuchmodule',
]
MAY_SUCCEED = ('jobs', 'popd', 'help no_such_topic', 'gen 3 | cast nosuch', 'env -d', 'gen 3 | sort (1 // 0)')
GOOD = [('gen 3 | map (x: (x, y0))', "(0, 7)\n(1, 7)\n(2, 7)\n"), ('gen 2 | args (| y0: map (: (y0, y0)) |)', '(0, 0)\n(1, 1)\n'),
        ('map (: y0)', '7\n'), ('gen 2 | p0 (y0)', '(0, 7)\n(1, 7)\n')]


def killed_case(rec, cli, seq):
    def body():
        for i, k in enumerate(seq):
            rec.state(('killed', seq[:i + 1])); rec.transition()
            o, e, x = cli.run(KILLED[k])
            if x:
                return f'{KILLED[k]!r} raised {x}'
            if not e and not o and KILLED[k] not in MAY_SUCCEED:
                return f'{KILLED[k]!r}: no message'
            g = GOOD[(sum(seq) + i) % len(GOOD)]
            got = cli.run(g[0])
            if got != (g[1], '', None):
                return f'after {KILLED[k]!r}: {g[0]!r} gives {got}'
        return None
    rec.check(('killed', cli.interactive, tuple(KILLED[k] for k in seq)), body)


# ----
def shards(tier):
    n = len(stages())
    sh = [(mode, i) for mode in ('api', 'cli') for i in range(n)]
    sh += [('killed', i, 8, inter) for inter in (False, True) for i in range(8)]
    return sh


def explore(rec, shard, tier):
    if shard[0] == 'killed':
        _, i, n, inter = shard
        cli = rt.CLI(interactive=inter)
        setup(cli)
        k = len(KILLED)
        seqs = [(a,) for a in range(k)] + ([(a, b) for a in range(k) for b in range(k)])
        if tier != 'quick':
            seqs += list(itertools.product(range(0, k, 5), repeat=3))
        for s in seqs:
            if s[0] % n == i:
                killed_case(rec, cli, s)
        return
    mode, i = shard
    sp = stages()[i]
    r = S.ApiRunner() if mode == 'api' else S.CliRunner()
    fn = api_case if mode == 'api' else cli_case
    n = {'api': 4, 'cli': 3}[mode] if tier == 'quick' else {'api': 5, 'cli': 4}[mode]
    seqs = lambda n: [()] if sp.first else S.seqs(VALUES, n)
    for stream in seqs(n):
        for ctx in CONTEXTS:
            if (ctx == 'named' and mode == 'api') or (ctx == 'case' and sp.first) or (ctx == 'case' and ('-i' in sp.name or sp.name == 'window')):
                continue
            rec.state((mode, ctx, sp.name, stream)); rec.transition()
            fn(rec, r, ctx, sp, (), stream)
    nd = {'api': 3, 'cli': 2}[mode] if tier == 'quick' else {'api': 4, 'cli': 3}[mode]
    alpha = ops.alphabet()
    for stream in seqs(nd):
        for d in alpha:
            for ctx in CONTEXTS[:5] if mode == 'cli' else ('top', 'union', 'case'):
                if (len(stream) == nd and ctx not in ('top', 'args')) or (ctx == 'case' and (sp.first or '-i' in sp.name or sp.name == 'window')):
                    continue
                rec.transition()
                fn(rec, r, ctx, sp, (d,), stream)
    if tier != 'quick' and mode == 'api':
        for stream in seqs(2):
            for d in itertools.product(alpha, repeat=2):
                rec.transition()
                fn(rec, r, 'top', sp, d, stream)


def setup(cli):
    for t in ('y0 = (7)', 'p0 = (| a: map (x: (x, a)) |)'):
        assert not any(cli.run(t)), t


def replay(rec, case):
    if case[0] == 'killed':
        cli = rt.CLI(interactive=case[1])
        setup(cli)
        killed_case(rec, cli, [KILLED.index(t) for t in case[2]])
        return
    mode, ctx, name, down, stream = case
    r = S.ApiRunner() if mode == 'api' else S.CliRunner()
    alpha = {s.name: s for s in ops.alphabet()}
    (api_case if mode == 'api' else cli_case)(rec, r, ctx, {s.name: s for s in stages()}[name], tuple(alpha[d] for d in down), stream)
