"""Operators that reshape tuples, generate, route (case) and feed parameters (args), against their list meaning."""
from mc import opsem as S, table
from mc.opsem import Spec

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('every input stream up to the bound x every operator/argument in the alphabet, run on the real operators through '
        'the Python API (and, for the shorter streams, as command text); state = (operator, stream), transition = one '
        'item or end-of-stream delivered to the operator')
BOUNDS = {'quick': 'all streams <= 4 items over 5 integer values, <= 3 items over 16 nested/mixed shapes; CLI: <= 2 / <= 1 plus longer '
                   'integer streams; gen: count 1..12, start -3..12, pad 1..4',
          'thorough': 'all streams <= 6 items over 5 integer values, <= 4 over 16 shapes; CLI: <= 3 / <= 2'}
ASSUMPTIONS = ['functions given to the operators are pure']
PROP = dict(
    title='Reshaping, generating, routing and parameter-feeding operators are exact',
    statement='For every input stream, expand (whole tuple or one position), squish, cast, gen, case and args write exactly the '
              'tuples their documentation defines for that input: each expanded element once and in place, each tuple reduced '
              'left to right, each component cast and None left alone, each item sent to the first branch whose predicate '
              'accepts it (or the default, or nowhere) and each consecutive group of inputs bound to the parameters with None '
              'for missing ones. Nothing is lost or duplicated at group, branch or end-of-stream boundaries, for the Python '
              'API and the command line.',
    over=['inputs', 'programs'],
    text='all finite input streams of tuples of any width and nesting, all positions, branch lists and parameter counts',
    why='The tests use one or two inputs per operator; empty and one-element sequences, positions at and beyond the width, '
        'partial last groups, branches that hold items until the end and failing predicates are not combined.',
    files=['marcel/op/expand.py', 'marcel/op/squish.py', 'marcel/op/cast.py', 'marcel/op/gen.py', 'marcel/op/case.py',
           'marcel/op/args.py', 'marcel/op/redirect.py'],
    mechanism=[('expansion of a tuple or component', 'marcel/op/expand.py: Expander'),
               ('branch selection and flushing', 'marcel/op/case.py: Case.receive, Case.flush'),
               ('grouping of inputs into parameters', 'marcel/op/args.py: Args.receive, Args.flush')],
    observe=['marcel.api.gather', 'command output'],
    technique='exhaustive enumeration of operator x input-stream executions of the real operators against list semantics',
    level_note='Every stream in the stated bounds is executed on the real code. Trusts the list reference (mc/opsem.py).')

WIDE = lambda t: type(t) is tuple
NUM = lambda t: all(type(x) is int for x in t)


def cat(a, b):
    return f'({a}.{b})'


def specs():
    out = [Spec('expand', 'expand', lambda m: m.expand(), S.expand())]
    for p in (0, 1, 2, 3):
        out.append(Spec(f'expand {p}', f'expand {p}', lambda m, p=p: m.expand(p), S.expand(p)))
    out.append(Spec('expand (f)', 'expand (0 + 1)', lambda m: m.expand(lambda: 1), S.expand(1)))
    out.append(Spec('squish', 'squish', lambda m: m.squish(), S.squish(lambda a, b: a + b), guard=NUM))
    out.append(Spec('squish +', 'squish +', lambda m: m.squish(lambda a, b: a + b if a is not None else b), S.squish(lambda a, b: a + b), guard=NUM))
    out.append(Spec('squish max', 'squish max', lambda m: m.squish(m.r_max), S.squish(max), guard=NUM))
    out.append(Spec('squish *', 'squish *', lambda m: m.squish(m.r_times), S.squish(lambda a, b: a * b), guard=NUM))
    out.append(Spec('squish fn', 'squish (a, b: f"({a}.{b})")', lambda m: m.squish(cat),
                    lambda s: [(_reduce(t),) for t in s]))
    out.append(Spec('cast str', 'cast str', lambda m: m.cast(str), S.cast(str)))
    out.append(Spec('cast int', 'cast int', lambda m: m.cast(int), S.cast(int)))
    out.append(Spec('cast str float', 'cast str float', lambda m: m.cast(str, float), S.cast(str, float)))
    out.append(Spec('cast bool str str', 'cast bool str str', lambda m: m.cast(bool, str, str), S.cast(bool, str, str)))
    for count in (1, 2, 5, 12):
        for start in (-3, 0, 1, 8, 12):
            arg = f'({start})' if start < 0 else f'{start}'
            out.append(Spec(f'gen {count} {start}', f'gen {count} {arg}', lambda m, c=count, s=start: m.gen(c, s), S.gen(count, start), first=True))
            for pad in (1, 2, 4):
                out.append(Spec(f'gen -p {pad} {count} {start}', f'gen -p {pad} {count} {arg}', lambda m, c=count, s=start, p=pad: m.gen(c, s, p),
                                S.gen(count, start, pad), first=True))
        out.append(Spec(f'gen {count}', f'gen {count}', lambda m, c=count: m.gen(c), S.gen(count), first=True))
    for count, start in ((-1, 0), (-3, 5)):
        out.append(Spec(f'gen {count} {start}', f'gen ({count}) ({start})', lambda m, c=count, s=start: m.gen(c, s), lambda s: [], first=True))
    is0 = lambda *x: x[0] == 0
    ge2 = lambda *x: x[0] >= 2
    lt2 = lambda *x: x[0] < 2
    tag = lambda *x: ('t', x)
    ends = {
        'map': ('each', S.fmap(tag), 'map (*x: ("t", x))', lambda m: m.map(tag)),
        'map|map': ('each', S.fmap(lambda *x: ('t', ('t', x))), 'map (*x: ("t", x)) | map (*x: ("t", x))', lambda m: m.map(tag) | m.map(tag)),
        'reverse': ('end', lambda s: s[::-1], 'reverse', lambda m: m.reverse()),
        'tail 2': ('end', S.tail(2), 'tail 2', lambda m: m.tail(2)),
        'head 2|sort': ('end', lambda s: sorted(s[:2]), 'head 2 | sort', lambda m: m.head(2) | m.sort()),
        'window -d 2': None,
        'red': ('end', lambda s: [(len(s),)], 'red count', lambda m: m.red(m.r_count)),
    }
    del ends['window -d 2']
    num = lambda t: type(t[0]) is int
    preds = {'is0': (is0, '*x: x[0] == 0'), 'ge2': (ge2, '*x: x[0] >= 2'), 'lt2': (lt2, '*x: x[0] < 2')}
    for p1 in ('is0', 'ge2', 'lt2'):
        for e1 in ends:
            for e2 in (None, 'map', 'reverse', 'red'):
                k1, r1, c1, a1 = ends[e1]
                fn1, t1 = preds[p1]
                if e2 is None:
                    out.append(Spec(f'case {p1} {e1}', f'case ({t1}) (| {c1} |)', lambda m, f=fn1, a=a1: m.case(f, a(m)),
                                    S.case((fn1, k1, r1)), guard=num))
                    continue
                k2, r2, c2, a2 = ends[e2]
                out.append(Spec(f'case {p1} {e1} else {e2}', f'case ({t1}) (| {c1} |) (| {c2} |)',
                                lambda m, f=fn1, a=a1, b=a2: m.case(f, a(m), b(m)), S.case((fn1, k1, r1), default=(k2, r2)), guard=num))
                fn2, t2 = preds['lt2']
                out.append(Spec(f'case {p1} {e1} lt2 {e2}', f'case ({t1}) (| {c1} |) ({t2}) (| {c2} |)',
                                lambda m, f=fn1, a=a1, g=fn2, b=a2: m.case(f, a(m), g, b(m)),
                                S.case((fn1, k1, r1), (fn2, k2, r2)), guard=num))
                out.append(Spec(f'case {p1} {e1} lt2 {e2} else map|map', f'case ({t1}) (| {c1} |) ({t2}) (| {c2} |) (| {ends["map|map"][2]} |)',
                                lambda m, f=fn1, a=a1, g=fn2, b=a2: m.case(f, a(m), g, b(m), m.map(tag) | m.map(tag)),
                                S.case((fn1, k1, r1), (fn2, k2, r2), default=ends['map|map'][:2]), guard=num))
    bad = lambda *x: 1 // x[0] > 0
    out.append(Spec('case failing predicate', 'case (*x: 1 // x[0] > 0) (| map (*x: ("t", x)) |) (| reverse |)',
                    lambda m: m.case(bad, m.map(tag), m.reverse()),
                    S.case((bad, 'each', S.fmap(tag)), default=('end', lambda s: s[::-1])), guard=num))
    out.append(Spec('args 1', 'args (| a: map (: ("g", a)) |)', lambda m: m.args(lambda a: m.map(lambda: ('g', a))),
                    S.args(1, lambda a: [('g', a)])))
    out.append(Spec('args 2', 'args (| a, b: map (: (a, b, "g")) |)', lambda m: m.args(lambda a, b: m.map(lambda: (a, b, 'g'))),
                    S.args(2, lambda a, b: [(a, b, 'g')])))
    out.append(Spec('args 3', 'args (| a, b, c: map (: (c, b, a)) |)', lambda m: m.args(lambda a, b, c: m.map(lambda: (c, b, a))),
                    S.args(3, lambda a, b, c: [(c, b, a)])))
    out.append(Spec('args 4', 'args (| a, b, c, d: map (: (a, b, c, d)) |)', lambda m: m.args(lambda a, b, c, d: m.map(lambda: (a, b, c, d))),
                    S.args(4, lambda a, b, c, d: [(a, b, c, d)])))
    out.append(Spec('args gen|reverse', 'args (| a: gen (a + 1) | reverse |)', lambda m: m.args(lambda a: m.gen(a + 1) | m.reverse()),
                    S.args(1, lambda a: [(i,) for i in range(a, -1, -1)]), guard=lambda t: len(t) == 1 and type(t[0]) is int))
    out.append(Spec('args gen|red', 'args (| a, b: gen (a + 1) | map (x: (x, b)) | red + count |)',
                    lambda m: m.args(lambda a, b: m.gen(a + 1) | m.map(lambda x: (x, b)) | m.red(m.r_plus, m.r_count)),
                    S.args(2, lambda a, b: [(a * (a + 1) // 2, a + 1)]), guard=lambda t: len(t) == 1 and type(t[0]) is int))
    out.append(Spec('args -a', 'args -a (| a: map (: (len(a), a)) |)', lambda m: m.args(lambda a: m.map(lambda: (len(a), a)), all=True),
                    S.args_all(lambda v: [(len(v), list(v))])))
    out.append(Spec('args -a expand', 'args --all (| a: map (: [a]) | expand |)', lambda m: m.args(lambda a: m.map(lambda: [a]) | m.expand(), all=True),
                    S.args_all(lambda v: [S.wrap(x) for x in v])))
    return out


def _reduce(t):
    acc = None
    for x in t:
        acc = f'({acc}.{x})'
    return acc


INTS = [(0,), (1,), (2,), (0, 1), (2, 0)]
SHAPES = [(0,), (5,), ('a',), (None,), (0, 1), (1, None), ('3', '4'), ([],), ((),), ([1],), ([1, 2],), ((3, 4), 5), (5, [6, 7]), (5, []),
          ({1: 2, 3: 4},), ([1, [2, 3]], 9, (8,))]
LONG = [[(i,) for i in range(n)] for n in (7, 12, 40, 101)]
STREAMS = {'quick': {'api': [(INTS, 4), (SHAPES, 3), (S.VALUES, 2), (LONG, None)], 'cli': [(INTS, 2), (SHAPES, 1), (LONG[:3], None)]},
           'thorough': {'api': [(INTS, 6), (SHAPES, 4), (S.VALUES, 4), (LONG, None)], 'cli': [(INTS, 3), (SHAPES, 2), (LONG, None)]}}
table.install(globals(), per_shard=6)
