"""Order and position operators against their list meaning, for every short stream."""
from mc import opsem as S, table
from mc.opsem import Spec

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('every input stream up to the bound x every operator/argument in the alphabet, run on the real operators through '
        'the Python API (and, for the shorter streams, as command text); state = (operator, stream), transition = one '
        'item or end-of-stream delivered to the operator')
BOUNDS = {'quick': 'all streams <= 6 items over 3 values, <= 4 over 6 mixed-shape items, <= 4 with empty tuples, <= 3 over list items and over 8 false or equal-but-different values, all kinds of function values, and 10 long '
                   'streams (17..1030 items); CLI: <= 3 / <= 2 / 4 long; N in 0, +-1..+-5, +-7, +-40',
          'thorough': 'all streams <= 8 items over 3 values, <= 5 over 6 mixed-shape items, <= 6 with empty tuples, <= 5 over list items, 10 long '
                      'streams; CLI: <= 4 / <= 3 / 10 long; same arguments'}
ASSUMPTIONS = ['the operators are generic in the item value, so values outside the alphabet behave like the shapes in it']
PROP = dict(
    title='Order, position and window operators mean what the list operations mean',
    statement='For every finite input stream, head, tail, reverse, sort, unique, window, select and map produce exactly the '
              'items, in exactly the order, that the corresponding list operation (first/last N, reversal, stable sort, '
              'removal of duplicates or of consecutive duplicates, overlapping/disjoint/predicate windows padded with None, '
              'filtering, element-wise application) produces on that stream. No input is lost, repeated, reordered or '
              'altered beyond that, whatever the stream length relative to the argument, and for both the Python API and '
              'the command line.',
    over=['inputs', 'programs'],
    text='all finite input streams (including empty, one item, shorter and longer than N) and all arguments of these operators',
    why='Each operator has a handful of tests, on one or two streams and mostly N smaller than the stream; boundary lengths '
        '(0, N-1, N, N+1, several multiples), ties, repeats and mixed tuple shapes are not sampled.',
    files=['marcel/op/head.py', 'marcel/op/tail.py', 'marcel/op/reverse.py', 'marcel/op/sort.py', 'marcel/op/unique.py',
           'marcel/op/window.py', 'marcel/op/select.py', 'marcel/op/map.py'],
    mechanism=[('per-operator receive/flush state machines', 'marcel/op/*.py: setup, receive, flush'),
               ('delivery and propagation of end of stream', 'marcel/core.py: Op.send, Op.propagate_flush')],
    observe=['marcel.api.gather', 'command output'],
    technique='exhaustive enumeration of operator x input-stream executions of the real operators against list semantics',
    level_note='Every stream in the stated bounds is executed on the real code; nothing is sampled. Trusts the list reference '
               '(mc/opsem.py) and genericity of the operators in item values.')

NS = [1, 2, 3, 4, 5, 7, 40, -40, -1, -2, -3, -4, -5, -7, 0]


# A list as an item is not hashable (unique), and window output contains it as it is.
TUPLE = lambda t: type(t) is tuple


def specs():
    out = []
    for n in NS:
        out.append(Spec(f'head {n}', f'head ({n})' if n < 0 else f'head {n}', lambda m, n=n: m.head(n), S.head(n)))
        out.append(Spec(f'tail {n}', f'tail ({n})' if n < 0 else f'tail {n}', lambda m, n=n: m.tail(n), S.tail(n)))
    for n in (2, -2):
        out.append(Spec(f'head (f {n})', f'head (1 + {n} - 1)', lambda m, n=n: m.head(lambda: n), S.head(n)))
        out.append(Spec(f'tail (f {n})', f'tail (1 + {n} - 1)', lambda m, n=n: m.tail(lambda: n), S.tail(n)))
    out.append(Spec('reverse', 'reverse', lambda m: m.reverse(), lambda s: s[::-1]))
    out.append(Spec('sort', 'sort', lambda m: m.sort(), S.sort()))
    out.append(Spec('sort key', 'sort (*x: len(x))', lambda m: m.sort(lambda *x: len(x)), S.sort(lambda *x: len(x))))
    out.append(Spec('sort -repr', 'sort (*x: [-ord(c) for c in repr(x)])',
                    lambda m: m.sort(lambda *x: [-ord(c) for c in repr(x)]), S.sort(lambda *x: [-ord(c) for c in repr(x)])))
    out.append(Spec('sort mod', 'sort (*x: str(x[0]) > "0")', lambda m: m.sort(lambda *x: str(x[0]) > '0'),
                    S.sort(lambda *x: str(x[0]) > '0'), guard=len))
    out.append(Spec('unique', 'unique', lambda m: m.unique(), S.unique, bag=True, guard=TUPLE))
    out.append(Spec('unique -c', 'unique -c', lambda m: m.unique(consecutive=True), S.unique_c))
    for n in (1, 2, 3, 4, 6):
        out.append(Spec(f'window -o {n}', f'window -o {n}', lambda m, n=n: m.window(overlap=n), S.w_overlap(n), guard=TUPLE))
        out.append(Spec(f'window -d {n}', f'window -d {n}', lambda m, n=n: m.window(disjoint=n), S.w_disjoint(n), guard=TUPLE))
    p = lambda *x: x[0] in (0, 'a')
    out.append(Spec('window pred', 'window (*x: x[0] in (0, "a"))', lambda m: m.window(p), S.w_pred(p), guard=lambda t: TUPLE(t) and t))
    out.append(Spec('select', 'select (*x: x[0] in (0, "a"))', lambda m: m.select(p), S.select(p), guard=len))
    q = lambda *x: x[0]
    out.append(Spec('select truthy', 'select (*x: x[0])', lambda m: m.select(q), S.select(q), guard=len))
    out.append(Spec('map pair', 'map (*x: (x, len(x)))', lambda m: m.map(lambda *x: (x, len(x))), S.fmap(lambda *x: (x, len(x)))))
    out.append(Spec('map scalar', '(*x: len(x))', lambda m: m.map(lambda *x: len(x)), S.fmap(lambda *x: len(x))))
    out.append(Spec('map pos', 'map (*x: (pos(), x))', lambda m: m.map(lambda *x: (m.pos(), x)),
                    lambda s: [(i, t) for i, t in enumerate(s)]))
    values = [eval(r) for r in RETURNS]
    text = '[' + ', '.join(RETURNS) + ']'
    out.append(Spec('map returns', f'map (x: {text}[x])', lambda m: m.map(lambda x: values[x]), S.fmap(lambda x: values[x]), guard=lambda t: t in RANGE))
    out.append(Spec('select returns', f'select (x: {text}[x])', lambda m: m.select(lambda x: values[x]), S.select(lambda x: values[x]), guard=lambda t: t in RANGE))
    out.append(Spec('map first', 'map (*x: x[0])', lambda m: m.map(lambda *x: x[0]), S.fmap(lambda *x: x[0]), guard=lambda t: TUPLE(t) and t))
    return out


INTS = [(0,), (1,), (2,)]
MIXED = [(0,), ('a',), (0, 1), ('a', 'b', 'c'), ((0, 1),), (None,)]
EMPTY = [(), (0,), (1, None)]
LONG = [[(i % m,) for i in range(n)] for n in (17, 40, 101, 260, 1030) for m in (3, n)]
# What functions return: a tuple or list is a tuple of output, anything else is one value.
RETURNS = ('None', '[]', '[1]', '[1, [2]]', '()', '(None,)', '(1, None)', '{}', '{1: 2}', 'set()', '{1, 2}', '""', '"ab"', '"a b".split()', 
           'b"x"', '0', 'False', '2.0', '((1, 2),)', '[(1, 2), 3]')
LISTS = [[0, 1], [1], [0]]
RANGE = [(i,) for i in range(len(RETURNS))]
RETURN = [[(i,)] for i in range(len(RETURNS))] + [[(i,) for i in range(len(RETURNS))]]
STREAMS = {'quick': {'api': [(INTS, 6), (MIXED, 4), (EMPTY, 4), (LISTS, 3), (S.VALUES, 3), (RETURN, None), (LONG, None)], 'cli': [(INTS, 3), (RETURN, None), (S.VALUES, 1), (MIXED, 2), (EMPTY, 2), (LONG[:4], None)]},
           'thorough': {'api': [(INTS, 8), (MIXED, 5), (EMPTY, 6), (LISTS, 5), (S.VALUES, 4), (RETURN, None), (LONG, None)], 'cli': [(INTS, 4), (RETURN, None), (S.VALUES, 2), (MIXED, 3), (EMPTY, 3), (LONG, None)]}}
table.install(globals())
