"""red: aggregation, grouping and running totals against the list definition."""
import itertools
from mc import opsem as S, table
from mc.opsem import Spec, GROUP

ID = 'C03'
LEVEL = 'model_checking'
RULE = ('every input stream up to the bound x every list of reduction functions/group markers in the alphabet x incremental or not, '
        'on the real operator through the Python API (and, for the shorter streams, as command text); state = (operator, stream), '
        'transition = one item or end-of-stream delivered to the operator')
BOUNDS = {'quick': 'all function lists of 1..3 entries over {group, +, count, max, list-building} plus every built-in symbol alone; all streams <= 3 '
                   'items over 7 tuples (incl. too-short and failing ones), <= 6 items over 2-component tuples for 2-function lists',
          'thorough': 'as quick with streams <= 4 (7 tuples) and <= 7'}
ASSUMPTIONS = ['reduction functions are pure (list-building functions return new lists), except the built-in concat']
PROP = dict(
    title='red computes each aggregate over exactly the inputs of its group',
    statement='For every finite input stream and list of reduction functions, red writes one tuple per distinct group of values at '
              'the marked positions (one tuple in all if none is marked), each other component being the left-to-right reduction '
              'of exactly that group\'s values; in incremental mode it instead writes one tuple per input, extended with the '
              'totals so far for its group, and what was written never changes later. An input that is too short, or whose '
              'reduction fails, yields an Error in its place and contributes to no total.',
    over=['inputs', 'programs'],
    text='all finite input streams, all function lists, grouping positions and modes',
    why='Tests use a few well-formed streams with one or two functions; groups interleaved in all orders, failures in the middle of a '
        'partially reduced tuple, empty streams and aliasing of written totals are not exercised.',
    files=['marcel/op/red.py', 'marcel/reduction.py', 'marcel/function.py'],
    mechanism=[('accumulators per group', 'marcel/op/red.py: GroupingReducer'), ('single accumulator', 'marcel/op/red.py: NonGroupingReducer')],
    observe=['marcel.api.gather', 'command output'],
    technique='exhaustive enumeration of operator x input-stream executions of the real operators against list semantics',
    level_note='Every stream and function list in the stated bounds is executed on the real code. Trusts the list reference (mc/opsem.py).')

SYM = {
    '+': ('+', 'r_plus', lambda a, b: a + b),
    'count': ('count', 'r_count', 'count'),
    'max': ('max', 'r_max', max),
    '.': ('.', None, GROUP),
    'cat': ('(a, b: [b] if a is None else a + [b])', lambda a, b: [b] if a is None else a + [b], 'concat'),
    '*': ('*', 'r_times', lambda a, b: a * b),
    'min': ('min', 'r_min', min),
    '^': ('^', 'r_xor', lambda a, b: a ^ b),
    '&': ('&', 'r_bit_and', lambda a, b: a & b),
    '|': ('|', 'r_bit_or', lambda a, b: a | b),
    'and': ('and', 'r_and', lambda a, b: a and b),
    'or': ('or', 'r_or', lambda a, b: a or b),
    'concat': ('concat', 'r_concat', 'concat'),
    'last': ('(a, b: b)', lambda a, b: b, lambda a, b: b),
    'set': ('(a, b: {b} if a is None else a.add(b) or a)', lambda a, b: {b} if a is None else a.add(b) or a, (lambda a, b: {b} | (a or set()),)),
    'dict': ('(a, b: {b: 1} if a is None else a.update({b: 2}) or a)', lambda a, b: {b: 1} if a is None else a.update({b: 2}) or a,
             (lambda a, b: {b: 1} if a is None else {**a, b: 2},)),
    'fail1': ('(a, b: b if a is None else 1 // b + a)', lambda a, b: b if a is None else 1 // b + a, lambda a, b: 1 // b + a),
}


def api_fn(m, k):
    f = SYM[k][1]
    return getattr(m, f) if isinstance(f, str) else f


def spec(keys, inc):
    name = f'red {"-i " if inc else ""}{" ".join(keys)}'
    cli = f'red {"-i " if inc else ""}' + ' '.join(SYM[k][0] for k in keys)
    if '|' in keys:
        cli = None      # indistinguishable from a pipe on the command line
    ref = S.red(*[SYM[k][2] for k in keys], incremental=inc)
    return Spec(name, cli, lambda m: m.red(*[api_fn(m, k) for k in keys], incremental=inc), ref,
                bag='.' in keys and not inc)


def specs():
    out = []
    for inc in (False, True):
        for n in (1, 2, 3):
            for keys in itertools.product(('.', '+', 'count', 'max', 'cat'), repeat=n):
                if n == 3 and keys.count('max') + keys.count('cat') > 1:
                    continue
                out.append(spec(keys, inc))
        for k in ('*', 'min', '^', '&', '|', 'and', 'or', 'concat', 'fail1'):
            s = spec((k,), inc)
            s.guard = lambda t: type(t[0]) is int
            out.append(s)
            s = spec(('.', k), inc)
            s.guard = lambda t: len(t) < 2 or type(t[1]) is int
            out.append(s)
        # Accumulators of any (false, or modified) value
        for k in ('last', 'set', 'dict'):
            out.append(spec((k,), inc))
            out.append(spec(('.', k), inc))
        out.append(spec(('fail1', 'fail1'), inc))
        out[-1].guard = lambda t: all(type(x) is int for x in t)
    return out


MIX = [(0,), (1, 0), (0, 1), (1, 'a'), ('b', 2), (0, 1, 2), (1, 'a', 3)]
PAIRS = [(0, 1), (0, 2), (1, 1)]
LONG = [[(i % 3, i, i % 7) for i in range(n)] for n in (12, 40, 130)]
KEYS = [(None, 1), ('', 2), (0, 3), (False, 4), ('0', None), ((), ''), (1, 0), (1.0, 5)]
STREAMS = {'quick': {'api': [(MIX, 3), (KEYS, 2), (PAIRS, 5), (LONG, None)], 'cli': [(MIX, 1), (PAIRS, 2), (LONG[:1], None)]},
           'thorough': {'api': [(MIX, 4), (KEYS, 4), (PAIRS, 7), (LONG, None)], 'cli': [(MIX, 2), (PAIRS, 3), (LONG, None)]}}
table.install(globals(), per_shard=12)
