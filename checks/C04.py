"""union, difference, intersect, filter, join: bag/set/relational semantics."""
import itertools
from mc import opsem as S, table
from mc.opsem import Spec

ID = 'C04'
LEVEL = 'model_checking'
RULE = ('every left stream x every combination of right-hand streams up to the bounds x every operator variant, run on the real operators '
        'through the Python API (and, for the shorter streams, as command text); state = (operator with its right-hand streams, '
        'stream), transition = one item or end-of-stream delivered to the operator')
BOUNDS = {'quick': 'left <= 3 items over 5 tuples; one right-hand stream <= 3 items over 3 tuples, or two of <= 2 items, or up to three with 1..5 copies of an item; unhashable items; CLI <= 1 item left over all, '
                   'and 4 longer streams',
          'thorough': 'left <= 4 items over 5 tuples; CLI <= 2; otherwise as quick'}
ASSUMPTIONS = ['equality and hashing of item values are consistent']
PROP = dict(
    title='union, difference, intersect, filter and join have bag and relational semantics',
    statement='For every left input stream and every stream produced by the pipeline arguments, union writes all items of all streams, '
              'difference removes one occurrence per occurrence on the right, intersect keeps the minimum multiplicity, filter keeps or '
              'discards by membership (of the item or of its comparison value), and join extends each input with every right tuple '
              'having an equal first component (optionally keeping unmatched inputs). Multiplicities are exact, filter and join keep '
              'the order of their input, and items which cannot be hashed end the command with a message, never with wrong output or a crash.',
    over=['inputs', 'programs'],
    text='all finite left streams and right-hand streams, including empty ones, duplicates on either side and unhashable items',
    why='Tests use a few streams; the multiplicity combinations (m copies left, n right), several pipeline arguments and empty sides are '
        'not enumerated.',
    files=['marcel/op/union.py', 'marcel/op/difference.py', 'marcel/op/intersect.py', 'marcel/op/filter.py', 'marcel/op/join.py'],
    mechanism=[('loading the right-hand side', 'customize_pipelines in each operator'), ('counting matches', 'receive in each operator')],
    observe=['marcel.api.gather', 'command output'],
    technique='exhaustive enumeration of operator x left x right streams on the real operators against bag/relational semantics',
    level_note='Every combination in the stated bounds is executed on the real code. Trusts the list reference (mc/opsem.py).')

A, B, C = (0,), (1,), (0, 'x')
RIGHT = [A, B, C]
VALUES = S.VALUES
VAL = lambda t: t in [(0,)] + VALUES and type(t[0]) is not list
JR = [(0,), (0, 'p'), (0, 'q'), (1, 'r', 's')]


def src(m, items):
    items = list(items)
    return m.map(lambda: [items]) | m.expand()


def cli(items):
    return f'(| {S.cli_source(items)} |)'


def ref_kill(f, rights, value=lambda t: t):
    def g(s):
        if not s:
            return []
        try:
            for t in list(s) + [t for r in rights for t in r]:
                hash(value(t))
        except TypeError:
            raise S.Kill()
        return f(s)
    return g


def specs():
    out = []

    def add(name, cli, api, ref, **kw):
        out.append(Spec(name, cli, api, ref, **kw))
    ones = list(S.seqs(RIGHT, 3)) + [([1, 2],) and (([1, 2],),), (A, ('k', [1]))]
    twos = [(r1, r2) for r1 in S.seqs(RIGHT, 2) for r2 in S.seqs(RIGHT, 2)]
    for r in ones:
        n = repr(r)
        hashable = ref_kill
        add(f'difference {n}', f'difference {cli_(r)}', lambda m, r=r: m.difference(src(m, r)), hashable(S.difference(r), [r]), bag=True)
        add(f'intersect {n}', f'intersect {cli_(r)}', lambda m, r=r: m.intersect(src(m, r)), hashable(S.intersect(r), [r]), bag=True)
        add(f'filter {n}', f'filter {cli_(r)}', lambda m, r=r: m.filt(src(m, r)), hashable(safe(lambda r=r: S.filt(r)), [r]))
        add(f'filter -k {n}', f'filter -k {cli_(r)}', lambda m, r=r: m.filt(src(m, r), keep=True), hashable(safe(lambda r=r: S.filt(r)), [r]))
        add(f'filter -d {n}', f'filter -d {cli_(r)}', lambda m, r=r: m.filt(src(m, r), discard=True), hashable(safe(lambda r=r: S.filt(r, keep=False)), [r]))
        add(f'filter -c {n}', f'filter -c (*x: x[0]) {cli_(r)}', lambda m, r=r: m.filt(src(m, r), compare=lambda *x: x[0]),
            hashable(safe(lambda r=r: S.filt(r, compare=lambda *x: x[0])), [r], ), guard=HASH)
        add(f'filter -d -c {n}', f'filter -d -c (*x: (x[0], "x")) {cli_(r)}',
            lambda m, r=r: m.filt(src(m, r), discard=True, compare=lambda *x: (x[0], 'x')),
            hashable(safe(lambda r=r: S.filt(r, keep=False, compare=lambda *x: (x[0], 'x'))), [r]), guard=HASH)
    for r in S.seqs(VALUES, 2):
        n = repr(r)
        add(f'difference {n}', f'difference {cli_(r)}', lambda m, r=r: m.difference(src(m, r)), S.difference(r), bag=True, guard=VAL)
        add(f'intersect {n}', f'intersect {cli_(r)}', lambda m, r=r: m.intersect(src(m, r)), S.intersect(r), bag=True, guard=VAL)
        add(f'filter {n}', f'filter {cli_(r)}', lambda m, r=r: m.filt(src(m, r)), safe(lambda r=r: S.filt(r)), guard=VAL)
        add(f'filter -d -c {n}', f'filter -d -c (*x: x[0]) {cli_(r)}', lambda m, r=r: m.filt(src(m, r), discard=True, compare=lambda *x: x[0]),
            safe(lambda r=r: S.filt(r, keep=False, compare=lambda *x: x[0])), guard=VAL)
        r = tuple((x[0], repr(x)) for x in r)
        add(f'join {n}', f'join {cli_(r)}', lambda m, r=r: m.join(src(m, r)), S.join(r), guard=VAL)
        add(f'join -k {n}', f'join -k {cli_(r)}', lambda m, r=r: m.join(src(m, r), keep=True), S.join(r, keep=True), guard=VAL)
    for r in S.seqs(RIGHT, 3):
        add(f'union {r!r}', f'union {cli_(r)}', lambda m, r=r: m.union(src(m, r)), S.union(r), bag=True)
    for r1, r2 in twos:
        add(f'union {r1!r} {r2!r}', f'union {cli_(r1)} {cli_(r2)}', lambda m, r1=r1, r2=r2: m.union(src(m, r1), src(m, r2)), S.union(r1, r2), bag=True)
        add(f'intersect {r1!r} {r2!r}', f'intersect {cli_(r1)} {cli_(r2)}', None,
            ref_kill(S.intersect(r1, r2), [r1, r2]), bag=True)
    # Multiplicities: i copies on the left (LONG, REPS), j and k on the right
    reps = [(B,) * i for i in range(1, 6)]
    for i, r1 in enumerate(reps):
        r1 = (A,) + r1
        add(f'difference x{i + 1}', f'difference {cli_(r1)}', lambda m, r=r1: m.difference(src(m, r)), S.difference(r1), bag=True, guard=HASH)
        add(f'intersect x{i + 1}', f'intersect {cli_(r1)}', lambda m, r=r1: m.intersect(src(m, r)), S.intersect(r1), bag=True, guard=HASH)
        for k, r2 in enumerate(reps):
            add(f'intersect x{i + 1} x{k + 1}', f'intersect {cli_(r1)} {cli_(r2)}', None, S.intersect(r1, r2), bag=True, guard=HASH)
            add(f'intersect x{i + 1} x{k + 1} x{i + 1}', f'intersect {cli_(r1)} {cli_(r2)} {cli_(r1 + (C,))}', None, S.intersect(r1, r2, r1 + (C,)), bag=True, guard=HASH)
            add(f'union x{i + 1} x{k + 1} x1', f'union {cli_(r1)} {cli_(r2)} {cli_([C])}', lambda m, r1=r1, r2=r2: m.union(src(m, r1), src(m, r2), src(m, [C])),
                S.union(r1, r2, [C]), bag=True)
    first = lambda t: t[0]
    for r in list(S.seqs(JR, 2)) + [((0, 'p'), (1, 'r', 's'), (0, 'q')), ((0, 'p'), (0, 'q'), (0, 'p'), (1,)), ((0, [1]), (1, 'z')), (([0], 1), (1, 'z'))]:
        add(f'join {r!r}', f'join {cli_(r)}', lambda m, r=r: m.join(src(m, r)), ref_kill(S.join(r), [r], first))
        add(f'join -k {r!r}', f'join -k {cli_(r)}', lambda m, r=r: m.join(src(m, r), keep=True), ref_kill(S.join(r, keep=True), [r], first))
    return out


def safe(mk):
    return lambda s: mk()(s) if s else []


def cli_(r):
    return cli(r)


def HASH(t):
    try:
        hash(t)
        return True
    except TypeError:
        return False


LEFT = [A, B, C, (2,), (0, [3])]
LONG = [[B, A, B, B], [A, B, C, A, B, C, A, A, (2,)], [B] * 5, [C, (2,), (2,), A]]
STREAMS = {'quick': {'api': [(LEFT, 3), (VALUES, 2), (LONG, None)], 'cli': [(LEFT, 1), (LONG[:4], None)]},
           'thorough': {'api': [(LEFT, 4), (VALUES, 3), (LONG, None)], 'cli': [(LEFT, 2), (LONG, None)]}}
table.install(globals(), per_shard=50)
