"""A total alphabet: operators (with arguments) defined on every stream of hashable tuples, for composition checks."""
from mc import opsem as S
from mc.opsem import Spec

K = lambda *x: [str(v) for v in x]
R1 = [(0,), (1,), (0, 'x'), (1, 'y')]


def right(m, items=R1):
    items = list(items)
    return m.map(lambda: [items]) | m.expand()


RC = S.cli_source(R1)
first0 = lambda *x: len(x) > 0 and x[0] in (0, '0')
tag = lambda *x: ('t', len(x)) + x
dup = lambda *x: [x, x]


def alphabet():
    A = []

    def add(name, cli, api, ref):
        A.append(Spec(name, cli, api, ref))
    add('head 2', 'head 2', lambda m: m.head(2), S.head(2))
    add('head -1', 'head (-1)', lambda m: m.head(-1), S.head(-1))
    add('tail 2', 'tail 2', lambda m: m.tail(2), S.tail(2))
    add('tail -1', 'tail (-1)', lambda m: m.tail(-1), S.tail(-1))
    add('reverse', 'reverse', lambda m: m.reverse(), lambda s: s[::-1])
    add('sort', 'sort (*x: [str(v) for v in x])', lambda m: m.sort(K), S.sort(K))
    add('unique', 'unique', lambda m: m.unique(), S.unique)
    add('unique -c', 'unique -c', lambda m: m.unique(consecutive=True), S.unique_c)
    add('window -d', 'window -d 2', lambda m: m.window(disjoint=2), S.w_disjoint(2))
    add('window -o', 'window -o 2', lambda m: m.window(overlap=2), S.w_overlap(2))
    add('window p', 'window (*x: len(x) > 0 and x[0] in (0, "0"))', lambda m: m.window(first0), S.w_pred(first0))
    add('select', 'select (*x: len(x) > 0 and x[0] in (0, "0"))', lambda m: m.select(first0), S.select(first0))
    add('map', 'map (*x: ("t", len(x)) + x)', lambda m: m.map(tag), S.fmap(tag))
    add('dup', 'map (*x: [x, x]) | expand', lambda m: m.map(dup) | m.expand(), lambda s: [S.wrap(y) for t in s for y in (t, t)])
    add('expand', 'expand', lambda m: m.expand(), S.expand())
    add('expand 0', 'expand 0', lambda m: m.expand(0), S.expand(0))
    add('red count', 'map (*x: (str(x), 1)) | red . count', lambda m: m.map(lambda *x: (str(x), 1)) | m.red(None, m.r_count),
        lambda s: S.red(S.GROUP, 'count')([(str(t), 1) for t in s]))
    add('red -i', 'map (*x: len(x)) | red -i +', lambda m: m.map(lambda *x: len(x)) | m.red(m.r_plus, incremental=True),
        lambda s: S.red(lambda a, b: a + b, incremental=True)([(len(t),) for t in s]))
    add('red', 'map (*x: len(x)) | red +', lambda m: m.map(lambda *x: len(x)) | m.red(m.r_plus),
        lambda s: S.red(lambda a, b: a + b)([(len(t),) for t in s]))
    add('union', f'union (| {RC} |)', lambda m: m.union(right(m)), S.union(R1))
    add('union union', f'union (| {RC} | union (| gen 1 |) |) (| gen 1 |)', lambda m: m.union(right(m) | m.union(m.gen(1)), m.gen(1)),
        S.union(R1, [(0,)], [(0,)]))
    add('difference', f'difference (| {RC} |)', lambda m: m.difference(right(m)), S.difference(R1))
    add('intersect', f'intersect (| {RC} |)', lambda m: m.intersect(right(m)), S.intersect(R1))
    add('filter', f'filter -d (| {RC} | head 1 |)', lambda m: m.filt(right(m) | m.head(1), discard=True), S.filt(R1[:1], keep=False))
    nonempty = lambda *x: len(x) > 0
    add('join', f'select (*x: len(x) > 0) | join -k (| {RC} |)', lambda m: m.select(nonempty) | m.join(right(m), keep=True),
        lambda s: S.join(R1, keep=True)([t for t in s if t]))
    add('case', 'case (*x: len(x) > 0 and x[0] in (0, "0")) (| map (*x: ("t", len(x)) + x) |) (| reverse |)',
        lambda m: m.case(first0, m.map(tag), m.reverse()),
        S.case((first0, 'each', S.fmap(tag)), default=('end', lambda s: s[::-1])))
    add('case union', f'case (*x: len(x) > 0 and x[0] in (0, "0")) (| tail 1 | union (| gen 2 |) |)',
        lambda m: m.case(first0, m.tail(1) | m.union(m.gen(2))),
        S.case((first0, 'end', lambda s: s[-1:] + [(0,), (1,)])))
    add('args 2', 'args (| a, b: map (: (a, b)) | union (| map (: b) |) |)',
        lambda m: m.args(lambda a, b: m.map(lambda: (a, b)) | m.union(m.map(lambda: b))),
        S.args(2, lambda a, b: [(a, b), S.wrap(b)]))
    add('args -a', 'args -a (| a: map (: [a]) | expand | reverse |)',
        lambda m: m.args(lambda a: m.map(lambda: [a]) | m.expand() | m.reverse(), all=True),
        S.args_all(lambda v: [S.wrap(x) for x in v][::-1]))
    return A


STREAMS = [(), ((0,),), ((1,), (0,)), ((0,), (0,), (1, 'y'), (0, 'x'), (2,)), ((2, 3), (0, 'x'), (1,), (2, 3), (0,)), (((0, 1),), (1,))]
