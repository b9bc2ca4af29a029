"""Running a pipeline again -- in sequence, inside another, or several times within one command -- gives the same result."""
import itertools
from mc import opsem as S, ops

ID = 'C06'
LEVEL = 'model_checking'
RULE = ('every pipeline of the stated lengths over a 29-operator alphabet x every way of using it more than once, on the real code; '
        'state = (pipeline, way of use, use number), transition = one run of the pipeline')
BOUNDS = {'quick': 'pipelines: source + 1 operator on 3 streams and + 2 operators on 1 stream; 6 API and 5 command-line ways of re-use, 2-3 runs each',
          'thorough': 'source + 1..2 operators on 3 streams, + 3 on 1 stream (API)'}
ASSUMPTIONS = ['functions inside the pipelines are pure']
PROP = dict(
    title='A pipeline can be used any number of times, and each use stands alone',
    statement='Each execution of a given pipeline on given input produces the same output, regardless of whether the pipeline was run before, is run again later, is '
              'run several times within one command (for each input, or in several places), or was used as the beginning of a longer pipeline. '
              'No execution changes the pipeline itself or leaves anything behind in it.',
    over=['histories', 'programs'],
    text='all pipelines and all sequences of uses of the same pipeline value, through variables and the Python API',
    why='The tests build a fresh pipeline for nearly every execution; state kept inside an operator only shows up when the same object is executed again.',
    files=['marcel/pipeline.py', 'marcel/core.py', 'marcel/op/runpipeline.py', 'marcel/op/args.py'],
    mechanism=[('each run works on its own copy', 'marcel/pipeline.py: PipelineExecutable.copy, run_pipeline'),
               ('state reset by setup', 'marcel/op/*.py: setup')],
    observe=['marcel.api.gather', 'iteration over a pipeline', 'command output'],
    technique='bounded-exhaustive exploration of re-use histories of pipelines on the real code against list functions',
    level_note='All pipelines in the stated bounds are executed in every listed way of re-use. Trusts the per-operator list references.')

API = ['twice', 'iterate twice', 'prefix', 'args', 'union self', 'filter self']
CLI = ['twice', 'args', 'union self', 'join self', 'nested']


def shards(tier):
    n = len(ops.alphabet())
    out = [('api', 1, 3, None), ('cli', 1, 3, None)] + [('api', 2, 1, i) for i in range(n)] + [('cli', 2, 1, i) for i in range(n)]
    if tier == 'thorough':
        out = [('api', 1, 3, None), ('cli', 1, 3, None)] + [('api', 2, 3, i) for i in range(n)] + [('cli', 2, 3, i) for i in range(n)]
        out += [('api', 3, 1, i) for i in range(n)]
    return out


def streams(n):
    return [ops.STREAMS[3], ops.STREAMS[4], ops.STREAMS[0]][:n]


def tup(out):
    return [tuple(x) for x in out]


def api_use(runner, way, chain, stream, r):
    m = runner.m

    def pipe():
        p = runner.source(stream)
        for s in chain:
            p = p | s.api(m)
        return p
    p = pipe()

    def run(q):
        out, err = runner.run(q)
        return err or tup(out)
    if way == 'twice':
        return [run(p), run(p), run(p)], [r, r, r]
    if way == 'iterate twice':
        def it():
            from mc.opsem import norm_item
            return tup(norm_item(x if type(x) in (tuple, list) else (x,), runner.Error) for x in p)
        a = it()
        b = it()
        return [len(a), a, run(p)], [len(a), b, r]
    if way == 'prefix':
        return [run(p | m.map(tag)), run(p), run(p | m.reverse() | m.map(tag)), run(p)], \
            [[tag(*t) for t in r], r, [tag(*t) for t in r[::-1]], r]
    if way == 'args':
        return [run(m.gen(3) | m.args(lambda i: p | m.map(lambda *x: (i,) + x)))], [[(i,) + t for i in range(3) for t in r]]
    if way == 'union self':
        return [run(p | m.union(p, p)), run(p)], [r + r + r, r]
    if way == 'filter self':
        return [run(p | m.filt(p)), run(p | m.filt(p, discard=True))], [r, []]


def tag(*x):
    return ('z',) + x


def cli_use(runner, way, chain, stream, r):
    text = ' | '.join([S.cli_source(stream)] + [s.cli for s in chain])
    setup = runner.cli.run(f'pv = (| {text} |)')
    assert not any(setup), setup

    def run(t):
        out, err, exc = runner.stream(t)
        return exc or err or tup(out)
    if way == 'twice':
        return [run('pv'), run('pv'), run(text)], [r, r, r]
    if way == 'args':
        return [run('gen 3 | args (| i: pv | map (*x: (i,) + x) |)')], [[(i,) + t for i in range(3) for t in r]]
    if way == 'union self':
        return [run('pv | union (| pv |) (| pv |)'), run('pv')], [r + r + r, r]
    if way == 'join self':
        key = 'map (*x: (str(x), x))'
        return [run(f'pv | {key} | join (| pv | {key} | unique |)')], [[(str(t), t, t) for t in r]]
    if way == 'nested':
        assert not any(runner.cli.run('pn = (| pv | union (| pv |) |)'))
        return [run('pn'), run('gen 2 | args (| i: pn |)')], [r + r, r * 4]


def one(rec, runner, mode, way, chain, stream):
    r = list(stream)
    for spec in chain:
        r = spec.ref(r)
    r = tup(r)

    def body():
        got, want = (api_use if mode == 'api' else cli_use)(runner, way, chain, stream, r)
        for i in range(len(want)):
            rec.state((mode, way, tuple(c.name for c in chain), stream, i))
            rec.transition()
        return got, want
    rec.check((mode, way, tuple(c.name for c in chain), stream), body)


def explore(rec, shard, tier):
    mode, k, ns, first = shard
    runner = S.ApiRunner() if mode == 'api' else S.CliRunner()
    alpha = ops.alphabet()
    for chain in itertools.product(alpha, repeat=k):
        if first is not None and chain[0] is not alpha[first]:
            continue
        for stream in streams(ns):
            for way in API if mode == 'api' else CLI:
                one(rec, runner, mode, way, chain, stream)


def replay(rec, case):
    mode, way, names, stream = case
    t = {s.name: s for s in ops.alphabet()}
    one(rec, S.ApiRunner() if mode == 'api' else S.CliRunner(), mode, way, [t[n] for n in names], stream)
