"""Pipelines are function composition: every chain of operators over the alphabet."""
import itertools
from mc import opsem as S, ops

ID = 'C05'
LEVEL = 'model_checking'
RULE = ('every chain of operators up to the bound over a 29-operator alphabet (all stream operators, nested-pipeline operators included) x every stream, '
        'executed on the real code through the API and as command text; state = (operator chain prefix, stream reaching it) '
        'of the composed reference, transition = one operator application')
BOUNDS = {'quick': 'API: chains <= 2 on 6 streams, = 3 on 2 streams; command text: chains <= 2 on 3 streams, plain and bound to a variable',
          'thorough': 'API: chains <= 3 on 6 streams, = 4 on 1 stream; command text: chains <= 2 on 6 streams, = 3 on 1 stream'}
ASSUMPTIONS = ['operators in the alphabet are those checked individually by C01-C04']
PROP = dict(
    title='A pipeline denotes the composition of its operators, at any nesting',
    statement='The output of a pipeline is what is obtained by applying its operators one after another to the whole stream: every item and '
              'exactly one end of stream reaches each operator, in order, however the operators are combined. The same holds when part of the pipeline is '
              'bound to a variable and used by name, or appears as the pipeline argument of another operator.',
    over=['programs', 'inputs'],
    text='all operator sequences (including those with pipeline arguments and named pipelines) and all finite input streams',
    why='Tests exercise one operator after gen/map; interactions of two or three operators that hold items until the end of the stream, or '
        'that run nested pipelines, are not covered.',
    files=['marcel/core.py', 'marcel/pipeline.py', 'marcel/op/redirect.py', 'marcel/op/runpipeline.py', 'marcel/op/union.py', 'marcel/op/case.py', 'marcel/op/args.py'],
    mechanism=[('linking of operators and delivery', 'marcel/pipeline.py: PipelineExecutable.setup; marcel/core.py: Op.send/propagate_flush'),
               ('routing of nested output', 'marcel/op/redirect.py')],
    observe=['marcel.api.gather', 'command output'],
    technique='bounded-exhaustive exploration of operator chains on the real code against composed list functions',
    level_note='All chains in the stated bounds over the alphabet are executed. Trusts the per-operator list references (mc/opsem.py, mc/ops.py).')


def plan(tier):
    return {'quick': [('api', 1, 6), ('api', 2, 6), ('api', 3, 2), ('cli', 1, 6), ('cli', 2, 3), ('var', 1, 6), ('var', 2, 2)],
            'thorough': [('api', 1, 6), ('api', 2, 6), ('api', 3, 6), ('api', 4, 1), ('cli', 1, 6), ('cli', 2, 6), ('cli', 3, 1),
                         ('var', 1, 6), ('var', 2, 6), ('var', 3, 1)]}[tier]


def shards(tier):
    n = len(ops.alphabet())
    return [(mode, k, ns, first) for mode, k, ns in plan(tier) for first in (range(n) if k > 1 else [None])]


def streams(n):
    return ops.STREAMS[:n] if n > 3 else {1: [ops.STREAMS[3]], 2: [ops.STREAMS[3], ops.STREAMS[4]],
                                          3: [ops.STREAMS[0], ops.STREAMS[3], ops.STREAMS[4]]}[n]


def run_one(runner, mode, chain, stream):
    if mode == 'api':
        p = runner.source(stream)
        for s in chain:
            p = p | s.api(runner.m)
        out, err = runner.run(p)
    elif mode == 'cli':
        out, err, exc = runner.stream(' | '.join([S.cli_source(stream)] + [s.cli for s in chain]))
        if exc:
            return ('exception', exc)
    else:
        # All but the first operator as a named pipeline, the first inside another.
        e = runner.cli.run(f'pv = (| {" | ".join(s.cli for s in chain)} |)')
        e2 = runner.cli.run('pw = (| pv |)')
        out, err, exc = runner.stream(f'{S.cli_source(stream)} | pw')
        if exc or any(e) or any(e2):
            return ('exception', (exc, e, e2))
    if err:
        return ('stderr', err)
    return ('ok', [tuple(x) for x in out])


def one(rec, runner, mode, chain, stream):
    def body():
        s = list(stream)
        for i, spec in enumerate(chain):
            rec.state((tuple(c.name for c in chain[:i]), tuple(s)))
            rec.transition()
            s = spec.ref(s)
        return run_one(runner, mode, chain, stream), ('ok', [tuple(x) for x in s])
    rec.check((mode, tuple(c.name for c in chain), stream), body)


def explore(rec, shard, tier):
    mode, k, ns, first = shard
    runner = S.ApiRunner() if mode == 'api' else S.CliRunner()
    alpha = ops.alphabet()
    for chain in itertools.product(alpha, repeat=k):
        if first is not None and chain[0] is not alpha[first]:
            continue
        for stream in streams(ns):
            one(rec, runner, mode, chain, stream)


def replay(rec, case):
    mode, names, stream = case
    t = {s.name: s for s in ops.alphabet()}
    one(rec, S.ApiRunner() if mode == 'api' else S.CliRunner(), mode, [t[n] for n in names], stream)
