"""Exhaustive comparison of a table of operators (opsem.Spec) with their reference meaning.

A check module gives specs() and STREAMS = {tier: {'api': [(alphabet, maxlen)...], 'cli': [...]}}; streams may also be
listed explicitly as (list_of_streams, None)."""
from mc import opsem as S


def install(ns, per_shard=3, cli_shards=6):
    def streams(mode, tier):
        seen = set()
        for alphabet, maxlen in ns['STREAMS'][tier][mode]:
            it = map(tuple, alphabet) if maxlen is None else S.seqs(alphabet, maxlen)
            for s in it:
                k = repr(s)
                if k not in seen:
                    seen.add(k)
                    yield s

    def shards(tier):
        names = [s.name for s in ns['specs']() if s.api]
        k = per_shard if tier == 'quick' else 1
        cli = [s.name for s in ns['specs']() if s.cli]
        out = [('api', tuple(names[i:i + k])) for i in range(0, len(names), k)]
        return out + [('cli', tuple(cli[i::cli_shards])) for i in range(cli_shards) if cli[i::cli_shards]]

    def expect(spec, stream):
        try:
            out = spec.ref([tuple(t) for t in stream])
            return ('ok', S.bag(map(S.plain, out)) if spec.bag else list(map(S.exact, out)))
        except S.Kill:
            return ('killed', [])

    def run_one(runner, mode, spec, stream):
        if mode == 'api':
            src = runner.source(stream)
            out, err = runner.run(src | spec.api(runner.m) if not spec.first else spec.api(runner.m))
        else:
            out, err, exc = runner.stream((S.cli_source(stream) + ' | ' if not spec.first else '') + spec.cli)
            if exc:
                return ('exception', exc)
        if err:
            return ('killed', [])
        out = [tuple(x) if type(x) is list else x for x in out]
        return ('ok', S.bag(map(S.plain, out)) if spec.bag else list(map(S.exact, out)))

    def one(rec, runner, mode, spec, stream):
        rec.check((mode, spec.name, stream), lambda: (run_one(runner, mode, spec, stream), expect(spec, stream)))

    def explore(rec, shard, tier):
        mode, names = shard
        runner = S.ApiRunner() if mode == 'api' else S.CliRunner()
        table = {s.name: s for s in ns['specs']()}
        for name in names:
            spec = table[name]
            if spec.first:
                rec.state((name,)); rec.transition()
                one(rec, runner, mode, spec, ())
                continue
            for stream in streams(mode, tier):
                if spec.guard and not all(spec.guard(t) for t in stream):
                    continue
                rec.state((name, stream))
                rec.transition(len(stream) + 1)
                one(rec, runner, mode, spec, stream)

    def replay(rec, case):
        mode, name, stream = case
        runner = S.ApiRunner() if mode == 'api' else S.CliRunner()
        one(rec, runner, mode, {s.name: s for s in ns['specs']()}[name], stream)

    ns.update(shards=shards, explore=explore, replay=replay)
