"""Damaged workspaces are set aside at startup."""
import itertools
import os
import re
import shutil
from mc import rt, sessions

ID = 'C15'
LEVEL = 'model_checking'
RULE = ('every damage (file or directory missing, emptied, cut, replaced by the other kind, extra) of every part of every workspace, and pairs of damages, followed by a startup (interactive or script), '
        'use of all workspaces, deletion of what was set aside, and another startup; state = damaged storage, transition = startup')
BOUNDS = {'quick': 'all single damages, interactive and script; all pairs of damages of different workspaces or parts, interactive',
          'thorough': 'also all pairs in scripts, and all triples of damages'}
ASSUMPTIONS = ['Damaged files have the wrong kind or are missing, empty or cut short; other contents are not checked']
PROP = dict(
    title='A damaged workspace is set aside at startup, and does not affect others',
    statement='If files of a workspace are missing, cut short, of the wrong kind or unexpected, then the next startup reports the workspace as damaged and moves it, with all its remaining contents, out of the way. '
              'The session then works normally (with a new default workspace if that was damaged), the name can be used again, and all other workspaces are unchanged and not reported. '
              'Deleting damaged workspaces removes what was set aside, and nothing else.',
    over=['damages', 'combinations of damages'],
    text='all combinations of up to two damages of the stored workspaces',
    why='Tests damage one file of one workspace at a time, and do not look at the other workspaces.',
    files=['marcel/persistence/persistence.py', 'marcel/object/workspace.py', 'marcel/main.py', 'marcel/op/ws.py', 'marcel/locations.py', 'marcel/persistence/storagelayout.py'],
    mechanism=[('detection', 'marcel/persistence/persistence.py: validate_all; marcel/object/workspace.py: WorkspaceValidater'), ('setting aside', 'marcel/main.py: handle_persistence_validation_errors; marcel/object/workspace.py: mark_broken'),
               ('deletion', 'marcel/object/workspace.py: delete_broken')],
    observe=['startup messages, ws -l, variables of all workspaces, contents of the broken directories'],
    technique='exhaustive enumeration of damages of the stored state, each followed by sessions of the real shell',
    level_note='All damages within the bounds, on real files and real sessions. Trusts the list of files that make up a workspace.')

C, D = '.config/marcel/workspace', '.local/share/marcel/workspace'
BC, BD = '.config/marcel/broken', '.local/share/marcel/broken'


def damages_of(ws):
    c, d = f'{C}/{ws}', f'{D}/{ws}'
    out = [('missing', f'{c}/startup.py'), ('missing', f'{d}/history'), ('missing', f'{d}/reservoirs'), ('kind', f'{d}/reservoirs'), ('missing', d), ('kind', d), ('extra', f'{d}/junk'), ('extra', f'{c}/junk'),
           ('kind', f'{c}/startup.py'), ('kind', f'{d}/history'), ('extradir', f'{d}/junk'), ('extra', f'{c}/.WORKSPACE.bak')]
    if ws != '__DEFAULT__':
        out += [('missing', c), ('kind', c)]
        for f in ('env.pickle', 'properties.pickle'):
            out += [(how, f'{d}/{f}') for how in ('missing', 'empty', 'cut', 'kind')]
    return [(how, ws, path) for how, path in out]


def harmless():
    return [('missing', None, f'{C}/w1/.WORKSPACE'), ('missing', None, f'{C}/__DEFAULT__/.WORKSPACE'), ('missing', None, '.config/marcel/VERSION'), ('missing', None, BC), ('missing', None, BD), ('missing', None, f'{C}/__DEFAULT__'),
            ('dead owner', None, f'{C}/w1')]


ALL = damages_of('w1') + damages_of('w2') + damages_of('__DEFAULT__') + harmless()
ALL += [('extra', 'stray', f'{C}/stray'), ('extradir', 'stray', f'{D}/stray')]


def apply(home, damage):
    how, ws, path = damage
    p = os.path.join(home, path)
    if not os.path.lexists(p) and how not in ('extra', 'extradir') or not os.path.isdir(os.path.dirname(p)):
        return False
    if how in ('missing', 'kind'):
        was_dir = os.path.isdir(p)
        shutil.rmtree(p) if was_dir else os.unlink(p)
        if how == 'kind':
            open(p, 'w').close() if was_dir else os.mkdir(p)
    elif how == 'empty':
        open(p, 'w').close()
    elif how == 'cut':
        with open(p, 'rb') as f:
            data = f.read()
        n = len(data) // 2
        while data[n - 1:n] == b'.':     # looks like the end of a pickle
            n -= 1
        os.truncate(p, n)
    elif how == 'extra':
        with open(p, 'w') as f:
            f.write('junk')
    elif how == 'extradir':
        os.mkdir(p)
    elif how == 'dead owner':
        os.rename(f'{p}/.WORKSPACE', f'{p}/.WORKSPACE.4194999')
    return True


def tree(top):
    """Everything in a directory (or the one file): {relative path: contents, or None for a directory}"""
    if os.path.isfile(top):
        return {'': open(top, 'rb').read()}
    out = {}
    for d, dirs, files in os.walk(top):
        for x in dirs:
            out[os.path.relpath(os.path.join(d, x), top)] = None
        for x in files:
            with open(os.path.join(d, x), 'rb') as f:
                out[os.path.relpath(os.path.join(d, x), top)] = f.read()
    return out


_snap = None


def prepare():
    global _snap
    home = os.path.join(rt.scratch_home(), 'h')
    if _snap is None:
        from mc import crash
        rt.fresh_home(home)
        import marcel.persistence.storagelayout as sl
        sl.ensure_current(testing=False)
        c = rt.CLI()
        for x in ['ws -n w1', 'ws -h /tmp', "v = ('w1')", 'f = (lambda x: (x, v))', 'gen 2 7 >$ s', 'ws -c', 'ws -n w2', "v = ('w2')", 'f = (lambda x: (x, v))', 'gen 2 8 >$ s', 'ws -c']:
            o, e, ex = c.run(x)
            assert not e and not ex, (x, e, ex)
        c.close()
        for ws in ('w1', 'w2', '__DEFAULT__'):
            with open(f'{home}/{D}/{ws}/history', 'w') as f:
                f.write(f'\n# 2026-01-01 00:00:00.000001\n+history of {ws}\n')
        _snap = os.path.join(rt.scratch_home(), 'snap')
        crash.snapshot(home, _snap)
        sessions.preload()
    shutil.rmtree(home, ignore_errors=True)
    shutil.copytree(_snap, home, symlinks=True)
    os.chdir(home)
    return home


def session(how):
    """A real session, interactive or running a script (whose lines are read one by one)"""
    def body():
        import sys
        import marcel.main
        import marcel.persistence.storagelayout as sl
        sl.ensure_current(testing=False)
        if how == 'interactive':
            marcel.main.main_interactive_run()
        else:
            marcel.main.commands_in_script = lambda script: iter(sys.stdin.readline, '')
            marcel.main.main_script_run('')
    return sessions.Session(body=body)


def message(text):
    return ''.join(x for x in text.splitlines(True) if x.strip() and 'Input is not a terminal' not in x)


DAMAGED = re.compile(r"Damaged workspaces have been detected: (\[.*?\])")


def execute(rec, how, damages):
    def body():
        home = prepare()
        for d in damages:
            if not apply(home, d):
                return None
        broken = {d[1] for d in damages if d[1]}
        for w in ('w1', 'w2'):
            if not os.path.lexists(f'{home}/{C}/{w}') and not os.path.lexists(f'{home}/{D}/{w}'):
                return None     # There is no such workspace.
        rest = {w: (tree(f'{home}/{C}/{w}'), tree(f'{home}/{D}/{w}')) for w in broken}
        kept = {w: tree(f'{home}/{D}/{w}') for w in ('w1', 'w2') if w not in broken}
        s = session(how)
        try:
            msg = message(s.ready())
            found = DAMAGED.findall(msg)
            names = {n or '__DEFAULT__' for x in found for n in eval(x)}
            if names != broken:
                return f'reported as damaged: {sorted(names)}, expected {sorted(broken)}; message: {msg[:1500]}'
            if not broken and msg:
                return f'message on startup: {msg}'
            o, e = s.run('ws -l')
            good = [w for w in ('w1', 'w2') if w not in broken]
            exp = ['Workspace()'] + [f'Workspace({w} @ /tmp)' if w == 'w1' else f'Workspace({w})' for w in good]
            if e or o != exp:
                return f'ws -l: {o} {e}, expected {exp}'
            # What was damaged is kept
            aside = [(tree(f'{home}/{BC}'), tree(f'{home}/{BD}'))]
            for w in broken:
                for part, base in ((0, BC), (1, BD)):
                    for path, contents in rest[w][part].items():
                        if os.path.basename(path).startswith('.WORKSPACE'):
                            continue
                        tail = os.path.normpath(f'{w}/{path}')
                        if not any((p.endswith('/' + tail) or p == tail) and x == contents for p, x in aside[0][part].items()):
                            return f'{tail} of damaged workspace {w} is not in {base}: {sorted(aside[0][part])}'
            for p in list(aside[0][0]) + list(aside[0][1]):
                if set(p.split('/')) & ({'w1', 'w2', '__DEFAULT__'} - broken):
                    return f'set aside although not damaged: {p}'
            # Others work
            for w in good:
                # The history is appended to by this session.
                if {k: v for k, v in tree(f'{home}/{D}/{w}').items() if k != 'history'} != {k: v for k, v in kept[w].items() if k != 'history'}:
                    return f'files of {w} changed'
                if f'history of {w}' not in open(f'{home}/{D}/{w}/history').read():
                    return f'history of {w} lost'
                o, e = s.run(f'ws -o {w}')
                if e or not o[0].startswith(f'Workspace({w}'):
                    return f'ws -o {w}: {o} {e}'
                o = [s.run(x) for x in ('(f(5))', 'load s')]
                n = 7 if w == 'w1' else 8
                if o != [([f"(5, '{w}')"], '')[:2], ([str(n), str(n + 1)], '')] and o != [([f'(5, {w})'], ''), ([str(n), str(n + 1)], '')]:
                    return f'variables of {w}: {o}'
                o, e = s.run('ws -c')
                if e:
                    return f'ws -c: {o} {e}'
            # The default workspace works
            if s.run('q = (5)') != ([], '') or s.run('(q + 1)') != (['6'], '') or s.run('gen 2 >$ r') != ([], '') or s.run('load r') != (['0', '1'], ''):
                return f'default workspace: {s.run("q = (5)")} {s.run("(q + 1)")} {s.run("load r")}'
            # Names can be used again
            for w in sorted(broken - {'__DEFAULT__'}):
                o, e = s.run(f'ws -n {w}')
                if e or o != [f'Workspace({w})']:
                    return f'ws -n {w}: {o} {e}'
                o, e = s.run('env v')
                if 'is undefined' not in e:
                    return f'v in the new workspace {w}: {o} {e}'
                s.run("v = ('new')")
                o, e = s.run('ws -c')
                if e:
                    return f'ws -c: {o} {e}'
            before = tree(f'{home}/{C}'), {k: v for k, v in tree(f'{home}/{D}').items() if not k.endswith('history')}
            o, e = s.run('ws -b')
            after = tree(f'{home}/{C}'), {k: v for k, v in tree(f'{home}/{D}').items() if not k.endswith('history')}
            if before != after or [x for x in (tree(f'{home}/{BC}'), tree(f'{home}/{BD}')) if x]:
                return f'ws -b: {o} {e}; {sorted(tree(f"{home}/{BC}"))} {sorted(tree(f"{home}/{BD}"))} left'
        except sessions.SessionDied as x:
            return f'session died: {str(x)[-1500:]}'
        finally:
            try:
                s.exit()
            except OSError:
                pass
        s = session(how)
        try:
            msg = message(s.ready())
            if msg:
                return f'message on second startup: {msg}'
            o, e = s.run('ws -l')
            exp = ['Workspace()', 'Workspace(stray)'] if 'stray' in broken else ['Workspace()']
            exp += [f'Workspace({w} @ /tmp)' if w == 'w1' and w in good else f'Workspace({w})' for w in ('w1', 'w2')]
            if e or sorted(o) != sorted(exp):
                return f'ws -l in the next session: {o} {e}, expected {exp}'
        except sessions.SessionDied as x:
            return f'second session died: {str(x)[-500:]}'
        finally:
            s.exit()
        return (repr((sorted(broken), sorted(names))),) * 2
    rec.state(tuple(damages))
    rec.transition(2)
    rec.check((how, tuple(damages)), body, timeout=60)


def judged(damages):
    # Without these, the default workspace is one whose creation was interrupted, and missing parts are just created.
    return not (any(d[1] == '__DEFAULT__' for d in damages) and any(d[2] in ('.config/marcel/VERSION', f'{C}/__DEFAULT__') for d in damages))


def cases(tier):
    yield 'interactive', ()
    yield 'script', ()
    for how in ('interactive', 'script'):
        for d in ALL:
            yield how, (d,)
    for a, b in itertools.combinations(ALL, 2):
        if a[2].startswith(b[2] + '/') or b[2].startswith(a[2] + '/') or a[2] == b[2]:
            continue    # one is inside of the other
        if not judged((a, b)):
            continue
        yield 'interactive', (a, b)
        if tier != 'quick':
            yield 'script', (a, b)
    if tier != 'quick':
        for ds in itertools.combinations(ALL, 3):
            if judged(ds) and not any(a[2] == b[2] or a[2].startswith(b[2] + '/') for a, b in itertools.permutations(ds, 2)):
                yield 'interactive', ds


def shards(tier):
    n = 16 if tier == 'quick' else 64
    return [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    i, n = shard
    for k, (how, damages) in enumerate(cases(tier)):
        if k % n == i:
            execute(rec, how, damages)


def replay(rec, case):
    how, damages = case
    execute(rec, how, [tuple(d) for d in damages])
