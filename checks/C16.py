"""Storage written by older versions is converted at startup; current storage is not touched."""
import itertools
import os
import shutil
from mc import crash, rt

ID = 'C16'
LEVEL = 'model_checking'
RULE = ('every storage layout of the past (and the current one), with every combination of optional contents (histories of each format, named workspaces, version file), converted by a startup that is killed '
        'before each of its file system changes (or not), followed by further startups; state = files found, transition = file system change')
BOUNDS = {'quick': '6 layouts, 0-2 named workspaces, 4 kinds of history, 4 kinds of version file; every crash point of the first startup',
          'thorough': 'also every crash point of the startup following the crash'}
ASSUMPTIONS = ['Old layouts as described by the code that converts them; contents of files in the current format', 'Command histories in the old format may be discarded']
PROP = dict(
    title='Startup brings old storage up to date, and leaves current storage alone',
    statement='If marcel finds files saved by an older version, startup converts them: the startup scripts, and the variables and streams of all workspaces, are those saved, even if the conversion is killed at any moment and completed by the next startup. '
              'Nothing saved by the current version is changed or deleted by starting again, no matter how often, including command histories.',
    over=['old layouts', 'crash points', 'numbers of startups'],
    text='all past layouts with all combinations of contents, all crash points of conversion, repeated startups',
    why='Tests start with current storage only, and never look at histories after another startup.',
    files=['marcel/persistence/storagelayout.py', 'marcel/locations.py', 'marcel/main.py', 'marcel/persistence/persistence.py'],
    mechanism=[('conversion', 'marcel/persistence/storagelayout.py: ensure_current, StorageLayout and subclasses')],
    observe=['files, startup script, workspaces and variables, after startups'],
    technique='exhaustive enumeration of stored layouts and crash points of the real conversion code under a fault injector',
    level_note='All cases within the bounds on real files. Trusts the reconstruction of old layouts from the conversion code.')

LAYOUTS = ['original', 'xdg', 'ws1', 'ws2', 'ws3', 'pt']
HISTORIES = {'missing': None, 'empty': '', 'old': 'ls\nps | head 3\n', 'current': '\n# 2026-01-02 03:04:05.678901\n+ls\n\n# 2026-01-02 03:04:06\n+ps | head 3\n'}
VERSIONS = [None, '0.9.0', '0.31.2', 'current']
STARTUP = "from marcel.builtin import *\nMINE = 'startup of {}'\n"
C, D = '.config/marcel', '.local/share/marcel'

_parts = None


def parts():
    """Files of named workspaces, in the current format."""
    global _parts
    if _parts is None:
        home = os.path.join(rt.scratch_home(), 'parts')
        rt.fresh_home(home)
        import marcel.persistence.storagelayout as sl
        sl.ensure_current(testing=False)
        c = rt.CLI()
        for w in ('w1', 'w2'):
            for x in (f'ws -n {w}', f"v = ('{w}')", 'gen 2 7 >$ s', 'ws -c'):
                o, e, ex = c.run(x)
                assert not e and not ex, (x, e, ex)
        c.close()
        _parts = home
    return _parts


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        f.write(text)


def applicable(layout, n, hist, version):
    if layout == 'original':
        return n == 0 and version is None
    if layout == 'xdg':
        return n == 0
    # Since ws2, creating a workspace creates its history.
    return layout == 'ws1' or hist != 'missing'


def make(home, layout, n, hist, version):
    """Lay out files as some version left them."""
    src = parts()
    import marcel.version
    c, d = os.path.join(home, C), os.path.join(home, D)
    dc, dd = {'original': (None, None), 'xdg': (c, d), 'ws1': (c, d), 'ws2': (f'{c}/__DEFAULT_WORKSPACE__', f'{d}/__DEFAULT_WORKSPACE__'),
              'ws3': (f'{c}/workspace/__DEFAULT__', f'{d}/workspace/__DEFAULT__'), 'pt': (f'{c}/workspace/__DEFAULT__', f'{d}/workspace/__DEFAULT__')}[layout]
    if layout == 'original':
        write(f'{home}/.marcel.py', STARTUP.format('default'))
        if HISTORIES[hist] is not None:
            write(f'{home}/.marcel_history', HISTORIES[hist])
        return
    write(f'{dc}/startup.py', STARTUP.format('default'))
    os.makedirs(dd, exist_ok=True)
    if HISTORIES[hist] is not None:
        write(f'{dd}/history', HISTORIES[hist])
    if layout != 'xdg':
        open(f'{dc}/.WORKSPACE', 'w').close()
        os.makedirs(f'{dd}/reservoirs')
    if layout in ('ws3', 'pt'):
        os.makedirs(f'{c}/broken')
        os.makedirs(f'{d}/broken')
    for w in ('w1', 'w2')[:n]:
        wc, wd = (f'{c}/workspace/{w}', f'{d}/workspace/{w}') if layout in ('ws3', 'pt') else (f'{c}/{w}', f'{d}/{w}')
        shutil.copytree(f'{src}/{C}/workspace/{w}', wc)
        shutil.copytree(f'{src}/{D}/workspace/{w}', wd)
        write(f'{wc}/startup.py', STARTUP.format(w))
        write(f'{wd}/history', HISTORIES[hist] or '')
    if version:
        write(f'{c}/VERSION', (marcel.version.VERSION if version == 'current' else version) + '\n')


class Bad(Exception):
    pass


def start():
    import marcel.persistence.storagelayout as sl
    rt.reset_default_workspace()
    with rt.captured() as (o, e):
        try:
            sl.ensure_current(testing=False)
            c = rt.CLI()
        except BaseException as x:
            import traceback
            tb = traceback.extract_tb(x.__traceback__)[-1]
            raise Bad(f'startup fails: {type(x).__name__}: {x} at {os.path.basename(tb.filename)}:{tb.lineno}')
    if e.getvalue() or c.main.needs_restart:
        raise Bad(f'startup message: {e.getvalue()}')
    return c


def examine(home, n, hist, layout):
    import marcel.version
    found = []
    for again in range(3):
        c = start()
        for w in ('', 'w1', 'w2')[:n + 1]:
            if w:
                o, e, x = c.run(f'ws -o {w}')
                if o != f'Workspace({w})\n' or e or x:
                    raise Bad(f'startup {again}: ws -o {w}: {o} {e} {x}')
            o, e, x = c.run('(MINE)')
            if o != f'startup of {w or "default"}\n':
                raise Bad(f'startup {again}: startup script of {w or "default"}: {o} {e} {x}')
            if w:
                got = [c.run('(v)'), c.run('load s')]
                if got != [(f'{w}\n', '', None), ('7\n8\n', '', None)]:
                    raise Bad(f'startup {again}: variables of {w}: {got}')
            with open(f'{home}/{D}/workspace/{w or "__DEFAULT__"}/history') as f:
                h = f.read()
            old = HISTORIES[hist]
            if hist == 'current' or (hist in ('missing', 'empty')):
                if h != (old or ''):
                    raise Bad(f'startup {again}: history of {w or "default"} is now {h!r}, was {old!r}')
            elif again == 0:
                found.append(h)
            elif h not in found:
                raise Bad(f'startup {again}: history of {w or "default"} changed: {h!r}')
            if again == 0:
                # What prompt_toolkit makes of it
                import prompt_toolkit.history
                list(prompt_toolkit.history.FileHistory(f'{home}/{D}/workspace/{w or "__DEFAULT__"}/history').load_history_strings())
        with open(f'{home}/{C}/VERSION') as f:
            v = f.read().strip()
        if v != marcel.version.VERSION:
            raise Bad(f'startup {again}: version is {v}')
        o, e, x = c.run('ws -l')
        if o.split() != [f'Workspace({w})' for w in ('', 'w1', 'w2')[:n + 1]]:
            raise Bad(f'startup {again}: ws -l: {o} {e} {x}')
        if c.run('ws -c')[2] or c.env.workspace.name:
            raise Bad('ws -c')
        c.close()
        left = [p for p in (f'{home}/.marcel.py', f'{home}/.marcel_history', f'{home}/{C}/__DEFAULT_WORKSPACE__', f'{home}/{D}/__DEFAULT_WORKSPACE__', f'{home}/{C}/startup.py', f'{home}/{D}/history', f'{home}/{C}/w1',
                            f'{home}/{D}/w1') if os.path.exists(p)]
        if left:
            raise Bad(f'not converted: {left}')
        for b in (C, D):
            if os.listdir(f'{home}/{b}/broken'):
                raise Bad(f'set aside: {os.listdir(f"{home}/{b}/broken")}')
    return 'ok', layout, hist, n


def victim(home, at, variant):
    def body():
        i = crash.Injector(home, at, variant)
        i.install()
        os.getpid = lambda: crash.FAKE_PID
        import marcel.persistence.storagelayout as sl
        rt.reset_default_workspace()
        with rt.captured():
            sl.ensure_current(testing=False)
        return i.log
    return body


def home_for(case):
    home = os.path.join(rt.scratch_home(), 'h')
    shutil.rmtree(home, ignore_errors=True)
    rt.fresh_home(home)
    make(home, *case)
    return home


def execute(rec, case, crashes):
    def body():
        home = home_for(case)
        for at, variant in crashes:
            status, value = crash.in_child(victim(home, at, variant))
            if status not in (0, crash.EXIT):
                return f'startup failed, exit status {status}: {str(value)[-800:]}'

        def survivor():
            try:
                return 'ok', examine(home, case[1], case[2], case[0])
            except Bad as e:
                return 'bad', str(e)
        status, value = crash.in_child(survivor)
        if status != 0:
            return f'exit status {status}: {str(value)[-800:]}'
        if value[0] == 'bad':
            return value[1]
        return (repr(value),) * 2
    rec.state((case, crashes))
    rec.transition()
    rec.check((case, crashes), body, timeout=60)


def log_points(log):
    return [(n, v) for n, (label, is_write) in enumerate(log) for v in (('before', 'half') if is_write else ('before',))]


def cases():
    for layout, n, hist, version in itertools.product(LAYOUTS, (0, 1, 2), HISTORIES, VERSIONS):
        if applicable(layout, n, hist, version) and not (layout in ('ws3', 'pt') and hist == 'missing') and not (layout == 'pt' and hist == 'old'):
            yield layout, n, hist, version


def shards(tier):
    n = 24
    return [(i, n) for i in range(n)]


def explore(rec, shard, tier):
    i, n = shard
    parts()
    for k, case in enumerate(cases()):
        if k % n != i:
            continue
        execute(rec, case, ())
        home = home_for(case)
        status, log = crash.in_child(victim(home, None, 'before'))
        if status != 0:
            continue    # reported above
        for p in log_points(log):
            execute(rec, case, (p,))
            if tier != 'quick':
                home = home_for(case)
                crash.in_child(victim(home, *p))
                status, log2 = crash.in_child(victim(home, None, 'before'))
                for q in log_points(log2 if status == 0 else []):
                    execute(rec, case, (p, q))


def replay(rec, case):
    parts()
    c, crashes = case
    execute(rec, tuple(c), tuple(tuple(x) for x in crashes))
