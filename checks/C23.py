"""ls: enumeration of directory trees, arguments and flags; and of the moments at which something disappears."""
import fnmatch
import itertools
import os
import shutil
import stat

from mc import opsem as S, rt

ID = 'C23'
LEVEL = 'model_checking'
RULE = ('all directory trees (files, directories, links to each other, to ancestors, and to nothing; hidden and oddly named ones; unreadable ones) up to a number of nodes, x arguments x flags, as a command and through the API; '
        'and all ways to remove one of the files just before one of the file system calls made by ls; compared with a reference')
BOUNDS = {'quick': 'all trees of up to 3 nodes, 21 arguments, 10 combinations of flags (a fifth of these combinations for trees of 3 nodes); removals in 5 trees', 'thorough': 'all trees of up to 4 nodes, 32 combinations of flags; removals in all trees of 4 nodes without links'}
ASSUMPTIONS = ['Names containing pattern characters or backslashes are specified by File objects, or matched by a pattern', 'Patterns have no **']
PROP = dict(
    title='ls lists exactly the files selected, once each, in order',
    statement='For every directory tree, ls writes exactly the files, directories and links that are matched by the arguments (names, patterns, files from another command, or the current directory), contained in matching directories, or anywhere below them, as selected by the flags for depth and type, each one once, in order of name with contents following their directory. '
              'Links to directories are followed unless the directory has been listed already, so ls always ends. What is unreadable or disappears meanwhile leads to an Error in its place, or is left out, and does not affect anything else.',
    over=['directory trees', 'arguments', 'concurrent removals'],
    text='all trees of up to 3 (or 4) nodes, with all combinations of arguments and flags; all moments of a removal',
    why='Tests list two fixed trees. Links between directories, overlapping arguments, and files disappearing while they are listed matter in combinations.',
    files=['marcel/op/ls.py', 'marcel/op/filenamesop.py', 'marcel/op/filenames.py', 'marcel/object/file.py'],
    mechanism=[('traversal', 'marcel/op/filenamesop.py: FilenamesOp.visit'), ('arguments', 'marcel/op/filenames.py: Filenames.normalize')],
    observe=['paths and metadata in the output of ls', 'printed listing', 'Errors'],
    technique='exhaustive enumeration of small directory trees, arguments and flags, and of removals at every file system call, on the real code against a reference',
    level_note='All trees and removals within the bounds, on real directories with the permissions of an ordinary user.')

NAMES = ['a', 'b.t', '.c']
# File, directory, and links
LINKS = ['a', '.', '..', 'none', 'a/b.t', '../b.t']
ODD = ['x[1]', 'x1', '*', '?', 'c d', "q'q", 'q"q', 'b\\s', '~', '-f', '#', '(p)', 'a|b', 'n\nl', '\xe9', b'i\xff', '$HOME', 'z.T']
DEPTHS = [(), ('-0',), ('-1',), ('-r',), ('--recursive',)]
KINDS = [(), ('-f',), ('-d',), ('-s',), ('-f', '-d'), ('-f', '-s'), ('--dir', '--symlink'), ('-fds',)[:0] + ('--file', '-d', '-s')]
ARGS = [(), ('a',), ('.',), ('a/',), ('./a/.', 'b.t'), ('a', 'a'), ('*',), ('a', '*'), ('*.t',), ('?',), ('[!.]*',), ('*/*',), ('a/*', 'b.t/*', 'none'), ('../R',), ('{R}/a',), ('{R}', 'a'), ('~/R/*',), ('~/../h/R/a',), ('../R/a', 'a'), ('none',), ('.c',), ('FILES',), ("(Path('a'))", "('*.t')")]


def trees(n, names=NAMES):
    """All trees with up to n nodes: dict name -> 'f' | ('l', target) | dict"""
    def entries(k, i):
        # k nodes, of names[i:]
        if i == len(names):
            if k == 0:
                yield {}
            return
        yield from entries(k, i + 1)
        if k == 0:
            return
        for node in ['f'] + [('l', t) for t in LINKS]:
            for rest in entries(k - 1, i + 1):
                yield {names[i]: node, **rest}
        for sub in range(k):
            for d in entries(sub, 0):
                for rest in entries(k - 1 - sub, i + 1):
                    yield {names[i]: d, **rest}
    for k in range(n + 1):
        yield from entries(k, 0)


def build(path, tree):
    os.mkdir(path)
    for name, node in tree.items():
        p = path + '/' + name if isinstance(name, str) else os.fsdecode(os.fsencode(path) + b'/' + name)
        if node == 'f':
            with open(p, 'w') as f:
                f.write('x' * (len(p) % 7))
        elif isinstance(node, dict):
            if node.get('') is not None:
                build(p, {k: v for k, v in node.items() if k})
                os.chmod(p, node[''])
            else:
                build(p, node)
        else:
            os.symlink(node[1], p)


def destroy(path):
    for d, dirs, files in os.walk(path):
        for x in dirs:
            if not os.path.islink(os.path.join(d, x)):
                os.chmod(os.path.join(d, x), 0o700)
    shutil.rmtree(path)


class Reference:

    def __init__(self, cwd, home):
        self.cwd, self.home = cwd, home

    def children(self, d):
        # Order of paths is order of names
        return sorted(os.listdir(d))

    def match(self, arg):
        arg = arg.replace('{R}', self.cwd)
        if arg == '~' or arg.startswith('~/'):
            arg = self.home + arg[1:]
        path = os.path.normpath(os.path.join(self.cwd, arg))
        found = ['/']
        for part in path.split('/')[1:]:
            if any(c in part for c in '*?['):
                found = [os.path.join(d, x) for d in found if os.path.isdir(d) for x in self.listdir(d) if fnmatch.fnmatchcase(x, part)]
            else:
                found = [os.path.join(d, part) for d in found if os.path.lexists(os.path.join(d, part))]
        return found

    def listdir(self, d):
        try:
            return os.listdir(d)
        except OSError:
            return []

    def roots(self, args):
        out = []
        for a in args:
            out += self.match(a)
        return sorted(set(out), key=lambda p: p.split('/')) if args else [self.cwd]

    def ls(self, args, depth, kinds):
        """-> list of paths, and ('error', path), or None if the command fails"""
        return self.listing(self.roots(args), args, depth, kinds)

    def listing(self, roots, args, depth, kinds):
        if args and not roots:
            return None
        out, seen, listed = [], set(), set()
        types = {x[-1] if x[:2] != '--' else x[2] for x in kinds} or set('fds')

        def visit(p, level):
            try:
                mode = os.lstat(p).st_mode
            except PermissionError:
                out.append(('error', p))
                return
            kind = 's' if stat.S_ISLNK(mode) else 'd' if stat.S_ISDIR(mode) else 'f' if stat.S_ISREG(mode) else '?'
            if kind in types and p not in seen:
                seen.add(p)
                out.append(p)
            try:
                st = os.stat(p)
            except PermissionError:
                out.append(('error', p))
                return
            except OSError:
                return
            if not stat.S_ISDIR(st.st_mode):
                return
            if depth == 'r' or depth == '1' and level == 0:
                key = st.st_dev, st.st_ino
                if kind == 's' and key in listed:
                    return
                listed.add(key)
                try:
                    names = self.children(p)
                except PermissionError:
                    out.append(('error', p))
                    return
                for x in names:
                    visit(os.path.join(p, x), level + 1)
        for r in roots:
            visit(r, 0)
        return out


def depth_of(flags):
    return {'-0': '0', '-r': 'r', '--recursive': 'r'}.get(flags[0] if flags else '', '1')


PROBE = ' | (f: (str(f.path), f.size, f.mode, f.mtime, f.inode))'


class Rig:

    def __init__(self, api):
        self.api = api
        self.home = os.path.realpath(rt.fresh_home(os.path.join(rt.scratch_home(), 'h')))
        os.environ['HOME'] = self.home
        self.R = self.home + '/R'
        if api:
            self.m = rt.init_api()
        else:
            self.cli = rt.CLI()
            for c in ('import pathlib Path', 'import marcel.object.file File'):
                assert not any(self.cli.run(c))
        import marcel.object.error
        import marcel.object.file
        self.Error = marcel.object.error.Error
        self.File = marcel.object.file.File
        self.ref = Reference(self.R, self.home)

    def enter(self, tree):
        self.leave()
        build(self.R, tree)
        if self.api:
            self.m.run(self.m.cd(self.R))
        else:
            o = self.cli.run('cd ~/R')
            assert o == ('', '', None), o

    def leave(self):
        os.chdir(self.home)
        if self.api:
            self.m.run(self.m.cd())
        else:
            self.cli.run('cd')
        if os.path.exists(self.R):
            destroy(self.R)

    # -> list of paths and ('error', path or None), message
    def by_command(self, flags, args, meta):
        text = ' '.join(['ls', *flags, *(a.replace('{R}', self.R) for a in args)])
        o, e, x = self.cli.run(text + (PROBE if meta else ' | (f: (str(f.path),))') + ' | (*x: ascii(x))')
        if x:
            return f'{text}: ends the session: {x}', None
        return [self.item(line, meta) for line in o.splitlines()], e

    def item(self, line, meta):
        if line.startswith('Error'):
            return 'error', line
        t = eval(line)
        if meta:
            st = os.lstat(t[0])
            assert t[1:] == (st.st_size, st.st_mode, st[8], st.st_ino), (t, st)
        return t[0]

    def by_api(self, flags, args):
        kw = {}
        for f in flags:
            if f in ('-0', '-1'):
                kw['depth'] = int(f[1])
            else:
                kw[{'-r': 'recursive', '-f': 'file', '-d': 'dir', '-s': 'symlink'}.get(f, f[2:])] = True
        args = [eval(a, {'Path': __import__('pathlib').Path}) if a.startswith('(') else a.replace('{R}', self.R) for a in args]
        with rt.captured() as (o, e):
            out = self.m.gather(self.m.ls(*args, **kw))
        return [('error', str(x)) if isinstance(x, self.Error) else str(x.path) for x in out], e.getvalue()


def compare(what, expected, out, err):
    if isinstance(out, str):
        return out
    if expected is None:
        return None if not out and err else f'{what}: output {out}, message {err!r}, expected a message only'
    if err:
        return f'{what}: message {err!r}'
    ok = len(out) == len(expected)
    if ok:
        for x, y in zip(out, expected):
            if isinstance(y, tuple):
                ok = ok and isinstance(x, tuple) and repr(y[1])[1:-1].split('/')[-1] in x[1]
            else:
                ok = ok and x == y
    return None if ok else f'{what}: {out}, expected {expected}'


def execute(rig, tree, cases):
    rig.enter(tree)
    try:
        n = []
        for flags, args in cases:
            depth = depth_of([f for f in flags if f in ('-0', '-1', '-r', '--recursive')])
            kinds = [f for f in flags if f not in ('-0', '-1', '-r', '--recursive')]
            if args == ('FILES',):
                if rig.api:
                    continue
                # Files, as written by ls, as arguments
                out = rig.cli.run('ls -0 * | args (|f: ls ' + ' '.join(flags) + ' (f)|) | (f: ascii(str(f.path)))')
                expected = []
                for p in rig.ref.roots(['*']) if os.listdir(rig.R) else []:
                    expected += rig.ref.listing([p], [p], depth, kinds)
                    expected += [x for x in rig.ref.listing([p], [p], '0', []) if isinstance(x, tuple)]
                if out[2] or not os.listdir(rig.R) and (out[0] or not out[1]):
                    return f'ls of files: {out}'
                if os.listdir(rig.R):
                    m = compare('ls of files', expected, [('error', x) if x.startswith('Error') else eval(x) for x in out[0].splitlines()], out[1])
                    if m:
                        return m
                continue
            expected = rig.ref.ls([eval(a, {'Path': lambda x: x}) if a.startswith('(') else a for a in args], depth, kinds)
            out, err = rig.by_api(flags, args) if rig.api else rig.by_command(flags, args, not kinds)
            m = compare(f'{"API" if rig.api else "command"} ls {" ".join(flags + args)}', expected, out, err)
            if m:
                return m
            if not rig.api and not kinds and expected is not None:
                # As printed: relative to something
                o, e, x = rig.cli.run(' '.join(('ls',) + flags + args).replace('{R}', rig.R))
                if x or e:
                    return f'ls {" ".join(flags + args)}: {e} {x}'
                paths = [p for p in expected if not isinstance(p, tuple)]
                lines = [x for x in o.split('\n') if x and not x.startswith('Error')]
                if not any('\n' in p for p in paths):
                    if len(lines) != len(paths):
                        return f'ls {" ".join(flags + args)}: printed {lines}'
                    shown = [x.split('  ->  ')[0] for x in lines]
                    bases = None
                    for p, s in zip(paths, shown):
                        possible = {p[:len(p) - len(t)].rstrip('/') for t in [p[i + 1:] for i, c in enumerate(p) if c == '/'] if s.endswith('  ' + t)} | ({p} if s.endswith('  .') else set()) | ({'/'} if s.endswith('  ' + p) else set())
                        bases = possible if bases is None else bases & possible
                    if bases is not None and not bases:
                        return f'ls {" ".join(flags + args)}: printed {lines} for {paths}'
            n.append(expected)
        n = repr(n).replace(rig.home, '')
        return n, n
    finally:
        rig.leave()


# ---- removals
class Interference:
    """Before the n'th file system call, something happens."""
    CALLS = ['stat', 'lstat', 'scandir', 'listdir', 'readlink']

    def __init__(self, n, action):
        self.n, self.action = n, action
        self.count = 0

    def __enter__(self):
        self.saved = {c: getattr(os, c) for c in self.CALLS}
        for c in self.CALLS:
            setattr(os, c, self.wrap(self.saved[c]))
        return self

    def wrap(self, f):
        def g(*a, **k):
            if self.action is not None:
                if self.count == self.n:
                    action, self.action = self.action, None
                    for c, x in self.saved.items():
                        setattr(os, c, x)
                    action()
                self.count += 1
            else:
                self.count += 1
            return f(*a, **k)
        return g

    def __exit__(self, *_):
        for c, x in self.saved.items():
            setattr(os, c, x)


def remove(p):
    if os.path.isdir(p) and not os.path.islink(p):
        shutil.rmtree(p)
    else:
        os.unlink(p)


def removal(rig, tree, command, victim, n):
    """-> message or None, whether there was an n'th call"""
    rig.enter(tree)
    try:
        v = os.path.join(rig.R, victim)
        api = command[0] == 'api'
        text = ' '.join(command[1:])
        depth = depth_of(command[1:])
        args = [a for a in command[1:] if a[0] != '-']
        full = rig.ref.ls(args, depth, [])
        # Also reached through links
        beyond = {p for p in full
                  if any(os.path.join(os.path.realpath(os.path.dirname(q)), os.path.basename(q), '').startswith(v + '/') or
                         q != p and (os.path.realpath(q) + '/').startswith(v + '/')
                         for q in [p] + [p[:i] for i, c in enumerate(p) if c == '/' and i])}
        with Interference(n, lambda: remove(v)) as i:
            if api:
                with rt.captured() as (o, e):
                    out = rig.m.gather(rig.m.ls(*args, recursive=depth == 'r', depth=None if depth == 'r' else int(depth)))
                out = [str(x) if isinstance(x, rig.Error) else str(x.path) for x in out]
                exc, err = None, e.getvalue()
            else:
                out, err, exc = rig.cli.run('ls ' + text)
        if i.action is not None:
            return None, False
        if exc:
            return f'ls {text}: {victim} removed before call {n}: ends the session: {exc}', True
        if err and any(all(os.path.basename(p) not in x for p in (*beyond, victim)) for x in err.splitlines() if x) or 'Traceback' in err:
            return f'ls {text}: {victim} removed before call {n}: message {err}', True
        gone = lambda p: (p + '/').startswith(v + '/') or p in beyond
        lines = out if api else out.splitlines()
        for p in full:
            k = sum((x == p) if api else (not x.startswith('Error') and (x.split('  ->  ')[0] + '/').endswith(p[len(os.path.commonpath([rig.R, p])):] + '/' if p != rig.R else '  ./')) for x in lines)
            if api and (k > 1 or k == 0 and not gone(p) and not all(gone(x) for x in args)):
                return f'ls {text}: {victim} removed before call {n}: {p} {k} times in {lines}', True
        if not api:
            keep = [p for p in full if not gone(p)]
            shown = [x for x in lines if not x.startswith('Error')]
            if args != [victim] and not len(keep) <= len(shown) <= len(full):
                return f'ls {text}: {victim} removed before call {n}: {lines}, expected {len(keep)} to {len(full)}', True
        return None, True
    finally:
        rig.leave()


REMOVAL_TREES = [
    {'a': 'f', 'b.t': 'f', '.c': 'f'},
    {'a': {'a': 'f', 'b.t': 'f'}, 'b.t': 'f'},
    {'a': {'a': {'a': 'f'}}, 'b.t': {'a': 'f'}},
    {'a': {'a': 'f'}, 'b.t': ('l', 'a'), '.c': ('l', 'none')},
    {'.c': ('l', 'a'), 'a': {'a': 'f', 'b.t': ('l', '..')}},
]
REMOVAL_COMMANDS = [('cli', '-r'), ('api', '-r'), ('cli',), ('api', '*'), ('cli', '-r', '*'), ('cli', '-0', '*'), ('cli', 'a'), ('api', '-r', 'a')]


def nodes(tree, prefix=''):
    for k, v in tree.items():
        yield prefix + k
        if isinstance(v, dict):
            yield from nodes(v, prefix + k + '/')


def size(tree):
    return sum(1 for _ in nodes(tree))


def removals(rec, rig, tree):
    for command in REMOVAL_COMMANDS:
        if (command[0] == 'api') != rig.api:
            continue
        for victim in nodes(tree):
            n = 0
            more = True
            while more:
                case = ('removal', tree, command, victim, n)
                rec.state((repr(tree), command, victim, n))
                rec.transition()

                def body():
                    nonlocal more
                    m, more = removal(rig, tree, command, victim, n)
                    return m
                more = False
                rec.check(case, body)
                n += 1


LOCKED = [
    {'a': {'': 0o300, 'a': 'f'}, 'b.t': 'f'},
    {'a': {'': 0o600, 'a': 'f', 'b.t': {}}, 'b.t': 'f'},
    {'a': {'': 0, 'a': 'f'}, '.c': ('l', 'a/a'), 'b.t': ('l', 'a')},
    {'a': {'a': {'': 0, 'a': 'f'}, 'b.t': 'f'}, 'b.t': {'': 0o500, 'a': ('l', '../a/a/a')}},
]
QUICK_FLAGS = [(), ('-0',), ('-r',), ('-f',), ('-r', '-d'), ('-r', '-s'), ('-r', '-f', '-s'), ('-1', '-f', '-d'), ('-0', '--dir', '--symlink'), ('--recursive', '--file', '-d', '-s')]
ODD_ARGS = [(), ('*',), ('x*',), ('[!.]*',), ('FILES',), ('??',), ('~/R/*',), ('.',)]


def cases(tier, args=ARGS):
    flags = QUICK_FLAGS if tier == 'quick' else [d + k for d in DEPTHS for k in KINDS]
    return list(itertools.product(flags, args))


def shards(tier):
    n = 48 if tier == 'quick' else 256
    return [x for api in (False, True) for x in [('t', api, i, n) for i in range(n)] + [('o', api)] + [('r', api, i, 4) for i in range(4)]]


def odd_trees():
    yield {x: 'f' for x in ODD}
    for x in ODD:
        yield {x: {'a': 'f'}, 'y': 'f'}
    yield from LOCKED


def explore(rec, shard, tier):
    rt.unprivileged()
    api = shard[1]
    rig = Rig(api)
    if shard[0] == 't':
        cs = all_cases = cases(tier)
        for j, t in enumerate(trees(3 if tier == 'quick' else 4)):
            if j % shard[3] == shard[2]:
                rec.state(repr(t))
                rec.transition(len(cs))
                if size(t) > 2 and tier == 'quick':
                    # A part of them
                    cs = all_cases[j // 48 % 5::5]
                rec.check(('tree', api, t, cs), lambda: execute(rig, t, cs))
    elif shard[0] == 'o':
        for t in odd_trees():
            cs = cases(tier, ODD_ARGS if t not in LOCKED else ARGS)
            rec.state(repr(t))
            rec.transition(len(cs))
            rec.check(('odd', api, [repr(t)], tier), lambda: execute(rig, t, cs))
    else:
        ts = REMOVAL_TREES if tier == 'quick' else REMOVAL_TREES + [t for t in trees(4) if "('l'" not in repr(t)]
        for j, t in enumerate(ts):
            if j % shard[3] == shard[2]:
                removals(rec, rig, t)


def fix(t):
    return {k: fix(v) if isinstance(v, dict) else tuple(v) if isinstance(v, list) else v for k, v in t.items()}


def replay(rec, case):
    rt.unprivileged()
    if case[0] == 'removal':
        rig = Rig(case[2][0] == 'api')
        _, tree, command, victim, n = case
        rec.check(case, lambda: removal(rig, fix(tree), tuple(command), victim, n)[0])
        return
    rig = Rig(case[1])
    if case[0] == 'odd':
        t = eval(case[2][0])
        rec.check(case, lambda: execute(rig, t, cases(case[3], ODD_ARGS if t not in LOCKED else ARGS)))
    else:
        rec.check(case, lambda: execute(rig, fix(case[2]), [(tuple(f), tuple(a)) for f, a in case[3]]))
