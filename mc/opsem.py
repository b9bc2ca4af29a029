"""Reference semantics of marcel's stream operators, written as plain list functions.

A stream is a list of tuples.  Each OpSpec carries the API constructor, the command-line text and the
reference function (stream -> stream).  'Kill' in the reference means the command is rejected.
"""
import ast
import collections
import contextlib
import functools
import io
import itertools

from mc import rt


class Kill(Exception):
    pass


ERR = ('<error>',)


class Spec:
    def __init__(self, name, cli, api, ref, bag=False, first=False, guard=None):
        self.name = name          # stable label
        self.cli = cli            # command text
        self.api = api            # lambda m -> OpList
        self.ref = ref            # list of tuples -> list of tuples
        self.bag = bag            # order of output is documented as unspecified
        self.first = first        # generates its own stream
        self.guard = guard        # items for which the meaning is documented

    def __repr__(self):
        return self.name


def un(t):
    return t[0] if len(t) == 1 else t


# ---- references
def head(n):
    def f(s):
        if n == 0:
            raise Kill()
        return s[:n] if n > 0 else s[-n:]
    return f


def tail(n):
    def f(s):
        if n == 0:
            raise Kill()
        if n > 0:
            return s[-n:] if s else []
        return s[:max(0, len(s) + n)]
    return f


def sort(key=None):
    def f(s):
        try:
            return sorted(s) if key is None else sorted(s, key=lambda t: key(*t))
        except TypeError:
            raise Kill()
    return f


def unique(s):
    seen, out = set(), []
    for t in s:
        if t not in seen:
            seen.add(t)
            out.append(t)
    return out


def unique_c(s):
    out = []
    for t in s:
        if not out or out[-1] != t:
            out.append(t)
    return out


def w_overlap(n):
    def f(s):
        v = [un(t) for t in s]
        return [tuple((v + [None] * n)[i:i + n]) for i in range(len(v))]
    return f


def w_disjoint(n):
    def f(s):
        v = [un(t) for t in s]
        return [tuple((v[i:i + n] + [None] * n)[:n]) for i in range(0, len(v), n)]
    return f


def w_pred(p):
    def f(s):
        out = []
        for t in s:
            if not out or p(*t):
                out.append([])
            out[-1].append(un(t))
        return [tuple(g) for g in out]
    return f


def wrap(v):
    return tuple(v) if type(v) in (tuple, list) else (v,)


def fmap(fn):
    def f(s):
        out = []
        for t in s:
            try:
                out.append(wrap(fn(*t)))
            except Exception:
                out.append(ERR)
        return out
    return f


def select(fn):
    def f(s):
        out = []
        for t in s:
            try:
                if fn(*t):
                    out.append(t)
            except Exception:
                out.append(ERR)
        return out
    return f


def expansion(t):
    """what expand makes of one tuple component list t"""
    if len(t) != 1:
        return list(t)
    (x,) = t
    if type(x) in (tuple, list):
        return list(x)
    if isinstance(x, set):
        return list(x)
    if isinstance(x, dict):
        return list(x.items())
    return [x]


def expand(pos=None):
    def f(s):
        out = []
        for t in s:
            if pos is None:
                out += [wrap(x) for x in expansion(t)]
            elif pos >= len(t):
                out.append(t)
            else:
                out += [t[:pos] + (x,) + t[pos + 1:] for x in expansion((t[pos],))]
        return out
    return f


def squish(fn):
    def f(s):
        out = []
        for t in s:
            try:
                acc = None
                for x in t:
                    acc = x if acc is None else fn(acc, x)
                out.append(wrap(acc))
            except Exception:
                out.append(ERR)
        return out
    return f


def cast(*types):
    def f(s):
        out = []
        for t in s:
            try:
                out.append(tuple(x if (x is None or i >= len(types)) else types[i](x) for i, x in enumerate(t)))
            except Exception:
                out.append(ERR)
        return out
    return f


GROUP = object()


def red(*fns, incremental=False):
    """fns: GROUP, ('count',), or a binary function."""
    def step(fn, acc, x):
        if fn == 'count':
            return (acc or 0) + 1
        if fn == 'concat':
            return [x] if acc is None else acc + [x]
        if type(fn) is tuple:
            return fn[0](acc, x)        # as called, i.e. beginning with None
        return x if acc is None else fn(acc, x)

    def f(s):
        n = len(fns)
        grouping = [i for i, fn in enumerate(fns) if fn is GROUP]
        data = [i for i in range(n) if i not in grouping]
        accs = collections.OrderedDict()
        if not grouping:
            accs[()] = [0 if fn == 'count' else None for fn in fns]
        out = []
        for t in s:
            if len(t) < n:
                out.append(ERR)
                continue
            g = tuple(t[i] for i in grouping)
            acc = accs.get(g) or [None] * n
            try:
                acc = [t[i] if i in grouping else step(fns[i], acc[i], t[i]) for i in range(n)]
            except Exception:
                out.append(ERR)         # contributes nothing
                continue
            accs[g] = acc
            if incremental:
                out.append(t + tuple(acc[i] for i in (data if grouping else range(n))))
        if not incremental:
            out += [tuple(a) for a in accs.values()]
        return out
    return f


def union(*others):
    return lambda s: s + [t for o in others for t in o]


def difference(other):
    def f(s):
        c = collections.Counter(other)
        out = []
        for t in s:
            if c[t] > 0:
                c[t] -= 1
            else:
                out.append(t)
        return out
    return f


def intersect(*others):
    def f(s):
        c = collections.Counter(others[0])
        for o in others[1:]:
            c &= collections.Counter(o)
        out = []
        for t in s:
            if c[t] > 0:
                c[t] -= 1
                out.append(t)
        return out
    return f


def filt(other, keep=True, compare=None):
    def f(s):
        right = set(other)
        return [t for t in s if ((wrap(compare(*t)) if compare else t) in right) == keep]
    return f


def join(other, keep=False):
    def f(s):
        out = []
        for t in s:
            ms = [o for o in other if o[0] == t[0]]
            if ms:
                out += [t + m[1:] for m in ms]
            elif keep:
                out.append(t)
        return out
    return f


def args(n, fn):
    """fn(*n values) -> stream"""
    def f(s):
        v = [un(t) for t in s]
        out = []
        for i in range(0, len(v), n):
            chunk = v[i:i + n]
            out += fn(*(chunk + [None] * (n - len(chunk))))
        return out
    return f


def args_all(fn):
    def f(s):
        return fn([un(t) for t in s]) if s else []
    return f


# ---- observation
def norm_item(x, Error):
    if isinstance(x, Error):
        return ERR
    if type(x) in (tuple, list):
        return tuple(norm_val(v, Error) for v in x)
    return (norm_val(x, Error),)


def norm_val(v, Error):
    if isinstance(v, Error):
        return '<error>'
    if type(v) in (tuple, list):
        return type(v)(norm_val(z, Error) for z in v)
    return v


class ApiRunner:
    def __init__(self):
        self.m = rt.init_api()
        import marcel.object.error
        self.Error = marcel.object.error.Error

    def source(self, items):
        m = self.m
        return m.map(lambda: [list(items)]) | m.expand()

    def run(self, pipeline):
        """-> (list of tuples with errors as ERR, stderr, None) ; Kill shows up on stderr."""
        out, err = io.StringIO(), io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            res = self.m.gather(pipeline, unwrap_singleton=False)
        return [norm_item(x, self.Error) for x in res], err.getvalue()


class CliRunner:
    """Runs command text and reads the stream back from printed reprs."""

    def __init__(self, interactive=False):
        self.cli = rt.CLI(interactive=interactive)

    def stream(self, text):
        o, e, x = self.cli.run(text + ' | map (*x: repr(x))')
        return self.parse(o), e, x

    @staticmethod
    def parse(o):
        res = []
        for line in o.splitlines():
            if line.startswith('Error'):
                res.append(ERR)
            else:
                try:
                    v = ast.literal_eval(line)
                except Exception:
                    v = ('<text>', line)
                res.append(tuple(v) if type(v) in (tuple, list) else (v,))
        return res


def cli_source(items):
    return f"map (: {[list(items)]!r}) | expand"


# Equal values of different types (and values which are false): a comparison by text or by truth is not one by value.
VALUES = [(None,), ('',), (0,), (False,), (1,), (1.0,), ('1',), (2, None)]


def plain(t):
    """Of equal values, which one is written is not specified (for operators whose output is a bag)."""
    return tuple(int(x) if type(x) in (bool, float) and x == int(x) else x for x in t) if type(t) is tuple else t


def exact(t):
    """Distinguishes True, 1 and 1.0."""
    return t if type(t) is not tuple or all(type(x) in (int, str) for x in t) else (t, tuple(type(x).__name__ for x in t))


def bag(s):
    return sorted(map(repr, s))


def seqs(values, maxlen):
    for n in range(maxlen + 1):
        yield from itertools.product(values, repeat=n)


def case(*branches, default=None):
    """branches: (predicate, kind, fn); kind 'each': fn applied to one item at a time, 'end': to the whole sub-stream at the end."""
    def f(s):
        bs = list(branches) + ([(lambda *x: True,) + tuple(default)] if default else [])
        held = [[] for _ in bs]
        out = []
        for t in s:
            for i, (p, kind, fn) in enumerate(bs):
                try:
                    hit = p(*t)
                except Exception:
                    out.append(ERR)
                    break
                if hit:
                    if kind == 'each':
                        out += fn([t])
                    else:
                        held[i].append(t)
                    break
        for (p, kind, fn), h in zip(bs, held):
            if kind == 'end':
                out += fn(h)
        return out
    return f


def gen(count, start=0, pad=None):
    def f(s):
        if pad is not None and (start < 0 or len(str(start + count - 1)) > pad):
            raise Kill()
        return [((str(x).zfill(pad) if pad else x),) for x in range(start, start + count)]
    return f
